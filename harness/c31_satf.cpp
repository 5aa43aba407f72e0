// Driver for C31: relative permeabilities and capillary pressures from saturation tables and by name.
#include "common.hpp"
#include <opm/core/grid.h>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/props/satfunc/SaturationPropsFromDeck.hpp>
#include <opm/core/props/satfunc/SaturationPropsBasic.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string sat(int k) { return num(k/128.0); }
static int rnd(double x, double Q) { double y = std::floor(x*Q + 0.5); return y != y || y - y != 0 ? BAD : y > 1e9 ? 1000000000 : y < -1e9 ? -1000000000 : (int) y; }
static int clampi(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
// What all the classes offer, whichever way they were made.
struct Fluid { std::function<int()> np; std::function<void(int, const double*, const int*, double*, double*)> kr, pc; std::function<void(int, const int*, double*, double*)> range; };
template <class T> static Fluid wrap(std::shared_ptr<T> p)
{
    Fluid f; f.np = [p] { return p->numPhases(); }; f.kr = [p](int n, const double* s, const int* c, double* a, double* b) { p->relperm(n, s, c, a, b); };
    f.pc = [p](int n, const double* s, const int* c, double* a, double* b) { p->capPress(n, s, c, a, b); }; f.range = [p](int n, const int* c, double* a, double* b) { p->satRange(n, c, a, b); }; return f;
}
typedef std::vector<VI> Table;
static const char* names[8] = {"swl", "swcr", "swu", "sowcr", "krw", "kro", "krwr", "krorw"};
static const char* keys[8] = {"SWL", "SWCR", "SWU", "SOWCR", "KRW", "KRO", "KRWR", "KRORW"};
struct Vd { VI z; VI col[8]; };
struct Deck { bool used[3]; std::string how, model; int S, ncart; std::vector<Table> swof, sgof; VI satnum, cart, z; bool eps, three, map, names; std::string dir, rev; VI key[8]; std::vector<Vd> vd; };
static std::string rows(const std::vector<Table>& t) { std::string s = "["; for (size_t a = 0; a < t.size(); ++a) { s += a ? ",[" : "["; for (size_t b = 0; b < t[a].size(); ++b) s += (b ? "," : "") + j(t[a][b]); s += "]"; } return s + "]"; }
static Table swof(Rng& r, bool loose, bool bands)
{
    Table t; int s = bands ? 4*r.in(0, 5) : r.chance(1, 3) ? 0 : 4*r.in(1, 8), kw = !loose || r.chance(2, 3) ? 0 : r.in(1, 6), ko = r.in(33, 64), pc = r.in(30, 60); int rest = loose && r.chance(1, 3) ? r.in(1, 6) : 0;
    if (bands) { // residual saturations apart
        int cr = 4*r.in(6, 11), so = 4*r.in(22, 28), mx = 4*r.in(29, 32), kor = r.in(8, ko < 40 ? ko : 40), kwr = r.in(8, 30), kwm = r.chance(1, 6) ? kwr : r.in(33, 64); t.push_back(VI{s, 0, ko, pc}); if (cr > s) t.push_back(VI{cr, 0, r.chance(1, 6) ? ko : kor, pc -= r.in(0, 4)});
        int m = 4*r.in(cr/4 + 2, so/4 - 2); t.push_back(VI{m, r.in(1, kwr), r.in(1, kor < t.back()[2] ? kor : t.back()[2]), pc -= r.in(0, 4)}); t.push_back(VI{so, kwr, 0, pc -= r.in(0, 3)}); if (mx > so && r.chance(4, 5)) t.push_back(VI{mx, kwm, 0, pc - r.in(0, 3)}); return t; }
    int n = r.in(2, 6), mx = r.chance(2, 3) ? 128 : 128 - 4*r.in(1, 6); bool line = r.chance(1, 8); VI x; x.push_back(s); for (int k = 1; k + 1 < n; ++k) { int y = s + 4*r.in(2, (mx - s)/4 - 2); bool ok = true; for (int q : x) ok = ok && std::abs(q - y) >= 8; if (ok) x.push_back(y); } x.push_back(mx); std::sort(x.begin(), x.end());
    int L = mx - s;
    for (size_t k = 0; k < x.size(); ++k) { bool last = k + 1 == x.size(); t.push_back(VI{x[k], kw, last ? rest : ko, pc}); if (line) { t.back()[1] = (x[k] - s)/4; t.back()[2] = (L - (x[k] - s))/4 + 4; t.back()[3] = (L - x[k])/4; if (last && !loose) { } }
        kw = clampi(kw + (r.chance(1, 4) ? 0 : r.in(1, 30)), 0, 64); ko = clampi(ko - (r.chance(1, 4) ? 0 : r.in(1, 30)), rest, 64); pc -= r.chance(1, 3) ? 0 : r.in(1, 6); }
    if (line) { if (t[0][2] > 64) for (auto& q : t) q[2] = (L - (q[0] - s))/4; else for (auto& q : t) q[2] -= 4; if (t[0][2] < 1) t[0][2] = 1; }
    return t;
}
static Table sgof(Rng& r, int swco, int kro)
{
    Table t; int mx = 128 - swco, n = r.in(2, 5); VI x; x.push_back(r.chance(1, 10) ? 4 : 0); for (int k = 1; k + 1 < n; ++k) { int y = 4*r.in(3, mx/4 - 2); bool ok = true; for (int q : x) ok = ok && std::abs(q - y) >= 8; if (ok) x.push_back(y); } x.push_back(mx); std::sort(x.begin(), x.end());
    int kg = r.chance(5, 6) ? 0 : r.in(1, 5), ko = r.chance(3, 4) ? kro : r.in(20, 64), pc = r.in(0, 3);
    for (size_t k = 0; k < x.size(); ++k) { t.push_back(VI{x[k], kg, k + 1 == x.size() && r.chance(4, 5) ? 0 : ko, pc}); kg = clampi(kg + (r.chance(1, 4) ? 0 : r.in(1, 30)), 0, 64); ko = clampi(ko - (r.chance(1, 4) ? 0 : r.in(1, 30)), 0, 64); pc += r.chance(1, 3) ? 0 : r.in(1, 6); }
    return t;
}
static void endpoints(Rng& r, Deck& d)
{
    auto val = [&](int k) { static const int lo[8] = {0, 6, 29, 3, 9, 9, 2, 2}, hi[8] = {6, 11, 32, 10, 16, 16, 8, 8}; int v = 4*r.in(lo[k], hi[k]); if (r.chance(1, 2) && k != 2 && k != 0) v += r.in(-1, 1); return v; };
    for (int k = 0; k < 8; ++k) if (r.chance(1, 3)) for (int c = 0; c < d.ncart; ++c) d.key[k].push_back(val(k));
    if (r.chance(1, 3)) { bool any[8]; for (int k = 0; k < 8; ++k) any[k] = r.chance(1, 2);
        for (size_t t = 0; t < d.swof.size(); ++t) { Vd v; int n = r.in(2, 4), z = 4*r.in(1, 8); for (int a = 0; a < n; ++a) { v.z.push_back(z); z += 4*(r.chance(1, 3) ? 2 : 1); } for (int k = 0; k < 8; ++k) if (any[k]) for (int a = 0; a < n; ++a) { int q = val(k); v.col[k].push_back(8*(q/8) + (k == 1 || k == 4 || k == 5 ? 8 : 0)); } d.vd.push_back(v); } }
}
static std::string column(const Vd& v, int k, size_t a, double q) { return v.col[k].empty() ? " 1*" : " " + num(v.col[k][a]/q); }
static std::string text(const Deck& d, Rng& r)
{
    std::string o = "RUNSPEC\nMETRIC\n\nDIMENS\n" + std::to_string(d.ncart) + " 1 1 /\n\n", n = std::to_string(d.ncart); static const char* nm[3] = {"WATER", "OIL", "GAS"}; for (int i = 0; i < 3; ++i) if (d.used[i]) o += std::string(nm[i]) + "\n\n";
    if (d.eps) { o += "ENDSCALE\n"; int k = r.in(0, 1); if (k == 0 && d.dir == "NODIR" && d.rev == "REVERS") o += "/\n\n"; else o += d.dir + " " + d.rev + (r.chance(1, 2) ? " 1 20 /\n\n" : " /\n\n"); if (d.three) o += "SCALECRS\nYES /\n\n"; else if (r.chance(1, 2)) o += "SCALECRS\nNO /\n\n"; }
    o += "GRID\n\nDXV\n" + n + "*1 /\n\nDYV\n1 /\n\nDZV\n1 /\n\nPORO\n" + n + "*0.25 /\n\nPERMX\n" + n + "*100 /\n\nPROPS\n\n"; std::vector<std::string> s;
    s.push_back("DENSITY\n800 1000 1 /\n\n"); s.push_back("PVTW\n100 1 0 1 0 /\n\n"); s.push_back("PVCDO\n100 1 0 1 0 /\n\n"); if (d.used[2]) s.push_back("PVDG\n1 1 0.1\n500 0.5 0.2 /\n\n");
    if (!d.swof.empty()) { std::string t = "SWOF\n"; for (auto& w : d.swof) { for (auto& q : w) t += sat(q[0]) + " " + num(q[1]/64.0) + " " + num(q[2]/64.0) + " " + std::to_string(q[3]) + "\n"; t += "/\n"; } s.push_back(t + "\n"); }
    if (!d.sgof.empty()) { std::string t = "SGOF\n"; for (auto& w : d.sgof) { for (auto& q : w) t += sat(q[0]) + " " + num(q[1]/64.0) + " " + num(q[2]/64.0) + " " + std::to_string(q[3]) + "\n"; t += "/\n"; } s.push_back(t + "\n"); }
    if (d.eps) { for (int k = 0; k < 8; ++k) if (!d.key[k].empty()) { std::string t = std::string(keys[k]) + "\n"; for (int v : d.key[k]) t += num(v/(k < 4 ? 128.0 : 64.0)) + " "; s.push_back(t + "/\n\n"); }
        bool sv = false, kv = false; if (!d.vd.empty()) for (int k = 0; k < 8; ++k) if (!d.vd[0].col[k].empty()) (k < 4 ? sv : kv) = true;
        if (sv) { std::string t = "ENPTVD\n"; for (auto& v : d.vd) for (size_t a = 0; a < v.z.size(); ++a) t += std::to_string(v.z[a]) + column(v, 0, a, 128) + column(v, 1, a, 128) + column(v, 2, a, 128) + " 1* 1* 1*" + column(v, 3, a, 128) + " 1*" + (a + 1 == v.z.size() ? " /\n" : "\n"); s.push_back(t + "/\n\n"); }
        if (kv) { std::string t = "ENKRVD\n"; for (auto& v : d.vd) for (size_t a = 0; a < v.z.size(); ++a) t += std::to_string(v.z[a]) + column(v, 4, a, 64) + " 1*" + column(v, 5, a, 64) + column(v, 6, a, 64) + " 1* 1*" + column(v, 7, a, 64) + (a + 1 == v.z.size() ? " /\n" : "\n"); s.push_back(t + "/\n\n"); } }
    r.shuffle(s); for (auto& x : s) o += x;
    if (!d.satnum.empty()) { o += "REGIONS\n\nSATNUM\n"; for (int x : d.satnum) o += std::to_string(x) + " "; o += "/\n\n"; }
    return o;
}
template <class U, class N> static Fluid make(const EclipseGridParser& p, const UnstructuredGrid& g, int S)
{
    if (S > 1) { auto q = std::make_shared<SaturationPropsFromDeck<U>>(); q->init(p, g, S); return wrap(q); }
    auto q = std::make_shared<SaturationPropsFromDeck<N>>(); q->init(p, g, S); return wrap(q);
}
static Fluid create(const Deck& d, const EclipseGridParser& p, const UnstructuredGrid& g)
{
    if (d.how == "direct") return d.model == "simple" ? make<SatFuncSimpleUniform, SatFuncSimpleNonuniform>(p, g, d.S) : d.model == "stone2" ? make<SatFuncStone2Uniform, SatFuncStone2Nonuniform>(p, g, d.S) : make<SatFuncGwsegUniform, SatFuncGwsegNonuniform>(p, g, d.S);
    if (d.how == "incomp") return wrap(std::make_shared<IncompPropertiesFromDeck>(p, g));
    if (d.how == "plain") return wrap(std::make_shared<BlackoilPropertiesFromDeck>(p, g, false));
    parameter::ParameterGroup pg; pg.disableOutput(); if (!(d.S == 200 && d.ncart % 2)) pg.insertParameter("sat_tab_size", std::to_string(d.S)); if (d.model != "simple" || d.ncart % 2) pg.insertParameter("threephase_model", d.model);
    return wrap(std::make_shared<BlackoilPropertiesFromDeck>(p, g, pg, false));
}
static std::string epsj(const Deck& d)
{
    Ev k; for (int a = 0; a < 8; ++a) k.put(names[a], d.key[a]); std::string v = "["; for (size_t t = 0; t < d.vd.size(); ++t) { Ev e; e.put("z", d.vd[t].z); for (int a = 0; a < 8; ++a) e.put(names[a], d.vd[t].col[a]); v += (t ? "," : "") + e.str(); }
    return Ev().put("on", d.eps).put("dir", d.dir).put("rev", d.rev).put("three", d.three).raw("key", k.str()).raw("vd", v + "]").str();
}
static VI scaled(const VD& x, int a, int n, double Q) { VI v; for (int i = 0; i < n; ++i) v.push_back(rnd(x[a + i], Q)); return v; }
static void points(const Deck& d, const Fluid& f, Rng& r)
{
    int np = f.np(), n = r.in(1, 8), nd = np - 1, nc = (int) d.cart.size(); VI C(n); std::vector<VI> s(n); VD S(n*np); int pos[3], q = 0, other[2]; for (int i = 0; i < 3; ++i) pos[i] = d.used[i] ? q++ : -1; q = 0; for (int i = 0; i < 3; i += 2) if (d.used[i]) other[q++] = pos[i];
    for (int i = 0; i < n; ++i) { C[i] = r.in(0, nc - 1); int t = d.satnum.empty() ? 0 : d.satnum[d.cart[C[i]]] - 1; int sw = 0, sg = 0, lo = 0, mx = 128, g0 = 0;
        if (d.used[0]) { lo = d.swof[t][0][0]; mx = d.swof[t].back()[0]; if (d.eps) { lo = 0; mx = 128; } } if (d.used[2]) g0 = d.sgof[t][0][0];
        int k = r.in(0, 9); // sw + sg within [lo, mx]
        int both = k == 0 ? lo : k == 1 ? mx : r.in(lo, mx); if (k < 6 && k > 1 && both % 2 == 0 && both < mx) ++both;
        if (!d.used[0]) { sg = both < g0 ? g0 : both; } else if (!d.used[2]) sw = both; else { int gm = both - lo; if (gm < g0) { gm = g0; both = lo + g0; } sg = r.chance(1, 5) ? g0 : r.chance(1, 5) ? gm : r.in(g0, gm); sw = both - sg; }
        if (d.eps && r.chance(1, 4)) { int w = r.in(0, 3); if (!d.key[w].empty()) { sw = d.key[w][d.cart[C[i]]]; if (w == 3) sw = 128 - sw; } else { sw = r.pick(d.swof[t])[0]; } }
        s[i] = VI{sw, 128 - sw - sg, sg}; for (int ph = 0; ph < 3; ++ph) if (pos[ph] >= 0) S[np*i + pos[ph]] = s[i][ph]/128.0; }
    VD kr(n*np, 7e7), kr2(n*np, 7e7), D(n*np*np, 7e7), pc(n*np, 7e7), pc2(n*np, 7e7), Dp(n*np*np, 7e7); op("relperm"); f.kr(n, &S[0], &C[0], &kr[0], 0); if (!d.eps) f.kr(n, &S[0], &C[0], &kr2[0], &D[0]); op("capPress"); f.pc(n, &S[0], &C[0], &pc[0], 0); f.pc(n, &S[0], &C[0], &pc2[0], &Dp[0]);
    // differences along the directions in which one of the other phases grows at the cost of oil
    const double h = std::ldexp(1.0, -20); std::vector<VD> up(nd), dn(nd), pu(nd), pd(nd);
    if (!d.eps) for (int k = 0; k < nd; ++k) { up[k] = dn[k] = pu[k] = pd[k] = VD(n*np, 0); VD T = S, U = S; for (int i = 0; i < n; ++i) { T[np*i + other[k]] += h; T[np*i + pos[1]] -= h; U[np*i + other[k]] -= h; U[np*i + pos[1]] += h; } f.kr(n, &T[0], &C[0], &up[k][0], 0); f.kr(n, &U[0], &C[0], &dn[k][0], 0); f.pc(n, &T[0], &C[0], &pu[k][0], 0); f.pc(n, &U[0], &C[0], &pd[k][0], 0); }
    std::string o = "["; const double Q = 4096, P = 4096/1e5;
    for (int i = 0; i < n; ++i) { Ev e; e.put("c", C[i] + 1).put("s", s[i]).put("kr", scaled(kr, np*i, np, Q)).put("pc", scaled(pc, np*i, np, P));
        if (!d.eps) { VI fd, fw, bw, fdp, fwp, bwp; for (int k = 0; k < nd; ++k) for (int ph = 0; ph < np; ++ph) { int a = np*i + ph; fd.push_back(rnd((up[k][a] - dn[k][a])/(2*h), Q)); fw.push_back(rnd((up[k][a] - kr[a])/h, Q)); bw.push_back(rnd((kr[a] - dn[k][a])/h, Q)); fdp.push_back(rnd((pu[k][a] - pd[k][a])/(2*h), P)); fwp.push_back(rnd((pu[k][a] - pc[a])/h, P)); bwp.push_back(rnd((pc[a] - pd[k][a])/h, P)); }
            e.put("kr2", scaled(kr2, np*i, np, Q)).put("D", scaled(D, np*np*i, np*np, Q)).put("fd", fd).put("fw", fw).put("bw", bw).put("pc2", scaled(pc2, np*i, np, P)).put("Dp", scaled(Dp, np*np*i, np*np, P)).put("fdp", fdp).put("fwp", fwp).put("bwp", bwp); }
        o += (i ? "," : "") + e.str(); }
    Ev("points").put("n", n).raw("pts", o + "]").emit();
}
static void range(const Deck& d, const Fluid& f, Rng& r)
{
    int np = f.np(), n = r.in(1, 6); VI C(n); for (int& c : C) c = r.in(0, (int) d.cart.size() - 1); VD lo(n*np, 9), hi(n*np, 9); op("satRange"); f.range(n, &C[0], &lo[0], &hi[0]); std::string o = "[";
    for (int i = 0; i < n; ++i) { VI a, b; for (int k = 0; k < np; ++k) { a.push_back(qn(lo[np*i + k], 128)); b.push_back(qn(hi[np*i + k], 128)); } o += (i ? "," : "") + Ev().put("c", C[i] + 1).put("lo", a).put("hi", b).str(); }
    Ev("range").put("n", n).raw("pts", o + "]").emit();
}
static void fromDeck(Rng& r)
{
    Deck d; int k = r.in(0, 9); d.used[0] = k < 8; d.used[1] = true; d.used[2] = k >= 3; d.eps = r.chance(1, 3); d.three = d.eps && r.chance(1, 2); d.dir = "NODIR"; d.rev = "REVERS"; if (d.eps) { d.used[0] = true; d.used[2] = false; }
    d.model = d.eps ? "simple" : r.pick(std::vector<std::string>{"simple", "stone2", "gwseg"}); d.S = r.pick(VI{0, 1, 0, 0, 9, 17, 33, 200}); int h = r.in(0, 9); d.how = h < 5 ? "direct" : h < 8 ? "param" : h == 8 ? "plain" : "incomp"; if (d.how == "plain") { d.model = "simple"; d.S = 200; } if (d.how == "incomp") { d.used[0] = true; d.used[2] = false; d.model = "stone2"; d.S = 200; d.eps = d.eps && r.chance(1, 4); if (!d.eps) d.three = false; }
    d.ncart = r.in(1, 6); d.map = r.chance(1, 2); for (int c = 0; c < d.ncart; ++c) if (!d.map || r.chance(2, 3) || (d.cart.empty() && c + 1 == d.ncart)) d.cart.push_back(c); if (d.map && d.how != "incomp" && r.chance(1, 4)) r.shuffle(d.cart);
    for (size_t c = 0; c < d.cart.size(); ++c) d.z.push_back(r.in(4, 40));
    int nt = r.in(1, 3); if (nt > 1 || r.chance(1, 3)) for (int c = 0; c < d.ncart; ++c) d.satnum.push_back(r.in(1, nt));
    bool loose = d.model != "simple" && r.chance(1, 3);
    for (int t = 0; t < nt; ++t) { if (d.used[0]) d.swof.push_back(swof(r, loose, d.eps)); if (d.used[2]) d.sgof.push_back(sgof(r, d.used[0] ? d.swof[t][0][0] : 0, d.used[0] ? d.swof[t][0][2] : 64)); }
    if (d.eps) endpoints(r, d);
    if (r.chance(1, 8)) { int w = r.in(0, 9); // decks that cannot be used
        if (w == 0 && d.used[0]) { Table& t = d.swof[r.in(0, nt - 1)]; if (t[0][1] == 0) t[0][1] = r.in(0, t[1][1]); } else if (w == 1 && d.used[0]) { Table& t = d.swof[r.in(0, nt - 1)]; t.back()[2] = r.in(t.back()[2], t[t.size() - 2][2]); } else if (w == 2 && d.used[2]) { Table& t = d.sgof[r.in(0, nt - 1)]; t.back()[0] -= 4; }
        else if (w == 3 && nt > 1 && d.used[0]) d.swof.pop_back(); else if (w == 4 && nt > 1 && d.used[2]) d.sgof.pop_back(); else if (w == 5 && d.used[0] && !d.eps) d.swof.clear(); else if (w == 6 && d.used[2]) d.sgof.clear();
        else if (w == 7 && d.eps) { if (r.chance(1, 2)) d.dir = "DIRECT"; else d.rev = "IRREVERS"; } else if (w == 8) { if (d.how == "param") { if (d.eps && r.chance(1, 2)) d.model = r.chance(1, 2) ? "stone2" : "gwseg"; else d.model = r.chance(1, 2) ? "Simple" : "stone3"; } else if (d.eps && d.how == "direct") { d.used[2] = true; for (auto& t : d.swof) d.sgof.push_back(sgof(r, t[0][0], t[0][2])); } }
        else if (w == 9 && d.how == "direct") { d.used[r.in(0, 2)] = false; } }
    if (!d.used[0]) d.swof.clear(); if (!d.used[2]) d.sgof.clear();
    EclipseGridParser p; op("read deck"); std::istringstream is(text(d, r)); p.read(is); int nc = (int) d.cart.size(); VD cc; for (int c = 0; c < nc; ++c) { cc.push_back(d.cart[c] + 0.5); cc.push_back(0.5); cc.push_back(d.z[c]); }
    UnstructuredGrid g; memset(&g, 0, sizeof g); g.dimensions = 3; g.number_of_cells = nc; g.cartdims[0] = d.ncart; g.cartdims[1] = g.cartdims[2] = 1; bool iden = true; for (int c = 0; c < nc; ++c) iden = iden && d.cart[c] == c; g.global_cell = iden && r.chance(1, 2) ? 0 : &d.cart[0]; g.cell_centroids = &cc[0];
    Fluid f; bool ok = true; op("init " + d.how + " " + d.model); try { f = create(d, p, g); } catch (std::exception&) { ok = false; }
    Ev e("deck"); std::string u = "["; for (int i = 0; i < 3; ++i) u += std::string(i ? "," : "") + (d.used[i] ? "true" : "false"); e.put("run", ++run).raw("used", u + "]").put("how", d.how).put("model", d.model).put("S", d.S).raw("swof", rows(d.swof)).raw("sgof", rows(d.sgof)).put("sat", d.satnum).put("cart", d.cart).put("z", d.z).raw("eps", epsj(d)).put("accepted", ok).put("np", ok ? f.np() : 0); e.emit();
    if (!ok) return; int times = r.in(1, 4); for (int t = 0; t < times; ++t) { if (r.chance(1, 3)) range(d, f, r); points(d, f, r); }
}
static void basic(Rng& r)
{
    int np = r.in(0, 3); std::string func = r.pick(std::vector<std::string>{"Constant", "Linear", "Quadratic", "Linear", "Quadratic", "Cubic"}); if (np == 1 && r.chance(1, 2)) func = "Constant"; parameter::ParameterGroup pg; pg.disableOutput(); if (np != 2 || r.chance(1, 2)) pg.insertParameter("num_phases", std::to_string(np)); if (func != "Linear" || r.chance(1, 2)) pg.insertParameter("relperm_func", func);
    int how = r.in(0, 2); if (np == 0 || np > 2) how = 0; Fluid f; bool ok = true; op("basic"); int nc = 4;
    try { if (how == 0) { auto q = std::make_shared<SaturationPropsBasic>(); q->init(pg); f.np = [q] { return q->numPhases(); }; f.kr = [q](int n, const double* s, const int*, double* a, double* b) { q->relperm(n, s, a, b); }; f.pc = [q](int n, const double* s, const int*, double* a, double* b) { q->capPress(n, s, a, b); }; f.range = [q](int n, const int*, double* a, double* b) { q->satRange(n, a, b); }; }
          else if (how == 1) f = wrap(std::make_shared<BlackoilPropertiesBasic>(pg, 3, nc)); else f = wrap(std::make_shared<IncompPropertiesBasic>(pg, 3, nc)); } catch (std::exception&) { ok = false; }
    int n = r.in(1, 5); Ev e("basic"); e.put("run", ++run).put("np", np).put("func", func).put("accepted", ok).put("n", n);
    if (ok) { VI s, C(n, 1); VD S; for (int i = 0; i < n*np; ++i) { s.push_back(r.in(0, 128)); S.push_back(s.back()/128.0); } VD kr(n*np, 9), kr2(n*np, 9), D(n*np*np, 9), pc(n*np, 9), pc2(n*np, 9), Dp(n*np*np, 9), lo(n*np, 9), hi(n*np, 9); f.kr(n, &S[0], &C[0], &kr[0], 0); f.kr(n, &S[0], &C[0], &kr2[0], &D[0]); f.pc(n, &S[0], &C[0], &pc[0], 0); f.pc(n, &S[0], &C[0], &pc2[0], &Dp[0]); f.range(n, &C[0], &lo[0], &hi[0]);
        auto is = [](const VD& x, double q) { VI v; for (double y : x) v.push_back(qn(y, q)); return v; }; e.put("phases", f.np()).put("s", s).put("kr", is(kr, 16384)).put("kr2", is(kr2, 16384)).put("D", is(D, 128)).put("pc", is(pc, 128)).put("pc2", is(pc2, 128)).put("Dp", is(Dp, 128)).put("lo", is(lo, 128)).put("hi", is(hi, 128)); }
    e.emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); quiet(); Rng r(a.seed);
    for (int t = 0; t < (a.thorough ? 12000 : 1600); ++t) if (r.chance(1, 12)) basic(r); else fromDeck(r);
    done();
}
