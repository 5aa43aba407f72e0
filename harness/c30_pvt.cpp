// Driver for C30: fluid properties from PVT tables and parameters.
#include "common.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/props/pvt/BlackoilPvtProperties.hpp>
#include <opm/core/props/pvt/PvtPropertiesBasic.hpp>
#include <opm/core/props/pvt/PvtPropertiesIncompFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/BlackoilPropertiesBasic.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0; static std::string work;
static std::string num(double x) { char b[64]; snprintf(b, sizeof b, "%.17g", x); return b; }
struct Rec { int x; std::vector<VI> rows; };
struct Tab { std::string k; int pref, b, c, v, cv; std::vector<VI> rows; std::vector<Rec> recs; Tab() : k("missing"), pref(0), b(128), c(0), v(128), cv(0) {} };
static std::string rowsj(const std::vector<VI>& rows) { std::string s = "["; for (size_t i = 0; i < rows.size(); ++i) s += (i ? "," : "") + j(rows[i]); return s + "]"; }
static std::string tj(const Tab& t, bool gas)
{
    if (t.k == "const") return Ev().put("k", t.k).put("pref", t.pref).put("b", t.b).put("c", t.c).put("v", t.v).put("cv", t.cv).str();
    if (t.k == "dead") return Ev().put("k", t.k).raw("rows", rowsj(t.rows)).str();
    if (t.k == "live") { std::string s = "["; for (size_t i = 0; i < t.recs.size(); ++i) s += (i ? "," : "") + Ev().put(gas ? "p" : "r", t.recs[i].x).raw("rows", rowsj(t.recs[i].rows)).str(); return Ev().put("k", t.k).raw("recs", s + "]").str(); }
    return "{\"k\":\"missing\"}";
}
static int pow2(Rng& r, int lo, int hi) { return 1 << r.in(lo, hi); }
static Tab constant(Rng& r) { Tab t; t.k = "const"; t.pref = r.in(1, 40); t.b = r.in(64, 400); t.c = r.chance(1, 4) ? 0 : r.in(-2, 2); t.v = r.in(64, 400); t.cv = r.chance(1, 4) ? 0 : r.in(-2, 2); return t; }
static int step(Rng& r, int v, int dir, int m) { int d = r.chance(1, 6) ? 0 : r.in(1, m); if (dir == 0) d = r.in(-m, m); else d *= dir; v += d; return v < 100 ? 100 : v > 400 ? 400 : v; }
static Tab deadTable(Rng& r) { Tab t; t.k = "dead"; int p = r.in(1, 3), b = r.in(120, 380), v = r.in(120, 380), db = r.in(-1, 1), dv = r.in(-1, 1); while (true) { t.rows.push_back(VI{p, b, v}); if (p >= 42) break; p += pow2(r, 1, r.chance(1, 2) ? 5 : 3); b = step(r, b, db, 30); v = step(r, v, dv, 30); } return t; }
static Tab liveOil(Rng& r)
{
    Tab t; t.k = "live"; int n = r.in(2, 5), p = r.in(2, 10), rs = r.in(0, 3), b = r.in(220, 360), v = r.in(220, 360);
    for (int i = 0; i < n; ++i) { Rec c; c.x = rs; int q = p, b1 = b, v1 = v; int m = (i + 1 == n || r.chance(2, 3)) ? r.in(2, 4) : 1; for (int k = 0; k < m; ++k) { c.rows.push_back(VI{q, b1, v1}); q += pow2(r, 1, 3); b1 = step(r, b1, r.chance(3, 4) ? 1 : 0, 10); v1 = step(r, v1, r.chance(3, 4) ? 1 : 0, 10); } t.recs.push_back(c); rs += pow2(r, 1, 2); p += pow2(r, 1, 3); b = step(r, b, r.chance(3, 4) ? -1 : 0, 16); v = step(r, v, r.chance(3, 4) ? -1 : 0, 16); }
    return t;
}
static Tab liveGas(Rng& r)
{
    Tab t; t.k = "live"; int n = r.in(2, 5), p = r.in(2, 10), rv = r.in(4, 12), b = r.in(220, 360), v = r.in(220, 360);
    for (int i = 0; i < n; ++i) { Rec c; c.x = p; int q = rv, b1 = b, v1 = v; int m = r.chance(2, 3) ? r.in(2, 4) : 1; for (int k = 0; k < m && q >= 0; ++k) { c.rows.push_back(VI{q, b1, v1}); int d = pow2(r, 1, 2); q -= d; b1 = step(r, b1, 0, 5*d); v1 = step(r, v1, 0, 5*d); } t.recs.push_back(c); p += pow2(r, 1, 3); rv += r.in(0, 3); b = step(r, b, r.chance(3, 4) ? -1 : 0, 16); v = step(r, v, r.chance(3, 4) ? 1 : 0, 16); }
    return t;
}
struct Deck { bool used[3], dens; int regions, samples; int d[3]; Tab tab[3]; bool oildead; };
static std::string twice(const std::string& s, int n) { std::string o; for (int i = 0; i < n; ++i) o += s; return o; }
static std::string text(const Deck& d, Rng& r, bool incomp)
{
    std::vector<std::string> s; std::string o = "RUNSPEC\nMETRIC\n\nDIMENS\n1 1 1 /\n\n"; static const char* nm[3] = {"WATER", "OIL", "GAS"};
    for (int i = 0; i < 3; ++i) if (d.used[i]) o += std::string(nm[i]) + "\n\n";
    if (d.regions > 1) o += "TABDIMS\n1 " + std::to_string(d.regions) + " /\n\n";
    o += "GRID\n\nDXV\n1 /\n\nDYV\n1 /\n\nDZV\n1 /\n\nPORO\n0.25 /\n\nPERMX\n100 /\n\nPROPS\n\n";
    if (d.dens) s.push_back("DENSITY\n" + twice(std::to_string(d.d[0]) + " " + std::to_string(d.d[1]) + " " + std::to_string(d.d[2]) + " /\n", d.regions) + "\n");
    for (int i = 0; i < 3; ++i) { const Tab& t = d.tab[i]; if (t.k == "missing") continue; std::string x;
        if (t.k == "const") x = std::string(i == 0 ? "PVTW" : "PVCDO") + "\n" + twice(std::to_string(t.pref) + " " + num(128.0/t.b) + " " + num(t.c/16.0) + " " + num(128.0/t.v) + " " + num(t.cv/16.0) + " /\n", d.regions) + "\n";
        else if (t.k == "dead") { std::string y; for (auto& q : t.rows) y += std::to_string(q[0]) + " " + num(128.0/q[1]) + " " + num(q[2]/128.0) + "\n"; x = std::string(i == 1 ? "PVDO" : "PVDG") + "\n" + twice(y + "/\n", d.regions) + "\n"; }
        else { std::string y; for (auto& c : t.recs) { y += std::to_string(c.x); for (auto& q : c.rows) y += " " + std::to_string(q[0]) + " " + num(i == 1 ? 128.0/q[1] : q[1]/128.0) + " " + num(q[2]/128.0) + "\n"; y += "/\n"; } x = std::string(i == 1 ? "PVTO" : "PVTG") + "\n" + twice(y + "/\n", d.regions) + "\n"; }
        s.push_back(x); }
    r.shuffle(s); for (auto& x : s) o += x;
    o += std::string("SWOF\n0.25 0 1 0\n1 1 0 0 /\n\nSGOF\n0 0 1 0\n") + (d.used[0] ? "0.75" : "1") + " 1 0 0 /\n\n"; (void) incomp;
    return o;
}
static Ev head(const char* e, const Deck& d, bool accepted)
{
    Ev ev(e); ev.put("run", ++run); std::string u = "["; for (int i = 0; i < 3; ++i) u += std::string(i ? "," : "") + (d.used[i] ? "true" : "false");
    ev.raw("used", u + "]").put("hasdens", d.dens).put("regions", d.regions).put("samples", d.samples).put("dens", VI(d.d, d.d + 3));
    ev.raw("tab", "[" + tj(d.tab[0], false) + "," + tj(d.tab[1], false) + "," + tj(d.tab[2], true) + "]").put("accepted", accepted); return ev;
}
static int rnd(double x, double Q) { double y = std::floor(x*Q + 0.5); return y > -2e9 && y < 2e9 ? (int) y : BAD; }
static Deck randDeck(Rng& r)
{
    Deck d; int k = r.in(0, 9); d.used[0] = k < 7; d.used[1] = true; d.used[2] = k >= 3; d.dens = true; d.regions = 1; d.samples = 0;
    d.d[0] = r.in(600, 900); d.d[1] = r.in(950, 1100); d.d[2] = r.in(1, 40);
    if (d.used[0] && r.chance(5, 6)) d.tab[0] = constant(r);
    int o = r.in(0, d.used[2] ? 4 : 1); d.tab[1] = o == 0 ? constant(r) : o == 1 ? deadTable(r) : liveOil(r);
    if (d.used[2]) d.tab[2] = r.chance(1, 2) ? liveGas(r) : deadTable(r);
    bool dead = false; for (int i = 0; i < 3; ++i) dead |= d.tab[i].k == "dead"; if (dead && r.chance(1, 3)) d.samples = r.pick(VI{2, 5, 20, 200});
    return d;
}
static void points(const Deck& d, const EclipseGridParser& p, const BlackoilPvtProperties& pvt, int times, Rng& r, const UnstructuredGrid& g)
{
    std::unique_ptr<BlackoilPropertiesFromDeck> props; op("BlackoilPropertiesFromDeck"); parameter::ParameterGroup pg; pg.disableOutput();
    if (d.samples == 200) props.reset(new BlackoilPropertiesFromDeck(p, g, r.chance(1, 2)));
    else { pg.insertParameter("pvt_tab_size", std::to_string(d.samples)); props.reset(new BlackoilPropertiesFromDeck(p, g, pg, r.chance(1, 2))); }
    int np = pvt.numPhases(); const int* pos = pvt.phasePosition();
    for (int t = 0; t < times; ++t) {
        int n = r.in(1, 5); VI P(n), zl(n), zv(n); VD pr(n), z(n*np), mu(n*np), B(n*np), B2(n*np), dB(n*np), R(n*np), R2(n*np), dR(n*np), A(n*np*np), A2(n*np*np), dA(n*np*np), rho(n*np); VI cells(n, 0);
        for (int i = 0; i < n; ++i) {
            P[i] = r.in(3, 42); VI at; for (int f = 1; f < 3; ++f) for (auto& c : d.tab[f].recs) for (auto& q : c.rows) at.push_back(f == 1 ? q[0] : c.x); if (!at.empty() && r.chance(1, 2)) P[i] = r.pick(at) + (r.chance(1, 3) ? r.in(-1, 1) : 0); if (P[i] < 3) P[i] = 3; if (P[i] > 42) P[i] = 42;
            int kind = r.in(0, 19), den = pow2(r, 0, 1), m = r.in(0, 24); VI rr; for (auto& c : d.tab[1].recs) rr.push_back(c.x); for (auto& c : d.tab[2].recs) for (auto& q : c.rows) rr.push_back(q[0]); if (!rr.empty() && r.chance(1, 2)) m = r.pick(rr)*den + (r.chance(1, 3) ? r.in(-1, 1) : 0); if (m < 0) m = 0;
            if (kind == 0) zl[i] = 0, zv[i] = m; else if (kind == 1) zl[i] = m, zv[i] = 0; else if (kind == 2) zl[i] = zv[i] = 0;
            else { bool flip = d.tab[2].k == "live" && (d.tab[1].k != "live" || r.chance(1, 2)); zl[i] = flip ? m : den; zv[i] = flip ? den : m; if (d.tab[1].k == "live" && flip && m > 0) { // the other ratio must be a multiple of a half too
                    if ((2*den) % m) { zl[i] = den; zv[i] = m; } } else if (d.tab[2].k == "live" && !flip && m > 0 && (2*den) % m) { zl[i] = m; zv[i] = m*r.in(1, 4); } }
            if (!d.used[2]) zv[i] = 0;
            // both ratios must be multiples of a half where both matter
            if (d.tab[1].k == "live" && d.tab[2].k == "live" && zl[i] && zv[i] && ((2*zv[i]) % zl[i] || (2*zl[i]) % zv[i])) { int a = r.in(1, 2); if (r.chance(1, 2)) zv[i] = a*zl[i]; else zl[i] = a*zv[i]; }
            pr[i] = P[i]*1e5; for (int f = 0; f < 3; ++f) if (d.used[f]) z[np*i + pos[f]] = f == 0 ? r.in(0, 5) : f == 1 ? zl[i] : zv[i];
        }
        op("mu"); if (r.chance(1, 2)) pvt.mu(n, &pr[0], &z[0], &mu[0]); else props->viscosity(n, &pr[0], &z[0], &cells[0], &mu[0], 0);
        op("B"); pvt.B(n, &pr[0], &z[0], &B[0]); op("dBdp"); pvt.dBdp(n, &pr[0], &z[0], &B2[0], &dB[0]); op("R"); pvt.R(n, &pr[0], &z[0], &R[0]); op("dRdp"); pvt.dRdp(n, &pr[0], &z[0], &R2[0], &dR[0]);
        op("matrix"); props->matrix(n, &pr[0], &z[0], &cells[0], &A[0], &dA[0]); props->matrix(n, &pr[0], &z[0], &cells[0], &A2[0], 0); op("density"); props->density(n, &A[0], &rho[0]);
        std::string s = "[";
        for (int i = 0; i < n; ++i) {
            VI f, f2, m, df, rr, r2, dr, a, a2, da, rh; int k = 0;
            for (int ph = 0; ph < 3; ++ph) { if (!d.used[ph]) continue; int q = np*i + k; const std::string& T = d.tab[ph].k; bool c = T == "const" || T == "missing", gas = ph == 2 && T == "live", sp = (d.samples > 0 && T == "dead") || (ph == 1 && T == "live"); double S = c ? 65536 : 8192;
                double v = gas ? B[q] : 1/B[q], v2 = gas ? B2[q] : 1/B2[q], dv = gas ? dB[q] : -dB[q]/(B2[q]*B2[q]), w = c ? 1e-3/mu[q] : mu[q]*1e3;
                f.push_back(sp ? rnd(v, S) : qn(v, S)); f2.push_back(sp ? rnd(v2, S) : qn(v2, S)); m.push_back(sp ? rnd(w, S) : qn(w, S)); df.push_back(sp ? rnd(dv*1e5, S) : qn(dv*1e5, S));
                rr.push_back(qn(R[q], 64)); r2.push_back(qn(R2[q], 64)); dr.push_back(qn(dR[q]*1e5, 64)); rh.push_back(qn(rho[q]*B[q], 64)); ++k; }
            for (int col = 0; col < np; ++col) for (int row = 0; row < np; ++row) { int e = i*np*np + col*np + row; double b = B[np*i + col]; a.push_back(qn(A[e]*b, 64)); a2.push_back(qn(A2[e]*b, 64)); da.push_back(qn((dA[e]*b + A[e]*dB[np*i + col])*1e5, 64)); }
            s += (i ? "," : "") + Ev().put("p", P[i]).put("zl", zl[i]).put("zv", zv[i]).put("f", f).put("f2", f2).put("m", m).put("df", df).put("r", rr).put("r2", r2).put("dr", dr).put("A", a).put("A2", a2).put("dA", da).put("rho", rh).str();
        }
        Ev("points").put("n", n).raw("pts", s + "]").emit();
    }
}
static bool parse(const std::string& txt, EclipseGridParser& p) { std::istringstream is(txt); p.read(is); return true; }
static void blackoil(Rng& r, const UnstructuredGrid& g)
{
    Deck d = randDeck(r); int spoil = r.in(0, 9);
    if (spoil == 0) { int what = r.in(0, 5);
        if (what == 0) d.dens = false; else if (what == 1) d.tab[1] = Tab(); else if (what == 2) d.tab[2] = Tab(); else if (what == 3) d.regions = 2;
        else if (what == 4 && d.tab[1].k == "live") d.tab[1].recs.back().rows.resize(1); else { d.used[r.in(0, 2)] = false; if (r.chance(1, 3)) d.used[r.in(0, 2)] = false; for (int i = 0; i < 3; ++i) if (!d.used[i]) d.tab[i] = Tab(); } 
        if (!d.used[2] && d.tab[1].k == "live") d.tab[1] = deadTable(r); }
    if (d.regions > 1 && d.tab[1].k == "missing" && d.tab[2].k == "missing" && d.tab[0].k == "missing") d.regions = 1;
    EclipseGridParser p; op("read deck"); parse(text(d, r, false), p); BlackoilPvtProperties pvt; bool ok = true; op("BlackoilPvtProperties::init");
    try { pvt.init(p, d.samples); } catch (std::exception&) { ok = false; }
    Ev e = head("deck", d, ok); if (ok) e.put("np", pvt.numPhases()).raw("sdens", jdn(pvt.surfaceDensities(), pvt.numPhases())); e.emit();
    if (ok) points(d, p, pvt, r.in(2, 8), r, g);
}
static void incomp(Rng& r, const UnstructuredGrid& g)
{
    Deck d = randDeck(r); d.samples = 0; d.used[0] = d.used[1] = true; d.used[2] = r.chance(1, 8); d.tab[0] = r.chance(1, 8) ? Tab() : constant(r); if (r.chance(7, 8)) d.tab[1] = constant(r); else d.tab[1] = deadTable(r); d.tab[2] = d.used[2] ? deadTable(r) : Tab(); d.dens = r.chance(9, 10);
    EclipseGridParser p; op("read deck"); parse(text(d, r, true), p); VI rho, imu; int np = 0; VD sd; bool ok = true; op("incompressible fluid");
    try { if (r.chance(1, 2)) { PvtPropertiesIncompFromDeck q; q.init(p); np = q.numPhases(); for (int i = 0; i < 2; ++i) { rho.push_back(qn(q.reservoirDensities()[i], 128)); imu.push_back(qn(1e-3/q.viscosity()[i], 128)); sd.push_back(q.surfaceDensities()[i]); } }
          else { IncompPropertiesFromDeck q(p, g); np = q.numPhases(); for (int i = 0; i < 2; ++i) { rho.push_back(qn(q.density()[i], 128)); imu.push_back(qn(1e-3/q.viscosity()[i], 128)); sd.push_back(q.surfaceDensity()[i]); } } } catch (std::exception&) { ok = false; }
    Ev e = head("incomp", d, ok); if (ok) e.put("np", np).raw("sdens", jdn(&sd[0], 2)).put("rho", rho).put("imu", imu); e.emit();
}
static VI ints(const double* p, int n, double s = 1) { VI v; for (int i = 0; i < n; ++i) v.push_back(qn(p[i], s)); return v; }
static std::string rowsof(const VD& x, int n, int w, double s = 1) { std::string o = "["; for (int i = 0; i < n; ++i) o += (i ? "," : "") + j(ints(&x[0] + i*w, w, s)); return o + "]"; }
static void basic(Rng& r)
{
    int np = r.in(0, 4); VI rho, mu; parameter::ParameterGroup pg; pg.disableOutput(); bool given = r.chance(3, 4) || np != 2; if (given) pg.insertParameter("num_phases", std::to_string(np));
    for (int i = 0; i < np; ++i) { rho.push_back(r.chance(1, 4) ? -1 : r.in(1, 1500)); mu.push_back(r.chance(1, 4) ? -1 : r.in(1, 50)); if (rho[i] > 0) pg.insertParameter("rho" + std::to_string(i + 1), std::to_string(rho[i])); if (mu[i] > 0) pg.insertParameter("mu" + std::to_string(i + 1), std::to_string(mu[i])); }
    bool direct = r.chance(1, 3); if (direct) for (int i = 0; i < np; ++i) { rho[i] = r.in(1, 1500); mu[i] = r.in(1, 50); }
    PvtPropertiesBasic q; bool ok = true; op("PvtPropertiesBasic::init"); VD dr(rho.begin(), rho.end()), dm; for (int m : mu) dm.push_back(m*1e-3);
    try { if (direct) q.init(np, dr, dm); else q.init(pg); } catch (std::exception&) { ok = false; }
    int n = r.in(1, 4); Ev e("basic"); e.put("run", ++run).put("np", np).put("rho", rho).put("mu", mu).put("accepted", ok).put("n", n);
    if (ok) { VD p(n, 1e7), z(n*np, 0.5), m(n*np), B(n*np), B2(n*np), dB(n*np, 7), R(n*np, 7), R2(n*np, 7), dR(n*np, 7); q.mu(n, &p[0], &z[0], &m[0]); q.B(n, &p[0], &z[0], &B[0]); q.dBdp(n, &p[0], &z[0], &B2[0], &dB[0]); q.R(n, &p[0], &z[0], &R[0]); q.dRdp(n, &p[0], &z[0], &R2[0], &dR[0]);
        VD zero; for (int i = 0; i < n; ++i) for (const VD* x : {&dB, &R, &R2, &dR}) zero.insert(zero.end(), x->begin() + i*np, x->begin() + (i + 1)*np);
        e.put("phases", q.numPhases()).put("sdens", ints(q.surfaceDensities(), np)).raw("mus", rowsof(m, n, np, 1e3)).raw("B", rowsof(B, n, np)).raw("B2", rowsof(B2, n, np)).raw("zero", rowsof(zero, n, 4*np)); }
    e.emit();
    if (!direct && np >= 1 && np <= 2) {
        op("BlackoilPropertiesBasic"); BlackoilPropertiesBasic b(pg, 3, 4); op("IncompPropertiesBasic"); IncompPropertiesBasic c(pg, 3, 4); VD p(n, 1e7), z(n*np, 0.5), m(n*np), A(n*np*np, 9), dA(n*np*np, 9), de(n*np); VI cells(n, 1);
        b.viscosity(n, &p[0], &z[0], &cells[0], &m[0], 0); b.matrix(n, &p[0], &z[0], &cells[0], &A[0], &dA[0]); if (r.chance(1, 2)) { VD A2(n*np*np, 9); b.matrix(n, &p[0], &z[0], &cells[0], &A2[0], 0); A = A2; } b.density(n, &A[0], &de[0]);
        Ev("basicprops").put("run", ++run).put("np", np).put("rho", rho).put("mu", mu).put("n", n).put("phases", b.numPhases() == c.numPhases() ? b.numPhases() : -1).put("sdens", ints(b.surfaceDensity(), np)).put("incdens", ints(c.density(), np)).put("incsdens", ints(c.surfaceDensity(), np)).put("incmu", ints(c.viscosity(), np, 1e3))
            .raw("mus", rowsof(m, n, np, 1e3)).raw("A", rowsof(A, n, np*np)).raw("dA", rowsof(dA, n, np*np)).raw("dens", rowsof(de, n, np)).emit();
    }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); quiet(); Rng r(a.seed); work = a.work; GridManager gm(1, 1, 1);
    for (int t = 0; t < (a.thorough ? 12000 : 1500); ++t) { int k = r.in(0, 9); if (k < 8) blackoil(r, *gm.c_grid()); else if (k == 8) incomp(r, *gm.c_grid()); else basic(r); }
    unlink(work.c_str()); done();
}
