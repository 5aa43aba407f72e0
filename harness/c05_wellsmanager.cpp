// Driver for C05: decks with wells, read and handed to WellsManager.
#include "config.h"
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/wells.h>
#include <opm/core/wells/WellsManager.hpp>
#include <opm/core/wells/WellsGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <memory>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<std::string> VS; typedef std::vector<double> VD;
static const double SC = 360.0;
static int qr(double x) { double y = std::floor(x*SC + 0.5); return y > -5e8 && y < 5e8 ? (int) y : BAD; }
static const char* PN[] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV"};
static const char* IN[] = {"RATE", "RESV"};
static const char* TN[] = {"", "WATER", "OIL", "GAS"};
struct Spec { std::string w, g; int i, j, dep; };
struct Comp { std::string w; VS ws; int i, j, k1, k2, wi, dia = 2; };     // diameter in tenths, 0 where not given
struct Con { std::string w; int t; bool shut; std::string mode; VI v; int bhp, thp; };
struct Flag { std::string w; bool shut; };
struct Tree { std::string c, p; };
struct GP { std::string g, mode; VI v; std::string proc; };
struct GI { std::string g; int t; std::string mode; VI v; int rf, vf; };
struct Guide { std::string w; int gr; };
struct Deck {
    int np = 2; VI pos = {1, 2, 0}, dims = {1, 1, 1}, act, cz, dx, dy, dz, kx, ky; bool field = false, nogc = false;
    std::vector<Spec> specs; std::vector<Comp> comp; std::vector<Con> inje, prod; std::vector<Flag> flags; std::vector<Tree> tree; std::vector<GP> gprod; std::vector<GI> ginj; std::vector<Guide> guide;
    Raw json() const {
        std::vector<Raw> a, b, c, d, e, f, g, h, k;
        for (auto& x : specs) a.push_back(Ev().put("w", x.w).put("g", x.g).put("i", x.i).put("j", x.j).put("dep", x.dep).asRaw());
        for (auto& x : comp) b.push_back(Ev().put("ws", x.ws).put("i", x.i).put("j", x.j).put("k1", x.k1).put("k2", x.k2).put("wi", x.wi).asRaw());
        for (auto& x : inje) c.push_back(Ev().put("w", x.w).put("t", x.t).put("shut", x.shut).put("mode", x.mode).put("v", x.v).put("bhp", x.bhp).put("thp", x.thp).asRaw());
        for (auto& x : prod) d.push_back(Ev().put("w", x.w).put("shut", x.shut).put("mode", x.mode).put("v", x.v).put("bhp", x.bhp).put("thp", x.thp).asRaw());
        for (auto& x : flags) e.push_back(Ev().put("w", x.w).put("shut", x.shut).asRaw());
        for (auto& x : tree) f.push_back(Ev().put("c", x.c).put("p", x.p).asRaw());
        for (auto& x : gprod) g.push_back(Ev().put("g", x.g).put("mode", x.mode).put("v", x.v).put("proc", x.proc).asRaw());
        for (auto& x : ginj) h.push_back(Ev().put("g", x.g).put("t", x.t).put("mode", x.mode).put("v", x.v).put("rf", x.rf).put("vf", x.vf).asRaw());
        for (auto& x : guide) k.push_back(Ev().put("w", x.w).put("gr", x.gr).asRaw());
        return Ev().put("np", np).put("pos", pos).put("dims", dims).put("act", act).put("cz", cz).put("specs", a).put("comp", b).put("inje", c).put("prod", d).put("flags", e).put("tree", f).put("gprod", g).put("ginj", h).put("guide", k).asRaw();
    }
    size_t fs = 0, fc = 0, fi = 0, fp = 0, ff = 0, ft = 0, fgp = 0, fgi = 0, fgu = 0;     // what earlier epochs gave
    void next() { fs = specs.size(); fc = comp.size(); fi = inje.size(); fp = prod.size(); ff = flags.size(); ft = tree.size(); fgp = gprod.size(); fgi = ginj.size(); fgu = guide.size(); }
};
// ---------------------------------------------------------------- deck text
template <class T> std::vector<T> since(const std::vector<T>& v, size_t n) { return std::vector<T>(v.begin() + std::min(n, v.size()), v.end()); }
static std::string N(int x) { return std::to_string(x); }
static std::string lims(const VI& v, Rng& r) { std::string s; for (size_t i = 0; i < v.size();) { size_t n = 0; while (i + n < v.size() && v[i + n] < 0) ++n;
    if (n) { if (r.chance(1, 2)) s += N(n) + "* "; else for (size_t k = 0; k < n; ++k) s += "1* "; i += n; } else s += N(v[i++]) + (r.chance(1, 3) ? ".0 " : " "); } return s; }
static std::string text(const Deck& d, const VS& kws, Rng& r)
{
    std::string T;
    auto nm = [&](const std::string& s) { return r.chance(1, 2) ? "'" + s + "' " : s + " "; };
    auto cm = [&]() { return r.chance(1, 6) ? std::string("-- note\n") : std::string(); };
    for (auto& k : kws) {
        std::string b = k + "\n"; bool any = true;
        if (k == "WELSPECS") { any = d.specs.size() > d.fs; for (auto& x : since(d.specs, d.fs)) b += cm() + nm(x.w) + nm(x.g) + N(x.i) + " " + N(x.j) + " " + (x.dep < 0 ? "1*" : N(x.dep)) + " OIL /\n"; }
        else if (k == "COMPDAT") { any = d.comp.size() > d.fc; for (auto& x : since(d.comp, d.fc)) { auto dn = [&](int i) { return i > 0 ? N(i) + " " : std::string(r.chance(1, 2) ? "0 " : "1* "); };
            b += cm() + nm(x.w) + dn(x.i) + dn(x.j) + dn(x.k1) + dn(x.k2) + (r.chance(1, 2) ? "OPEN " : "'OPEN' ") + (r.chance(1, 2) ? "1* " : "1 ") + (x.wi > 0 ? N(x.wi) : r.chance(1, 2) ? "0" : "1*") + (x.dia > 0 ? " 0." + N(x.dia) : std::string(r.chance(1, 2) ? " 0" : "")) + " /\n"; } }
        else if (k == "WCONINJE") { any = d.inje.size() > d.fi; for (auto& x : since(d.inje, d.fi)) b += cm() + nm(x.w) + TN[x.t] + (x.shut ? " SHUT " : " OPEN ") + x.mode + " " + lims(x.v, r) + (x.bhp == 6891 ? "1* " : N(x.bhp) + " ") + (x.thp > 0 ? N(x.thp) + " " : "") + "/\n"; }
        else if (k == "WCONPROD") { any = d.prod.size() > d.fp; for (auto& x : since(d.prod, d.fp)) b += cm() + nm(x.w) + (x.shut ? "SHUT " : "OPEN ") + x.mode + " " + lims(x.v, r) + (x.bhp == 1 ? "1* " : N(x.bhp) + " ") + (x.thp > 0 ? N(x.thp) + " " : "") + "/\n"; }
        else if (k == "WELOPEN") { any = d.flags.size() > d.ff; for (auto& x : since(d.flags, d.ff)) b += nm(x.w) + (x.shut ? "SHUT" : "OPEN") + " /\n"; }
        else if (k == "GRUPTREE") { any = d.tree.size() > d.ft; for (auto& x : since(d.tree, d.ft)) b += nm(x.c) + nm(x.p) + "/\n"; }
        else if (k == "GCONPROD") { any = d.gprod.size() > d.fgp; for (auto& x : since(d.gprod, d.fgp)) { VI v(x.v.begin(), x.v.begin() + 4); b += nm(x.g) + x.mode + " " + lims(v, r) + x.proc + (x.v[4] < 0 ? "" : " 6* " + N(x.v[4])) + " /\n"; } }
        else if (k == "GCONINJE") { any = d.ginj.size() > d.fgi; for (auto& x : since(d.ginj, d.fgi)) b += nm(x.g) + TN[x.t] + " " + x.mode + " " + lims(x.v, r) + N(x.rf/4) + "." + N(25*(x.rf%4)) + " " + N(x.vf/4) + "." + N(25*(x.vf%4)) + " /\n"; }
        else if (k == "WGRUPCON") { any = d.guide.size() > d.fgu; for (auto& x : since(d.guide, d.fgu)) { bool inj = false; for (auto& y : d.inje) if (y.w == x.w) inj = true; b += nm(x.w) + "YES " + N(x.gr) + " " + (inj ? "RAT" : "OIL") + " /\n"; } }
        if (any) T += b + "/\n\n";
    }
    return T;
}
static const VS ALL = {"WELSPECS", "COMPDAT", "GRUPTREE", "WCONINJE", "WCONPROD", "WELOPEN", "GCONPROD", "GCONINJE", "WGRUPCON"};
// ---------------------------------------------------------------- building and showing
struct Meas { VI bhp; std::vector<VI> res, surf; };
static Raw jm(const Meas& m) { return Ev().put("bhp", m.bhp).put("res", m.res).put("surf", m.surf).asRaw(); }
static int run = 0;
struct Built {
    std::unique_ptr<Opm::WellsManager> M; const Deck& d; double L, R, P, Z, TW;
    Built(const Deck& dd) : d(dd) { double stb = 0.158987294928; L = (d.field ? stb : 1.0)/86400; R = L; P = d.field ? 6894.757293168361 : 1e5; Z = d.field ? 0.3048 : 1.0; TW = 1e-3*L/P; }
    Raw controls(const Wells& W, int w, Ev& e) const {
        const WellControls* k = W.ctrls[w]; std::vector<Raw> cs;
        for (int i = 0; i < k->num; ++i) {
            VI q; if (k->type[i] != BHP) for (int p = 0; p < d.np; ++p) q.push_back(qi(k->distr[i*d.np + p]));
            cs.push_back(Ev().put("t", k->type[i] == BHP ? "BHP" : k->type[i] == RESERVOIR_RATE ? "RESV" : "SURF").put("v", qr(k->target[i]/(k->type[i] == BHP ? P : L))).put("d", q).asRaw());
        }
        return e.put("c", cs).put("cur", k->current).asRaw();
    }
    // Peaceman's well index of a cell of size dx, dy, dz and diagonal permeability
    double peaceman(int c, double rw) const {
        double kx = d.kx[c]*1e-13, ky = d.ky[c]*1e-13, q = std::sqrt(ky/kx);
        double r0 = 0.28*std::sqrt(q*d.dx[c]*d.dx[c] + d.dy[c]*d.dy[c]/q)/(std::sqrt(q) + 1.0/std::sqrt(q));
        return 2*M_PI*std::sqrt(kx*ky)*d.dz[c]/std::log(r0/rw);
    }
    // given factors in deck units; for computed ones, minus a thousand times the ratio to Peaceman's
    int index(const std::string& w, int n, int c, double wi) const {
        for (auto& x : d.comp) if (std::find(x.ws.begin(), x.ws.end(), w) != x.ws.end()) { Spec s; for (auto& y : d.specs) if (y.w == w) s = y;
            int k1 = x.k1 ? x.k1 : 1, k2 = x.k2 ? x.k2 : d.dims[2];
            if (n <= k2 - k1) { if (x.wi > 0 || c < 0 || c >= (int) d.dx.size()) return qn(wi/TW); return -qn(1000*wi/peaceman(c, x.dia > 0 ? 0.05*x.dia*Z : 0.1524)); }
            n -= k2 - k1 + 1; }
        return BAD; }
    Raw wells(bool full) const {
        const Wells& W = *M->c_wells(); std::vector<Raw> ws;
        for (int w = 0; w < W.number_of_wells; ++w) {
            Ev e;
            if (full) {
                e.put("w", W.name[w]).put("kind", W.type[w] == INJECTOR ? "I" : "P").put("dep", qn(W.depth_ref[w]/Z)).raw("frac", jd(W.comp_frac + w*d.np, d.np));
                std::vector<Raw> pf; for (int i = W.well_connpos[w]; i < W.well_connpos[w+1]; ++i) pf.push_back(Ev().put("c", W.well_cells[i]).put("wi", index(W.name[w], i - W.well_connpos[w], W.well_cells[i], W.WI[i])).asRaw());
                e.put("perf", pf);
                Opm::WellsGroupInterface* n = tree().findNode(W.name[w]);
                e.put("par", n && n->isLeafNode() && n->getParent() ? const_cast<Opm::WellsGroupInterface*>(n->getParent())->name() : "?");
            }
            ws.push_back(controls(W, w, e));
        }
        return Raw{j(ws)};
    }
    Opm::WellCollection& tree() const { return const_cast<Opm::WellCollection&>(M->wellCollection()); }
    void groups(Ev& ev) const {
        std::set<std::string> names; for (auto& x : d.specs) names.insert(x.g); for (auto& x : d.tree) { names.insert(x.c); names.insert(x.p); }
        std::vector<Raw> gs;
        for (auto& g : names) {
            Opm::WellsGroupInterface* n = tree().findNode(g); if (!n || n->isLeafNode()) continue;
            const Opm::ProductionSpecification& p = n->prodSpec(); const Opm::InjectionSpecification& i = n->injSpec();
            auto lim = [&](double x) { return x < 0 ? -1 : qn(x/L); };
            gs.push_back(Ev().put("g", g).put("p", n->getParent() ? const_cast<Opm::WellsGroupInterface*>(n->getParent())->name() : "")
                .put("pl", VI{lim(p.oil_max_rate_), lim(p.water_max_rate_), lim(p.gas_max_rate_), lim(p.liquid_max_rate_), lim(p.reservoir_flow_max_rate_)})
                .put("il", VI{lim(i.surface_flow_max_rate_), lim(i.reservoir_flow_max_rate_)}).put("rf", qn(4*i.reinjection_fraction_target_)).put("vf", qn(4*i.voidage_replacment_fraction_))
                .put("proc", p.procedure_ == Opm::ProductionSpecification::RATE ? "RATE" : p.procedure_ == Opm::ProductionSpecification::WELL ? "WELL" : "NONE").asRaw());
        }
        ev.put("g", gs).put("leaves", (int) tree().getLeafNodes().size());
    }
    bool build(const Opm::EclipseGridParser& P) {
        std::vector<int> gc; for (size_t i = 0; i < d.cz.size(); ++i) for (size_t k = 0; k < d.act.size(); ++k) if (d.act[k] == (int) i) gc.push_back(k);
        VI own; for (size_t i = 0; i < d.cz.size(); ++i) for (int k = 0; k < 6; ++k) { own.push_back(i); own.push_back(-1); }
        FakeGrid g(d.cz.size(), own); VD K;
        for (size_t i = 0; i < d.cz.size(); ++i) { for (int k = 0; k < 6; ++k) g.fcen[3*(6*i + k) + k/2] = 0.5*(k % 2 ? 1 : -1)*(k < 2 ? d.dx[i] : k < 4 ? d.dy[i] : d.dz[i]);
            double t[9] = {d.kx[i]*1e-13, 0, 0, 0, d.ky[i]*1e-13, 0, 0, 0, 5e-14}; K.insert(K.end(), t, t + 9); }
        for (size_t i = 0; i < d.cz.size(); ++i) { g.gc[i] = gc[i]; g.cc[3*i + 2] = d.cz[i]*Z; }
        if (d.nogc) g.g.global_cell = 0;
        for (int k = 0; k < 3; ++k) g.g.cartdims[k] = d.dims[k];
        Ev("deck").put("run", ++run).put("d", d.json()).emit();
        op("WellsManager from a deck");
        try { M.reset(new Opm::WellsManager(P, g.g, K.data())); } catch (std::exception&) { Ev("refused").emit(); return false; }
        if (!M->c_wells()) { Ev("nowells").emit(); return false; }
        Ev e("wells"); e.put("w", wells(true)); groups(e); e.emit(); return true;
    }
    VD flat(const std::vector<VI>& m) const { VD v; for (auto& r : m) for (int x : r) v.push_back(x*L); return v; }
    bool check(const Meas& m) { op("conditionsMet"); VD b; for (int x : m.bhp) b.push_back(x*P);
        bool ok = M->conditionsMet(b, flat(m.res), flat(m.surf)); Ev("check").put("m", jm(m)).put("ok", ok).put("w", wells(false)).emit(); return ok; }
    void replace(const Meas& m) { op("applyExplicitReinjectionControls"); M->applyExplicitReinjectionControls(flat(m.res), flat(m.surf)); Ev("replace").put("m", jm(m)).put("w", wells(false)).emit(); }
    Meas measured(Rng& r) const { Meas m; const Wells& W = *M->c_wells();
        for (int w = 0; w < W.number_of_wells; ++w) { bool off = W.ctrls[w]->current < 0 || r.chance(1, 6); int sg = W.type[w] == INJECTOR ? 40 : -40; VI a, b;
            for (int p = 0; p < d.np; ++p) { a.push_back(off ? 0 : sg*r.in(0, 10)); b.push_back(off ? 0 : sg*r.in(0, 10)); } m.bhp.push_back(2*r.in(0, 60)); m.res.push_back(a); m.surf.push_back(b); }
        return m; }
};
// ---------------------------------------------------------------- seeded decks
static bool usable(const Deck& d, int k) { return k == 0 ? d.pos[1] > 0 : k == 1 ? d.pos[0] > 0 : k == 2 ? d.pos[2] > 0 : k == 3 ? (d.pos[0] > 0 && d.pos[1] > 0) : true; }
static int lim(Rng& r) { return r.chance(1, 12) ? 0 : 40*r.in(0, 10) + 20; }
static void conOf(Con& c, const Deck& d, bool inj, Rng& r)
{
    c.shut = r.chance(1, 5); c.thp = 0; c.bhp = r.chance(1, 6) ? 0 : r.chance(1, 8) ? (inj ? 6891 : 1) : 2*r.in(5, 60) + 1; VS can;
    if (inj) { do c.t = r.in(1, 3); while (d.pos[c.t - 1] == 0); c.v = VI(2, -1); for (int k = 0; k < 2; ++k) if (r.chance(1, 2)) { c.v[k] = lim(r); can.push_back(IN[k]); } }
    else { c.t = 0; c.v = VI(5, -1); for (int k = 0; k < 5; ++k) if (usable(d, k) && r.chance(2, 5)) { c.v[k] = lim(r); can.push_back(PN[k]); } }
    if (c.bhp > 0) can.push_back("BHP");
    can.push_back("GRUP"); if (r.chance(1, 4)) can.push_back("GRUP");
    c.mode = r.pick(can);
}
struct Plan { VS wells; std::vector<bool> inj; VS groups; VI par; };
static std::string groupOf(const Deck& d, const std::string& w) { std::string g; for (auto& s : d.specs) if (s.w == w) g = s.g; return g; }
static void controls(Deck& d, const Plan& p, Rng& r)
{
    size_t i0 = d.inje.size(), p0 = d.prod.size();
    for (int rep = 0; rep < 2; ++rep) for (size_t w = 0; w < p.wells.size(); ++w) if (rep == 1 || r.chance(1, 6)) { Con c; c.w = p.wells[w]; conOf(c, d, p.inj[w], r); (p.inj[w] ? d.inje : d.prod).push_back(c); }
    if (r.chance(1, 3)) { std::vector<Con> x = since(d.inje, i0), y = since(d.prod, p0); r.shuffle(x); r.shuffle(y); std::copy(x.begin(), x.end(), d.inje.begin() + i0); std::copy(y.begin(), y.end(), d.prod.begin() + p0); }
}
static void flags(Deck& d, const Plan& p, Rng& r) { int n = r.in(1, 4); VS old; for (auto& f : d.flags) old.push_back(f.w); for (auto& w : old) d.flags.push_back({w, r.chance(1, 2)}); for (int i = 0; i < n; ++i) d.flags.push_back({r.pick(p.wells), r.chance(1, 2)}); }
static void groupControls(Deck& d, const Plan& p, Rng& r, bool all)
{
    VI pm(p.groups.size(), 0), im(p.groups.size(), 0);
    for (size_t w = 0; w < p.wells.size(); ++w) if (r.chance(1, 2)) d.guide.push_back({p.wells[w], r.in(1, 3)});
    for (size_t g = 0; g < p.groups.size(); ++g) {
        bool pa = false, ia = false; for (int a = p.par[g]; a >= 0; a = p.par[a]) { if (pm[a]) pa = true; if (im[a]) ia = true; }
        auto under = [&](const std::string& w, bool inj) { size_t x = std::find(p.wells.begin(), p.wells.end(), w) - p.wells.begin(); if (p.inj[x] != inj) return false;
            const std::vector<Con>& l = inj ? d.inje : d.prod; std::string m; for (auto& c : l) if (c.w == w) m = c.mode; if (m != "GRUP") return false;
            int h = std::find(p.groups.begin(), p.groups.end(), groupOf(d, w)) - p.groups.begin(); while (h >= 0 && h != (int) g) h = p.par[h]; return h == (int) g; };
        auto any = [&](bool inj) { for (auto& w : p.wells) if (under(w, inj)) return true; return false; };
        if (all || r.chance(1, 2)) { GP x; x.g = p.groups[g]; x.v = VI(5, -1); for (int k = 0; k < 5; ++k) if (usable(d, k) && r.chance(2, 5)) x.v[k] = lim(r); x.proc = r.pick(VS{"NONE", "RATE", "WELL"}); x.mode = r.chance(1, 2) ? "NONE" : "FLD";
            if (!pa && any(false)) { VI can; for (int k = 0; k < 5; ++k) if (x.v[k] >= 0) can.push_back(k); if (!can.empty() && r.chance(4, 5)) { x.mode = PN[r.pick(can)]; pm[g] = 1; } }
            if (r.chance(1, 10)) { GP y = x; y.v = VI(5, -1); y.v[4] = 20; y.mode = "NONE"; y.proc = "NONE"; d.gprod.push_back(y); }
            d.gprod.push_back(x); }
        if (all || r.chance(1, 2)) { GI x; x.g = p.groups[g]; do x.t = r.in(1, 3); while (d.pos[x.t - 1] == 0); x.v = VI(2, -1); for (int k = 0; k < 2; ++k) if (r.chance(2, 5)) x.v[k] = lim(r); x.rf = r.pick(VI{2, 4, 6}); x.vf = r.pick(VI{1, 4, 8}); x.mode = r.chance(1, 2) ? "NONE" : "FLD";
            if (!ia && any(true)) { VS can = {"REIN", "VREP"}; for (int k = 0; k < 2; ++k) if (x.v[k] >= 0) { can.push_back(IN[k]); can.push_back(IN[k]); } x.mode = r.pick(can); im[g] = 1; }
            // limits below a group whose production is replaced are not specified
            if (ia) x.v = VI(2, -1);
            d.ginj.push_back(x); }
    }
}
static void comps(Deck& d, const Plan& p, Rng& r)
{
    int first = d.comp.empty(); size_t c0 = d.comp.size(); int nx = d.dims[0], ny = d.dims[1], nz = d.dims[2];
    auto on = [&](int i, int j, int k) { return d.act[i + nx*(j + ny*k)] >= 0; };
    for (int rep = 0; rep < 3; ++rep) for (auto& w : p.wells) if ((first && rep == 0) || r.chance(1, 3)) {
        Spec s; for (auto& x : d.specs) if (x.w == w) s = x;
        for (int t = 0; t < 200; ++t) {
            Comp c; c.w = w; c.ws = VS(1, w); c.i = r.in(1, nx); c.j = r.in(1, ny); c.k1 = r.in(1, nz); c.k2 = std::min(nz, c.k1 + r.in(0, 2)); c.wi = r.chance(1, 4) ? 0 : r.in(1, 500); c.dia = r.chance(1, 4) ? 0 : r.in(1, 5);
            if (r.chance(1, 3)) c.i = 0; if (r.chance(1, 3)) c.j = 0; if (r.chance(1, 4)) c.k1 = 0; if (r.chance(1, 4)) c.k2 = 0;
            bool ok = true; for (int k = c.k1 ? c.k1 : 1; k <= (c.k2 ? c.k2 : nz); ++k) if (!on((c.i ? c.i : s.i) - 1, (c.j ? c.j : s.j) - 1, k - 1)) ok = false;
            if (ok) { d.comp.push_back(c); break; }
        }
    }
    if (r.chance(1, 8)) { // one record for several wells
        for (int t = 0; t < 100; ++t) { Comp c; c.w = r.chance(1, 2) ? "P*" : r.chance(1, 2) ? "I*" : "*"; for (auto& w : p.wells) if (c.w == "*" || w[0] == c.w[0]) c.ws.push_back(w); c.i = r.in(1, nx); c.j = r.in(1, ny); c.k1 = c.k2 = r.in(1, nz); c.wi = r.in(1, 500);
            if (!c.ws.empty() && on(c.i - 1, c.j - 1, c.k1 - 1)) { d.comp.push_back(c); break; } } }
    if (r.chance(1, 2)) { std::vector<Comp> x = since(d.comp, c0); r.shuffle(x); std::copy(x.begin(), x.end(), d.comp.begin() + c0); }
}
static bool complete(const Deck& d, const Plan& p) { for (auto& w : p.wells) { bool f = false; for (auto& c : d.comp) if (std::find(c.ws.begin(), c.ws.end(), w) != c.ws.end()) f = true; if (!f) return false; } return true; }
static Deck randDeck(Rng& r, Plan& p)
{
    for (;;) {
        Deck d; p = Plan(); int ph = r.in(0, 4); if (ph == 0) { d.pos = {0, 1, 2}; } else if (ph == 1) { d.np = 3; d.pos = {1, 2, 3}; } else d.field = r.chance(1, 2);
        d.dims = {r.in(1, 4), r.in(1, 4), r.in(1, 5)}; int n = d.dims[0]*d.dims[1]*d.dims[2]; VI on; bool holes = r.chance(2, 3);
        for (int i = 0; i < n; ++i) if (!holes || r.chance(4, 5)) on.push_back(i);
        if (on.empty()) continue;
        if (r.chance(1, 3)) r.shuffle(on);
        d.act = VI(n, -1); for (size_t c = 0; c < on.size(); ++c) { d.act[on[c]] = c; d.cz.push_back(100 + 10*(on[c]/(d.dims[0]*d.dims[1])) + r.in(0, 9)); d.dx.push_back(r.in(5, 50)); d.dy.push_back(r.in(5, 50)); d.dz.push_back(r.in(1, 9)); d.kx.push_back(r.in(1, 9)); d.ky.push_back(r.in(1, 9)); }
        d.nogc = true; for (int i = 0; i < n; ++i) if (d.act[i] != i) d.nogc = false; if (d.nogc) d.nogc = r.chance(1, 2);
        int ng = r.in(1, 4), nw = r.in(1, 5);
        VS names = {"G1", "G2", "G3", "FIELD"}; r.shuffle(names);
        for (int g = 0; g < ng; ++g) { p.groups.push_back(names[g]); p.par.push_back(g == 0 || r.chance(1, 4) ? -1 : r.in(0, g - 1)); if (p.par[g] >= 0) d.tree.push_back({names[g], names[p.par[g]]}); }
        r.shuffle(d.tree);
        int i = 0, q = 0; VS all;
        for (int w = 0; w < nw; ++w) { bool inj = r.chance(2, 5); p.inj.push_back(inj); p.wells.push_back(inj ? "I" + N(++i) : "P" + N(++q)); }
        for (int rep = 0; rep < 2; ++rep) for (int w = 0; w < nw; ++w) if (rep == 0 || r.chance(1, 8)) d.specs.push_back({p.wells[w], r.pick(p.groups), r.in(1, d.dims[0]), r.in(1, d.dims[1]), r.chance(1, 2) ? -1 : r.chance(1, 6) ? 0 : r.in(0, 900)});
        // every group has to be named by a record that is in force
        VS used; for (auto& t : d.tree) { used.push_back(t.c); used.push_back(t.p); } for (auto& w : p.wells) used.push_back(groupOf(d, w));
        bool all_used = true; for (auto& g : p.groups) if (std::find(used.begin(), used.end(), g) == used.end()) all_used = false;
        for (auto& s : d.specs) if (std::find(used.begin(), used.end(), s.g) == used.end()) all_used = false;
        if (!all_used) continue;
        comps(d, p, r); if (!complete(d, p)) continue;
        controls(d, p, r); groupControls(d, p, r, false); if (r.chance(1, 3)) flags(d, p, r);
        return d;
    }
}
// Something that cannot be built.
static void spoil(Deck& d, const Plan& p, Rng& r)
{
    int k = r.in(0, 9); bool hasI = !d.inje.empty(), hasP = !d.prod.empty();
    Comp c = r.pick(d.comp); Con ci, cp; if (hasI) ci = r.pick(d.inje); if (hasP) cp = r.pick(d.prod);
    auto inj = [&]() { d.inje.push_back(ci); }; auto pro = [&]() { d.prod.push_back(cp); }; auto com = [&]() { d.comp.push_back(c); };
    if (k == 3) { VI off; for (size_t i = 0; i < d.act.size(); ++i) if (d.act[i] < 0) off.push_back(i); if (off.empty()) k = 0;
        else { int x = r.pick(off); c.i = x % d.dims[0] + 1; c.j = x/d.dims[0] % d.dims[1] + 1; c.k1 = c.k2 = x/(d.dims[0]*d.dims[1]) + 1; com(); return; } }
    int off = d.pos[0] == 0 ? 1 : d.pos[2] == 0 ? 3 : 0; if (k == 9 && !off && !hasI) k = 6;
    if (k == 0) { c.i = d.dims[0] + r.in(1, 2); com(); }
    else if (k == 1) { c.j = d.dims[1] + r.in(1, 2); com(); }
    else if (k == 2) { c.k2 = d.dims[2] + r.in(1, 2); com(); }
    else if (k == 4) { c.w = "X9"; c.ws = VS(1, "X9"); com(); }
    else if (k == 5) { Con x; x.w = "X9"; bool in = hasI && r.chance(1, 2); conOf(x, d, in, r); (in ? d.inje : d.prod).push_back(x); }
    else if (k == 6) d.flags.push_back({"X9", r.chance(1, 2)});
    else if (k == 7) { if (hasP) { int m = r.in(0, 4); cp.mode = PN[m]; cp.v[m] = -1; pro(); } else { ci.mode = "RESV"; ci.v[1] = -1; inj(); } }
    else if (k == 8) { if (hasI) { ci.thp = 50; inj(); } else { cp.thp = 50; pro(); } }
    else if (!off) { Con x; x.w = ci.w; conOf(x, d, false, r); d.prod.push_back(x); }
    else if (hasI && (!hasP || r.chance(1, 2))) { ci.t = off; inj(); }
    else { cp.v[off == 1 ? 1 : 2] = 100; pro(); }
}
static Opm::EclipseGridParser* parse(const std::string& file, const std::string& t)
{
    std::ofstream(file.c_str()) << t; op("reading the deck");
    try { return new Opm::EclipseGridParser(file, true); } catch (std::exception&) { Ev("unreadable").put("run", ++run).put("t", t).emit(); return 0; }
}
static std::string head(const Deck& d) { return std::string(d.field ? "FIELD\n\n" : "METRIC\n\n") + (d.pos[0] ? "WATER\n\n" : "") + "OIL\n\n" + (d.pos[2] ? "GAS\n\n" : "") + "SCHEDULE\n\n"; }

int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); std::string file = a.work;
    if (!a.script.empty()) {
        std::ifstream in(a.script); std::string all, line;
        while (std::getline(in, all)) {
            std::istringstream cmds(all); Deck d; d.cz = {100, 101, 110, 111}; d.dx = d.dy = d.dz = d.kx = d.ky = {10, 20, 30, 40}; d.act = {0, 1, 2, -1, 3, -1}; d.dims = {2, 1, 3};
            d.act = {0, 1, 2, -1, 3, -1};
            while (std::getline(cmds, line, ';')) {
                std::istringstream is(line); std::string k; is >> k;
                if (k == "spec") { Spec s; is >> s.w >> s.g >> s.i >> s.j >> s.dep; d.specs.push_back(s); }
                else if (k == "comp") { Comp c; is >> c.w >> c.i >> c.j >> c.k1 >> c.k2 >> c.wi; c.ws = VS(1, c.w); d.comp.push_back(c); }
                else if (k == "inje" || k == "prod") { Con c; int sh; c.t = 0; is >> c.w; if (k == "inje") is >> c.t; is >> sh >> c.mode; c.shut = sh; c.v.resize(k == "inje" ? 2 : 5); for (auto& x : c.v) is >> x; is >> c.bhp; c.thp = 0; (k == "inje" ? d.inje : d.prod).push_back(c); }
                else if (k == "flag") { Flag f; int sh; is >> f.w >> sh; f.shut = sh; d.flags.push_back(f); }
                else if (k == "tree") { Tree t; is >> t.c >> t.p; d.tree.push_back(t); }
                else if (k == "gprod") { GP g; is >> g.g >> g.mode; g.v.resize(5); for (auto& x : g.v) is >> x; is >> g.proc; d.gprod.push_back(g); }
                else if (k == "build") { std::unique_ptr<Opm::EclipseGridParser> P(parse(file, head(d) + text(d, ALL, r) + "TSTEP\n 1 /\n\nEND\n")); if (P) { Built b(d); b.build(*P); } }
            }
        }
    }
    int n = a.thorough ? 3000 : 400;
    for (int t = 0; t < n; ++t) {
        Plan p; std::vector<Deck> es(1, randDeck(r, p)); int ne = r.chance(1, 3) ? r.in(2, 3) : 1; bool bad = r.chance(1, 5); int badAt = bad ? r.in(0, ne - 1) : -1;
        std::string T = head(es[0]); VS kw = ALL; if (r.chance(1, 4)) { VS sh(kw.begin() + 2, kw.end()); r.shuffle(sh); std::copy(sh.begin(), sh.end(), kw.begin() + 2); }
        if (badAt == 0) spoil(es[0], p, r);
        T += text(es[0], kw, r) + "TSTEP\n 1 /\n\n";
        for (int e = 1; e < ne; ++e) {
            if (badAt == e - 1) { es.resize(e); ne = e; break; }   // nothing follows what cannot be built
            Deck d = es.back(); d.next(); VS now = VS(ALL.begin() + 1, ALL.end());
            if (r.chance(1, 3)) comps(d, p, r);
            if (r.chance(1, 2)) { controls(d, p, r); if (!d.flags.empty()) flags(d, p, r); groupControls(d, p, r, true); }
            else if (r.chance(1, 2)) flags(d, p, r);
            if (badAt == e) spoil(d, p, r);
            std::string t2 = text(d, now, r); if (t2.empty()) { ne = e; break; }      // no record, no epoch
            es.push_back(d); T += t2 + "TSTEP\n 2 /\n\n";
        }
        T += "END\n";
        std::unique_ptr<Opm::EclipseGridParser> P(parse(file, T)); if (!P) continue;
        VI order; for (int e = 0; e < (int) es.size(); ++e) order.push_back(e); if (r.chance(1, 2)) r.shuffle(order);
        for (int e : order) {
            P->setCurrentEpoch(e); Built b(es[e]); if (!b.build(*P)) continue;
            for (int q = r.in(0, 3); q > 0; --q) { Meas m = b.measured(r); if (r.chance(1, 2)) b.replace(m); else b.check(m); }
        }
    }
    done();
}
