// Well groups driven through the library's own classes: trees of groups and
// wells, group targets applied, measured rates checked, production replaced.
#include "config.h"
#include "common.hpp"
#include <opm/core/wells.h>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>
#include <memory>
#ifndef FOCUS
#define FOCUS 2   // 2: checking limits, 3: sharing targets, 4: replacement
#endif
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static const double SC = 27720.0;
static int qr(double x) { double y = std::floor(x*SC + 0.5); return y > -2.5e7 && y < 2.5e7 ? (int) y : BAD; }
static const char* PM[] = {"NONE","ORAT","WRAT","GRAT","LRAT","CRAT","RESV","PRBL","BHP","THP","GRUP","FLD"};
static const char* IM[] = {"NONE","RATE","RESV","BHP","THP","REIN","VREP","GRUP","FLD"};
static const int PK[5] = {1, 2, 3, 4, 6};      // ORAT WRAT GRAT LRAT RESV
static const int IK[2] = {1, 2};

struct Ctl { std::string t; int v; VI d; };
struct Grp { int par = 0, pm = 0, im = 0, it = 1, rf = 4, vf = 4; VI pl = VI(5, -1), il = VI(2, -1); std::string proc = "NONE"; };
struct Wel { int par = 1; bool inj = false, grup = false, closed = false; int gr = 1, cur = 0; std::vector<Ctl> c; };
struct Cfg { int np = 2; VI pos = {1, 2, 0}; std::vector<Grp> g; std::vector<Wel> w; VI order; };   // order: +g, -w (from 1)
struct Meas { VI bhp; std::vector<VI> res, surf; };

static Raw jc(const Cfg& c)
{
    std::vector<Raw> gs, ws;
    for (auto& g : c.g) gs.push_back(Ev().put("par", g.par).put("pm", PM[g.pm]).put("im", IM[g.im]).put("pl", g.pl).put("il", g.il).put("proc", g.proc).put("it", g.it).put("rf", g.rf).put("vf", g.vf).asRaw());
    for (auto& w : c.w) { std::vector<Raw> cs; for (auto& k : w.c) cs.push_back(Ev().put("t", k.t).put("v", k.v).put("d", k.d).asRaw());
        ws.push_back(Ev().put("par", w.par).put("kind", w.inj ? "I" : "P").put("grup", w.grup).put("closed", w.closed).put("gr", w.gr).put("cur", w.cur).put("ctrls", cs).asRaw()); }
    return Ev().put("np", c.np).put("pos", c.pos).put("groups", gs).put("wells", ws).asRaw();
}
static Raw jm(const Meas& m) { return Ev().put("bhp", m.bhp).put("res", m.res).put("surf", m.surf).asRaw(); }

struct Sys {
    Wells* W = 0; WellCollection col; Cfg c;
    ~Sys() { destroy_wells(W); }
    Raw show() const {
        std::vector<Raw> ws;
        for (int w = 0; w < W->number_of_wells; ++w) {
            const WellControls* k = W->ctrls[w]; std::vector<Raw> cs;
            for (int i = 0; i < k->num; ++i) {
                VI d; if (k->type[i] != BHP) for (int p = 0; p < c.np; ++p) d.push_back(qi(k->distr[i*c.np + p]));
                cs.push_back(Ev().put("t", k->type[i] == BHP ? "BHP" : k->type[i] == RESERVOIR_RATE ? "RESV" : "SURF").put("v", qr(k->target[i])).put("d", d).asRaw());
            }
            ws.push_back(Ev().put("c", cs).put("cur", k->current).asRaw());
        }
        return Raw{j(ws)};
    }
    void build(const Cfg& cc) {
        c = cc; op("building the wells");
        PhaseUsage pu; pu.num_phases = c.np;
        for (int p = 0; p < 3; ++p) { pu.phase_used[p] = c.pos[p] > 0; pu.phase_pos[p] = c.pos[p] > 0 ? c.pos[p] - 1 : 0; }
        W = create_wells(c.np, c.w.size(), c.w.size());
        for (size_t i = 0; i < c.w.size(); ++i) {
            const Wel& w = c.w[i]; int cell = i; double wi = 1.0, cf[3] = {1, 0, 0};
            add_well(w.inj ? INJECTOR : PRODUCER, 0.0, 1, cf, &cell, &wi, ("W" + std::to_string(i + 1)).c_str(), W);
            for (auto& k : w.c) { double d[3] = {0, 0, 0}; for (size_t p = 0; p < k.d.size(); ++p) d[p] = k.d[p];
                append_well_controls(k.t == "BHP" ? BHP : k.t == "RESV" ? RESERVOIR_RATE : SURFACE_RATE, k.v, k.t == "BHP" ? 0 : d, i, W); }
            set_current_control(i, w.cur > 0 ? w.cur - 1 : -1, W);
        }
        for (int o : c.order) {
            std::tr1::shared_ptr<WellsGroupInterface> n; int par;
            ProductionSpecification ps; InjectionSpecification is;
            if (o > 0) {
                const Grp& g = c.g[o - 1]; par = g.par;
                ps.control_mode_ = (ProductionSpecification::ControlMode) g.pm; is.control_mode_ = (InjectionSpecification::ControlMode) g.im;
                double* pl[5] = {&ps.oil_max_rate_, &ps.water_max_rate_, &ps.gas_max_rate_, &ps.liquid_max_rate_, &ps.reservoir_flow_max_rate_};
                for (int k = 0; k < 5; ++k) if (g.pl[k] >= 0) *pl[k] = g.pl[k];
                if (g.il[0] >= 0) is.surface_flow_max_rate_ = g.il[0];
                if (g.il[1] >= 0) is.reservoir_flow_max_rate_ = g.il[1];
                ps.procedure_ = g.proc == "RATE" ? ProductionSpecification::RATE : g.proc == "WELL" ? ProductionSpecification::WELL : ProductionSpecification::NONE_P;
                is.injector_type_ = g.it == 1 ? InjectionSpecification::WATER : g.it == 2 ? InjectionSpecification::OIL : InjectionSpecification::GAS;
                is.reinjection_fraction_target_ = g.rf/4.0; is.voidage_replacment_fraction_ = g.vf/4.0;
                n.reset(new WellsGroup("G" + std::to_string(o), ps, is, pu));
            } else {
                const Wel& w = c.w[-o - 1]; par = w.par;
                if (w.inj) { is.control_mode_ = w.grup ? InjectionSpecification::GRUP : InjectionSpecification::RATE; is.guide_rate_ = w.gr; ps.guide_rate_ = 0.0; }
                else { ps.control_mode_ = w.grup ? ProductionSpecification::GRUP : ProductionSpecification::ORAT; ps.guide_rate_ = w.gr; is.guide_rate_ = 0.0; }
                n.reset(new WellNode("W" + std::to_string(-o), ps, is, pu));
            }
            if (par == 0) col.addChild(n); else col.addChild(n, "G" + std::to_string(par));
        }
        col.setWellsPointer(W);
        for (size_t i = 0; i < c.w.size(); ++i) if (c.w[i].closed) col.getLeafNodes()[i]->shutWell();
        static int run = 0; Ev("new").put("run", ++run).put("cfg", jc(c)).put("w", show()).emit();
    }
    bool apply() { op("applyGroupControls"); try { col.applyGroupControls(); } catch (std::exception&) { Ev("refused").put("what", "apply").emit(); return false; }
        Ev("apply").put("w", show()).emit(); return true; }
    static VD flat(const std::vector<VI>& m) { VD v; for (auto& r : m) v.insert(v.end(), r.begin(), r.end()); return v; }
    bool check(const Meas& m) { op("conditionsMet"); bool ok = false;
        try { ok = col.conditionsMet(VD(m.bhp.begin(), m.bhp.end()), flat(m.res), flat(m.surf)); } catch (std::exception&) { Ev("refused").put("what", "check").put("m", jm(m)).emit(); return true; }
        Ev("check").put("m", jm(m)).put("ok", ok).put("w", show()).emit(); return ok; }
    void replace(const Meas& m) { op("applyExplicitReinjectionControls");
        try { col.applyExplicitReinjectionControls(flat(m.res), flat(m.surf)); } catch (std::exception&) { Ev("refused").put("what", "replace").put("m", jm(m)).emit(); return; }
        Ev("replace").put("m", jm(m)).put("w", show()).emit(); }
    void told(int g, bool inj, int k, int target, bool forced) {
        op("group control imposed"); WellsGroupInterface* n = col.findNode("G" + std::to_string(g));
        try { if (inj) n->applyInjGroupControl((InjectionSpecification::ControlMode) IK[k], target, forced);
              else n->applyProdGroupControl((ProductionSpecification::ControlMode) PK[k], target, forced); } catch (std::exception&) { Ev("refused").put("what", "told").emit(); return; }
        Ev("told").put("g", g).put("k", inj ? "I" : "P").put("mode", inj ? IM[IK[k]] : PM[PK[k]]).put("target", target).put("forced", forced).put("w", show()).emit(); }
    void shut(int i) { op("shutWell"); col.getLeafNodes()[i]->shutWell(); Ev("shut").put("i", i + 1).put("w", show()).emit(); }
    bool closedNow(int i) const { return W->ctrls[i]->current < 0; }
    bool hasRep() const { for (auto& g : c.g) if (g.im == 5 || g.im == 6) return true; return false; }
};

static bool under(const Cfg& c, int g, int a) { while (g > 0 && g != a) g = c.g[g - 1].par; return g == a; }

static bool usable(const Cfg& c, int k) { return k == 0 ? c.pos[1] > 0 : k == 1 ? c.pos[0] > 0 : k == 2 ? c.pos[2] > 0 : k == 3 ? (c.pos[0] > 0 && c.pos[1] > 0) : true; }

static Cfg randCfg(Rng& r)
{
    Cfg c; int ph = r.in(0, 3);
    if (ph == 0) { c.np = 2; c.pos = {0, 1, 2}; } else if (ph == 1) { c.np = 3; c.pos = {1, 2, 3}; } else { c.np = 2; c.pos = {1, 2, 0}; }
    int ng = r.in(1, 5), nw = r.in(1, 6);
    for (int g = 1; g <= ng; ++g) { Grp x; x.par = r.chance(1, 5) ? 0 : r.in(0, g - 1); c.g.push_back(x); }
    auto usable = [&](int k) { return ::usable(c, k); };
    bool tight = r.chance(1, 2);
    auto lim = [&]() { return 4*r.in(0, tight ? 6 : 40); };
    auto unit = [&](int p) { VI d(c.np, 0); d[c.pos[p] - 1] = 1; return d; };
    for (int i = 0; i < nw; ++i) {
        Wel w; w.par = r.in(1, ng); w.inj = r.chance(2, 5); w.grup = r.chance(1, 2); w.gr = r.in(1, 3);
        if (w.inj) { if (r.chance(2, 3)) w.c.push_back({"SURF", lim(), VI(c.np, 1)}); if (r.chance(1, 2)) w.c.push_back({"RESV", lim(), VI(c.np, 1)}); }
        else {
            for (int k = 0; k < 4; ++k) if (usable(k) && r.chance(1, 3)) { VI d; if (k == 0) d = unit(1); else if (k == 1) d = unit(0); else if (k == 2) d = unit(2); else { d = unit(0); d[c.pos[1] - 1] = 1; }
                w.c.push_back({"SURF", -lim(), d}); }
            if (r.chance(1, 3)) w.c.push_back({"RESV", -lim(), VI(c.np, 1)});
        }
        if (r.chance(2, 3) || (w.c.empty() && !w.grup)) w.c.push_back({"BHP", 100 + r.in(0, 6), VI()});
        if (r.chance(1, 4)) r.shuffle(w.c);
        if (!w.grup) w.cur = r.in(1, w.c.size());
        w.closed = r.chance(1, 10);
        c.w.push_back(w);
    }
    auto grouped = [&](int g, bool inj) { for (auto& w : c.w) if (w.inj == inj && w.grup && !w.closed && under(c, w.par, g)) return true; return false; };
    for (int g = 1; g <= ng; ++g) {
        Grp& x = c.g[g - 1]; bool pa = false, ia = false, ra = false;
        for (int a = x.par; a > 0; a = c.g[a - 1].par) { if (c.g[a - 1].pm != 0 && c.g[a - 1].pm != 11) pa = true; int m = c.g[a - 1].im; if (m != 0 && m != 8) ia = true; if (m == 5 || m == 6) ra = true; }
        x.pm = r.chance(1, 3) ? 11 : 0; x.im = r.chance(1, 3) ? 8 : 0;
        for (int k = 0; k < 5; ++k) if (usable(k) && r.chance(1, 3)) x.pl[k] = lim()*r.in(1, 3);
        if (!ra) for (int k = 0; k < 2; ++k) if (r.chance(1, 3)) x.il[k] = lim()*r.in(1, 3);
        if (!pa && grouped(g, false) && r.chance(1, 2)) { int k; do k = r.in(0, 4); while (!usable(k)); if (x.pl[k] < 0) x.pl[k] = lim()*r.in(1, 3); x.pm = PK[k]; }
        if (!ia && grouped(g, true) && r.chance(FOCUS == 4 ? 5 : 2, FOCUS == 4 ? 6 : 3)) {
            int k = r.in(FOCUS == 4 ? (r.chance(3, 4) ? 2 : 0) : 0, 3);
            if (k < 2) { if (x.il[k] < 0) x.il[k] = lim()*r.in(1, 3); x.im = IK[k]; } else x.im = k + 3;
        }
        do x.it = r.in(1, 3); while (c.pos[x.it - 1] == 0);
        x.rf = r.pick(VI{2, 4, 4, 6, 8, 3}); x.vf = r.pick(VI{2, 4, 4, 6, 8, 1});
        x.proc = r.chance(1, 2) ? "RATE" : r.chance(2, 3) ? "WELL" : "NONE";
    }
    // children are added parents first, otherwise in any order; wells in their own order
    VI gs; for (int g = 1; g <= ng; ++g) gs.push_back(g);
    int nextw = 0; std::vector<bool> in(ng + 1, false); in[0] = true; size_t left = ng + nw;
    while (left) {
        VI can; for (int g = 1; g <= ng; ++g) if (!in[g] && in[c.g[g - 1].par]) can.push_back(g);
        if (nextw < nw && in[c.w[nextw].par]) can.push_back(-nextw - 1);
        int o = r.pick(can); c.order.push_back(o); --left; if (o > 0) in[o] = true; else ++nextw;
    }
    return c;
}

// Measured pressures and rates; wells that do not flow have no rates.
static Meas randMeas(Rng& r, const Sys& s, int top)
{
    Meas m; int np = s.c.np;
    for (size_t i = 0; i < s.c.w.size(); ++i) {
        m.bhp.push_back(100 + r.in(0, 6)); VI a(np), b(np); int sg = s.c.w[i].inj ? 1 : -1; bool off = s.closedNow(i) || r.chance(1, 6);
        for (int p = 0; p < np; ++p) { a[p] = off ? 0 : sg*4*r.in(0, top); b[p] = off ? 0 : sg*4*r.in(0, top); }
        m.res.push_back(a); m.surf.push_back(b);
    }
    return m;
}

int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    std::unique_ptr<Sys> s; Meas m;
    if (!a.script.empty()) {     // behaviours of the specification: "G ..; W ..; go; apply; m ..; check; replace"
        std::ifstream in(a.script); std::string all, line;
        while (std::getline(in, all)) {
            std::istringstream cmds(all); Cfg c;
            while (std::getline(cmds, line, ';')) {
                std::istringstream is(line); std::string k; is >> k;
                if (k == "begin") { c = Cfg(); is >> c.np >> c.pos[0] >> c.pos[1] >> c.pos[2]; }
                else if (k == "G") { Grp g; std::string pm, im; is >> g.par >> pm >> im; for (auto& x : g.pl) is >> x; for (auto& x : g.il) is >> x; is >> g.proc >> g.it >> g.rf >> g.vf;
                    for (int i = 0; i < 12; ++i) if (pm == PM[i]) g.pm = i; for (int i = 0; i < 9; ++i) if (im == IM[i]) g.im = i; c.g.push_back(g); c.order.push_back(c.g.size()); }
                else if (k == "W") { Wel w; std::string kd; int gp, cl, n; is >> w.par >> kd >> gp >> cl >> w.gr >> w.cur >> n; w.inj = kd == "I"; w.grup = gp; w.closed = cl;
                    for (int i = 0; i < n; ++i) { Ctl t; is >> t.t >> t.v; if (t.t != "BHP") { t.d.resize(c.np); for (auto& x : t.d) is >> x; } w.c.push_back(t); } c.w.push_back(w); c.order.push_back(-(int) c.w.size()); }
                else if (k == "go") { s.reset(new Sys); s->build(c); }
                else if (k == "apply") s->apply();
                else if (k == "m") { m = Meas(); for (size_t w = 0; w < c.w.size(); ++w) { int b; is >> b; m.bhp.push_back(b); VI x(c.np), y(c.np); for (auto& v : x) is >> v; for (auto& v : y) is >> v; m.res.push_back(x); m.surf.push_back(y); } }
                else if (k == "check" && FOCUS == 2) s->check(m);
                else if (k == "check") break;
                else if (k == "replace" && FOCUS == 4) s->replace(m);
                else if (k == "replace") break;
            }
        }
    }
    int n = a.thorough ? 4000 : FOCUS == 2 ? 400 : 700;
    for (int t = 0; t < n; ++t) {
        s.reset(new Sys); s->build(randCfg(r));
        bool ok = true; for (int k = r.chance(1, 10) ? 0 : r.chance(1, 6) ? 2 : 1; ok && k > 0; --k) ok = s->apply();
        int len = r.in(3, 12), top = r.pick(VI{2, 5, 10});
        for (int q = 0; ok && q < len; ++q) {
            if (r.chance(1, 10)) s->shut(r.in(0, s->c.w.size() - 1));
            else if (FOCUS == 3) {
                if (q >= 4) break;
                int g = r.in(1, s->c.g.size()), k; bool inj = r.chance(1, 3), forced = r.chance(1, 2), nested = false;
                if (inj) k = r.in(0, 1); else do k = r.in(0, 4); while (!usable(s->c, k));
                // what a target means below a group that has one of its own is not specified
                for (size_t h = 1; h <= s->c.g.size(); ++h) if ((int) h != g && under(s->c, h, g)) { int md = inj ? s->c.g[h-1].im : s->c.g[h-1].pm; if (md != 0 && md != (inj ? 8 : 11)) nested = true; }
                if (!nested || forced) s->told(g, inj, k, r.in(0, 60), forced);
            } else if (FOCUS == 4) { if (s->hasRep()) s->replace(randMeas(r, *s, top)); else break; }
            else { m = randMeas(r, *s, r.chance(1, 3) ? 1 : top);
                for (int rep = 0; rep < 5; ++rep) { if (s->check(m)) break; bool again = r.chance(2, 3);
                    for (size_t i = 0; i < s->c.w.size(); ++i) if (s->closedNow(i)) { std::fill(m.res[i].begin(), m.res[i].end(), 0); std::fill(m.surf[i].begin(), m.surf[i].end(), 0); }
                    if (!again) break; } }
        }
    }
    done();
}
