// Driver for C32: volumes, averages, mobilities, fractional flows, sources and well rates reported from a state.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/wells.h>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int rnd(double x, double Q) { double y = std::floor(x*Q + 0.5); return y != y || y - y != 0 || y > 2e9 || y < -2e9 ? BAD : (int) y; }
static VD dv(const VI& v, double q = 1.0) { VD d; for (int x : v) d.push_back(x/q); return d; }
static std::string jn(const VD& v, double q = 1.0) { return jdn(v.data(), v.size(), q); }
static std::string jr(const VD& v, double q) { VI o; for (double x : v) o.push_back(rnd(x, q)); return j(o); }
// Relative permeability R[cell][phase]*saturation; viscosities 1, 2 or 4.
struct Fluid { int nc, np; VI R, mu, rho; VD mud, rhod; };
static void kr(const Fluid& f, int n, const double* s, const int* cells, double* k, double* d)
{ for (int i = 0; i < n; ++i) for (int p = 0; p < f.np; ++p) { if (cells[i] < 0 || cells[i] >= f.nc) throw std::runtime_error("cell"); k[i*f.np + p] = f.R[cells[i]*f.np + p]*s[i*f.np + p]; if (d) for (int q = 0; q < f.np; ++q) d[(i*f.np + q)*f.np + p] = q == p ? f.R[cells[i]*f.np + p] : 0; } }
struct Inc : IncompPropertiesInterface {
    const Fluid& f; Inc(const Fluid& g) : f(g) {}
    int numDimensions() const { return 3; } int numCells() const { return f.nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    int numPhases() const { return f.np; } const double* viscosity() const { return f.mud.data(); } const double* density() const { return f.rhod.data(); } const double* surfaceDensity() const { return f.rhod.data(); }
    void relperm(const int n, const double* s, const int* c, double* k, double* d) const { kr(f, n, s, c, k, d); }
    void capPress(const int n, const double*, const int*, double* pc, double*) const { std::fill(pc, pc + n*f.np, 0.0); }
    void satRange(const int n, const int*, double* a, double* b) const { std::fill(a, a + n*f.np, 0.0); std::fill(b, b + n*f.np, 1.0); }
};
struct Bo : BlackoilPropertiesInterface {
    const Fluid& f; Bo(const Fluid& g) : f(g) {}
    int numDimensions() const { return 3; } int numCells() const { return f.nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; }
    int numPhases() const { return f.np; }
    void viscosity(const int n, const double* p, const double* z, const int* c, double* mu, double*) const
    { for (int i = 0; i < n; ++i) for (int q = 0; q < f.np; ++q) mu[i*f.np + q] = double(1 << ((int(p[i]) + int(z[i*f.np + q]) + c[i] + q) % 3)); }
    void matrix(const int n, const double* p, const double* z, const int* c, double* A, double*) const
    { for (int i = 0; i < n; ++i) for (int a = 0; a < f.np; ++a) for (int b = 0; b < f.np; ++b) A[(i*f.np + b)*f.np + a] = a == b ? 2 + (int(p[i]) + c[i] + a) % 3 : (int(4*z[i*f.np + a]) + a + 2*b) % 3; }
    void density(const int n, const double*, double* rho) const { std::fill(rho, rho + n*f.np, 1.0); } const double* surfaceDensity() const { return f.rhod.data(); }
    void relperm(const int n, const double* s, const int* c, double* k, double* d) const { kr(f, n, s, c, k, d); }
    void capPress(const int n, const double*, const int*, double* pc, double*) const { std::fill(pc, pc + n*f.np, 0.0); }
    void satRange(const int n, const int*, double* a, double* b) const { std::fill(a, a + n*f.np, 0.0); std::fill(b, b + n*f.np, 1.0); }
};
static Fluid fluid(Rng& r, int nc, int np)
{ Fluid f; f.nc = nc; f.np = np; for (int k = 0; k < nc*np; ++k) f.R.push_back(r.in(1, 4)); for (int p = 0; p < np; ++p) { f.mu.push_back(1 << r.in(0, 2)); f.rho.push_back(r.in(1, 20)); } f.mud = dv(f.mu); f.rhod = dv(f.rho); return f; }
static VI sats(Rng& r, int n, int np) { VI s; for (int i = 0; i < n; ++i) { VI q(np, 0); for (int k = 0; k < 4; ++k) ++q[r.in(0, np - 1)]; s.insert(s.end(), q.begin(), q.end()); } return s; } // quarters, adding up to one
static VI ints(Rng& r, int n, int lo, int hi) { VI v; for (int i = 0; i < n; ++i) v.push_back(r.in(lo, hi)); return v; }
static VD dirty(Rng& r, int n) { VD v; int m = r.in(0, 2) == 0 ? 0 : r.in(0, n + 2); for (int i = 0; i < m; ++i) v.push_back(r.in(100, 200)); return v; } // what outputs may hold beforehand
static std::string hd(const Fluid& f) { return "\"nc\":" + j(f.nc) + ",\"np\":" + j(f.np) + ",\"R\":" + j(f.R) + ",\"mu\":" + j(f.mu) + ",\"rho\":" + j(f.rho); }
static void body(const char* e, const std::string& s, const Ev& rest) { std::string t = rest.str(); Raw w{std::string("{\"e\":\"") + e + "\"," + s + (t.size() > 2 ? "," + t.substr(1) : "}") + "\n"}; size_t o = 0; while (o < w.s.size()) { ssize_t k = write(g_fd, w.s.data() + o, w.s.size() - o); if (k <= 0) _exit(78); o += k; } }

struct WellSpec { int type, depth, cur, depthn; VI cells, comp; std::vector<VI> ctrl; VI targets, ctype; };
struct WellsH { Wells* w; std::vector<WellSpec> s; int np; WellsH() : w(0) {} ~WellsH() { if (w) destroy_wells(w); } };
// Wells: compositions in quarters, controls as type, target and distribution.
static void make(Rng& r, WellsH& h, int nc, int np, int nw, bool single, bool any_controls)
{
    h.np = np; h.w = create_wells(np, nw, 16);
    for (int i = 0; i < nw; ++i) { WellSpec s; s.type = r.in(0, 1); s.depth = r.in(0, 20); int n = single ? 1 : r.in(1, 3); s.cells = ints(r, n, 0, nc - 1); s.comp = sats(r, 1, np);
        VD cf = dv(s.comp, 4.0); add_well(s.type ? PRODUCER : INJECTOR, s.depth, n, cf.data(), s.cells.data(), 0, 0, h.w);
        int k = r.in(1, 3); for (int c = 0; c < k; ++c) { int t = any_controls ? r.in(0, 2) : 1; int target = t == 0 ? r.in(1, 30) : (s.type ? -1 : 1)*r.in(1, 30); VI d; for (int p = 0; p < np; ++p) d.push_back(any_controls && r.chance(1, 6) ? 0 : 1);
            VD dd = dv(d); append_well_controls(t == 0 ? BHP : t == 1 ? RESERVOIR_RATE : SURFACE_RATE, target, dd.data(), i, h.w); s.ctype.push_back(t); s.targets.push_back(target); s.ctrl.push_back(d); }
        s.cur = r.in(0, k - 1); set_current_control(i, s.cur, h.w); h.s.push_back(s); }
}
static std::string jw(const WellsH& h) { std::string o = "["; for (size_t i = 0; i < h.s.size(); ++i) { const WellSpec& s = h.s[i]; std::string cs = "["; for (size_t c = 0; c < s.ctrl.size(); ++c) cs += std::string(c ? "," : "") + Ev().put("t", s.ctype[c]).put("target", s.targets[c]).put("distr", s.ctrl[c]).str(); o += std::string(i ? "," : "") + Ev().put("prod", s.type == 1).put("depth", s.depth).put("cells", s.cells).put("comp", s.comp).put("cur", s.cur + 1).raw("ctrl", cs + "]").str(); } return o + "]"; }

static void volumes(Rng& r)
{
    int nc = r.in(1, 5); FakeGrid g(nc, VI()); VI vol = ints(r, nc, 1, 9), poro = ints(r, nc, 0, 8), press = ints(r, nc, 90, 110); for (int c = 0; c < nc; ++c) g.cv[c] = vol[c];
    VD phi = dv(poro, 8.0), pv = dirty(r, nc), pvc = dirty(r, nc), por = dirty(r, nc), p; int kind = r.in(0, 3); VI tp, tm; int pref = 100, k16 = 0; bool has = true; std::shared_ptr<RockCompressibility> rc;
    op("rock compressibility");
    if (kind == 0) { parameter::ParameterGroup g2; rc.reset(new RockCompressibility(g2)); has = false; }
    else if (kind == 1) { parameter::ParameterGroup g2; k16 = r.in(0, 2); g2.insertParameter("rock_compressibility", std::to_string(k16/16.0)); if (r.chance(2, 3)) { pref = r.in(98, 104); g2.insertParameter("rock_compressibility_pref", std::to_string(pref)); } press = ints(r, nc, pref - 8, pref + 8); rc.reset(new RockCompressibility(g2)); }
    else { std::ostringstream d; d.precision(17); d << "METRIC\n\n";
        if (kind == 2) { k16 = r.in(0, 2); pref = r.in(98, 104); press = ints(r, nc, pref - 8, pref + 8); d << "ROCK\n " << pref << " " << k16/16.0 << " /\n"; }
        else { int n = r.in(2, 5), q = r.in(95, 100), m = r.in(24, 32); d << "ROCKTAB\n"; for (int a = 0; a < n; ++a) { tp.push_back(q); tm.push_back(m); d << " " << q << " " << m/32.0 << " 1.0\n"; q += 1 << r.in(0, 2); m += r.in(0, 12); } d << "/\n"; press = ints(r, nc, tp[0] - 1, tp.back() + 2); }
        std::istringstream is(d.str()); EclipseGridParser dk; dk.read(is); rc.reset(new RockCompressibility(dk)); }
    for (int x : press) p.push_back(x*1e5); VI comp;
    op("pore volumes"); computePorevolume(g.g, phi.data(), pv); computePorevolume(g.g, phi.data(), *rc, p, pvc); computePorosity(g.g, phi.data(), *rc, p, por);
    VI mult, dm; for (double x : p) { mult.push_back(qn(rc->poroMult(x), 512)); dm.push_back(rnd(rc->rockComp(x)*1e5, 1e6)); }
    Ev("rock").put("nc", nc).put("vol", vol).put("poro", poro).put("press", press).put("kind", kind).put("pref", pref).put("k16", k16).put("tp", tp).put("tm", tm)
        .put("active", rc->isActive()).put("mult", mult).put("comp", dm).raw("pv", jn(pv, 8)).raw("pvc", jn(pvc, 4096)).raw("por", jn(por, 4096)).emit();
    // volumes and averages of the phases
    int np = r.in(1, 3); VI ipv = ints(r, nc, 1, 12), s = sats(r, nc, np); if (r.chance(1, 4)) s = ints(r, nc*np, 0, 6); VD vp = dv(ipv), vs = dv(s, 4.0), sv(np, 77.0), av(np, 77.0); bool bad = nc > 1 && r.chance(1, 6), threw = false; if (bad) vs.push_back(0.5);
    op("saturated volumes"); try { computeSaturatedVol(vp, vs, sv.data()); } catch (std::exception&) { threw = true; } bool threw2 = false; try { computeAverageSat(vp, vs, av.data()); } catch (std::exception&) { threw2 = true; }
    if (bad) Ev("sat").put("bad", true).put("threw", threw && threw2).emit();
    else Ev("sat").put("bad", false).put("threw", threw || threw2).put("np", np).put("pv", ipv).put("s", s).raw("vol", jn(sv, 4)).raw("aver", jr(av, 1e6)).emit();
    VI sw = ints(r, r.in(0, 4), 0, 8), so; for (int x : sw) { so.push_back(x); so.push_back(r.in(0, 8)); } VD both = dirty(r, 5), first = dirty(r, 5); op("saturations of one and two phases"); toBothSat(dv(sw, 8.0), both); toWaterSat(dv(so, 8.0), first);
    Ev("split").put("sw", sw).put("so", so).raw("both", jn(both, 8)).raw("first", jn(first, 8)).emit();
}
static void mobility(Rng& r)
{
    int np = r.in(1, 3), nc = r.in(1, 6); Fluid f = fluid(r, nc, np); Inc inc(f); Bo bo(f); int n = r.in(1, 6); VI cells; bool all = r.chance(1, 4); if (all) { for (int c = 0; c < nc; ++c) cells.push_back(c); n = nc; } else cells = ints(r, n, 0, nc - 1); VI s = sats(r, n, np), p = ints(r, n, 0, 9), z = ints(r, n*np, 0, 9); VD vs = dv(s, 4.0);
    VD pm = dirty(r, n*np), tm = dirty(r, n), tm2 = dirty(r, n), om = dirty(r, n), ff = dirty(r, n*np); op("mobilities"); computePhaseMobilities(inc, cells, vs, pm); computeTotalMobility(inc, cells, vs, tm); computeTotalMobilityOmega(inc, cells, vs, tm2, om); computeFractionalFlow(inc, cells, vs, ff);
    body("mob", hd(f), Ev().put("bo", false).put("cells", cells).put("s", s).raw("pm", jn(pm, 16)).raw("tm", jn(tm, 16)).raw("tm2", jn(tm2, 16)).raw("om", jr(om, 1e3)).raw("ff", jr(ff, 1e6)));
    pm = dirty(r, n*np); tm = dirty(r, n); ff = dirty(r, n*np); VD vp = dv(p), vz = dv(z); op("black-oil mobilities"); computePhaseMobilities(bo, cells, vp, vz, vs, pm); computeTotalMobility(bo, cells, vp, vz, vs, tm); computeFractionalFlow(bo, cells, vp, vz, vs, ff);
    body("mob", hd(f), Ev().put("bo", true).put("cells", cells).put("s", s).put("p", p).put("z", z).raw("pm", jn(pm, 16)).raw("tm", jn(tm, 16)).raw("ff", jr(ff, 1e6)));
    VI A = ints(r, n*np*np, 0, 9); VD sv = dirty(r, n*np); sv.assign(n*np, 55.0); op("surface volumes"); computeSurfacevol(n, np, dv(A).data(), vs.data(), sv.data()); Ev("surf").put("n", n).put("np", np).put("A", A).put("s", s).raw("z", jn(sv, 4)).emit();
}
static void produced(Rng& r)
{
    int np = r.in(1, 3), nc = r.in(1, 5); Fluid f = fluid(r, nc, np); Inc inc(f); Bo bo(f); VI s = sats(r, nc, np), p = ints(r, nc, 0, 9), z = ints(r, nc*np, 0, 9), src; for (int c = 0; c < nc; ++c) src.push_back(r.chance(1, 4) ? 0 : r.in(-8, 8)); int dt = 1 << r.in(0, 2);
    VD in(np, 9.0), out(np, 9.0), vs = dv(s, 4.0); bool bad = nc > 1 && r.chance(1, 8), threw = false; VD vsrc = dv(src); if (bad) { if (r.chance(1, 2)) vs.push_back(0.0); else vs.pop_back(); if (vs.size() % nc == 0) vs.push_back(0.25); }
    op("injected and produced"); try { computeInjectedProduced(inc, vs, vsrc, dt, in.data(), out.data()); } catch (std::exception&) { threw = true; }
    body("prod", hd(f), Ev().put("bo", false).put("bad", bad).put("threw", threw).put("s", s).put("src", src).put("dt", dt).raw("in", jn(in)).raw("out", jr(out, 1e4)));
    BlackoilState st; FakeGrid g(nc, VI()); if (np > 1) { st.init(g.g, np); st.pressure() = dv(p); st.saturation() = vs; st.surfacevol() = dv(z); threw = false; in.assign(np, 9.0); out.assign(np, 9.0); if (bad && r.chance(1, 2)) { st.saturation() = dv(s, 4.0); vsrc.push_back(1.0); }
        op("black-oil injected and produced"); try { computeInjectedProduced(bo, st, vsrc, dt, in.data(), out.data()); } catch (std::exception&) { threw = true; }
        body("prod", hd(f), Ev().put("bo", true).put("bad", bad).put("threw", threw).put("s", s).put("p", p).put("z", z).put("src", src).put("dt", dt).raw("in", jn(in)).raw("out", jr(out, 1e4))); }
}
static void sources(Rng& r)
{
    int nc = r.in(1, 5), nf = r.in(0, 9), np = r.chance(1, 8) ? r.in(1, 3) : 2; VI pairs; for (int k = 0; k < nf; ++k) { int a = r.in(-1, nc - 1), b = r.in(-1, nc - 1); if (a == b) { a = r.in(0, nc - 1); b = -1; if (r.chance(1, 2)) std::swap(a, b); } pairs.push_back(a); pairs.push_back(b); }
    FakeGrid g(nc, pairs); VI src = ints(r, nc, -6, 6), flux = ints(r, nf, -6, 6); if (r.chance(1, 3)) src.assign(nc, 0); int frac = r.in(0, 4); WellsH h; make(r, h, nc, np, r.in(0, 3), false, true); VI rates; for (auto& w : h.s) for (size_t q = 0; q < w.cells.size(); ++q) rates.push_back(r.chance(1, 5) ? 0 : r.chance(1, 5) ? r.in(-8, 8) : (w.type ? -1 : 1)*r.in(1, 8));
    bool nowells = r.chance(1, 4), threw = false; VD out = dirty(r, nc); op("transport sources"); try { computeTransportSource(g.g, dv(src), dv(flux), frac/4.0, nowells ? 0 : h.w, dv(rates), out); } catch (std::exception&) { threw = true; }
    Ev("tsrc").put("nc", nc).put("np", np).put("pairs", pairs).put("src", src).put("flux", flux).put("frac", frac).put("nowells", nowells).raw("wells", jw(h)).put("rates", rates).put("threw", threw).raw("out", threw ? "[]" : jn(out, 4)).emit();
    Fluid f = fluid(r, nc, np); Bo bo(f); WellState ws; VI pp = ints(r, rates.size(), 0, 9); ws.perfRates() = dv(rates); ws.perfPress() = dv(pp); ws.bhp().assign(h.s.size(), 0.0); out = dirty(r, nc); threw = false;
    op("black-oil transport sources"); try { computeTransportSource(bo, nowells ? 0 : h.w, ws, out); } catch (std::exception&) { threw = true; }
    Ev("btsrc").put("nc", nc).put("np", np).put("nowells", nowells).raw("wells", jw(h)).put("rates", rates).put("pp", pp).put("threw", threw).raw("out", threw ? "[]" : jn(out, 4)).emit();
    // cell velocities
    int dim = r.in(2, 3); FakeGrid v(nc, pairs, dim); VI cc = ints(r, nc*dim, 0, 9), fc = ints(r, nf*dim, 0, 9), lv = ints(r, nc, 0, 3), vol; for (int c = 0; c < nc; ++c) { vol.push_back(1 << lv[c]); v.cv[c] = vol[c]; } for (int k = 0; k < nc*dim; ++k) v.cc[k] = cc[k]; for (int k = 0; k < nf*dim; ++k) v.fcen[k] = fc[k];
    VD cv = dirty(r, nc*dim); op("cell velocities"); estimateCellVelocity(v.g, dv(flux), cv); Ev("vel").put("nc", nc).put("dim", dim).put("pairs", pairs).put("cc", cc).put("fc", fc).put("vol", vol).put("flux", flux).raw("v", jn(cv, 8)).emit();
    // wells as sources
    WellsH h2; int np2 = r.chance(1, 8) ? 3 : 2; make(r, h2, nc, np2, r.in(1, 3), !r.chance(1, 8), r.chance(1, 6)); out = dirty(r, nc); threw = false; op("sources from wells"); try { wellsToSrc(*h2.w, nc, out); } catch (std::exception&) { threw = true; }
    Ev("w2src").put("nc", nc).put("np", np2).raw("wells", jw(h2)).put("threw", threw).raw("out", threw ? "[]" : jn(out, 4)).emit();
}
struct PressState { VD p; const VD& pressure() const { return p; } };
static void wellrates(Rng& r)
{
    int nc = r.in(1, 5), np = r.in(1, 3); WellsH h; make(r, h, nc, np, r.in(1, 3), false, true); int nperf = h.w->well_connpos[h.s.size()];
    VI rates = ints(r, nperf, -9, 9); VD a; op("flow rates per well"); computeFlowRatePerWell(*h.w, dv(rates), a); VD first = a; VI rates2 = ints(r, nperf, -9, 9); computeFlowRatePerWell(*h.w, dv(rates2), a);
    VI ff = sats(r, nc, np); VD b = dirty(r, nperf); op("phase flow rates per well"); computePhaseFlowRatesPerWell(*h.w, dv(rates), dv(ff, 4.0), b);
    Ev("wrates").put("np", np).raw("wells", jw(h)).put("rates", rates).put("rates2", rates2).raw("first", jn(first)).raw("second", jn(a)).put("ff", ff).raw("phase", jn(b, 4)).emit();
    int dim = r.in(2, 3), gr = r.in(1, 10); FakeGrid g(nc, VI(), dim); VI dep = ints(r, nc, 0, 20); for (int c = 0; c < nc*dim; ++c) g.cc[c] = 100 + c; for (int c = 0; c < nc; ++c) g.cc[c*dim + dim - 1] = dep[c];
    VI rho = ints(r, np, 1, 20); bool percell = r.chance(1, 2); int m = percell ? nc : nperf; VI s = r.chance(1, 3) ? ints(r, m*np, 0, 4) : sats(r, m, np); if (r.chance(1, 4)) for (int p = 0; p < np; ++p) s[r.in(0, m - 1)*np + p] = 0; VD wdp = dirty(r, nperf);
    op("well pressure differences"); computeWDP(*h.w, g.g, dv(s, 4.0), dv(rho).data(), gr, percell, wdp); Ev("wdp").put("np", np).raw("wells", jw(h)).put("depth", dep).put("rho", rho).put("percell", percell).put("s", s).put("grav", gr).raw("wdp", jr(wdp, 1e3)).emit();
    // first state of the wells
    VI shut; for (size_t w = 0; w < h.s.size(); ++w) { bool x = r.chance(1, 5); shut.push_back(x); if (x) h.w->ctrls[w]->current = ~h.w->ctrls[w]->current; } PressState ps; VI pr = ints(r, nc, 100, 140); ps.p = dv(pr); WellState ws; op("well state"); ws.init(h.w, ps);
    Ev("wstate").raw("wells", jw(h)).put("shut", shut).put("press", pr).raw("bhp", jn(ws.bhp())).raw("rates", jn(ws.perfRates())).put("npress", (int) ws.perfPress().size()).emit();
}
static VI numbers(const std::string& line, double q, int bad_at = -1) { (void) bad_at; std::istringstream is(line); VI v; std::string t; while (is >> t) { char* e; double x = strtod(t.c_str(), &e); v.push_back(*e ? BAD : rnd(x, q)); } return v; }
static std::string table(const std::string& text, double q) { std::istringstream is(text); std::string line, o = "["; bool f = true; while (std::getline(is, line)) { o += std::string(f ? "" : ",") + j(numbers(line, q)); f = false; } return o + "]"; }
static void reports(Rng& r)
{
    static int run = 0; int nc = r.in(1, 5), np = r.in(1, 3); Fluid f = fluid(r, nc, np); Inc inc(f); Bo bo(f); WellsH h; make(r, h, nc, np, r.in(1, 4), false, true); int nw = h.s.size();
    body("report0", hd(f), Ev().put("run", ++run).raw("wells", jw(h))); WellReport rep; Watercut wc; SimulatorReport tot; int n = r.in(1, 4);
    for (int k = 0; k < n; ++k) {
        VI s = sats(r, nc, np), p = ints(r, nc, 0, 9), z = ints(r, nc*np, 0, 9), bhp = ints(r, nw, 1, 300), rates; int time = r.in(0, 90); bool zero = r.chance(1, 6);
        for (auto& w : h.s) { bool back = w.type == 0 && r.chance(1, 8); for (size_t q = 0; q < w.cells.size(); ++q) rates.push_back(zero ? 0 : (w.type || (back && q) ? -1 : 1)*r.in(w.type || back ? 0 : 1, 20)); }
        VD vr, vb; for (int x : rates) vr.push_back(x/86400.0); for (int x : bhp) vb.push_back(x*1e5); bool b = r.chance(1, 2); op("well report");
        if (b) rep.push(bo, *h.w, dv(p), dv(z), dv(s, 4.0), time*86400.0, vb, vr); else rep.push(inc, *h.w, dv(s, 4.0), time*86400.0, vb, vr);
        std::ostringstream os, oc; rep.write(os); int cut = r.in(0, 100), vol = r.in(0, 500); wc.push(time*86400.0, cut/100.0, vol); wc.write(oc); SimulatorReport one; VI t = ints(r, 3, 0, 20); one.pressure_time = t[0]; one.transport_time = t[1]; one.total_time = t[2]; tot += one;
        std::ostringstream o1, o2; tot.report(o1); tot.reportParam(o2); std::string t1 = o1.str(), t2 = o2.str(); for (char& c : t1) if (!isdigit(c)) c = ' '; for (char& c : t2) if (!isdigit(c)) c = ' ';
        body("report", hd(f), Ev().put("bo", b).put("s", s).put("p", p).put("z", z).put("time", time).put("bhp", bhp).put("rates", rates).raw("text", table(os.str(), 1e4)).put("cut", VI{time, cut, vol}).raw("cuttext", table(oc.str(), 1e2)).put("t", t).put("sum", numbers(t1, 1)).put("sum2", numbers(t2, 1)));
    }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); int N = a.thorough ? 700 : 130;
    for (int k = 0; k < N; ++k) { volumes(r); mobility(r); produced(r); sources(r); wellrates(r); if (k % 2 == 0) reports(r); }
    done();
}
