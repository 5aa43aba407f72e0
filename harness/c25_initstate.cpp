// Driver for C25: initial states on columns of cells.
#include "common.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/initState.hpp>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
static int rnd(double x, double Q) { double y = std::floor(x*Q + 0.5); return y > -2e9 && y < 2e9 ? (int) y : BAD; }
struct Ranges { VI lo, hi; void range(int np, int n, const int* cells, double* smin, double* smax) const
{ for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) { int c = cells ? cells[i] : 0; smin[np*i + p] = p == 0 ? lo[c]/8.0 : 1 - hi[c]/8.0; smax[np*i + p] = p == 0 ? hi[c]/8.0 : 1 - lo[c]/8.0; } } };
struct Incomp : IncompPropertiesInterface {
    int nd, nc, np; VD dens; Ranges rg;
    int numDimensions() const { return nd; } int numCells() const { return nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; } int numPhases() const { return np; }
    const double* viscosity() const { return 0; } const double* density() const { return &dens[0]; } const double* surfaceDensity() const { return &dens[0]; }
    void relperm(int, const double*, const int*, double*, double*) const {} void capPress(int, const double*, const int*, double*, double*) const {}
    void satRange(int n, const int* c, double* a, double* b) const { rg.range(np, n, c, a, b); } };
// densities growing with pressure; or (mix) volumes depending on the cell
struct Compr : BlackoilPropertiesInterface {
    int nd, nc, np; VD dens; VI cc; double K; Ranges rg; bool mix; std::vector<VI> A0;
    int numDimensions() const { return nd; } int numCells() const { return nc; } const double* porosity() const { return 0; } const double* permeability() const { return 0; } int numPhases() const { return np; }
    void viscosity(int, const double*, const double*, const int*, double*, double*) const {}
    void matrix(int n, const double* p, const double*, const int* cells, double* A, double*) const
    { for (int i = 0; i < n; ++i) for (int k = 0; k < np*np; ++k) A[np*np*i + k] = mix ? A0[cells[i]][k]*p[i] : k % (np + 1) == 0 ? (K > 0 ? 1 + cc[k/(np + 1)]*p[i]/K : 1.0) : 0.0; }
    void density(int n, const double* A, double* rho) const { for (int i = 0; i < n; ++i) for (int p = 0; p < np; ++p) rho[np*i + p] = dens[p]*A[np*np*i + p*(np + 1)]; }
    const double* surfaceDensity() const { return &dens[0]; }
    void relperm(int, const double*, const int*, double*, double*) const {} void capPress(int, const double*, const int*, double*, double*) const {}
    void satRange(int n, const int* c, double* a, double* b) const { rg.range(np, n, c, a, b); } };
struct Box { UnstructuredGrid* g; int n[3], nc; VI z, cart, ncart; ~Box() { destroy_grid(g); }
    Box(Rng& r, int force = 0) {
        bool flat = r.chance(1, 4); n[0] = r.in(1, 3); n[1] = r.in(1, flat ? 4 : 2); n[2] = r.chance(1, 6) ? 1 : r.in(2, 6); if (flat) { n[2] = 0; } std::vector<VD> x(3);
        for (int d = 0; d < 3; ++d) { double at = r.in(-3, 3)*2; x[d].push_back(at); for (int i = 0; i < n[d]; ++i) x[d].push_back(at += 2*r.in(1, 3)); }
        g = flat ? create_grid_tensor2d(n[0], n[1], &x[0][0], &x[1][0]) : create_grid_tensor3d(n[0], n[1], n[2], &x[0][0], &x[1][0], &x[2][0], 0); nc = g->number_of_cells; int D = g->dimensions;
        for (int c = 0; c < nc; ++c) z.push_back(qn(g->cell_centroids[D*c + D - 1], 2));
        // some cells of a larger box
        for (int c = 0; c < nc; ++c) cart.push_back(c); free(g->global_cell); g->global_cell = 0;
        if (r.chance(1, 2) && D == 3) { g->cartdims[0] += r.in(0, 2); g->cartdims[1] += r.in(0, 2); int tot = g->cartdims[0]*g->cartdims[1]*g->cartdims[2]; VI all; for (int i = 0; i < tot; ++i) all.push_back(i); r.shuffle(all); cart.assign(all.begin(), all.begin() + nc); std::sort(cart.begin(), cart.end()); g->global_cell = (int*) malloc(nc*sizeof(int)); for (int c = 0; c < nc; ++c) g->global_cell[c] = cart[c]; }
        (void) force; } 
    std::string faces(const VD& fp, double Q, bool exact) const
    { std::string s = "["; int D = g->dimensions; for (int f = 0; f < g->number_of_faces; ++f) { VI v; double w = 0; for (int k = 0; k < 2; ++k) { int c = g->face_cells[2*f + k]; double d = 0; if (c >= 0) for (int e = 0; e < D; ++e) d += std::fabs(g->face_centroids[D*f + e] - g->cell_centroids[D*c + e]); v.push_back(c); v.push_back(qn(d)); w += d; }
        bool in = v[0] >= 0 && v[2] >= 0; if (!in) w = 1; v.push_back(exact || !in ? (exact ? qn(fp[f]*w, Q) : rnd(fp[f], Q)) : rnd(fp[f]*w, Q)); s += (f ? "," : "") + j(v); } return s + "]"; }
};
template <class S> static void sats(Ev& e, const S& st, int nc, int np) { std::string s = "["; for (int c = 0; c < nc; ++c) { VI v; for (int p = 0; p < np; ++p) v.push_back(qn(st.saturation()[np*c + p], 8)); s += (c ? "," : "") + j(v); } e.raw("sat", s + "]"); }
static EclipseGridParser* deckOf(const std::string& text, const std::string& work) { std::ofstream(work.c_str()) << text; op("parse"); return new EclipseGridParser(work); }
static std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.10g", x); return b; }
template <class P, class S> static void column(Rng& r, P& props, int K, VI cc, Box& b, S& st, const std::string& work)
{
    bool compr = K > 0; static const char* modes[] = {"left", "below", "above", "given", "default", "equil"}; int m = r.in(0, 5); if (compr && (m == 2 || m == 3)) m = r.chance(1, 2) ? 1 : 4;
    std::string mode = modes[m]; int g = r.chance(1, 8) ? 0 : r.chance(1, 2) ? 10 : r.in(1, 9); int lo = *std::min_element(b.z.begin(), b.z.end()), hi = *std::max_element(b.z.begin(), b.z.end());
    int where = r.in(0, 6); int woc = where == 0 ? lo - r.in(0, 6) : where == 1 ? hi + r.in(0, 6) : where < 4 ? b.z[r.in(0, b.nc - 1)] : r.in(lo, hi); int datum = woc, p0 = r.in(0, 400)*100, s0 = r.in(0, 8);
    double gravity = g; bool dflt = r.chance(1, 5) && m != 5; if (dflt && !compr) p0 = 10000000; parameter::ParameterGroup par; std::ostringstream os;
    if (m == 0) par.insertParameter("convection_testcase", "true"); if (m == 2) par.insertParameter("segregation_testcase", "true"); if (m == 1 || m == 2 || (m == 0 && r.chance(1, 3))) par.insertParameter("water_oil_contact", num(woc/2.0)); if (m == 3 || (m < 3 && r.chance(1, 4))) par.insertParameter("init_saturation", num(s0/8.0));
    if (compr && m != 5) dflt = false; if (!dflt) par.insertParameter("ref_pressure", num(p0*1e-5)); if (m == 4 || m == 3) datum = b.z[0];
    int unit = m == 3 ? 8 : 1; props.dens[0] = unit*r.in(1, 9); props.dens[1] = unit*r.in(1, 9);
    if (m == 5) { datum = r.chance(1, 3) ? b.z[r.in(0, b.nc - 1)] : r.chance(1, 3) ? woc : r.chance(1, 4) ? lo - r.in(1, 30) : r.chance(1, 4) ? hi + r.in(1, 30) : r.in(lo, hi); 
        std::ostringstream d; d << "METRIC\nOIL\nWATER\nDIMENS\n 1 1 1 /\nEQUIL\n " << num(datum/2.0) << " " << num(p0*1e-5) << " " << num(woc/2.0) << " 0 0 0 /\n"; EclipseGridParser* dk = deckOf(d.str(), work); op("initStateFromDeck EQUIL"); initStateFromDeck(*b.g, props, *dk, gravity, st); delete dk; }
    else { op(("initStateBasic " + mode).c_str()); initStateBasic(*b.g, props, par, gravity, st); }
    VI p, c0, c1; for (int c = 0; c < b.nc; ++c) { p.push_back(compr ? rnd(st.pressure()[c], 2) : qn(st.pressure()[c], 2)); c0.push_back(props.rg.lo[c]); c1.push_back(props.rg.hi[c]); }
    Ev e("init"); e.put("run", run++).put("mode", m == 5 ? std::string("below") : mode).put("g", g).put("woc", woc).put("datum", datum).put("p0", 2*p0).put("s0", s0).put("z", b.z).put("cart", b.cart).put("nx", b.g->cartdims[0]).put("smin", c0).put("smax", c1).put("dens", VI{(int) props.dens[0], (int) props.dens[1]}).put("p", p).raw("faces", b.faces(st.facepressure(), 2, !compr));
    e.put("K", K).put("c", cc); sats(e, st, b.nc, 2); e.emit();
}
template <class P> static void ranges(Rng& r, P& pr, Box& b, int np) { pr.nd = b.g->dimensions; pr.nc = b.nc; pr.np = np; pr.dens.assign(np, 1.0); pr.rg.lo.clear(); pr.rg.hi.clear(); for (int c = 0; c < b.nc; ++c) { pr.rg.lo.push_back(r.in(0, 3)); pr.rg.hi.push_back(r.in(4, 8)); } }
static std::string list(Rng& r, const VI& v, double q) { std::string s; for (size_t i = 0; i < v.size(); ++i) s += " " + num(v[i]*q) + (r.chance(1, 8) ? "\n" : ""); return s + " /\n"; }
template <class P, class S> static void fields(Rng& r, P& props, Box& b, S& st, const std::string& work, const std::string& ph)
{
    int tot = std::max(b.nc, b.g->cartdims[0]*b.g->cartdims[1]*(b.g->dimensions == 3 ? b.g->cartdims[2] : 1)); VI pr, sw, sg; for (int i = 0; i < tot; ++i) { pr.push_back(r.in(1, 400)); int w = r.in(0, 8); sw.push_back(w); sg.push_back(ph == "wog" ? r.in(0, 8 - w) : r.in(0, 8)); }
    std::ostringstream d; d << "METRIC\nOIL\n" << (ph != "og" ? "WATER\n" : "") << (ph != "wo" ? "GAS\n" : "") << "DIMENS\n " << tot << " 1 1 /\n"; bool first = r.chance(1, 2); if (first) d << "PRESSURE\n" << list(r, pr, 0.5);
    if (ph != "og" || r.chance(1, 3)) d << "SWAT\n" << list(r, sw, 0.125); if (ph != "wo" || r.chance(1, 3)) d << "SGAS\n" << list(r, sg, 0.125); if (!first) d << "PRESSURE\n" << list(r, pr, 0.5);
    EclipseGridParser* dk = deckOf(d.str(), work); op("initStateFromDeck fields"); initStateFromDeck(*b.g, props, *dk, 10.0, st); delete dk; VI p; for (int c = 0; c < b.nc; ++c) p.push_back(qn(st.pressure()[c], 2e-5));
    Ev e("fields"); e.put("run", run++).put("phases", ph).put("z", b.z).put("cart", b.cart).put("press", pr).put("sw", sw).put("sg", sg).put("p", p).put("K", 0).raw("faces", b.faces(st.facepressure(), 2e-5, true)); sats(e, st, b.nc, ph == "wog" ? 3 : 2); e.emit();
}
static void surf(Rng& r, Box& b, BlackoilState& st, int np)
{
    Compr pr; ranges(r, pr, b, np); pr.mix = true; st.init(*b.g, np); std::string A = "["; for (int c = 0; c < b.nc; ++c) { VI a, pa; int p = r.in(1, 5); st.pressure()[c] = p; for (int k = 0; k < np*np; ++k) { a.push_back(r.in(0, 9)); pa.push_back(p*a.back()); } pr.A0.push_back(a); A += (c ? "," : "") + j(pa); int left = 8; for (int q = 0; q < np; ++q) { int s = q + 1 == np ? left : r.in(0, left); left -= s; st.saturation()[np*c + q] = s/8.0; } }
    if (r.chance(1, 2)) st.surfacevol().assign(r.in(1, 30), 5.0); op("initBlackoilSurfvol"); initBlackoilSurfvol(*b.g, pr, st); std::string z = "["; for (int c = 0; c < b.nc; ++c) { VI v; for (int q = 0; q < np; ++q) v.push_back(qn(st.surfacevol()[np*c + q], 8)); z += (c ? "," : "") + j(v); }
    Ev e("surf"); e.put("run", run++).raw("A", A + "]").raw("z", (int) st.surfacevol().size() == np*b.nc ? z + "]" : "[]"); sats(e, st, b.nc, np); e.emit();
}
static void refuse(Rng& r, Box& b, const std::string& work)
{
    int k = r.in(0, 4); std::string d = "METRIC\nOIL\n"; int np = 2; Compr pr; std::string n = std::to_string(b.nc); std::string pres = "PRESSURE\n" + n + "*100 /\n", eq = "EQUIL\n 1 1 1 0 0 0 /\n";
    switch (k) { case 0: d += "WATER\nGAS\n"; d += pres + "SWAT\n" + n + "*0.5 /\nSGAS\n" + n + "*0.25 /\n"; break; case 1: d += "WATER\nGAS\n" + eq; np = 3; break; case 2: d += "GAS\n" + eq; break; case 3: d += (r.chance(1, 2) ? "WATER\n" + pres + "SGAS\n" : "GAS\n" + pres + "SWAT\n") + n + "*0.5 /\n"; break; default: d += "WATER\nSWAT\n" + n + "*0.5 /\n"; }
    ranges(r, pr, b, np); pr.mix = false; pr.K = 100; pr.cc = VI(np, 1); EclipseGridParser* dk = deckOf(d, work); BlackoilState st; bool threw = false; op("initStateFromDeck refused"); try { initStateFromDeck(*b.g, pr, *dk, 10.0, st); } catch (std::exception&) { threw = true; } delete dk; Ev("refuse").put("run", run++).put("kind", k).put("threw", threw).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2500); int T = a.thorough ? 20 : 1; std::string w = a.work + ".DATA";
    for (int i = 0; i < 350*T; ++i) {
        Box b(r); int again = r.in(1, 2);
        { Incomp pr; TwophaseState st; for (int k = 0; k < again; ++k) { ranges(r, pr, b, 2); column(r, pr, 0, VI(2, 0), b, st, w); if (r.chance(1, 3)) fields(r, pr, b, st, w, r.chance(1, 2) ? "wo" : "og"); } }
        { Compr pr; pr.mix = false; BlackoilState st; for (int k = 0; k < again; ++k) { ranges(r, pr, b, 2); int K = r.in(3, 20)*1000; VI cc; cc.push_back(r.in(0, 2)); cc.push_back(r.in(0, 2)); pr.K = K; pr.cc = cc; column(r, pr, K, cc, b, st, w); } }
        if (i % 3 == 0) { Compr pr; pr.mix = false; BlackoilState st; std::string ph = r.chance(1, 3) ? "wo" : r.chance(1, 3) ? "og" : "wog"; for (int k = 0; k < again; ++k) { ranges(r, pr, b, ph == "wog" ? 3 : 2); fields(r, pr, b, st, w, ph); } }
        { BlackoilState st; for (int k = 0; k < again; ++k) surf(r, b, st, r.in(2, 3)); }
        if (i % 5 == 0) refuse(r, b, w);
    }
    done();
}
