// Driver for C20: the incompressible two-point pressure system, from the C
// interface and through IncompTpfa with a stand-in linear solver.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/LinearSolverInterface.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/wells.h>
#include <memory>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
static VI ints(const VD& v) { VI r; for (double x : v) r.push_back(qn(x)); return r; }
static std::string pairs(const VI& v) { std::string s = "["; for (size_t i = 0; i + 1 < v.size(); i += 2) s += (i ? ",[" : "[") + j(v[i]) + "," + j(v[i+1]) + "]"; return s + "]"; }
struct Bc { std::string kind; std::vector<int> faces; int value; };
struct Wl { std::string kind; int target, ref; VI cell, wi, dz; };   // dz: head of the perforation (C level) or its depth below the reference
static std::string bcs(const std::vector<Bc>& b)
{ std::string s = "["; bool first = true; for (auto& c : b) for (int f : c.faces) { s += std::string(first ? "" : ",") + Ev().put("kind", c.kind).put("face", f + 1).put("value", c.value).str(); first = false; } return s + "]"; }
static std::string wls(const std::vector<Wl>& ws, const VI* mob)
{
    std::string s = "["; for (size_t w = 0; w < ws.size(); ++w) { std::string p = "[";
        for (size_t k = 0; k < ws[w].cell.size(); ++k) p += (k ? ",[" : "[") + j(ws[w].cell[k] + 1) + "," + j(ws[w].wi[k] * (mob ? (*mob)[ws[w].cell[k]] : 1)) + "," + j(ws[w].dz[k]) + "]";
        s += (w ? "," : "") + Ev().put("kind", ws[w].kind).put("target", ws[w].target).raw("perf", p + "]").str(); }
    return s + "]";
}
static FlowBoundaryConditions* makebc(const std::vector<Bc>& b, FlowBoundaryConditions* old = 0)
{ FlowBoundaryConditions* r = old ? old : flow_conditions_construct(b.size() % 3); if (old) flow_conditions_clear(old); for (auto& c : b) { VI f = c.faces; flow_conditions_append_multi(c.kind == "p" ? BC_PRESSURE : BC_FLUX_TOTVOL, f.size(), f.data(), c.value, r); } return r; }
static void control(Wells* W, int w, const Wl& s)
{
    clear_well_controls(w, W); set_current_control(w, -1, W); const double one[2] = {1, 1}, part[2] = {1, 0};
    static int turn = 0; bool first = ++turn % 3 != 0;          // an inactive control before or after the active one
    if (first) append_well_controls(BHP, 77, 0, w, W);
    if (s.kind == "bhp") append_well_controls(BHP, s.target, 0, w, W);
    else if (s.kind == "rate") append_well_controls(RESERVOIR_RATE, s.target, one, w, W);
    else if (s.kind == "surface") append_well_controls(SURFACE_RATE, s.target, one, w, W);
    else if (s.kind == "phase") append_well_controls(RESERVOIR_RATE, s.target, part, w, W);
    if (!first) append_well_controls(BHP, 77, 0, w, W);
    if (s.kind != "shut") set_current_control(w, first ? 1 : 0, W);
}
static Wells* makewells(const std::vector<Wl>& ws, int np)
{ Wells* W = create_wells(np, 0, 0); for (size_t w = 0; w < ws.size(); ++w) { VD wi(ws[w].wi.begin(), ws[w].wi.end()), cf(np, 0.0); cf[0] = 1;
    add_well(w % 2 ? INJECTOR : PRODUCER, ws[w].ref, ws[w].cell.size(), cf.data(), ws[w].cell.data(), wi.data(), "W", W); control(W, w, ws[w]); } return W; }
static VD residual(const CSRMatrix* A, const double* b, const VD& x)
{ VD r(A->m, 0.0); for (size_t i = 0; i < A->m; ++i) { for (int k = A->ia[i]; k < A->ia[i+1]; ++k) r[i] += A->sa[k]*x[A->ja[k]]; r[i] -= b[i]; } return r; }
static VD cat(const VD& a, const VD& b) { VD r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static std::string nest(const std::vector<Wl>& ws, const VD& v) { std::string s = "["; int k = 0; for (size_t w = 0; w < ws.size(); ++w) { VI p; for (size_t i = 0; i < ws[w].cell.size(); ++i) p.push_back(qn(v[k++])); s += (w ? "," : "") + j(p); } return s + "]"; }

// ---- C interface on arbitrary networks ----
struct Case { int nc; VI pr, trans, head, src; std::vector<Bc> bc; std::vector<Wl> wells; VI mob; };
struct Lab {
    FakeGrid fg; Wells* W; ifs_tpfa_data* h; Case k; VD trans, gp, src, mob, wdp; FlowBoundaryConditions* bc; ifs_tpfa_forces F;
    Lab(const Case& c) : fg(c.nc, c.pr), W(c.wells.empty() ? 0 : makewells(c.wells, 2)), k(c), bc(0)
    {
        op("ifs_tpfa_construct"); h = ifs_tpfa_construct(&fg.g, W);
        VI f1; for (int p : c.pr) f1.push_back(p + 1);
        Ev("net").put("run", ++run).put("nc", c.nc).raw("faces", pairs(f1)).put("nw", (int) c.wells.size()).emit();
    }
    ~Lab() { ifs_tpfa_destroy(h); if (W) destroy_wells(W); if (bc) flow_conditions_destroy(bc); }
    // how: 0 steady, 1 compressible rock, 2 increment
    void step(int how, const VI& x, const VI& xw, const VI& d, const VI& ref, const VI& e, const VI& refw, bool noforces)
    {
        UnstructuredGrid* g = &fg.g; trans.assign(k.trans.begin(), k.trans.end()); gp.assign(g->cell_facepos[k.nc] + 1, 0.0);
        for (int c = 0; c < k.nc; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c+1]; ++i) { int f = g->cell_faces[i]; gp[i] = k.head[2*f + (g->face_cells[2*f] == c ? 0 : 1)]; }
        src.assign(k.src.begin(), k.src.end()); mob.assign(k.mob.begin(), k.mob.end()); wdp.clear();
        for (size_t w = 0; w < k.wells.size(); ++w) { for (int z : k.wells[w].dz) wdp.push_back(z); control(W, w, k.wells[w]); }
        bc = makebc(k.bc, bc); wdp.push_back(0);
        std::memset(&F, 0, sizeof F); F.src = src.data(); F.bc = bc; F.W = W; F.totmob = mob.data(); F.wdp = wdp.data();
        ifs_tpfa_forces* FP = noforces ? 0 : &F; int ok; VD xd(x.begin(), x.end()), xwd(xw.begin(), xw.end()), at = cat(xd, xwd);
        VD one(k.nc, 2.0), dd(d.begin(), d.end()), rd(ref.begin(), ref.end()), rall = cat(rd, VD(refw.begin(), refw.end())), half(k.nc), pv(k.nc), pv0(k.nc);
        const double dt = 0.5;
        for (int c = 0; c < k.nc; ++c) { half[c] = dd[c]/4.0; pv[c] = 2.0; pv0[c] = 2.0 - e[c]*dt; }  // pv*half/dt = d
        op("ifs_tpfa_assemble " + j(how));
        if (how == 0) ok = ifs_tpfa_assemble(g, FP, trans.data(), gp.data(), h);
        else if (how == 1) ok = ifs_tpfa_assemble_comprock(g, FP, trans.data(), gp.data(), pv.data(), half.data(), dt, rd.data(), h);
        else { ok = ifs_tpfa_assemble_comprock_increment(g, FP, trans.data(), gp.data(), pv.data(), half.data(), dt, rall.data(), pv0.data(), h);
            for (size_t i = 0; i < at.size(); ++i) at[i] -= rall[i]; }
        VD r = residual(h->A, h->b, at);
        Ev ev("assemble"); ev.put("how", how).put("trans", k.trans).raw("head", pairs(k.head)).put("src", k.src).raw("bc", bcs(k.bc)).raw("wells", wls(k.wells, &k.mob)).put("steady", how == 0);
        VI z(k.nc, 0); ev.put("d", how ? d : z).put("ref", how ? ref : z).put("ex", how == 2 ? e : z);
        ev.put("ok", ok != 0).put("x", x).put("xw", xw).put("res", ints(VD(r.begin(), r.begin() + k.nc))).put("resw", ints(VD(r.begin() + k.nc, r.end()))).emit();
        if (!ok) return;
        VD full = cat(xd, xwd); std::copy(full.begin(), full.end(), h->x);
        VD cp(k.nc, 9), ff(fg.g.number_of_faces + 1, 9), wp(k.wells.size() + 1, 13), wf(wdp.size() + 1, 9); ifs_tpfa_solution s = { cp.data(), ff.data(), wp.data(), wf.data() };
        op("ifs_tpfa_press_flux"); ifs_tpfa_press_flux(g, FP, trans.data(), h, &s);
        ff.pop_back(); wp.pop_back(); Ev("flux").put("x", ints(cp)).put("xw", xw).put("flux", ints(ff)).raw("wflux", nest(k.wells, wf)).put("old", VI(k.wells.size(), 13)).put("bhp", ints(wp)).emit();
    }
};
static VI rv(Rng& r, int n, int lo, int hi) { VI v(n); for (auto& x : v) x = r.in(lo, hi); return v; }
static void forces(Rng& r, Case& k, int bad)
{
    int nf = k.pr.size()/2; k.trans = rv(r, nf, 1, 9); k.head = rv(r, 2*nf, -4, 4); k.mob = rv(r, k.nc, 1, 3); k.src = r.chance(1, 2) ? VI(k.nc, 0) : rv(r, k.nc, -5, 5); k.bc.clear();
    VI out; for (int f = 0; f < nf; ++f) { if (k.pr[2*f] < 0 || k.pr[2*f+1] < 0) out.push_back(f); } r.shuffle(out);
    size_t use = out.empty() ? 0 : r.in(0, out.size()); bool onlyflux = r.chance(1, 3);
    for (size_t i = 0; i < use; ) { Bc b; b.kind = !onlyflux && r.chance(1, 2) ? "p" : "q"; b.value = r.in(-9, 9); int m = b.kind == "p" ? r.in(1, 3) : 1; for (; m > 0 && i < use; --m) b.faces.push_back(out[i++]); k.bc.push_back(b); }
    static const char* kinds[] = {"shut", "bhp", "rate", "rate", "surface", "phase"};
    for (auto& w : k.wells) { w.kind = kinds[r.in(0, r.chance(bad, 10) ? 5 : 3)]; w.target = r.in(-9, 9); for (auto& z : w.dz) z = r.in(-3, 3); }
}
static void steps(Rng& r, Lab& lab, int how)
{
    Case& k = lab.k; bool cons = r.chance(4, 5); VI x = rv(r, k.nc, -9, 9), xw = rv(r, k.wells.size(), -9, 9), rw = rv(r, k.wells.size(), -9, 9);
    if (cons) for (size_t w = 0; w < k.wells.size(); ++w) if (k.wells[w].kind == "bhp") xw[w] = k.wells[w].target;
    lab.step(how, x, xw, rv(r, k.nc, 0, 5), rv(r, k.nc, -9, 9), rv(r, k.nc, -5, 5), rw, false);
}
static void clevel(Rng& r, int n)
{
    for (int t = 0; t < n; ++t) {
        Case k; k.nc = r.in(1, 6); int nf = r.in(1, 10);
        for (int f = 0; f < nf; ++f) { int a = r.in(-1, k.nc - 1), b = r.in(-1, k.nc - 1); if (a == b) { --f; if (k.nc == 1 && a == 0) continue; continue; } k.pr.push_back(a); k.pr.push_back(b); }
        int nw = r.in(0, 3); for (int w = 0; w < nw; ++w) { Wl q; q.ref = 0; int m = r.in(1, 3); for (int i = 0; i < m; ++i) { int c = r.in(0, k.nc - 1); q.cell.push_back(c); q.wi.push_back(r.in(1, 4)); q.dz.push_back(0); } q.target = 0; q.kind = "shut"; k.wells.push_back(q); }
        forces(r, k, 1); Lab lab(k); int m = r.in(1, 4);
        for (int i = 0; i < m; ++i) { if (i) forces(r, lab.k, 1); steps(r, lab, r.chance(1, 2) ? 0 : r.in(1, 2)); }
        if (r.chance(1, 6) && nw == 0) { lab.k.src.assign(k.nc, 0); lab.k.bc.clear(); lab.step(0, rv(r, k.nc, -9, 9), VI(), VI(k.nc, 0), VI(k.nc, 0), VI(k.nc, 0), VI(), true); }
    }
}
// behaviours from the specification
static void scripted(const std::string& line, Rng& r)
{
    std::istringstream is(line); Case k; int nf, nb, np, st; std::string kd; k.nc = 3; is >> nf; VI d(3), ref(3), e(3);
    for (int f = 0; f < nf; ++f) { int a, b, t, g1, g2; is >> a >> b >> t >> g1 >> g2; k.pr.push_back(a - 1); k.pr.push_back(b - 1); k.trans.push_back(t); k.head.push_back(g1); k.head.push_back(g2); }
    for (int c = 0; c < 3; ++c) { int s; is >> s; k.src.push_back(s); }
    is >> nb; for (int i = 0; i < nb; ++i) { Bc b; int f; is >> b.kind >> f >> b.value; b.faces.push_back(f - 1); k.bc.push_back(b); }
    Wl w; w.ref = 0; is >> w.kind >> w.target >> np; for (int i = 0; i < np; ++i) { int c, t, h; is >> c >> t >> h; w.cell.push_back(c - 1); w.wi.push_back(t); w.dz.push_back(h); }
    is >> st; for (int c = 0; c < 3; ++c) is >> d[c] >> ref[c] >> e[c];
    if (np) k.wells.push_back(w); k.mob.assign(3, 1); Lab lab(k);
    for (int t = 0; t < 2; ++t) { VI x = rv(r, 3, -9, 9), xw(k.wells.size(), w.kind == "bhp" ? w.target : r.in(-9, 9)); lab.step(st ? 0 : 2, x, xw, d, ref, e, rv(r, k.wells.size(), -5, 5), false); }
}

// ---- IncompTpfa on Cartesian grids ----
struct Props : Opm::IncompPropertiesInterface {
    int dim, nc; VD poro, perm; double mu[2], rho[2];
    int numDimensions() const { return dim; } int numCells() const { return nc; } const double* porosity() const { return poro.data(); } const double* permeability() const { return perm.data(); }
    int numPhases() const { return 2; } const double* viscosity() const { return mu; } const double* density() const { return rho; } const double* surfaceDensity() const { return rho; }
    // mobilities: pure first phase 2, pure second phase 1, equal parts 1 each
    void relperm(const int n, const double* s, const int*, double* kr, double*) const { for (int i = 0; i < n; ++i) for (int p = 0; p < 2; ++p) { double m = s[2*i+p] == 1 ? (p ? 1 : 2) : s[2*i+p] == 0 ? 0 : 1; kr[2*i+p] = m*mu[p]; } }
    void capPress(const int n, const double*, const int*, double* pc, double*) const { for (int i = 0; i < 2*n; ++i) pc[i] = 0; }
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < 2*n; ++i) { a[i] = 0; b[i] = 1; } }
};
struct Stub : Opm::LinearSolverInterface {
    mutable std::function<void(int, const int*, const int*, const double*, const double*, double*)> f;
    LinearSolverReport solve(const int n, const int, const int* ia, const int* ja, const double* sa, const double* b, double* x) const { f(n, ia, ja, sa, b, x); LinearSolverReport r; r.converged = true; r.iterations = 1; r.residual_reduction = 0; return r; }
    void setTolerance(const double) {} double getTolerance() const { return 0; }
};
static void clslevel(Rng& r, int n)
{
    for (int t = 0; t < n; ++t) {
        bool three = r.chance(2, 3); int N[3] = {r.in(1, 3), r.in(1, 3), three ? r.in(1, 3) : 1}; double D[3]; for (double& x : D) x = 2 << r.in(0, 1);
        op("GridManager"); std::unique_ptr<Opm::GridManager> gm(three ? new Opm::GridManager(N[0], N[1], N[2], D[0], D[1], D[2]) : new Opm::GridManager(N[0], N[1], D[0], D[1]));
        const UnstructuredGrid& g = *gm->c_grid(); int nc = g.number_of_cells, nf = g.number_of_faces, dim = g.dimensions;
        VI f1; for (int i = 0; i < 2*nf; ++i) f1.push_back(g.face_cells[i] + 1);
        std::vector<Wl> ws; int nw = r.in(0, 2); for (int w = 0; w < nw; ++w) { Wl q; q.ref = r.in(-2, 2); int m = r.in(1, 3); for (int i = 0; i < m; ++i) { int c = r.in(0, nc - 1); q.cell.push_back(c); q.wi.push_back(r.in(1, 3)); q.dz.push_back(qi(g.cell_centroids[dim*c + dim - 1]) - q.ref); } q.target = 0; q.kind = "shut"; ws.push_back(q); }
        Props pr; pr.dim = dim; pr.nc = nc; pr.mu[0] = 0.5; pr.mu[1] = 4; pr.rho[0] = 2*r.in(1, 4); pr.rho[1] = 2*r.in(1, 4); double vol = 1; for (int d = 0; d < dim; ++d) vol *= D[d];
        VI pv = rv(r, nc, 1, 3); pr.perm.assign(nc*dim*dim, 0.0); VI res = rv(r, nc*dim, 1, 3), half(2*nf, 0), drop(2*nf, 0);
        for (int c = 0; c < nc; ++c) { pv[c] *= 2; pr.poro.push_back(pv[c]/vol);
            for (int d = 0; d < dim; ++d) { double area = vol/D[d]; pr.perm[c*dim*dim + d*(dim+1)] = 1260.0/res[c*dim+d]*(D[d]/2)/area; }
            for (int i = g.cell_facepos[c]; i < g.cell_facepos[c+1]; ++i) { int f = g.cell_faces[i], s = g.face_cells[2*f] == c ? 0 : 1, ax = 0; for (int d = 1; d < dim; ++d) if (g.face_normals[dim*f+d] != 0) ax = d;
                half[2*f+s] = 1260/res[c*dim+ax]; drop[2*f+s] = qi(g.face_centroids[dim*f+dim-1] - g.cell_centroids[dim*c+dim-1]); } }
        Ev("net").put("run", ++run).put("nc", nc).raw("faces", pairs(f1)).put("nw", nw).emit();
        VD src; bool hassrc = r.chance(1, 2); VI srci(nc, 0); if (hassrc) { srci = rv(r, nc, -5, 5); src.assign(srci.begin(), srci.end()); }
        Case k; k.nc = nc; for (int i = 0; i < 2*nf; ++i) k.pr.push_back(g.face_cells[i]); k.wells = ws; forces(r, k, 0); for (int w = 0; w < nw; ++w) k.wells[w].dz = ws[w].dz; FlowBoundaryConditions* bc = r.chance(4, 5) ? makebc(k.bc) : 0; if (!bc) k.bc.clear();
        Wells* W = nw ? makewells(k.wells, 2) : 0; bool grav = r.chance(2, 3); int gz = grav ? r.in(1, 3) : 0; double gv[3] = {0, 0, 0}; gv[dim-1] = gz; VD gx(gv, gv + dim);
        bool rock = r.chance(1, 2), active = r.chance(4, 5); Opm::parameter::ParameterGroup pg; pg.disableOutput(); if (active) { pg.insertParameter("rock_compressibility", "100000"); pg.insertParameter("rock_compressibility_pref", "0"); } Opm::RockCompressibility rc(pg);
        int maxit = r.in(1, 3); double ctol = r.chance(1, 4) ? 2.5 : 0.0; Stub lin;
        op("IncompTpfa construct");
        std::unique_ptr<Opm::IncompTpfa> sol(rock ? new Opm::IncompTpfa(g, pr, &rc, lin, 0.0, ctol, maxit, grav ? gx.data() : 0, W, src, bc) : new Opm::IncompTpfa(g, pr, lin, grav ? gx.data() : 0, W, src, bc));
        bool newton = rock && active;
        int calls = r.in(1, 3);
        for (int q = 0; q < calls; ++q) {
            if (q) for (int w = 0; w < nw; ++w) { static const char* kd[] = {"shut", "bhp", "rate"}; k.wells[w].kind = kd[r.in(0, 2)]; k.wells[w].target = r.in(-9, 9); control(W, w, k.wells[w]); }
            Opm::TwophaseState st; st.init(g, 2); Opm::WellState wst; VI sat(nc); std::string mob = "[", sa = "[";
            for (int c = 0; c < nc; ++c) { sat[c] = r.in(0, 2); st.saturation()[2*c] = sat[c]/2.0; st.saturation()[2*c+1] = 1 - sat[c]/2.0; st.pressure()[c] = r.in(0, 5);
                mob += std::string(c ? "," : "") + (sat[c] == 2 ? "[2,0]" : sat[c] == 0 ? "[0,1]" : "[1,1]"); sa += (c ? ",[" : "[") + j(sat[c]) + "," + j(2 - sat[c]) + "]"; }
            mob += "]"; sa += "]";
            wst.init(W, st); for (int w = 0; w < nw; ++w) wst.bhp()[w] = k.wells[w].kind == "bhp" && r.chance(2, 3) ? k.wells[w].target : r.in(0, 5);
            VD start = st.pressure(), cur = start, curw = wst.bhp(), old = wst.bhp(); int it = 0; bool conv = !newton;
            auto common = [&](Ev& e) { e.raw("half", pairs(half)).raw("drop", pairs(drop)).raw("mob", mob).raw("sat", sa).put("rho", VI{qi(pr.rho[0]), qi(pr.rho[1])}).put("grav", gz).put("src", srci).raw("bc", bcs(k.bc)).raw("wells", wls(k.wells, 0)).put("steady", !newton); };
            lin.f = [&](int m, const int* ia, const int* ja, const double* sv, const double* b, double* x) {
                VD at(m); bool last = it + 1 >= maxit ? r.chance(1, 2) : r.chance(1, 3);
                for (int i = 0; i < m; ++i) { double now = i < nc ? cur[i] : curw[i - nc]; 
                    if (newton) { at[i] = last ? (ctol > 0 ? r.in(-1, 1) : 0) : r.in(0, 5) - now; if (i >= nc && k.wells[i-nc].kind == "bhp" && !last && r.chance(3, 4)) at[i] = k.wells[i-nc].target - now; if (i < nc && now + at[i] < 0) at[i] = 0; }
                    else at[i] = i >= nc && k.wells[i-nc].kind == "bhp" && r.chance(4, 5) ? k.wells[i-nc].target : r.in(-9, 9); }
                double nrm = 0; for (double v : at) nrm = std::max(nrm, std::fabs(v)); if (newton && nrm <= ctol) conv = true;
                VD rs(m, 0.0); for (int i = 0; i < m; ++i) { for (int p = ia[i]; p < ia[i+1]; ++p) rs[i] += sv[p]*at[ja[p]]; rs[i] -= b[i]; }
                VI xa(m); for (int i = 0; i < m; ++i) xa[i] = qi(at[i] + (newton ? (i < nc ? cur[i] : curw[i-nc]) : 0));
                Ev e("assemble"); common(e);
                if (newton) e.put("pv", pv).put("ref", ints(cur)).put("start", ints(start)); else e.put("d", VI(nc, 0)).put("ref", VI(nc, 0)).put("ex", VI(nc, 0));
                e.put("ok", true).put("x", VI(xa.begin(), xa.begin() + nc)).put("xw", VI(xa.begin() + nc, xa.end())).put("res", ints(VD(rs.begin(), rs.begin() + nc))).put("resw", ints(VD(rs.begin() + nc, rs.end()))).emit();
                for (int i = 0; i < m; ++i) { x[i] = at[i]; (i < nc ? cur[i] : curw[i-nc]) = xa[i]; } ++it; };
            bool ok = true; op("IncompTpfa::solve"); try { sol->solve(1.0, st, wst); } catch (std::exception&) { ok = false; }
            Ev e("end"); common(e); if (newton) e.put("pv", pv).put("ref", ints(cur)).put("start", ints(start)); else e.put("d", VI(nc, 0)).put("ref", VI(nc, 0)).put("ex", VI(nc, 0));
            e.put("ok", ok).put("conv", conv).put("spent", it == maxit).put("x", ints(cur)).put("xw", ints(curw)).emit();
            if (ok && it > 0) Ev("flux").put("x", ints(st.pressure())).put("xw", ints(curw)).put("flux", ints(st.faceflux())).raw("wflux", nest(k.wells, wst.perfRates())).put("old", ints(old)).put("bhp", ints(wst.bhp())).emit();
        }
        sol.reset(); if (W) destroy_wells(W); if (bc) flow_conditions_destroy(bc);
    }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); std::string line;
    if (!a.script.empty()) { std::ifstream is(a.script); while (std::getline(is, line)) if (!line.empty()) scripted(line, r); }
    clevel(r, a.thorough ? 4000 : 500); clslevel(r, a.thorough ? 1500 : 200);
    done();
}
