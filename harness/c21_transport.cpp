// Driver for C21: explicit and implicit upwind steps, flow-ordered transport of
// incompressible and compressible fluids, and vertical segregation in columns.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/props/IncompPropertiesInterface.hpp>
#include <opm/core/props/BlackoilPropertiesInterface.hpp>
#include <opm/core/simulator/TwophaseState.hpp>

extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
#include <opm/core/transport/minimal/spu_implicit.h>
}
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
static const int R = 60;
static VI ints(const VD& v, double k = 1) { VI r; for (double x : v) r.push_back(qn(x, k)); return r; }
static VI rnd(const VD& v, double k) { VI r; for (double x : v) r.push_back(x*k > -2e9 && x*k < 2e9 ? (int)std::floor(x*k + 0.5) : BAD); return r; }
static VD dbl(const VI& v, double k = 1) { VD r; for (int x : v) r.push_back(x*k); return r; }
static std::string pairs(const VI& v, int add = 0) { std::string s = "["; for (size_t i = 0; i + 1 < v.size(); i += 2) s += (i ? ",[" : "[") + j(v[i]+add) + "," + j(v[i+1]+add) + "]"; return s + "]"; }
static std::string list(const std::vector<VI>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + j(v[i]); return s + "]"; }
struct Net { int nc; VI pr; };            // cells from 0, outside -1
static Net network(Rng& r, int nmax, bool parallel)
{
    Net n; n.nc = r.in(2, nmax); int nf = r.in(1, n.nc + 4); std::set<std::pair<int,int> > seen;
    for (int f = 0; f < nf; ++f) { int a = r.in(0, n.nc - 1), b = r.in(-1, n.nc - 1); if (a == b) continue;
        if (b >= 0 && !parallel && !seen.insert(std::make_pair(std::min(a, b), std::max(a, b))).second) continue;
        if (r.chance(1, 2)) std::swap(a, b);
        n.pr.push_back(a); n.pr.push_back(b); }
    if (n.pr.empty()) { n.pr.push_back(0); n.pr.push_back(1); }
    return n;
}
static VI pick(Rng& r, int n, int lo, int hi) { VI v(n); for (int& x : v) x = r.chance(1, 4) ? 0 : r.in(lo, hi); return v; }
static VI mobs(Rng& r, int nc, int style)
{ VI m; for (int c = 0; c < nc; ++c) { int a = r.in(0, 3), b = r.in(0, 3); if (style == 1) { a = r.chance(1, 2) ? 3 : 0; b = 3 - a; } if (a + b == 0) a = 1; m.push_back(a); m.push_back(b); } return m; }

static void explicitStep(const Net& n, const VI& mob, const VI& d, const VI& g, const VI& src, const VI& s0, int dt, bool inplace)
{
    FakeGrid fg(n.nc, n.pr); VD S0 = dbl(s0, 1.0/R), S(n.nc, -7), M = dbl(mob), D = dbl(d), G = dbl(g), Q = dbl(src);
    D.push_back(0); G.push_back(0);
    op("spu_explicit"); spu_explicit(&fg.g, S0.data(), inplace ? S0.data() : S.data(), M.data(), D.data(), G.data(), Q.data(), dt);
    Ev("explicit").put("run", run++).put("nc", n.nc).raw("faces", pairs(n.pr, 1)).raw("mob", pairs(mob)).put("d", d).put("g", g).put("src", src).put("dt", dt).put("s0", s0).put("got", ints(inplace ? S0 : S, R)).emit();
}
static void assembleStep(Rng& r, const Net& n, const VI& mob)
{
    int nf = n.pr.size()/2; VI d = pick(r, nf, -6, 6), g = pick(r, nf, -3, 3), src = pick(r, n.nc, -3, 3), s0, s, dm = pick(r, 2*n.nc, -3, 3); int dt = r.in(1, 3);
    for (int c = 0; c < n.nc; ++c) { s0.push_back(r.in(0, R)); s.push_back(r.in(0, R)); }
    FakeGrid fg(n.nc, n.pr); VD S0 = dbl(s0, 1.0/R), S1 = dbl(s, 1.0/R), M = dbl(mob), DM = dbl(dm), D = dbl(d), G = dbl(g), Q = dbl(src), b(n.nc, 99);
    int nnz = n.nc + fg.g.cell_facepos[n.nc]; VI ia(n.nc + 1), ja(nnz); VD sa(nnz, 55), work(6);
    sparse_t A; A.ia = ia.data(); A.ja = ja.data(); A.sa = sa.data(); A.m = A.n = n.nc;
    op("spu_implicit_assemble"); spu_implicit_assemble(&fg.g, S0.data(), S1.data(), M.data(), DM.data(), D.data(), G.data(), Q.data(), dt, &A, b.data(), (char*) work.data());
    std::vector<VI> J; for (int c = 0; c < n.nc; ++c) { VD row(n.nc, 0.0); for (int k = ia[c]; k < ia[c+1]; ++k) row[ja[k]] += sa[k]; J.push_back(ints(row, R*R)); }
    VI ds; for (int c = 0; c < n.nc; ++c) ds.push_back(s[c] - s0[c]);
    Ev("assemble").put("run", run++).put("nc", n.nc).raw("faces", pairs(n.pr, 1)).raw("mob", pairs(mob)).raw("dmob", pairs(dm)).put("d", d).put("g", g).put("src", src).put("dt", dt).put("ds", ds).put("res", ints(b, R)).raw("jac", list(J)).emit();
}
// whole iterations with a linear solver that answers at will
struct Answer { Rng* r; int nc, parts, until, calls; VD* s; std::vector<VI> at, b, x; std::string jac; };
static Answer* ans;
static void answer(int n, int* ia, int* ja, double* sa, double* b, double* x)
{
    Answer& a = *ans; VI at, bb, xx; ++a.calls;
    std::vector<VI> J; for (int c = 0; c < n; ++c) { VD row(n, 0.0); for (int k = ia[c]; k < ia[c+1]; ++k) row[ja[k]] += sa[k]; for (double& v : row) { double y = v*R*R; if (std::fabs(y - std::floor(y + 0.5)) < 1e-5) v = std::floor(y + 0.5)/(R*R); } J.push_back(ints(row, R*R)); } a.jac += (a.calls > 1 ? "," : "") + list(J);
    for (int c = 0; c < n; ++c) { int now = qn((*a.s)[c], R), step = R/a.parts, next = step*a.r->in(-2, a.parts + 2); at.push_back(now); bb.push_back(qn(b[c], R)); int d = now - next; if (a.calls >= a.until) d = 0; xx.push_back(d); x[c] = d/(double) R; }
    a.at.push_back(at); a.b.push_back(bb); a.x.push_back(xx);
}
static void iterate(Rng& r)
{
    Net n = network(r, 5, true); int nf = n.pr.size()/2; static const int P[] = {1, 2, 3, 4, 5, 6, 10}; int parts = P[r.in(0, 6)], dt = r.in(1, 2), step = R/parts;
    VI d = pick(r, nf, -6, 6), g = r.chance(1, 2) ? VI(nf, 0) : pick(r, nf, -3, 3), src = pick(r, n.nc, -3, 3), s0, start;
    int len = r.in(2, parts + 2), x0 = step*r.in(0, 1); VI tw, to; for (int k = 0; k < len; ++k) { tw.push_back(r.in(0, 3)); to.push_back(tw[k] == 0 ? r.in(1, 3) : r.in(0, 3)); }
    bool still = r.chance(1, 3); if (still) { d.assign(nf, 0); g.assign(nf, 0); src.assign(n.nc, 0); }
    for (int c = 0; c < n.nc; ++c) { s0.push_back(step*r.in(0, parts)); start.push_back(r.chance(1, 2) ? s0[c] : step*r.in(0, parts)); }
    FakeGrid fg(n.nc, n.pr); VD S0 = dbl(s0, 1.0/R), S = dbl(start, 1.0/R), tab = dbl(tw), t2 = dbl(to), D = dbl(d), G = dbl(g), Q = dbl(src); tab.insert(tab.end(), t2.begin(), t2.end());
    Answer a; a.r = &r; a.nc = n.nc; a.parts = parts; a.until = 99; a.calls = 0; a.s = &S; ans = &a;
    // exact nodes: the contents are sums of whole steps, so nudge the origin down a little
    op("spu_implicit"); double norm = spu_implicit(&fg.g, S0.data(), S.data(), step/(double) R, x0/(double) R - 1e-14, len, tab.data(), D.data(), G.data(), Q.data(), dt, answer);
    Ev("iterate").put("run", run++).put("nc", n.nc).raw("faces", pairs(n.pr, 1)).raw("tab", list({tw, to})).put("parts", parts).put("x0", x0).put("d", d).put("g", g).put("src", src).put("dt", dt).put("s0", s0).put("start", start)
        .raw("at", list(a.at)).raw("b", list(a.b)).raw("x", list(a.x)).raw("jac", "[" + a.jac + "]").put("got", ints(S, R)).put("norm", qn(norm, R)).emit();
}
// the same through the general implicit model
struct CellFluid { VI mob, dmob, pcv, dpcv; VD rho, lo, hi;
    double density(int p) const { return rho[p]; }
    double s_min(int c) const { return lo[c]; } double s_max(int c) const { return hi[c]; }
    template <class S, class M, class D> void mobility(int c, const S&, M& m, D& d) const { m[0] = mob[2*c]; m[1] = mob[2*c+1]; d[0] = dmob[2*c]; d[1] = d[2] = 99; d[3] = -dmob[2*c+1]; }
    template <class S, class P, class D> void pc(int c, const S&, P& p, D& d) const { p = pcv[c]; d = dpcv[c]; } };
struct Sol { VD sat, flux; VD& saturation() { return sat; } const VD& saturation() const { return sat; } const VD& faceflux() const { return flux; } };
typedef ImplicitTransportDefault::NewtonVectorCollection<VD> NV;
typedef ImplicitTransportDefault::JacobianSystem<CSRMatrix, NV> Sys;
static const int HALF[][2] = {{3,6},{6,3},{2,2},{6,6},{4,4},{12,4},{4,12}};
static void model(Rng& r)
{
    Net n = network(r, 5, false); int nf = n.pr.size()/2; VI mob = mobs(r, n.nc, r.in(0, 1)), dm = pick(r, 2*n.nc, -3, 3), d = pick(r, nf, -6, 6), pc = r.chance(1, 2) ? VI(n.nc, 0) : pick(r, n.nc, -1, 1), dpc = r.chance(1, 2) ? VI(n.nc, 0) : pick(r, n.nc, -2, 2), z = pick(r, n.nc, -1, 2), pv, ds, src(n.nc, 0), inj(n.nc, R); int dt = r.in(1, 2), drho = r.in(-1, 2), grav = r.in(0, 1);
    FakeGrid fg(n.nc, n.pr); VD PV, half(fg.g.cell_facepos[n.nc]); VI h2;
    for (int c = 0; c < n.nc; ++c) { pv.push_back(r.in(1, 3)); PV.push_back(pv[c]); ds.push_back(r.in(-R, R)); for (int k = 0; k < 3; ++k) fg.cc[3*c+k] = k == 2 ? z[c] : r.in(-3, 3); }
    for (int f = 0; f < nf; ++f) for (int k = 0; k < 3; ++k) fg.fcen[3*f+k] = r.in(-3, 3);
    for (int f = 0; f < nf; ++f) { const int* h = HALF[r.in(0, 6)]; for (int k = 0; k < 2; ++k) { h2.push_back(h[k]); int c = n.pr[2*f+k]; if (c >= 0) for (int i = fg.g.cell_facepos[c]; i < fg.g.cell_facepos[c+1]; ++i) if (fg.g.cell_faces[i] == f) half[i] = h[k]; } }
    CellFluid F; F.mob = mob; F.dmob = dm; F.pcv = pc; F.dpcv = dpc; F.rho = {(double)drho + 1, 1.0}; F.lo.assign(n.nc, -9); F.hi.assign(n.nc, 9);
    const double gv[3] = {0, 0, (double) grav};
    op("SinglePointUpwindTwoPhase"); SinglePointUpwindTwoPhase<CellFluid> M(F, fg.g, PV, r.chance(1, 4) ? (grav = 0, (const double*)0) : gv, r.chance(1, 2)); M.initGravityTrans(fg.g, half);
    Sol st; st.flux = dbl(d); for (int c = 0; c < n.nc; ++c) { int s = r.in(0, R); st.sat.push_back(s/(double)R); st.sat.push_back(1 - s/(double)R); }
    TransportSource* ts = create_transport_source(r.in(0, 2), 2);
    for (int c = 0; c < n.nc; ++c) { src[c] = r.chance(1, 3) ? 0 : r.in(-3, 3); inj[c] = 15*r.in(0, 4); double sa[2] = {inj[c]/(double)R, 1 - inj[c]/(double)R}, no[2] = {0, 0}; if (src[c]) append_transport_source(c, 2, 0.0, src[c], sa, no, ts); }
    ImplicitAssembly<SinglePointUpwindTwoPhase<CellFluid> > A(M); Sys sys; int rounds = r.in(1, 2);
    for (int k = 0; k < rounds; ++k) {
        op("createSystem"); A.createSystem(fg.g, sys); M.initStep(st, fg.g, sys);
        for (int c = 0; c < n.nc; ++c) sys.vector().writableSolution()[c] = ds[c]/(double)R;
        op("initIteration"); M.initIteration(st, fg.g, sys);
        ImplicitTransportDefault::MatrixZero<CSRMatrix>::zero(sys.writableMatrix()); ImplicitTransportDefault::VectorZero<VD>::zero(sys.vector().writableResidual());
        op("assemble"); A.assemble(st, fg.g, ts, dt, sys);
        std::vector<VI> J; for (int c = 0; c < n.nc; ++c) { VD row(n.nc, 0.0); for (int q = sys.matrix().ia[c]; q < sys.matrix().ia[c+1]; ++q) row[sys.matrix().ja[q]] += sys.matrix().sa[q]; J.push_back(ints(row, R*R)); }
        Ev("assemble").put("run", run++).put("nc", n.nc).raw("faces", pairs(n.pr, 1)).raw("mob", pairs(mob)).raw("dmob", pairs(dm)).put("d", d).raw("half", pairs(h2)).put("weight", drho*grav).put("z", z).put("pc", pc).put("dpc", dpc)
            .put("src", src).put("inj", inj).put("pv", pv).put("dt", dt).put("ds", ds).put("res", ints(sys.vector().residual(), R)).raw("jac", list(J)).emit();
        for (int& x : ds) x = r.in(-R, R);
    }
    destroy_transport_source(ts);
}
// ---- whole solvers ----
static double kr(int kind, double s, int phase) { double x = phase ? 1 - s : s; return kind == 0 ? x : x*x; }
static double dkr(int kind, double s, int phase) { double x = phase ? 1 - s : s; return kind == 0 ? 1 : 2*x; }
struct Props : IncompPropertiesInterface {
    int nc, dim; VI kind; VD mu, rho, perm, por;
    int numDimensions() const { return dim; } int numCells() const { return nc; } const double* porosity() const { return por.data(); } const double* permeability() const { return perm.data(); }
    int numPhases() const { return 2; } const double* viscosity() const { return mu.data(); } const double* density() const { return rho.data(); } const double* surfaceDensity() const { return rho.data(); }
    void relperm(const int n, const double* s, const int* cells, double* k, double* d) const { for (int i = 0; i < n; ++i) for (int p = 0; p < 2; ++p) { k[2*i+p] = kr(kind[cells[i]], s[2*i], p); if (d) { d[4*i+2*p] = d[4*i+2*p+1] = 0; d[4*i+2*p+p] = dkr(kind[cells[i]], s[2*i], p); } } }
    void capPress(const int n, const double*, const int*, double* pc, double* d) const { for (int i = 0; i < 2*n; ++i) pc[i] = 0; if (d) for (int i = 0; i < 4*n; ++i) d[i] = 0; }
    void satRange(const int n, const int*, double* a, double* b) const { for (int i = 0; i < 2*n; ++i) { a[i] = 0; b[i] = 1; } }
    double ff(int c, double s) const { double a = kr(kind[c], s, 0)/mu[0], b = kr(kind[c], s, 1)/mu[1]; return a/(a + b); }
};
struct BProps : BlackoilPropertiesInterface {
    Props P; VI b, bo; VI p; // formation volumes by cell; pressures are only markers
    int numDimensions() const { return P.dim; } int numCells() const { return P.nc; } const double* porosity() const { return P.porosity(); } const double* permeability() const { return P.permeability(); }
    int numPhases() const { return 2; }
    void viscosity(const int n, const double*, const double*, const int* c, double* mu, double*) const { for (int i = 0; i < n; ++i) { mu[2*i] = P.mu[0]*(1 + c[i] % 2); mu[2*i+1] = P.mu[1]*(1 + c[i] % 2); } }
    void matrix(const int n, const double* pr, const double*, const int*, double* A, double* d) const { for (int i = 0; i < n; ++i) { A[4*i] = std::floor(pr[i]/10); A[4*i+1] = A[4*i+2] = 0; A[4*i+3] = pr[i] - 10*std::floor(pr[i]/10); if (d) for (int k = 0; k < 4; ++k) d[4*i+k] = 0; } }
    void density(const int n, const double* A, double* rho) const { for (int i = 0; i < n; ++i) { rho[2*i] = A[4*i]*P.rho[0]; rho[2*i+1] = A[4*i+3]*P.rho[1]; } }
    const double* surfaceDensity() const { return P.rho.data(); }
    void relperm(const int n, const double* s, const int* c, double* k, double* d) const { P.relperm(n, s, c, k, d); }
    void capPress(const int n, const double* s, const int* c, double* k, double* d) const { P.capPress(n, s, c, k, d); }
    void satRange(const int n, const int* c, double* a, double* b2) const { P.satRange(n, c, a, b2); }
};
static Props fluid(Rng& r, int nc, bool linear)
{ Props p; p.nc = nc; p.dim = 3; bool mixed = r.chance(1, 2); int k = r.in(0, 1); for (int c = 0; c < nc; ++c) p.kind.push_back(linear ? 0 : mixed ? r.in(0, 1) : k); p.mu = {(double) r.in(1, 2), (double) r.in(1, 2)}; if (linear) p.mu[1] = p.mu[0]; p.rho = {2, 1}; p.perm.assign(9*nc, 0); for (int c = 0; c < nc; ++c) for (int i = 0; i < 3; ++i) p.perm[9*c+4*i] = 1; p.por.assign(nc, 1); return p; }
struct Flow { Net n; VI v, q; };          // fluxes per face (all faces), net outflow of interior faces
static Flow flow(Rng& r, int style)
{
    Flow F; int nc;
    if (style == 0) { F.n = network(r, 6, true); }
    else { int a = r.in(2, 4), b = r.in(1, 3); nc = a*b; F.n.nc = nc; VI id(nc); for (int c = 0; c < nc; ++c) id[c] = c; r.shuffle(id);
        for (int y = 0; y < b; ++y) for (int x = 0; x <= a; ++x) { F.n.pr.push_back(x ? id[y*a+x-1] : -1); F.n.pr.push_back(x < a ? id[y*a+x] : -1); }
        for (int y = 1; y < b; ++y) for (int x = 0; x < a; ++x) { F.n.pr.push_back(id[(y-1)*a+x]); F.n.pr.push_back(id[y*a+x]); } }
    nc = F.n.nc; int nf = F.n.pr.size()/2; F.v.assign(nf, 0); int kind = r.in(0, 2); VI pot(nc + 1); for (int& x : pot) x = r.in(-4, 4);
    for (int f = 0; f < nf; ++f) { int a = F.n.pr[2*f], b = F.n.pr[2*f+1]; F.v[f] = kind == 0 || a < 0 || b < 0 ? r.in(-5, 5) : (pot[a < 0 ? nc : a] - pot[b < 0 ? nc : b]); if (kind == 2 && r.chance(1, 3)) F.v[f] = 0; }
    F.q.assign(nc, 0); for (int f = 0; f < nf; ++f) { int a = F.n.pr[2*f], b = F.n.pr[2*f+1]; if (a >= 0 && b >= 0) { F.q[a] += F.v[f]; F.q[b] -= F.v[f]; } }
    return F;
}
static Ev stepEv(const Flow& F, int Q, const VI& z0, const VD& s, const VD& f, int dt, const VI& pv0, const VI& b, bool ok, bool may, int slope, int slack)
{ VD w, o; for (size_t c = 0; c < s.size()/2; ++c) { w.push_back(s[2*c]); o.push_back(s[2*c+1]); }
  Ev e("step"); e.put("run", run++).put("nc", F.n.nc).raw("faces", pairs(F.n.pr, 1)).put("v", F.v).put("q", F.q).put("Q", Q).put("z0", z0).put("dt", dt).put("pv0", pv0).put("b", b).put("ok", ok).put("may", may).put("S", rnd(w, Q)).put("O", rnd(o, Q)).put("F", rnd(f, Q)).put("slope", slope).put("slack", slack); return e; }
static VI satur(Rng& r, int nc, int Q) { VI s; for (int c = 0; c < nc; ++c) { int k = r.in(0, 5); s.push_back(k == 0 ? 0 : k == 1 ? Q : Q/20*r.in(0, 20)); } return s; }
static void incompressible(Rng& r)
{
    const int Q = 1000000; Flow F = flow(r, r.in(0, 1)); int nc = F.n.nc, nf = F.v.size(); Props P = fluid(r, nc, false); FakeGrid fg(nc, F.n.pr);
    op("TransportSolverTwophaseReorder"); TransportSolverTwophaseReorder T(fg.g, P, 0, 1e-9, 200);
    TwophaseState st; st.init(fg.g, 2); int steps = r.in(1, 3); VI s0 = satur(r, nc, Q);
    for (int c = 0; c < nc; ++c) { st.saturation()[2*c] = s0[c]/(double) Q; st.saturation()[2*c+1] = 1 - s0[c]/(double) Q; }
    for (int k = 0; k < steps; ++k) {
        VI pv; for (int c = 0; c < nc; ++c) pv.push_back(r.in(1, 20)); int dt = r.in(1, 3);
        if (k) { Flow G; do G = flow(r, r.in(0, 1)); while (false); for (int f = 0; f < nf; ++f) F.v[f] = r.chance(1, 2) ? -F.v[f] : F.v[f]; F.q.assign(nc, 0); for (int f = 0; f < nf; ++f) { int a = F.n.pr[2*f], b = F.n.pr[2*f+1]; if (a >= 0 && b >= 0) { F.q[a] += F.v[f]; F.q[b] -= F.v[f]; } } }
        bool squeezed = r.chance(1, 4);   // sources that do not balance: the pore volume changes along
        if (squeezed) for (int c = 0; c < nc; ++c) { int ch = r.in(-1, 1); if (pv[c] + dt*ch > 0) F.q[c] += ch; }
        VD q = dbl(F.q), PV = dbl(pv); st.faceflux() = dbl(F.v); if (st.faceflux().empty()) st.faceflux().push_back(0);
        VI z; for (int c = 0; c < nc; ++c) z.push_back((int) std::floor(st.saturation()[2*c]*Q + 0.5));
        bool ok = true; op("reorder solve"); try { T.solve(PV.data(), q.data(), dt, st); } catch (const std::exception&) { ok = false; }
        VD f; for (int c = 0; c < nc; ++c) f.push_back(P.ff(c, st.saturation()[2*c]));
        stepEv(F, Q, z, st.saturation(), f, dt, pv, VI(nc, 1), ok, true, 1, 1).emit();
        if (!ok) break;
        if (squeezed) { F.q.assign(nc, 0); for (int f = 0; f < nf; ++f) { int a = F.n.pr[2*f], b = F.n.pr[2*f+1]; if (a >= 0 && b >= 0) { F.q[a] += F.v[f]; F.q[b] -= F.v[f]; } } }
    }
}
static void compressible(Rng& r)
{
    const int Q = 100000; Flow F = flow(r, r.in(0, 1)); int nc = F.n.nc; BProps P; P.P = fluid(r, nc, false); FakeGrid fg(nc, F.n.pr);
    op("TransportSolverCompressibleTwophaseReorder"); TransportSolverCompressibleTwophaseReorder T(fg.g, P, 1e-9, 200);
    int steps = r.in(1, 2); VI s0 = satur(r, nc, Q); VD sat, z; for (int c = 0; c < nc; ++c) { sat.push_back(s0[c]/(double)Q); sat.push_back(1 - sat[2*c]); int b = r.in(1, 3); z.push_back(b*sat[2*c]); z.push_back(r.in(1, 3)*sat[2*c+1]); }
    for (int k = 0; k < steps; ++k) {
        VI b, bo, pv0, pv; VD press; int dt = r.in(1, 2); for (int c = 0; c < nc; ++c) { b.push_back(r.in(1, 3)); bo.push_back(r.in(1, 3)); press.push_back(10*b[c] + bo[c]); pv0.push_back(r.in(1, 10)); if (r.chance(1, 3)) F.q[c] += r.in(-2, 2); }
        VI zi; for (int c = 0; c < nc; ++c) zi.push_back((int) std::floor(z[2*c]*Q + 0.5));
        for (int c = 0; c < nc; ++c) {          // enough room for the water that can come in
            double in = F.q[c] > 0 ? F.q[c] : 0, out = F.q[c] < 0 ? -F.q[c] : 0;
            for (size_t f = 0; f < F.v.size(); ++f) { int a = F.n.pr[2*f], e = F.n.pr[2*f+1]; if (a < 0 || e < 0 || (a != c && e != c)) continue; int v = a == c ? F.v[f] : -F.v[f]; if (v > 0) out += v; else in += b[a == c ? e : a]*-v; }
            double need = (pv0[c]*z[2*c] + dt*in - dt*b[c]*out)/b[c]; pv.push_back(std::max(r.in(1, 10), (int) std::ceil(need + 1e-9))); }
        VD V = dbl(F.v), q = dbl(F.q), p0 = dbl(pv0), p1 = dbl(pv); if (V.empty()) V.push_back(0);
        bool ok = true; op("compressible solve"); try { T.solve(V.data(), press.data(), p0.data(), p1.data(), q.data(), dt, sat, z); } catch (const std::exception&) { ok = false; }
        VD f, zw, zo; for (int c = 0; c < nc; ++c) { f.push_back(P.P.ff(c, sat[2*c])); zw.push_back(z[2*c]); zo.push_back(z[2*c+1]); }
        stepEv(F, Q, zi, sat, f, dt, pv0, b, ok, true, 3, 1).put("pv", pv).put("bo", bo).put("zw", rnd(zw, Q)).put("zo", rnd(zo, Q)).emit();
        if (!ok) break;
    }
}
static void newton(Rng& r)
{
    const int Q = 100000; Flow F; do F = flow(r, 1); while (F.v.empty()); int nc = F.n.nc; bool linear = r.chance(1, 2); Props P = fluid(r, nc, linear); FakeGrid fg(nc, F.n.pr); VD half(fg.g.cell_facepos[nc], 2.0), PV; VI pv;
    for (int c = 0; c < nc; ++c) { pv.push_back(r.in(5, 40)); PV.push_back(pv[c]); }
    parameter::ParameterGroup param; param.disableOutput(); param.insertParameter("max_it", "60"); param.insertParameter("guess_old_solution", r.chance(1, 2) ? "true" : "false");
    op("TransportSolverTwophaseImplicit"); TransportSolverTwophaseImplicit T(fg.g, P, PV, 0, half, param);
    TwophaseState st; st.init(fg.g, 2); VI s0 = satur(r, nc, Q); for (int c = 0; c < nc; ++c) { st.saturation()[2*c] = s0[c]/(double) Q; st.saturation()[2*c+1] = 1 - s0[c]/(double) Q; } st.faceflux() = dbl(F.v);
    for (int k = 0; k < 2; ++k) {
        VI z; for (int c = 0; c < nc; ++c) z.push_back((int) std::floor(st.saturation()[2*c]*Q + 0.5));
        VD q = dbl(F.q); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); bool ok = true; op("implicit solve");
        try { T.solve(PV.data(), q.data(), 1.0, st); } catch (const std::exception&) { ok = false; } std::cout.rdbuf(old);
        bool conv = os.str().find("converged:       1") != std::string::npos;
        VD f; for (int c = 0; c < nc; ++c) f.push_back(P.ff(c, st.saturation()[2*c]));
        if (conv || linear || !ok) stepEv(F, Q, z, st.saturation(), f, 1, pv, VI(nc, 1), ok, false, 2, 2).put("pv", pv).emit();
        if (!conv) break;
    }
}
// faces may point either way
static void turn(Rng& r, const UnstructuredGrid& cg)
{ UnstructuredGrid& g = const_cast<UnstructuredGrid&>(cg); for (int f = 0; f < g.number_of_faces; ++f) if (r.chance(1, 2)) { std::swap(g.face_cells[2*f], g.face_cells[2*f+1]); for (int k = 0; k < g.dimensions; ++k) g.face_normals[g.dimensions*f+k] *= -1; } }
static void sink(Rng& r)
{
    const int Q = 10000; int nx = r.in(1, 3), nz = r.in(1, 4); GridManager gm(nx, 1, nz); const UnstructuredGrid& g = *gm.c_grid(); int nc = g.number_of_cells, nf = g.number_of_faces; turn(r, g); Props P = fluid(r, nc, r.chance(1, 2));
    int gr = r.in(-1, 2), dr = r.in(-1, 2); P.rho = {(double) dr + 3, 3}; const double grav[3] = {0, 0, 2.0*gr}; VI K, pv, z; VD half(g.cell_facepos[nc]), PV;
    for (int c = 0; c < nc; ++c) { K.push_back(r.chance(1, 2) ? 1 : 3); pv.push_back(r.in(5, 40)); PV.push_back(pv[c]); z.push_back(qn(g.cell_centroids[3*c+2] - 0.5)); for (int i = g.cell_facepos[c]; i < g.cell_facepos[c+1]; ++i) half[i] = 2*K[c]; }
    VI v(nf, 0), q(nc, 0), pr, h2, pot(nc); for (int& x : pot) x = r.in(-2, 2); bool rest = r.chance(1, 3);
    for (int f = 0; f < nf; ++f) { int a = g.face_cells[2*f], b = g.face_cells[2*f+1]; pr.push_back(a); pr.push_back(b); h2.push_back(a < 0 ? 1 : 2*K[a]); h2.push_back(b < 0 ? 1 : 2*K[b]); if (a >= 0 && b >= 0 && !rest) { v[f] = pot[a] - pot[b]; q[a] += v[f]; q[b] -= v[f]; } else if (a < 0 || b < 0) v[f] = r.in(-3, 3); }
    parameter::ParameterGroup param; param.disableOutput(); param.insertParameter("max_it", "60"); param.insertParameter("guess_old_solution", r.chance(1, 2) ? "true" : "false");
    op("TransportSolverTwophaseImplicit"); TransportSolverTwophaseImplicit T(g, P, PV, grav, half, param);
    TwophaseState st; st.init(g, 2); VI s0 = satur(r, nc, Q); for (int c = 0; c < nc; ++c) { st.saturation()[2*c] = s0[c]/(double) Q; st.saturation()[2*c+1] = 1 - s0[c]/(double) Q; } st.faceflux() = dbl(v);
    for (int k = 0; k < 2; ++k) {
        VI z0; for (int c = 0; c < nc; ++c) z0.push_back((int) std::floor(st.saturation()[2*c]*Q + 0.5));
        VD src = dbl(q); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); op("implicit solve with gravity"); T.solve(PV.data(), src.data(), 1.0, st); std::cout.rdbuf(old);
        if (os.str().find("converged:       1") == std::string::npos) break;
        VD f, mw, mo, S, O; for (int c = 0; c < nc; ++c) { double s = st.saturation()[2*c]; f.push_back(P.ff(c, s)); S.push_back(s); O.push_back(st.saturation()[2*c+1]); mw.push_back(kr(P.kind[c], s, 0)/P.mu[0]); mo.push_back(kr(P.kind[c], s, 1)/P.mu[1]); }
        Ev("sink").put("run", run++).put("nc", nc).raw("faces", pairs(pr, 1)).put("v", v).put("q", q).put("Q", Q).put("dt", 1).put("z0", z0).put("pv", pv).raw("half", pairs(h2)).put("z", z).put("weight", dr*2*gr).put("S", rnd(S, Q)).put("O", rnd(O, Q)).put("F", rnd(f, Q)).put("mw", rnd(mw, Q)).put("mo", rnd(mo, Q)).emit();
    }
}
static void settle(Rng& r, bool compr)
{
    const int Q = 10000; int nx = r.in(1, 2), ny = r.in(1, 2), nz = r.in(1, 5); GridManager gm(nx, ny, nz); const UnstructuredGrid& g = *gm.c_grid(); int nc = g.number_of_cells; turn(r, g);
    BProps B; B.P = fluid(r, nc, false); Props& P = B.P; VI K; for (int c = 0; c < nc; ++c) { K.push_back(r.chance(1, 2) ? 1 : 3); for (int i = 0; i < 3; ++i) P.perm[9*c+4*i] = K[c]; }
    int up = r.chance(1, 2) ? 1 : -1, gr = r.in(0, 2), dr = r.in(-1, 2); P.rho = {(double) dr + 3, 3}; const double grav[3] = {0, 0, (double) 4*up*gr}; if (compr) P.mu = {1, 1};
    std::vector<VI> cols; extractColumn(g, cols); if (compr && r.chance(1, 3)) for (VI& c : cols) std::reverse(c.begin(), c.end());
    VI b(nc, 1), bo(nc, 1), mu(nc, 1); VD press(nc, 11.0), V(g.number_of_faces, 0.0), none(nc, 0.0);
    if (compr) for (int c = 0; c < nc; ++c) { mu[c] = 1 + c % 2; if (r.chance(1, 2)) { b[c] = r.in(1, 2); bo[c] = r.in(1, 2); } press[c] = 10*b[c] + bo[c]; }
    VI s0 = satur(r, nc, Q); VD sat, z; for (int c = 0; c < nc; ++c) { sat.push_back(s0[c]/(double) Q); sat.push_back(1 - sat[2*c]); z.push_back(b[c]*sat[2*c]); z.push_back(bo[c]*sat[2*c+1]); }
    op("gravity solvers"); TransportSolverTwophaseReorder T(g, P, grav, 1e-9, 500); TransportSolverCompressibleTwophaseReorder U(g, B, 1e-9, 500); if (compr) U.initGravity(grav);
    TwophaseState st; st.init(g, 2); st.saturation() = sat;
    for (int k = 0, rounds = r.in(1, 3); k < rounds; ++k) {
        VI pv; VD PV; for (int c = 0; c < nc; ++c) { pv.push_back(r.in(1, 20)); PV.push_back(pv[c]); s0[c] = (int) std::floor(sat[2*c]*Q + 0.5); }
        int dt = r.in(1, 3); bool ok = true;
        if (!compr) { op("incompressible gravity"); try { T.solveGravity(PV.data(), dt, st); } catch (const std::exception&) { ok = false; } sat = st.saturation(); }
        else {
            op("compressible gravity"); try { U.solve(V.data(), press.data(), PV.data(), PV.data(), none.data(), dt, sat, z); U.solveGravity(cols, dt, sat, z); } catch (const std::exception&) { ok = false; }
            for (int c = 0; c < nc; ++c) if (std::fabs(z[2*c] - b[c]*sat[2*c]) > 1e-12 || std::fabs(z[2*c+1] - bo[c]*sat[2*c+1]) > 1e-12) ok = false;
        }
        std::string C = "["; bool first = true;
        for (const VI& col : cols) { VI k, a, w, S, O, S0; VD mw, mo; for (int c : col) { k.push_back(K[c]); a.push_back(pv[c]); w.push_back(2*up*gr*(b[c]*(dr + 3) - bo[c]*3)); S0.push_back(s0[c]); S.push_back(rnd(VD(1, sat[2*c]), Q)[0]); O.push_back(rnd(VD(1, sat[2*c+1]), Q)[0]); mw.push_back(kr(P.kind[c], sat[2*c], 0)/P.mu[0]/mu[c]); mo.push_back(kr(P.kind[c], sat[2*c], 1)/P.mu[1]/mu[c]); }
            bool down = col.size() < 2 || g.cell_centroids[3*col[1]+2] > g.cell_centroids[3*col[0]+2];
            C += (first ? "" : ",") + Ev().put("K", k).put("pv", a).put("w", w).put("S0", S0).put("S", S).put("O", O).put("mw", rnd(mw, Q)).put("mo", rnd(mo, Q)).put("down", down ? 1 : -1).str(); first = false; }
        Ev("settle").put("run", run++).put("Q", Q).put("dt", dt).put("ok", ok).raw("columns", C + "]").emit();
        if (!ok) break;
    }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2100); int T = a.thorough ? 30 : 1;
    { // every situation of one face
        static const int M[][2] = {{0,3},{1,2},{2,1},{3,0},{1,0},{0,1},{2,2},{3,3},{0,2}};
        Net n; VI mob, d, g; auto flush = [&]() { n.nc = mob.size()/2; VI s0(n.nc, 30); explicitStep(n, mob, d, g, VI(n.nc, 0), s0, 1, r.chance(1, 4)); if (r.chance(1, a.thorough ? 2 : 10)) { Net m; m.nc = 6; m.pr = VI(n.pr.begin(), n.pr.begin() + 6); assembleStep(r, m, VI(mob.begin(), mob.begin() + 12)); } n = Net(); mob.clear(); d.clear(); g.clear(); };
        for (auto& x : M) for (auto& y : M) for (int dd = -6; dd <= 6; ++dd) for (int gg = -3; gg <= 3; ++gg) { int c = mob.size()/2; mob.insert(mob.end(), {x[0], x[1], y[0], y[1]}); n.pr.push_back(c); n.pr.push_back(c + 1); d.push_back(dd); g.push_back(gg); if (mob.size() == 120) flush(); }
        flush();
    }
    for (int i = 0; i < 300*T; ++i) { Net n = network(r, 6, true); VI s0; for (int c = 0; c < n.nc; ++c) s0.push_back(r.in(0, R)); int nf = n.pr.size()/2; explicitStep(n, mobs(r, n.nc, r.in(0, 1)), pick(r, nf, -6, 6), pick(r, nf, -3, 3), pick(r, n.nc, -3, 3), s0, r.in(1, 3), r.chance(1, 3)); }
    for (int i = 0; i < 300*T; ++i) { Net n = network(r, 5, true); assembleStep(r, n, mobs(r, n.nc, r.in(0, 1))); }
    for (int i = 0; i < 150*T; ++i) iterate(r);
    for (int i = 0; i < 300*T; ++i) model(r);
    for (int i = 0; i < 400*T; ++i) incompressible(r);
    for (int i = 0; i < 400*T; ++i) compressible(r);
    for (int i = 0; i < 200*T; ++i) newton(r);
    for (int i = 0; i < 150*T; ++i) sink(r);
    for (int i = 0; i < 300*T; ++i) settle(r, i % 2);
    done();
}
