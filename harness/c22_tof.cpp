// Driver for C22: time of flight and tracers on loop-free flow fields.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/tof/TofReorder.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
static VI rnd(const VD& x, double Q) { VI r; for (double v : x) { double y = std::floor(v*Q + 0.5); r.push_back(y > -1e9 && y < 1e9 ? (int) y : BAD); } return r; }
static VD dbl(const VI& x) { VD d(x.begin(), x.end()); if (d.empty()) d.push_back(0); return d; }
struct Field { VI v, src, pv; };
// fluxes down a random ranking of the cells; through flow from outside to outside in balance
static Field field(Rng& r, int nc, const VI& pr, int many)
{
    Field F; int nf = pr.size()/2; F.v.assign(nf, 0); F.src.assign(nc, 0); VI rank(nc); for (int c = 0; c < nc; ++c) rank[c] = c; r.shuffle(rank);
    int kind = r.in(0, 3); VI outer;
    for (int f = 0; f < nf; ++f) { int a = pr[2*f], b = pr[2*f+1];
        if (a < 0 || b < 0) { outer.push_back(f); continue; }
        if (a == b) continue;
        int m = kind == 0 ? r.in(1, 4) : kind == 1 ? (r.chance(1, many) ? r.in(1, 9) : 0) : r.in(0, 3);
        F.v[f] = rank[a] < rank[b] ? m : -m; }
    if (kind == 2) { VI pot(nc); for (int& p : pot) p = r.in(0, 3); for (int f = 0; f < nf; ++f) { int a = pr[2*f], b = pr[2*f+1]; if (a >= 0 && b >= 0) F.v[f] = pot[a] - pot[b]; } }
    if (outer.size() > 1 && r.chance(1, 2)) for (int k = r.in(1, 4); k > 0; --k) { int f = r.pick(outer), g = r.pick(outer), m = r.in(1, 4); if (f == g) continue; F.v[f] += pr[2*f] < 0 ? m : -m; F.v[g] += pr[2*g] < 0 ? -m : m; }
    for (int f = 0; f < nf; ++f) { int a = pr[2*f], b = pr[2*f+1]; if (a >= 0) F.src[a] += F.v[f]; if (b >= 0) F.src[b] -= F.v[f]; }
    for (int c = 0; c < nc; ++c) F.pv.push_back(r.in(1, 9));
    return F;
}
static Ev ev(const char* e, int nc, const VI& pr, const Field& F, bool ok, const VD& t, int Q)
{ std::string s = "["; for (size_t f = 0; f < F.v.size(); ++f) s += (f ? "," : "") + std::string("[") + std::to_string(pr[2*f] + 1) + "," + std::to_string(pr[2*f+1] + 1) + "]";
  Ev x(e); x.put("run", run++).put("n", nc).raw("faces", s + "]").put("v", F.v).put("pv", F.pv).put("src", F.src).put("ok", ok).put("Q", Q).put("T", rnd(t, Q)); return x; }
static void solve(Rng& r, TofReorder& T, int nc, const VI& pr, int what, int many, const std::string& near)
{
    const int Q = 5040, P = 100000; Field F = field(r, nc, pr, many); VD v = dbl(F.v), src = dbl(F.src), pv = dbl(F.pv), tof, tr; if (r.chance(1, 2)) { tof.assign(r.in(0, 2*nc), 7.0); tr.assign(r.in(0, 5), 3.0); } bool ok = true;
    if (what == 0) { op("solveTof"); try { T.solveTof(v.data(), pv.data(), src.data(), tof); } catch (const std::exception&) { ok = false; } ok = ok && (int) tof.size() == nc; ev("tof", nc, pr, F, ok, tof, Q).emit(); }
    else if (what == 1) { op("solveTofTracer"); try { T.solveTofTracer(v.data(), pv.data(), src.data(), tof, tr); } catch (const std::exception&) { ok = false; } ok = ok && (int) tof.size() == nc;
        int n = 0; for (int s : F.src) n += s > 0; ok = ok && (int) tr.size() == n*nc; std::string C = "["; for (int c = 0; c < nc && ok; ++c) { C += (c ? "," : "") + j(rnd(VD(tr.begin() + n*c, tr.begin() + n*(c + 1)), P)); } ev("tracer", nc, pr, F, ok, tof, Q).put("P", P).raw("C", C + "]").emit(); }
    else { op("solveTof multidim"); try { T.solveTof(v.data(), pv.data(), src.data(), tof); } catch (const std::exception&) { ok = false; } ok = ok && (int) tof.size() == nc;
        ev("multi", nc, pr, F, ok, tof, Q).raw("near", near).emit(); }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2200); int X = a.thorough ? 25 : 1;
    for (int i = 0; i < 250*X; ++i) {         // any network
        int nc = r.in(1, 9), nf = r.in(0, 2*nc + 2); VI pr; for (int f = 0; f < nf; ++f) { int x = r.in(-1, nc - 1), y = r.in(-1, nc - 1); if (x == y) continue; pr.push_back(x); pr.push_back(y); }
        FakeGrid fg(nc, pr); TofReorder T(fg.g); for (int k = r.in(1, 4); k > 0; --k) solve(r, T, nc, pr, r.in(0, 1), 2, "");
    }
    for (int i = 0; i < 120*X; ++i) {         // real grids, with multidimensional upwinding
        bool flat = r.chance(2, 3); int d[3] = { r.in(1, 3), r.in(1, 3), flat ? 1 : r.in(1, 2) };
        std::unique_ptr<GridManager> gm(flat ? new GridManager(d[0], d[1]) : new GridManager(d[0], d[1], d[2])); UnstructuredGrid& g = const_cast<UnstructuredGrid&>(*gm->c_grid()); int nc = g.number_of_cells, nf = g.number_of_faces;
        for (int f = 0; f < nf; ++f) if (r.chance(1, 2)) { std::swap(g.face_cells[2*f], g.face_cells[2*f+1]); for (int k = 0; k < g.dimensions; ++k) g.face_normals[g.dimensions*f+k] *= -1; }
        VI pr(g.face_cells, g.face_cells + 2*nf); TofReorder T(g, true), S(g);
        for (int k = r.in(1, 3); k > 0; --k) {
            Rng q = r; Field F = field(q, nc, pr, 3); std::string near = "[";     // the faces of the upstream cell that touch the face
            for (int f = 0; f < nf; ++f) { VI n; int u = F.v[f] > 0 ? pr[2*f] : pr[2*f+1]; if (F.v[f] != 0 && u >= 0) { std::set<int> mine(g.face_nodes + g.face_nodepos[f], g.face_nodes + g.face_nodepos[f+1]);
                    for (int h = g.cell_facepos[u]; h < g.cell_facepos[u+1]; ++h) { int e = g.cell_faces[h]; if (e == f) continue; int common = 0; for (int p = g.face_nodepos[e]; p < g.face_nodepos[e+1]; ++p) common += mine.count(g.face_nodes[p]); if (common > 0) n.push_back(e + 1); } }
                near += (f ? "," : "") + j(n); }
            solve(r, T, nc, pr, 2, 3, near + "]");
            solve(r, S, nc, pr, r.in(0, 1), 3, "");
        }
    }
    done();
}
