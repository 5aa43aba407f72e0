// Driver for C10: Cartesian, tensor-product and layered grids, made by the C functions, the grid manager and decks.
#include "common.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static std::string work;
struct Lat { int dim; VI x, y, z, dep; };
static std::string list(const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; } return s + "]"; }
static VD sc(const VI& v, double u) { VD r; for (int x : v) r.push_back(x * u); return r; }
static void show(const Lat& L, const UnstructuredGrid* g, double u, const char* how)
{
    int d = L.dim; double ua = d == 3 ? u * u : u, uv = d == 3 ? u * u * u : u * u;
    Ev in; in.put("dim", L.dim).put("x", L.x).put("y", L.y).put("z", L.z).put("dep", L.dep);
    Ev o; o.put("dim", g->dimensions).put("cart", VI{g->cartdims[0], g->cartdims[1], g->cartdims[2]});
    bool id = true; if (g->global_cell) for (int c = 0; c < g->number_of_cells; ++c) if (g->global_cell[c] != c) id = false;
    o.put("global", id ? "identity" : "other");
    auto vec = [&](const double* p, double un) { std::string s = "["; for (int i = 0; i < d; ++i) { if (i) s += ","; s += j(qn(p[i] / un)); } return s + "]"; };
    std::vector<std::string> nd, fc, cl;
    for (int n = 0; n < g->number_of_nodes; ++n) nd.push_back(vec(g->node_coordinates + n * d, u));
    for (int f = 0; f < g->number_of_faces; ++f) {
        std::vector<std::string> p;
        for (int k = g->face_nodepos[f]; k < g->face_nodepos[f + 1] && p.size() < 9; ++k) { int n = g->face_nodes[k]; p.push_back(n >= 0 && n < g->number_of_nodes ? nd[n] : "[0]"); }
        Ev e; e.put("c", VI{g->face_cells[2*f], g->face_cells[2*f + 1]}).raw("p", list(p)).raw("n", vec(g->face_normals + f * d, ua)).raw("m", vec(g->face_centroids + f * d, u));
        double a = g->face_areas[f] / ua; e.put("a2", a >= 0 ? qn(a * a) : BAD); fc.push_back(e.str());
    }
    for (int c = 0; c < g->number_of_cells; ++c) {
        std::vector<std::string> p;
        for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1] && p.size() < 13; ++k) { int f = g->cell_faces[k]; p.push_back("[" + j(f >= 0 && f < g->number_of_faces ? f : 0) + "," + j(f >= 0 && f < g->number_of_faces ? g->cell_facetag[k] : BAD) + "]"); }
        Ev e; e.raw("f", list(p)).put("v", qn(g->cell_volumes[c] / uv)).raw("m", vec(g->cell_centroids + c * d, u)); cl.push_back(e.str());
    }
    o.raw("nodes", list(nd)).raw("faces", list(fc)).raw("cells", list(cl));
    Ev("grid").put("how", how).raw("in", in.str()).raw("o", o.str()).emit();
}
static void both(const Lat& L, UnstructuredGrid* g, double u, const char* how)
{ if (!g) { Ev("failed").put("how", how).emit(); return; } show(L, g, u, how); destroy_grid(g); }
static VI uni(int n, int h) { VI v; for (int i = 0; i <= n; ++i) v.push_back(i * h); return v; }
static VI var(Rng& r, int n, bool zero) { VI v(1, zero ? 0 : 2 * r.in(-10, 10)); for (int i = 0; i < n; ++i) v.push_back(v.back() + 2 * r.in(1, 6)); return v; }
static const VD units = { 1.0, 0.5, 0.25, 100.0, 1e-3, 0.1 };
static void uniform(Rng& r, int nx, int ny, int nz)
{
    double u = r.pick(units); int h = 2 * r.in(1, 4), k = 2 * r.in(1, 4), m = 2 * r.in(1, 4);
    if (nz == 0) {
        op("create_grid_cart2d"); both(Lat{2, uni(nx, h), uni(ny, k), VI(), VI()}, create_grid_cart2d(nx, ny, h * u, k * u), u, "cart2d");
        op("GridManager 2D"); { Opm::GridManager M(nx, ny); show(Lat{2, uni(nx, 2), uni(ny, 2), VI(), VI()}, M.c_grid(), 0.5, "manager2d"); }
        op("GridManager 2D sizes"); { Opm::GridManager M(nx, ny, h * u, k * u); show(Lat{2, uni(nx, h), uni(ny, k), VI(), VI()}, M.c_grid(), u, "manager2ds"); }
        return;
    }
    op("create_grid_hexa3d"); both(Lat{3, uni(nx, h), uni(ny, k), uni(nz, m), VI()}, create_grid_hexa3d(nx, ny, nz, h * u, k * u, m * u), u, "hexa3d");
    op("create_grid_cart3d"); both(Lat{3, uni(nx, 2), uni(ny, 2), uni(nz, 2), VI()}, create_grid_cart3d(nx, ny, nz), 0.5, "cart3d");
    op("GridManager 3D"); { Opm::GridManager M(nx, ny, nz); show(Lat{3, uni(nx, 2), uni(ny, 2), uni(nz, 2), VI()}, M.c_grid(), 0.5, "manager3d"); }
    op("GridManager 3D sizes"); { Opm::GridManager M(nx, ny, nz, h * u, k * u, m * u); show(Lat{3, uni(nx, h), uni(ny, k), uni(nz, m), VI()}, M.c_grid(), u, "manager3ds"); }
}
static VI depths(Rng& r, int nx, int ny, int kind, const VI& x, const VI& y)
{
    VI d; if (kind == 0) return d;
    int c = 2 * r.in(-10, 30), a = r.in(-1, 1), b = r.in(-1, 1);
    for (int jj = 0; jj <= ny; ++jj) for (int i = 0; i <= nx; ++i) {
        if (kind == 1) d.push_back(c);
        else if (kind == 2) d.push_back(c + a * x[i] + b * y[jj]);       // plane
        else d.push_back(2 * r.in(0, 1));                                // any, gently
    }
    return d;
}
static void tensor(Rng& r, int nx, int ny, int nz, int kind)
{
    double u = r.pick(units); Lat L{nz ? 3 : 2, var(r, nx, false), var(r, ny, false), nz ? var(r, nz, false) : VI(), VI()};
    VD x = sc(L.x, u), y = sc(L.y, u);
    if (nz == 0) { op("create_grid_tensor2d"); both(L, create_grid_tensor2d(nx, ny, &x[0], &y[0]), u, "tensor2d"); return; }
    if (kind == 3) { for (VI* v : {&L.x, &L.y}) for (int& q : *v) q *= 2; x = sc(L.x, u); y = sc(L.y, u); }
    L.dep = depths(r, nx, ny, kind, L.x, L.y);
    VD z = sc(L.z, u), dz = sc(L.dep, u);
    op("create_grid_tensor3d"); both(L, create_grid_tensor3d(nx, ny, nz, &x[0], &y[0], &z[0], kind ? &dz[0] : 0), u, "tensor3d");
}
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.12g", v); return b; }
static std::string arr(Rng& r, const char* kw, const VD& v)
{
    std::string s = std::string(kw) + "\n";
    for (size_t i = 0; i < v.size();) { size_t k = i; while (k < v.size() && v[k] == v[i]) ++k;
        if (k - i > 1 && r.chance(2, 3)) { s += " " + std::to_string(k - i) + "*" + num(v[i]); i = k; } else { s += " " + num(v[i]); ++i; } if (r.chance(1, 6)) s += "\n"; }
    return s + " /\n";
}
static void deck(Rng& r, int nx, int ny, int nz, int kind, int wrong)
{
    double u = r.pick(VD{1.0, 0.5, 10.0}); Lat L{3, var(r, nx, true), var(r, ny, true), var(r, nz, true), VI()};
    L.dep = depths(r, nx, ny, kind, L.x, L.y);
    auto delta = [&](const VI& v) { VD d; for (size_t i = 1; i < v.size(); ++i) d.push_back((v[i] - v[i-1]) * u); return d; };
    VD dx = delta(L.x), dy = delta(L.y), dz = delta(L.z);
    int n[3] = { nx, ny, nz };
    VD* all[3] = { &dx, &dy, &dz };
    if (wrong >= 1 && wrong <= 3) { if (r.chance(1, 2)) all[wrong - 1]->push_back(4 * u); else n[wrong - 1] += 1; }
    bool tops = kind == 1 && r.chance(2, 3); if (wrong == 5) tops = true;
    std::vector<std::string> S;
    std::string dims = std::to_string(n[0]) + " " + std::to_string(n[1]) + " " + std::to_string(n[2]);
    S.push_back(r.chance(1, 2) ? "DIMENS\n " + dims + " /\n" : "SPECGRID\n " + dims + " 1 F /\n");
    S.push_back(arr(r, "DXV", dx)); S.push_back(arr(r, "DYV", dy)); S.push_back(arr(r, "DZV", dz));
    if (kind || wrong >= 4) {
        if (tops) { VD t(nx * ny, (L.dep.empty() ? 20 : L.dep[0]) * u); if (wrong == 5) t[r.in(0, t.size() - 1)] += 2 * u; S.push_back(arr(r, "TOPS", t)); }
        else { VD t = sc(L.dep.empty() ? VI((nx + 1) * (ny + 1), 4) : L.dep, u); if (wrong == 4) { if (r.chance(1, 2)) t.push_back(u); else t.pop_back(); } S.push_back(arr(r, "DEPTHZ", t)); }
    }
    if (wrong == 6) S.erase(S.begin() + r.in(1, 3));
    r.shuffle(S);
    std::ofstream os(work.c_str()); for (auto& s : S) os << s; os.close();
    op("grid from deck"); Opm::EclipseGridParser P(work); unlink(work.c_str());
    if (!wrong) { Opm::GridManager M(P); show(L, M.c_grid(), u, "deck"); return; }
    bool th = false; try { Opm::GridManager M(P); } catch (std::exception&) { th = true; }
    Ev("refused").put("wrong", wrong).put("threw", th).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work;
    int m = a.thorough ? 5 : 3;
    for (int x = 1; x <= m; ++x) for (int y = 1; y <= m; ++y) for (int z = 0; z <= m; ++z) { if (z < 3 || a.thorough) uniform(r, x, y, z); tensor(r, x, y, z, 0); if (z) { tensor(r, x, y, z, 2); tensor(r, x, y, z, 3); } }
    int n = a.thorough ? 300 : 40;
    for (int t = 0; t < n; ++t) tensor(r, r.in(1, 6), r.in(1, 6), r.in(0, 4), r.in(0, 3));
    uniform(r, 40, 1, 0); uniform(r, 1, 30, 0); uniform(r, 1, 1, 20); tensor(r, 1, 25, 1, 3); tensor(r, 20, 1, 2, 2);
    for (int t = 0; t < n; ++t) deck(r, r.in(1, 4), r.in(1, 4), r.in(1, 4), t % 4, 0);
    for (int t = 0; t < n; ++t) { int w = 1 + t % 6; deck(r, r.in(w == 5 ? 2 : 1, 4), r.in(1, 4), r.in(1, 4), w == 5 ? 1 : w == 4 ? 2 : t % 4, w); }
    done();
}
