// Driver for C11: corner-point descriptions with faults, gaps, pinched and inactive cells, sloping pillars and all handednesses.
#include "common.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static std::string work;
static std::string list(const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; } return s + "]"; }
struct Desc { int nx, ny, nz; std::vector<VI> pil; std::vector<VI> z; VI act; int fz; bool nullact; };
static std::string show(const UnstructuredGrid* g, const Desc& D)
{
    const int L = 60;
    Ev o; o.put("cart", VI{g->cartdims[0], g->cartdims[1], g->cartdims[2]});
    VI gl; for (int c = 0; c < g->number_of_cells; ++c) gl.push_back(g->global_cell ? g->global_cell[c] : c);
    o.put("global", gl);
    VI tag(g->number_of_faces, -1);
    std::vector<std::string> fs, ls;
    for (int c = 0; c < g->number_of_cells; ++c) {
        std::string s = "["; for (int k = g->cell_facepos[c]; k < g->cell_facepos[c + 1]; ++k) { int f = g->cell_faces[k]; if (k > g->cell_facepos[c]) s += ",";
            s += "[" + j(f) + "," + j(g->cell_facetag[k]) + "]"; if (f >= 0 && f < g->number_of_faces && tag[f] < 0) tag[f] = g->cell_facetag[k] & ~1; }
        ls.push_back(s + "]");
    }
    std::map<std::vector<int>, int> seen; bool twice = false;
    auto P = [&](int i, int jj) -> const VI& { return D.pil[i + (D.nx + 1) * jj]; };
    for (int f = 0; f < g->number_of_faces; ++f) {
        std::vector<std::string> p;
        for (int k = g->face_nodepos[f]; k < g->face_nodepos[f + 1] && p.size() < 12; ++k) { int n = g->face_nodes[k];
            if (n < 0 || n >= g->number_of_nodes) { p.push_back("[-1]"); continue; }
            const double* x = g->node_coordinates + 3 * n; VI q = { qn(x[0], L * L), qn(x[1], L * L), qn(x[2], L) };
            auto it = seen.find(q); if (it == seen.end()) seen[q] = n; else if (it->second != n) twice = true;
            p.push_back(j(q)); }
        int c1 = g->face_cells[2*f], c2 = g->face_cells[2*f + 1]; bool ok = c1 < g->number_of_cells && c2 < g->number_of_cells && (c1 >= 0 || c2 >= 0);
        int s = 0;
        if (ok) {
            int c = gl[c2 >= 0 ? c2 : c1], i = c % D.nx, jj = (c / D.nx) % D.ny; double d[3] = { 0, 0, 0 };
            if (tag[f] == 4) { d[0] = P(i, jj)[2]; d[1] = P(i, jj)[3]; d[2] = D.fz; }
            else if (tag[f] == 0) for (int a = 0; a < 2; ++a) d[a] = P(i + 1, jj)[a] - P(i, jj)[a] + P(i + 1, jj + 1)[a] - P(i, jj + 1)[a];
            else for (int a = 0; a < 2; ++a) d[a] = P(i, jj + 1)[a] - P(i, jj)[a] + P(i + 1, jj + 1)[a] - P(i + 1, jj)[a];
            const double* n = g->face_normals + 3 * f; s = n[0]*d[0] + n[1]*d[1] + n[2]*d[2] > 0;
        }
        fs.push_back(Ev().put("c", VI{c1, c2}).put("tag", tag[f]).put("s", s).raw("p", list(p)).str());
    }
    VI v; for (int c = 0; c < g->number_of_cells; ++c) v.push_back(qn(g->cell_volumes[c], 4));
    o.put("vol4", v).raw("faces", list(fs)).raw("lists", list(ls)).put("twice", twice);
    return o.str();
}
static std::string arr(Rng& r, const char* kw, const VD& v)
{
    std::string s = std::string(kw) + "\n"; char b[40];
    for (size_t i = 0; i < v.size();) { size_t k = i; while (k < v.size() && v[k] == v[i]) ++k; snprintf(b, sizeof b, "%.12g", v[i]);
        if (k - i > 1 && r.chance(2, 3)) { s += " " + std::to_string(k - i) + "*" + b; i = k; } else { s += std::string(" ") + b; ++i; } if (r.chance(1, 6)) s += "\n"; }
    return s + " /\n";
}
static int nrun = 0;
static void go(Rng& r, const Desc& D, bool deck)
{
    int nx = D.nx, ny = D.ny, nz = D.nz;
    bool any = false; for (int c = 0; c < nx*ny*nz; ++c) if (D.act[c]) for (int q = 0; q < 4; ++q) if (D.z[c][q] != D.z[c][q + 4]) any = true;
    if (!any) return;                                   // nothing to build
    VD zc(8 * nx * ny * nz), co;
    for (int k = 0; k < nz; ++k) for (int jj = 0; jj < ny; ++jj) for (int i = 0; i < nx; ++i) for (int q = 0; q < 8; ++q)
        zc[(2*i + (q & 1)) + 2*nx*((2*jj + ((q >> 1) & 1)) + 2*ny*(2*k + (q >> 2)))] = D.fz * D.z[i + nx*(jj + ny*k)][q];
    int zcommon = r.in(-10, 10);     // sloping pillars: first points at one depth, so that they show the areal layout
    for (auto& p : D.pil) { bool vert = !p[2] && !p[3]; int zt = vert ? r.in(-10, 10) : zcommon, zb = zt + (vert && r.chance(1, 3) ? 0 : r.in(0, 1) ? 8 : 40);
        if (r.chance(1, 6)) { if (vert) std::swap(zt, zb); else zb = zt - 40; }
        for (double x : {double(p[0] + p[2]*zt), double(p[1] + p[3]*zt), double(D.fz*zt), double(p[0] + p[2]*zb), double(p[1] + p[3]*zb), double(D.fz*zb)}) co.push_back(x); }
    std::string pl = "[", zz = "["; for (size_t i = 0; i < D.pil.size(); ++i) pl += (i ? "," : "") + j(D.pil[i]); for (size_t i = 0; i < D.z.size(); ++i) zz += (i ? "," : "") + j(D.z[i]);
    Ev in; in.put("nx", nx).put("ny", ny).put("nz", nz).raw("pil", pl + "]").raw("z", zz + "]").put("act", D.act).put("fz", D.fz);
    bool allact = true; for (int a : D.act) if (!a) allact = false;
    op("corner-point grid " + in.str().substr(0, 3000));
    if (!deck) {
        struct grdecl gd; gd.dims[0] = nx; gd.dims[1] = ny; gd.dims[2] = nz; gd.coord = &co[0]; gd.zcorn = &zc[0]; gd.actnum = allact && D.nullact ? 0 : &D.act[0]; gd.mapaxes = 0;
        UnstructuredGrid* g = create_grid_cornerpoint(&gd, 0.0);
        if (!g) { Ev("failed").emit(); return; }
        Ev("cpgrid").put("run", ++nrun).raw("in", in.str()).raw("o", show(g, D)).emit(); destroy_grid(g);
    } else {
        std::vector<std::string> S; std::string dims = std::to_string(nx) + " " + std::to_string(ny) + " " + std::to_string(nz);
        S.push_back(r.chance(1, 2) ? "DIMENS\n " + dims + " /\n" : "SPECGRID\n " + dims + " 1 F /\n");
        S.push_back(arr(r, "COORD", co)); S.push_back(arr(r, "ZCORN", zc)); if (!(allact && D.nullact)) S.push_back(arr(r, "ACTNUM", VD(D.act.begin(), D.act.end())));
        r.shuffle(S); std::ofstream os(work.c_str()); for (auto& s : S) os << s; os.close();
        Opm::EclipseGridParser P(work); unlink(work.c_str()); Opm::GridManager M(P);
        Ev("cpgrid").put("run", ++nrun).raw("in", in.str()).raw("o", show(M.c_grid(), D)).emit();
    }
}
// a zero-thickness active cell must lie on a neighbour of its column: elsewhere it only cuts the outside in two
static void settle(Desc& D)
{
    int nx = D.nx, ny = D.ny, nz = D.nz;
    for (int col = 0; col < nx*ny; ++col) for (int k = 0; k < nz; ++k) {
        int c = col + nx*ny*k; if (!D.act[c]) continue;
        auto flat = [&](int q) { for (int x = 0; x < 4; ++x) if (D.z[q][x] != D.z[q][x + 4]) return false; return true; };
        if (!flat(c)) continue;
        bool ok = false;
        for (int m = k - 1; m >= 0; --m) { int q = col + nx*ny*m; if (D.act[q] && !flat(q)) { ok = std::equal(D.z[q].begin() + 4, D.z[q].end(), D.z[c].begin()); break; } }
        for (int m = k + 1; !ok && m < nz; ++m) { int q = col + nx*ny*m; if (D.act[q] && !flat(q)) { ok = std::equal(D.z[q].begin(), D.z[q].begin() + 4, D.z[c].begin()); break; } }
        if (!ok) D.act[c] = 0;
    }
}
static void lattice(Rng& r, Desc& D, int kind)
{
    int s = kind == 1 ? r.in(-1, 1) : 0, t = kind == 1 ? r.in(-1, 1) : 0, fx = r.chance(1, 2) ? 1 : -1, fy = r.chance(1, 2) ? 1 : -1; bool swap = r.chance(1, 3);
    VI X(1, r.in(-20, 20)), Y(1, r.in(-20, 20)); for (int i = 0; i < D.nx; ++i) X.push_back(X.back() + 12 + 4 * r.in(0, 3)); for (int i = 0; i < D.ny; ++i) Y.push_back(Y.back() + 12 + 4 * r.in(0, 3));
    for (int jj = 0; jj <= D.ny; ++jj) for (int i = 0; i <= D.nx; ++i) {
        int x = X[i], y = Y[jj], sx = s, sy = t;
        if (kind == 2) { x += r.in(-2, 2); y += r.in(-2, 2); }                    // irregular, vertical
        if (kind == 3) { x *= 20; y *= 20; sx = r.in(-1, 1); sy = r.in(-1, 1); }  // pillars of different slopes, far apart
        x *= fx; y *= fy; D.pil.push_back(swap ? VI{y, x, sx, sy} : VI{x, y, sx, sy});
    }
    D.fz = r.chance(1, 3) ? -1 : 1; D.nullact = r.chance(1, 2);
}
static void random(Rng& r, int nx, int ny, int nz, int pk, int zk, bool deck)
{
    Desc D; D.nx = nx; D.ny = ny; D.nz = nz; lattice(r, D, pk);
    D.z.assign(nx*ny*nz, VI(8, 0)); D.act.assign(nx*ny*nz, 1);
    int throwmax = r.pick(VI{0, 2, 6, 12}), tilt = zk == 0 ? 0 : 3, pinch = r.in(0, 2), inact = r.pick(VI{0, 10, 40}), gaps = r.pick(VI{0, 0, 20, 60});
    std::vector<VI> conf(2 * nz); VI base(2 * nz, 0); int z0 = r.in(-5, 10);
    for (int m = 0; m < 2 * nz; ++m) base[m] = m == 0 ? z0 : base[m-1] + (m % 2 ? (r.in(0, 3) < pinch ? 0 : r.in(1, 4)) : (r.in(1, 100) <= gaps ? r.in(0, 3) : 0));
    VI pe((nx + 1) * (ny + 1)); for (int& e : pe) e = tilt ? r.in(0, 3) : 0;
    for (int jj = 0; jj < ny; ++jj) for (int i = 0; i < nx; ++i) {
        int th = zk >= 1 && r.chance(2, 3) ? r.in(-throwmax, throwmax) : 0; if (zk == 3) th = 0; VI e0(4); for (int q = 0; q < 4; ++q) e0[q] = tilt ? (zk == 3 ? pe[i + (q & 1) + (nx + 1)*(jj + (q >> 1))] : r.in(0, 3)) : 0;
        VI cur(4, -1000);
        for (int m = 0; m < 2 * nz; ++m) {
            bool fresh = zk != 3 && tilt && r.chance(1, 2);
            for (int q = 0; q < 4; ++q) { int e = fresh ? r.in(0, 3) : e0[q]; int v = th + base[m] + e;
                if (m % 2 == 0 && m > 0 && base[m] == base[m-1] && r.chance(9, 10)) v = cur[q];       // no gap
                else v = std::max(v, cur[q]); cur[q] = v; }
            int mx = *std::max_element(cur.begin(), cur.end()), mn = *std::min_element(cur.begin(), cur.end()); if (mx - mn > 3) for (int& v : cur) v = std::max(v, mx - 3);
            for (int q = 0; q < 4; ++q) D.z[i + nx*(jj + ny*(m / 2))][q + 4*(m % 2)] = cur[q];
        }
    }
    for (size_t c = 0; c < D.act.size(); ++c) if (r.in(1, 100) <= inact) { D.act[c] = 0; if (r.chance(1, 3)) for (int& v : D.z[c]) v = r.chance(1, 2) ? 0 : r.in(-30, 30); }
    settle(D); go(r, D, deck);
}
// two neighbouring columns with every small pair of corner depths on the common side
static void pair(Rng& r, const VI& a, const VI& b, int nz, int dir)
{
    Desc D; D.nx = dir ? 1 : 2; D.ny = dir ? 2 : 1; D.nz = nz; lattice(r, D, r.in(0, 1));
    D.z.assign(2 * nz, VI(8, 0)); D.act.assign(2 * nz, 1);
    for (int col = 0; col < 2; ++col) for (int m = 0; m < 2 * nz; ++m) for (int q = 0; q < 4; ++q) {
        int along = dir ? (q & 1) : (q >> 1); const VI& s = col ? b : a;
        D.z[col + 2*(m / 2)][q + 4*(m % 2)] = s[along * 2 * nz + m];
    }
    settle(D); go(r, D, false);
}
// thin level layers against thin steep ones: every cell meets every cell
static void steep(Rng& r, int nz, int dir)
{
    Desc D; D.nx = dir ? 1 : 2; D.ny = dir ? 2 : 1; D.nz = nz; lattice(r, D, 0);
    D.z.assign(2 * nz, VI(8, 0)); D.act.assign(2 * nz, 1); int up = r.chance(1, 2), which = r.in(0, 1), off = r.in(5, 12);
    for (int col = 0; col < 2; ++col) for (int m = 0; m < 2 * nz; ++m) for (int q = 0; q < 4; ++q) {
        int along = dir ? (q & 1) : (q >> 1); int z = (m + 1) / 2; if (col == which) z += (along == up ? 30 : 0) - off;
        D.z[col + 2*(m / 2)][q + 4*(m % 2)] = z;
    }
    go(r, D, false);
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work;
    // all sides of one cell against one cell, depths 0..3 (quick: a seeded fifth)
    std::vector<VI> S; for (int p0 = 0; p0 < 4; ++p0) for (int p1 = p0; p1 < 4; ++p1) for (int q0 = 0; q0 < 4; ++q0) for (int q1 = q0; q1 < 4; ++q1) S.push_back(VI{p0, p1, q0, q1});
    for (size_t i = 0; i < S.size(); ++i) for (size_t k = 0; k < S.size(); ++k) if (a.thorough || r.chance(1, 14)) pair(r, S[i], S[k], 1, (i + k) % 2);
    std::vector<VI> T; for (int n = 0; n < 3*3*3*3*3*3*3*3; ++n) { VI v; int m = n; for (int q = 0; q < 8; ++q) { v.push_back(m % 3); m /= 3; } bool up = true; for (int q : {0, 1, 2, 4, 5, 6}) if (v[q] > v[q + 1]) up = false; if (up) T.push_back(v); }
    int n2 = a.thorough ? 6000 : 300; for (int t = 0; t < n2; ++t) pair(r, r.pick(T), r.pick(T), 2, t % 2);
    for (int t = 0; t < (a.thorough ? 12 : 4); ++t) steep(r, t == 0 ? 12 : r.in(2, 10), t % 2);
    int n = a.thorough ? 2500 : 260;
    for (int t = 0; t < n; ++t) { int big = t % 12 == 0; random(r, r.in(1, big ? 4 : 3), r.in(1, big ? 4 : 3), r.in(1, big ? 6 : 4), t % 4, (t / 4) % 4, t % 5 == 4); }
    done();
}
