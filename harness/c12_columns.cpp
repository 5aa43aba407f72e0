// Driver for C12: columns of structured grids with inactive cells and arbitrary face connectivity.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/grid/GridManager.hpp>
using namespace vf;
typedef std::vector<int> VI;
static int run = 0;
static void go(const UnstructuredGrid& g, const int* dims)
{
    std::string s = "[", p = "[";
    for (int f = 0; f < g.number_of_faces; ++f) { if (f) s += ","; s += "[" + std::to_string(g.face_cells[2*f]) + "," + std::to_string(g.face_cells[2*f+1]) + "]"; }
    for (int c = 0; c < g.number_of_cells; ++c) { int x = g.global_cell ? g.global_cell[c] : c; if (c) p += ","; p += j(VI{x % dims[0], (x / dims[0]) % dims[1], x / dims[0] / dims[1]}); }
    Ev("new").put("run", ++run).raw("pos", p + "]").raw("faces", s + "]").emit();
    op("extractColumn"); std::vector<VI> cols; Opm::extractColumn(g, cols);
    Ev("columns").put("cols", cols).emit();
}
static void lattice(Rng& r, int nx, int ny, int nz, unsigned long mask, bool usemask, int keepface, int order, int skipconn, bool nullglobal)
{
    VI gc; for (int x = 0; x < nx*ny*nz; ++x) if (usemask ? (mask >> x & 1) : r.chance(3, 4) || nullglobal) gc.push_back(x);
    if (gc.empty()) return;
    if (order == 1) r.shuffle(gc); else if (order == 2) std::reverse(gc.begin(), gc.end());
    std::map<int,int> loc; for (size_t i = 0; i < gc.size(); ++i) loc[gc[i]] = i;
    auto at = [&](int i, int jj, int k) { if (i >= nx || jj >= ny || k >= nz) return -1; auto it = loc.find(i + nx*(jj + ny*k)); return it == loc.end() ? -1 : it->second; };
    std::vector<std::pair<int,int> > q;
    for (int k = 0; k < nz; ++k) for (int jj = 0; jj < ny; ++jj) for (int i = 0; i < nx; ++i) {
        int c = at(i, jj, k); if (c < 0) continue;
        if (at(i + 1, jj, k) >= 0 && r.chance(keepface, 100)) q.push_back({c, at(i + 1, jj, k)}); else if (r.chance(1, 3)) q.push_back({c, -1});
        if (at(i, jj + 1, k) >= 0 && r.chance(keepface, 100)) q.push_back({c, at(i, jj + 1, k)});
        // vertical: the next present cell below, possibly across a gap of inactive ones
        for (int d = 1; k + d < nz; ++d) if (at(i, jj, k + d) >= 0) { if (r.chance(keepface, 100) && (d == 1 || r.chance(skipconn, 100))) q.push_back({c, at(i, jj, k + d)}); else { q.push_back({c, -1}); q.push_back({-1, at(i, jj, k + d)}); } break; }
    }
    r.shuffle(q); VI pr; for (auto& x : q) { if (r.chance(1, 2)) std::swap(x.first, x.second); pr.push_back(x.first); pr.push_back(x.second); }
    FakeGrid G(gc.size(), pr); for (size_t i = 0; i < gc.size(); ++i) G.gc[i] = gc[i];
    G.g.cartdims[0] = nx; G.g.cartdims[1] = ny; G.g.cartdims[2] = nz;
    int dims[3] = { nx, ny, nz };
    if (nullglobal) G.g.global_cell = 0;
    go(G.g, dims);
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    for (int nz = 1; nz <= (a.thorough ? 8 : 6); ++nz) for (unsigned m = 1; m < (1u << nz); ++m) for (int o = 0; o < 3; ++o) lattice(r, 1, 1, nz, m, true, o == 1 ? 60 : 100, o, 50, false);
    for (unsigned m = 1; m < 256; ++m) lattice(r, 2, 2, 2, m, true, 70, m % 3, 50, false);
    int n = a.thorough ? 600 : 150;
    for (int t = 0; t < n; ++t) lattice(r, r.in(1, 5), r.in(1, 5), r.in(1, t % 10 == 0 ? 30 : 8), 0, false, r.pick(VI{100, 90, 50}), t % 3, r.in(0, 100), t % 8 == 0);
    for (int t = 0; t < 20; ++t) { int nx = r.in(1, 5), ny = r.in(1, 5), nz = r.in(1, 5); Opm::GridManager gm(nx, ny, nz); go(*gm.c_grid(), gm.c_grid()->cartdims); }
    done();
}
