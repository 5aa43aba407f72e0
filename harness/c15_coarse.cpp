// Driver for C15: coarse grids of partitions.
#include "common.hpp"
#include <climits>
extern "C" {
#include <opm/core/pressure/msmfem/coarse_conn.h>
}
using namespace vf;
typedef std::vector<int> VI;
static int run = 0;
static void one(const VI& p, const VI& ng, int expct)
{
    std::string s = "["; for (size_t i = 0; i < ng.size(); i += 2) { if (i) s += ","; s += "[" + std::to_string(ng[i]) + "," + std::to_string(ng[i+1]) + "]"; }
    Ev("new").put("run", ++run).put("p", p).raw("neigh", s + "]").emit();
    op("coarse_topology_create");
    coarse_topology* t = coarse_topology_create(p.size(), ng.size()/2, expct, p.data(), ng.data());
    if (!t) { Ev("coarse").put("t", "none").put("want", expct > 0).emit(); return; }
    bool hs = t->subfacepos && t->subfaces;
    int nb = t->nblocks, nf = t->nfaces;
    Ev e; e.put("nblocks", nb).put("nfaces", nf).raw("neighbours", jarr(t->neighbours, 2*nf)).raw("blkfacepos", jarr(t->blkfacepos, nb + 1))
        .raw("blkfaces", jarr(t->blkfaces, std::min(t->blkfacepos[nb], 100000))).put("hassub", hs)
        .raw("subfacepos", hs ? jarr(t->subfacepos, nf + 1) : "[]").raw("subfaces", hs ? jarr(t->subfaces, std::min(t->subfacepos[nf], 100000)) : "[]");
    Ev("coarse").raw("t", e.str()).put("want", expct > 0).emit();
    coarse_topology_destroy(t);
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    // exhaustive: 3 cells, all contiguous partitions, all lists of up to 2 (3) faces
    std::vector<std::pair<int,int> > prs; for (int x = -1; x < 3; ++x) for (int y = -1; y < 3; ++y) if (x >= 0 || y >= 0) prs.push_back({x, y});
    std::vector<VI> parts = {{0,0,0},{0,0,1},{0,1,0},{1,0,0},{0,1,1},{1,0,1},{1,1,0},{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
    int nf = a.thorough ? 3 : 2; int tot = 1; for (int i = 0; i < nf; ++i) tot *= prs.size();
    for (auto& p : parts) for (int x = 0; x < tot; ++x) { VI ng; int y = x; for (int i = 0; i < nf; ++i, y /= prs.size()) { ng.push_back(prs[y % prs.size()].first); ng.push_back(prs[y % prs.size()].second); }
        one(p, ng, a.thorough && x % 3 ? 1 : x % 4); }
    int n = a.thorough ? 700 : 160;
    for (int t = 0; t < n; ++t) {
        bool big = t % 12 == 0;
        int nx = r.in(1, big ? 14 : 6), ny = r.in(1, big ? 12 : 6), nz = r.in(1, 4), nc = nx*ny*nz;
        int nb = r.in(1, t % 4 == 0 ? nc : std::min(nc, 7));
        VI p(nc);
        if (t % 3 == 0) for (int c = 0; c < nc; ++c) p[c] = (long)c * nb / nc;
        else for (int c = 0; c < nc; ++c) p[c] = r.in(0, nb - 1);
        // contiguous numbering, random block names
        std::map<int,int> m; VI used; for (int b : p) if (m.insert({b, 0}).second) used.push_back(b);
        r.shuffle(used); for (size_t i = 0; i < used.size(); ++i) m[used[i]] = i;
        for (int& b : p) b = m[b];
        std::vector<std::pair<int,int> > q;
        int mode = t % 5;
        auto add = [&](int x, int y) { if (r.chance(1, 3)) std::swap(x, y); q.push_back({x, y}); if (mode == 3 && r.chance(1, 4)) q.push_back({y, x}); };
        for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
            int c = i + nx*(j + ny*k);
            if (i + 1 < nx) add(c, c + 1); else add(c, -1); if (i == 0) add(-1, c);
            if (j + 1 < ny) add(c, c + nx); else add(c, -1); if (j == 0) add(-1, c);
            if (k + 1 < nz) add(c, c + nx*ny); else if (mode != 1) add(c, -1);
        }
        if (mode == 4) { q.clear(); int ne = r.in(1, 3*nc); for (int i = 0; i < ne; ++i) { int x = r.in(0, nc-1), y = r.in(-1, nc-1); add(x, y); } }
        r.shuffle(q); VI ng; for (auto& x : q) { ng.push_back(x.first); ng.push_back(x.second); }
        one(p, ng, r.pick(VI{0, 1, 1, 2, 5, 64}));
    }
    // one block against very many: adjacency lists grow far; many faces in one coarse face
    { int nb = a.thorough ? 150 : 70; VI p(nb), ng; for (int b = 0; b < nb; ++b) p[b] = b; for (int b = nb - 1; b > 0; --b) { ng.push_back(b); ng.push_back(0); } ng.push_back(-1); ng.push_back(0); one(p, ng, 1); one(p, ng, 0); }
    { VI p{0, 1}, ng; for (int i = 0; i < 300; ++i) { ng.push_back(i % 2); ng.push_back(1 - i % 2); if (i % 3 == 0) { ng.push_back(0); ng.push_back(-1); } } one(p, ng, 1); one(p, ng, 3); }
    done();
}
