// Driver for C14: histories of operations on a partition vector.
#include "common.hpp"
extern "C" {
#include <opm/core/pressure/msmfem/partition.h>
}
using namespace vf;
typedef std::vector<int> VI;
static int run = 0;
static VI p;
static VI neigh;                // flat pairs
static std::string jn() { std::string s = "["; for (size_t i = 0; i + 1 < neigh.size(); i += 2) { if (i) s += ","; s += "[" + std::to_string(neigh[i]) + "," + std::to_string(neigh[i+1]) + "]"; } return s + "]"; }

static void start(const VI& q) { p = q; Ev("new").put("run", ++run).put("p", p).emit(); }
static void unif(const VI& fine, const VI& coarse, const VI& idx)
{
    op("partition_unif_idx"); p.assign(idx.size(), -7);
    int r = partition_unif_idx(fine.size(), idx.size(), fine.data(), coarse.data(), idx.data(), p.data());
    Ev("unif").put("fine", fine).put("coarse", coarse).put("idx", idx).put("ret", r).put("p", p).emit();
}
static void compress() { op("partition_compress"); int r = partition_compress(p.size(), p.data()); Ev("compress").put("ret", r).put("p", p).emit(); }
static void invert(bool local)
{
    op("partition_invert");
    int nc = p.size(), mb = *std::max_element(p.begin(), p.end());
    int *pi = 0, *inv = 0;
    int r = partition_allocate_inverse(nc, mb, &pi, &inv); (void) r;
    for (int i = 0; i < mb + 2; ++i) pi[i] = -77;
    partition_invert(nc, p.data(), pi, inv);
    VI vpi(pi, pi + mb + 2), vinv(inv, inv + nc);
    if (!local) Ev("invert").put("pi", vpi).put("inv", vinv).put("p", p).emit();
    else {
        VI loc(nc, -7); op("partition_localidx"); partition_localidx(mb + 1, pi, inv, loc.data());
        Ev("local").put("pi", vpi).put("inv", vinv).put("loc", loc).put("p", p).emit();
    }
    partition_deallocate_inverse(pi, inv);
}
static void split() { if (neigh.empty()) return; op("partition_split_disconnected"); int r = partition_split_disconnected(p.size(), neigh.size()/2, neigh.data(), p.data());
    Ev("split").raw("neigh", jn()).put("ret", r).put("p", p).emit(); }

static void gridneigh(int nx, int ny, int nz, Rng& r, int drop, bool bdry)
{
    neigh.clear();
    auto add = [&](int a, int b) { if (a >= 0 && b >= 0 && r.chance(drop, 100)) return; if (r.chance(1, 2)) std::swap(a, b); neigh.push_back(a); neigh.push_back(b); };
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        int c = i + nx*(j + ny*k);
        if (i + 1 < nx) add(c, c + 1); else if (bdry) add(c, -1);
        if (j + 1 < ny) add(c, c + nx); else if (bdry) add(-1, c);
        if (k + 1 < nz) add(c, c + nx*ny);
    }
    // shuffled pair order
    std::vector<std::pair<int,int> > q; for (size_t i = 0; i < neigh.size(); i += 2) q.push_back({neigh[i], neigh[i+1]});
    r.shuffle(q); neigh.clear(); for (auto& x : q) { neigh.push_back(x.first); neigh.push_back(x.second); }
    if (neigh.empty()) { neigh.push_back(0); neigh.push_back(-1); }
}
static void history(Rng& r, int len)
{ for (int k = 0; k < len; ++k) switch (r.in(0, 3)) { case 0: compress(); break; case 1: invert(r.chance(1, 2)); break; default: split(); } }

int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    // exhaustive: all partitions of up to 4 (5) cells into block numbers 0..3, on all small graphs
    int NCmax = a.thorough ? 5 : 4;
    for (int nc = 1; nc <= NCmax; ++nc) {
        int tot = 1; for (int i = 0; i < nc; ++i) tot *= 4;
        int npair = nc*(nc-1)/2;
        for (int x = 0; x < tot; ++x) {
            VI q; for (int i = 0, y = x; i < nc; ++i, y /= 4) q.push_back(y % 4);
            int reps = (nc <= 3) ? (1 << npair) : 4;
            for (int g = 0; g < reps; ++g) {
                unsigned m = nc <= 3 ? g : (unsigned) r.in(0, (1 << npair) - 1);
                neigh.clear(); int b = 0;
                for (int i = 0; i < nc; ++i) for (int jj = i + 1; jj < nc; ++jj, ++b) if (m >> b & 1) { neigh.push_back(i); neigh.push_back(jj); }
                if (neigh.empty()) { neigh.push_back(-1); neigh.push_back(0); }
                start(q); split(); if (g == 0) { invert(true); compress(); invert(false); } else if (g == 1) compress();
            }
        }
    }
    // uniform partitions: all 1D extents up to 14, then random 2D/3D
    for (int n = 1; n <= (a.thorough ? 40 : 16); ++n) for (int m = 1; m <= n; ++m) {
        VI idx; for (int i = 0; i < n; ++i) idx.push_back(i);
        start({0}); unif({n}, {m}, idx);
    }
    int n = a.thorough ? 500 : 90;
    for (int t = 0; t < n; ++t) {
        int d = r.in(2, 3); VI fine, coarse; int tot = 1;
        for (int i = 0; i < d; ++i) { fine.push_back(r.in(1, d == 2 ? 12 : 6)); coarse.push_back(r.in(1, fine.back())); tot *= fine.back(); }
        VI idx; for (int i = 0; i < tot; ++i) if (r.chance(9, 10) || idx.empty()) idx.push_back(i);
        if (r.chance(1, 4)) r.shuffle(idx);
        start({0}); unif(fine, coarse, idx);
        if ((int)idx.size() == tot) { gridneigh(fine[0], fine[1], d == 3 ? fine[2] : 1, r, r.in(0, 60), true); history(r, r.in(2, 5)); }
        else { compress(); invert(true); }
    }
    // random partitions of random grids and graphs
    for (int t = 0; t < n; ++t) {
        int nx = r.in(1, 9), ny = r.in(1, 7), nz = r.in(1, 4);
        if (t % 10 == 0) { nx = r.in(20, 120); ny = nz = 1; }
        if (t % 10 == 1) { nx = ny = 12; nz = r.in(1, 3); }
        int nc = nx*ny*nz, nb = r.in(1, t % 3 == 0 ? 3 : nc);
        VI q; for (int i = 0; i < nc; ++i) q.push_back(r.in(0, nb - 1) * (t % 4 == 0 ? 3 : 1) + (t % 7 == 0 ? 2 : 0));
        if (t % 5 == 0) std::sort(q.begin(), q.end());
        start(q);
        gridneigh(nx, ny, nz, r, r.in(0, 70), r.chance(1, 2));
        if (t % 6 == 0) { neigh.clear(); int ne = r.in(1, 2*nc); for (int i = 0; i < ne; ++i) { neigh.push_back(r.in(-1, nc-1)); neigh.push_back(r.in(0, nc-1)); } }
        history(r, r.in(2, 5));
    }
    done();
}
