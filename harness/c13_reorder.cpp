// Driver for C13: flow-ordered sequences of arbitrary flow graphs.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/transport/reorder/reordersequence.h>
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
struct Rec : public Opm::ReorderSolverInterface {
    using Opm::ReorderSolverInterface::sequence; using Opm::ReorderSolverInterface::components;
    std::string calls, single; bool first = true;
    void add(const VI& c, bool s) { calls += (first ? "" : ",") + j(c); single += std::string(first ? "" : ",") + (s ? "true" : "false"); first = false; }
    virtual void solveSingleCell(const int cell) { add({cell}, true); }
    virtual void solveMultiCell(const int n, const int* c) { add(VI(c, c + std::max(n, 0)), false); }
    void go(const UnstructuredGrid& g, const double* f) { calls = single = ""; first = true; reorderAndTransport(g, f); }
};
static int run = 0;
static void one(int n, const VI& pairs, const VD& flux, int what)
{
    FakeGrid G(n, pairs);
    int nf = flux.size();
    std::string s = "["; for (int f = 0; f < nf; ++f) { if (f) s += ","; s += "[" + std::to_string(pairs[2*f]) + "," + std::to_string(pairs[2*f+1]) + "," + std::to_string(flux[f] > 0 ? 1 : flux[f] < 0 ? -1 : 0) + "]"; }
    Ev("new").put("run", ++run).put("n", n).raw("faces", s + "]").emit();
    VD fl = flux; fl.push_back(0);
    VI seq(n, -9), comp(n + 1, -9); int nc = -9;
    if (what & 1) { op("compute_sequence"); compute_sequence(&G.g, fl.data(), seq.data(), comp.data(), &nc);
        Ev("order").put("seq", seq).put("comps", VI(comp.begin(), comp.begin() + std::min(std::max(nc, 0), n) + 1)).emit(); }
    if (what & 2) { op("compute_sequence_graph"); VI ia(n + 1, -9), ja(nf + 1, -9);
        seq.assign(n, -9); comp.assign(n + 1, -9); nc = -9;
        compute_sequence_graph(&G.g, fl.data(), seq.data(), comp.data(), &nc, ia.data(), ja.data());
        int m = std::min(std::max(ia[n], 0), nf);
        Ev("graph").put("seq", seq).put("comps", VI(comp.begin(), comp.begin() + std::min(std::max(nc, 0), n) + 1)).put("ia", ia).put("ja", VI(ja.begin(), ja.begin() + m)).emit(); }
    if (what & 4) { op("reorderAndTransport"); static Rec rec; rec.go(G.g, fl.data());
        Ev("solve").put("seq", rec.sequence()).put("comps", rec.components()).raw("calls", "[" + rec.calls + "]").raw("single", "[" + rec.single + "]").emit(); }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    auto mag = [&]() { static const double ms[] = { 1.0, 0.5, 3.0, 1e-30, 1e30, 4e-320, 1e-200, 7.25, 1e200 }; return ms[r.in(0, 8)]; };
    // all digraphs on up to 3 (4) cells; face orientation and magnitude random
    int N = a.thorough ? 4 : 3;
    for (int n = 1; n <= N; ++n) {
        int np = n*(n-1);
        for (int m = 0; m < (1 << np); ++m) {
            VI pr; VD fl; int b = 0;
            for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) if (i != k) { if (m >> b & 1) { if (r.chance(1, 2)) { pr.push_back(i); pr.push_back(k); fl.push_back(mag()); } else { pr.push_back(k); pr.push_back(i); fl.push_back(-mag()); } } ++b; }
            one(n, pr, fl, n == 4 ? 1 << (m % 3) : 7);
        }
    }
    int nt = a.thorough ? 900 : 220;
    for (int t = 0; t < nt; ++t) {
        int mode = t % 6; VI pr; VD fl; int n;
        if (mode <= 2) {       // structured grid, random or circulating flux
            int nx = r.in(1, t % 11 == 0 ? 16 : 6), ny = r.in(1, t % 11 == 0 ? 12 : 5), nz = r.in(1, 3); n = nx*ny*nz;
            VD pot(n); for (auto& x : pot) x = r.in(0, mode == 1 ? 3 : 1000);
            auto add = [&](int x, int y) { double f = mode == 0 ? (r.in(-1, 1)) * mag() : (x >= 0 && y >= 0) ? pot[x] - pot[y] : r.in(-2, 2); if (mode == 2 && r.chance(1, 12)) f = -f; if (r.chance(1, 3)) { std::swap(x, y); f = -f; } pr.push_back(x); pr.push_back(y); fl.push_back(f); };
            for (int k = 0; k < nz; ++k) for (int jj = 0; jj < ny; ++jj) for (int i = 0; i < nx; ++i) { int c = i + nx*(jj + ny*k);
                add(c, i + 1 < nx ? c + 1 : -1); if (i == 0) add(-1, c); if (jj + 1 < ny) add(c, c + nx); if (k + 1 < nz) add(c, c + nx*ny); }
        } else if (mode == 3) { // sparse random digraph
            n = r.in(2, 40); int ne = r.in(0, 2*n); for (int e = 0; e < ne; ++e) { int x = r.in(0, n-1), y = r.in(-1, n-1); if (x == y) continue; pr.push_back(x); pr.push_back(y); fl.push_back(r.in(-1, 1) * mag()); }
        } else if (mode == 4) { // several rings, chained
            n = 0; int rings = r.in(1, 5), prev = -1; std::vector<std::pair<int,int> > E;
            for (int q = 0; q < rings; ++q) { int L = r.in(1, 7); for (int i = 0; i < L && L > 1; ++i) E.push_back({n + i, n + (i + 1) % L}); if (prev >= 0 && r.chance(3, 4)) E.push_back({prev, n + r.in(0, L-1)}); prev = n + r.in(0, L-1); n += L; }
            VI nm(n); for (int i = 0; i < n; ++i) nm[i] = i; r.shuffle(nm); r.shuffle(E);
            for (auto& e : E) { bool f = r.chance(1, 2); pr.push_back(nm[f ? e.first : e.second]); pr.push_back(nm[f ? e.second : e.first]); fl.push_back((f ? 1 : -1) * mag()); }
        } else {                // one long path or loop, to the full depth of the stacks
            n = r.in(2, 150); VI nm(n); for (int i = 0; i < n; ++i) nm[i] = i; if (r.chance(1, 2)) r.shuffle(nm); bool rev = r.chance(1, 2);
            for (int i = 0; i + 1 < n; ++i) { pr.push_back(nm[i]); pr.push_back(nm[i+1]); fl.push_back(rev ? -mag() : mag()); }
            if (r.chance(1, 2)) { pr.push_back(nm[n-1]); pr.push_back(nm[0]); fl.push_back(rev ? -mag() : mag()); }
        }
        one(n, pr, fl, 7);
    }
    done();
}
