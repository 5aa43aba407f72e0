// Driver for C16: insertion histories of the integer hash set.
#include "common.hpp"
extern "C" {
#include <opm/core/pressure/msmfem/hash_set.h>
}
using namespace vf;
static int run = 0; static hash_set* h = 0;
static std::string tab() { return jarr(h->s, h->m); }
static void start(int m) { op("hash_set_allocate"); if (h) hash_set_deallocate(h); h = hash_set_allocate(m); Ev("new").put("run", ++run).put("m", m).raw("t", tab()).emit(); }
static void count() { op("hash_set_count_elms"); Ev("count").put("n", (int) hash_set_count_elms(h)).emit(); }
static void ins(int k) { op("hash_set_insert"); int r = hash_set_insert(k, h); Ev("insert").put("k", k).put("ret", r).raw("t", tab()).emit(); }

int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    // all insertion sequences of length up to 4 (5) over keys 0..3
    int L = a.thorough ? 6 : 4;
    for (int m = 0; m <= 3; ++m) {
        int tot = 1; for (int i = 0; i < L; ++i) tot *= 4;
        for (int x = 0; x < tot; ++x) { start(m); int y = x; for (int i = 0; i < L; ++i, y /= 4) ins(y % 4); count(); }
    }
    int n = a.thorough ? 400 : 80;
    for (int t = 0; t < n; ++t) {
        start(r.in(0, t % 3 == 0 ? 40 : 9)); count();
        int len = r.in(3, t % 10 == 0 ? 140 : 40), K = r.in(2, 200), stride = r.pick(std::vector<int>{1, 1, 2, 8, 64, 1024, 1000003});
        for (int i = 0; i < len; ++i) {
            int k = t % 7 == 0 ? i * stride : t % 7 == 1 ? r.in(0, 2147480000) : r.in(0, K) * (stride > 1024 ? 1 : stride);
            ins(k); if (i % 9 == 0) count();
        }
        count();
    }
    // large keys and powers of two
    start(0); for (int e = 0; e < 31; ++e) { ins(1 << e); if (e > 0 && e < 30) ins((1 << e) - 1); } ins(2147483646); count();
    // long ascending histories: face and cell numbers as the coarse grid inserts them
    for (int t = 0; t < (a.thorough ? 4 : 1); ++t) { start(1); for (int i = 0; i < 300; ++i) ins(i * (t + 1)); count(); }
    done();
}
