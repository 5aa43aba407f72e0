// Driver for C17: two-pass construction, sorting, lookup, clearing and writing of sparse matrices.
#include "common.hpp"
#include <opm/core/linalg/sparse_sys.h>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0; static std::string work;
static std::string arr2(const std::vector<VI>& r) { std::string s = "["; for (size_t i = 0; i < r.size(); ++i) { if (i) s += ","; s += j(r[i]); } return s + "]"; }
static std::string ia(CSRMatrix* A) { return jarr(A->ia, A->m + 1); }
static std::string ja(CSRMatrix* A) { return jarr(A->ja, A->nnz); }
static std::string sa(CSRMatrix* A) { return jd(A->sa, A->nnz, 8); }
static std::string listing(const std::string& fn)
{
    std::ifstream f(fn.c_str()); std::string s = "["; bool first = true; double i, jj, v; std::string tok;
    while (f >> i >> jj >> v) { if (!first) s += ","; first = false; s += "[" + j(qi(i)) + "," + j(qi(jj)) + "," + j(qi(v, 8)) + "]"; }
    if (!f.eof()) s += std::string(first ? "" : ",") + "[-1,-1,-1]";
    return s + "]";
}
static void use(CSRMatrix* A, const std::vector<VI>& rows, Rng& r, bool io)
{
    int m = rows.size();
    auto zero = [&]() { op("csrmatrix_zero"); csrmatrix_zero(A); Ev("zero").raw("ia", ia(A)).raw("ja", ja(A)).raw("sa", sa(A)).emit(); };
    auto sort = [&]() { op("csrmatrix_sortrows"); csrmatrix_sortrows(A); Ev("sort").raw("ia", ia(A)).raw("ja", ja(A)).emit(); };
    auto wr = [&]() { op("csrmatrix_write"); csrmatrix_write(A, work.c_str()); Ev("write").raw("list", listing(work)).emit(); unlink(work.c_str()); };
    for (size_t k = 0; k < A->nnz; ++k) A->sa[k] = r.in(-80, 80) / 8.0;
    if (r.chance(1, 2)) zero(); else Ev("vals").raw("sa", sa(A)).emit();
    if (io && r.chance(1, 3)) wr();
    sort(); if (r.chance(1, 4)) sort();
    VD v(A->nnz, 0.0);
    zero();
    std::vector<std::pair<int,int> > es; for (int i = 0; i < m; ++i) for (int x : rows[i]) es.push_back({i, x});
    r.shuffle(es); if (es.size() > 60) es.resize(60);
    for (auto& e : es) { op("csrmatrix_elm_index"); size_t k = csrmatrix_elm_index(e.first, e.second, A); Ev("index").put("i", e.first).put("j", e.second).put("k", k).emit();
        if (k < A->nnz) A->sa[k] = r.in(-800, 800) / 8.0; }
    Ev("vals").raw("sa", sa(A)).emit();
    if (io) wr();
    zero(); if (io) { wr(); }
    op("csrmatrix_delete"); csrmatrix_delete(A);
}
static void build(const std::vector<VI>& rows, Rng& r, int order, bool io)
{
    int m = rows.size(), nnz = 0; for (auto& x : rows) nnz += x.size();
    op("csrmatrix_new_count_nnz"); CSRMatrix* A = csrmatrix_new_count_nnz(m);
    Ev("new").put("run", ++run).put("m", m).put("rows", A->m).raw("ia", ia(A)).put("nnz", A->nnz).emit();
    VI c; for (auto& x : rows) c.push_back(x.size());
    for (int i = 0; i < m; ++i) A->ia[i + 1] += c[i];
    Ev("counts").put("c", c).emit();
    op("csrmatrix_new_elms_pushback"); size_t ret = csrmatrix_new_elms_pushback(A);
    Ev("fix").put("ret", ret).put("nnz", A->nnz).raw("ia", ia(A)).emit();
    bool ok = A->nnz == (size_t) nnz && A->ja && A->sa; for (int i = 0; ok && i < m; ++i) ok = A->ia[i+1] >= 0 && A->ia[i+1] + c[i] <= nnz;
    if (!ok) { done(); }
    VI seq; for (int i = 0; i < m; ++i) for (int k = 0; k < c[i]; ++k) seq.push_back(i);
    if (order == 1) std::reverse(seq.begin(), seq.end()); else if (order == 2) r.shuffle(seq);
    std::vector<size_t> at(m, 0);
    for (int i : seq) A->ja[A->ia[i + 1]++] = rows[i][at[i]++];
    Ev("filled").raw("rs", arr2(rows)).raw("ia", ia(A)).raw("ja", ja(A)).emit();
    use(A, rows, r, io);
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work + ".mtx";
    // all row-size profiles of up to 4 rows with up to 2 (3) entries each, in all three fill orders
    int K = a.thorough ? 4 : 3;
    for (int m = 1; m <= 4; ++m) { int tot = 1; for (int i = 0; i < m; ++i) tot *= K;
        for (int x = 1; x < tot; ++x) { std::vector<VI> rows(m); int y = x; for (int i = 0; i < m; ++i, y /= K) for (int k = 0; k < y % K; ++k) rows[i].push_back(r.in(0, 5)); build(rows, r, x % 3, x % 5 == 0); } }
    int nt = a.thorough ? 400 : 90;
    for (int t = 0; t < nt; ++t) {
        int m = r.in(1, t % 9 == 0 ? 60 : 14), maxc = r.pick(VI{4, 40, 1000, 2000000000}); std::vector<VI> rows(m);
        for (auto& x : rows) { int n = r.chance(1, 4) ? 0 : r.in(1, t % 9 == 0 ? 12 : 5); bool uniq = r.chance(2, 3); std::set<int> s; for (int k = 0; k < n; ++k) { int c = r.in(0, maxc); if (uniq && !s.insert(c).second) continue; x.push_back(c); } }
        if (t % 7 == 3) { rows.assign(m, VI()); rows[r.in(0, m-1)].push_back(r.in(0, maxc)); }
        bool any = false; for (auto& x : rows) any = any || !x.empty(); if (!any) rows[0].push_back(0);
        if (t % 4 == 3) {
            int nnz = 0; for (auto& x : rows) nnz += x.size();
            op("csrmatrix_new_known_nnz"); CSRMatrix* A = csrmatrix_new_known_nnz(m, nnz);
            Ev("known").put("run", ++run).put("m", m).put("rows", A->m).put("nnz", A->nnz).raw("rs", arr2(rows)).emit();
            A->ia[0] = 0; int k = 0; for (int i = 0; i < m; ++i) { for (int c : rows[i]) A->ja[k++] = c; A->ia[i+1] = k; }
            use(A, rows, r, true);
        } else build(rows, r, t % 3, t % 2 == 0);
        if (t % 10 == 0) { int n = r.in(0, 30); VD v(n + 2); for (auto& x : v) x = 7; VI b;
            op("vector_zero"); vector_zero(n, v.data()); Ev("vzero").put("n", n).raw("v", jd(v.data(), n + 2)).emit();
            for (auto& x : v) x = r.in(-8000, 8000) / 8.0;
            op("vector_write"); vector_write(n, v.data(), work.c_str()); std::ifstream f(work.c_str()); double x; while (f >> x) b.push_back(qi(x, 8));
            Ev("vwrite").raw("v", jd(v.data(), n, 8)).put("back", b).emit(); unlink(work.c_str()); }
    }
    // a file that cannot be opened
    { CSRMatrix* A = csrmatrix_new_known_nnz(1, 1); A->ia[0] = 0; A->ia[1] = 1; A->ja[0] = 0; A->sa[0] = 1; double v[1] = {1};
      op("csrmatrix_write to a missing directory"); csrmatrix_write(A, (work + ".d/none/x").c_str()); Ev("badfile").put("run", ++run).emit();
      op("vector_write to a missing directory"); vector_write(1, v, (work + ".d/none/x").c_str()); Ev("badfile").emit(); csrmatrix_delete(A); }
    done();
}
