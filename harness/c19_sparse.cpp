// Driver for C19: histories of sparse tables and sparse vectors.
#include "common.hpp"
#include <iterator>
#include <opm/core/utility/SparseTable.hpp>
#include <opm/core/utility/SparseVector.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef Opm::SparseTable<int> Tb; typedef Opm::SparseVector<int> Sv;
static int run = 0; static Tb T[4]; static Sv V[4];
static std::string showT(const Tb& t)
{
    std::string rows = "["; VI sizes, flat; long tot = 0;
    for (int i = 0; i < t.size(); ++i) { int n = t.rowSize(i); sizes.push_back(n); tot += n; if (n < 0 || tot > t.dataSize()) { rows += std::string(i ? "," : "") + "\"out of range\""; break; }
        Tb::row_type r = t[i]; if (i) rows += ","; rows += j(VI(r.begin(), r.end())); }
    for (int i = 0; i < t.dataSize(); ++i) flat.push_back(t.data(i));
    return Ev().raw("rows", rows + "]").put("size", t.size()).put("empty", t.empty()).put("nd", t.dataSize()).put("flat", flat).put("sizes", sizes).str();
}
static std::string showV(const Sv& v)
{
    VI ix, val, els; for (int k = 0; k < v.nonzeroSize(); ++k) { ix.push_back(v.nonzeroIndex(k)); val.push_back(v.nonzeroElement(k)); }
    for (int i = 0; i < v.size(); ++i) els.push_back(v.element(i));
    return Ev().put("n", v.size()).put("empty", v.empty()).put("nz", v.nonzeroSize()).put("idx", ix).put("val", val).put("els", els).str();
}
static std::string ts() { std::string s = "["; for (int i = 1; i <= 3; ++i) s += (i > 1 ? "," : "") + showT(T[i]); return s + "]"; }
static std::string vs() { std::string s = "["; for (int i = 1; i <= 3; ++i) s += (i > 1 ? "," : "") + showV(V[i]); return s + "]"; }
static void begin() { for (int i = 0; i < 4; ++i) { T[i] = Tb(); V[i] = Sv(); } Ev("new").put("run", ++run).emit(); }
static void tassign(int id, const VI& d, const VI& sz, int how)
{
    bool ok = true; op("SparseTable assign");
    try { if (how == 0) { T[id].assign(d.begin(), d.end(), sz.begin(), sz.end()); } else { Tb n(d.begin(), d.end(), sz.begin(), sz.end()); T[id] = n; } }
    catch (std::exception&) { ok = false; T[id] = Tb(); }
    Ev("tassign").put("id", id).put("d", d).put("sz", sz).put("ok", ok).raw("t", ts()).emit();
}
static void vmake(int id, int n, const VI& ix, const VI& x)
{
    bool ok = true; op("SparseVector construct");
    try { Sv v(n, x.begin(), x.end(), ix.begin(), ix.end()); V[id] = v; } catch (std::exception&) { ok = false; V[id] = Sv(); }
    Ev("vmake").put("id", id).put("n", n).put("ix", ix).put("vs", x).put("ok", ok).raw("v", vs()).emit();
}
static void vadd(int id, int i, int x)
{
    bool ok = true; op("SparseVector addElement"); try { V[id].addElement(x, i); } catch (std::exception&) { ok = false; }
    Ev("vadd").put("id", id).put("i", i).put("x", x).put("ok", ok).raw("v", vs()).emit();
}
static VI randv(Rng& r, int n) { VI v(n); for (auto& x : v) x = r.in(1, 99); return v; }
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    // all size lists up to 3 rows of up to 2, with data of the right and of the wrong length
    for (int m = 0; m <= 3; ++m) { int tot = 1; for (int i = 0; i < m; ++i) tot *= 3;
        for (int x = 0; x < tot; ++x) { begin(); VI sz; int y = x, s = 0; for (int i = 0; i < m; ++i, y /= 3) { sz.push_back(y % 3); s += y % 3; }
            for (int d = -1; d <= 1; ++d) if (s + d >= 0) tassign(1 + (d + 1), randv(r, s + d), sz, x % 2); } }
    // comparison: the same or nearly the same data, divided alike or differently
    for (int x = 0; x < (a.thorough ? 900 : 150); ++x) {
        begin(); VI sz[2], d[2]; sz[0].resize(r.in(1, 4)); for (auto& n : sz[0]) n = r.in(0, 2);
        sz[1] = sz[0]; int how = r.in(0, 4);
        if (how == 1) std::random_shuffle(sz[1].begin(), sz[1].end(), [&](int n) { return r.in(0, n - 1); });
        if (how == 2) sz[1].push_back(0);
        if (how == 3) sz[1].insert(sz[1].begin(), 0);
        int s = std::accumulate(sz[0].begin(), sz[0].end(), 0); d[0] = d[1] = randv(r, s);
        if (how == 4 && s) d[1][r.in(0, s - 1)] += 1;
        for (int i = 0; i < 2; ++i) tassign(i + 1, d[i], sz[i], x % 2);
        for (int i = 0; i < 2; ++i) { op("SparseTable equal"); bool eq = T[i + 1] == T[2 - i]; Ev("tequal").put("a", i + 1).put("b", 2 - i).put("eq", eq).emit(); }
        int n = r.in(1, 5); VI ix, v; for (int i = 0; i < n; ++i) if (r.chance(1, 2)) { ix.push_back(i); v.push_back(r.in(1, 9)); }
        VI ix2 = ix, v2 = v; int n2 = n; how = r.in(0, 4);
        if (how == 1) ++n2;
        if (how == 2 && !ix.empty() && ix.back() + 1 < n) ix2.back() += 1;
        if (how == 3 && !v.empty()) v2[r.in(0, v.size() - 1)] += 1;
        if (how == 4 && !ix.empty()) { ix2.pop_back(); v2.pop_back(); }
        vmake(1, n, ix, v); vmake(2, n2, ix2, v2);
        for (int i = 0; i < 2; ++i) { op("SparseVector equal"); bool eq = V[i + 1] == V[2 - i]; Ev("vequal").put("a", i + 1).put("b", 2 - i).put("eq", eq).emit(); }
    }
    int nt = a.thorough ? 260 : 60;
    for (int t = 0; t < nt; ++t) {
        begin(); int len = r.in(8, 60);
        for (int q = 0; q < len; ++q) {
            int id = r.in(1, 3), k = r.in(0, 14); Ev e;
            if (k <= 5) { VI row = randv(r, r.chance(1, 3) ? 0 : r.in(1, r.chance(1, 8) ? 20 : 4)); op("SparseTable appendRow"); T[id].appendRow(row.begin(), row.end()); Ev("tappend").put("id", id).put("row", row).raw("t", ts()).emit(); }
            else if (k == 6) { VI sz(r.in(0, 5)); int s = 0; for (auto& x : sz) { x = r.in(0, 3); s += x; } int d = r.chance(3, 4) ? 0 : r.in(-2, 2); tassign(id, randv(r, std::max(0, s + d)), sz, r.in(0, 1)); }
            else if (k == 7) { VI sz(r.in(0, 5)); for (auto& x : sz) x = r.in(0, 3); op("SparseTable allocate"); bool ok = true; try { T[id].allocate(sz.begin(), sz.end()); } catch (std::exception&) { ok = false; T[id] = Tb(); }
                if (ok) Ev("tallocate").put("id", id).put("sz", sz).raw("t", ts()).emit(); else Ev("tallocfail").put("id", id).put("sz", sz).put("ok", ok).raw("t", ts()).emit(); }
            else if (k == 8) { if (r.chance(1, 2)) { op("SparseTable clear"); T[id].clear(); Ev("tclear").put("id", id).raw("t", ts()).emit(); } }
            else if (k == 9) { int b = r.in(1, 3); op("SparseTable swap"); T[id].swap(T[b]); Ev("tswap").put("a", id).put("b", b).raw("t", ts()).emit(); }
            else if (k == 10) { int b = r.in(1, 3); op("SparseTable copy"); T[b] = T[id]; Ev("tcopy").put("a", id).put("b", b).raw("t", ts()).emit(); }
            else if (k == 11) { std::vector<std::pair<int,int> > cs; for (int i = 0; i < T[id].size(); ++i) for (int c = 0; c < T[id].rowSize(i); ++c) cs.push_back({i, c});
                if (!cs.empty()) { auto p = r.pick(cs); int v = r.in(100, 999); op("SparseTable write"); *(T[id][p.first].begin() + p.second) = v; Ev("twrite").put("id", id).put("r", p.first + 1).put("c", p.second + 1).put("v", v).raw("t", ts()).emit(); } }
            else if (k == 12) { op("SparseTable reserve"); T[id].reserve(r.in(0, 9), r.in(0, 40)); Ev("treserve").put("id", id).raw("t", ts()).emit(); }
            else { int b = r.in(1, 3); bool eq = T[id] == T[b]; Ev("tequal").put("a", id).put("b", b).put("eq", eq).emit(); }
        }
    }
    // vectors: all additions of up to 3 indices in -1..3 to vectors of size 0..3
    for (int n = 0; n <= 3; ++n) for (int x = 0; x < 125; ++x) { begin(); op("SparseVector"); V[1] = Sv(n); Ev("vnew").put("id", 1).put("n", n).raw("v", vs()).emit(); int y = x; for (int i = 0; i < 3; ++i, y /= 5) vadd(1, y % 5 - 1, 10 + i); if (!a.thorough) x += r.in(0, 2); }
    for (int t = 0; t < nt; ++t) {
        begin(); int len = r.in(8, 50), n0 = r.in(1, 40), cur[4] = {0, 0, 0, 0};
        for (int i = 1; i <= 3; ++i) { V[i] = Sv(n0); Ev("vnew").put("id", i).put("n", n0).raw("v", vs()).emit(); }
        for (int q = 0; q < len; ++q) {
            int id = r.in(1, 3), k = r.in(0, 11);
            if (k <= 4) { int i = r.chance(1, 6) ? r.in(-1, n0) : cur[id] + r.in(0, 3); vadd(id, i, r.in(1, 99)); if (i >= cur[id]) cur[id] = i + 1; }
            else if (k == 5) { int n = r.in(0, 12), m = r.in(0, 5); VI ix; std::set<int> s; for (int i = 0; i < m; ++i) s.insert(r.in(0, std::max(n - 1, 0))); ix.assign(s.begin(), s.end()); if (n == 0) ix.clear();
                if (r.chance(1, 4) && ix.size() > 1) std::swap(ix[0], ix[1]); if (r.chance(1, 6)) ix.push_back(n); if (r.chance(1, 8) && !ix.empty()) ix[0] = -1; if (r.chance(1, 8) && !ix.empty()) ix.push_back(ix.back());
                VI x = randv(r, ix.size() + (r.chance(1, 8) ? 1 : 0)); vmake(id, n, ix, x); cur[id] = ix.empty() ? 0 : ix.back() + 1; }
            else if (k == 6) { if (r.chance(1, 3)) { op("SparseVector clear"); V[id].clear(); cur[id] = 0; Ev("vclear").put("id", id).raw("v", vs()).emit(); } }
            else if (k == 7) { int b = r.in(1, 3); V[b] = V[id]; cur[b] = cur[id]; Ev("vcopy").put("a", id).put("b", b).raw("v", vs()).emit(); }
            else if (k == 8) { int b = r.in(1, 3); bool eq = V[id] == V[b]; Ev("vequal").put("a", id).put("b", b).put("eq", eq).emit(); }
            else { int i = r.in(-2, V[id].size() + 1), x = 0; bool ok = true; op("SparseVector element"); try { x = V[id].element(i); } catch (std::exception&) { ok = false; } Ev("vread").put("id", id).put("i", i).put("ok", ok).put("x", x).emit(); }
        }
    }
    done();
}
