// Driver for C07: decks of data keywords in many layouts, read raw and in SI units.
#include "common.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/io/eclipse/SpecialEclipseFields.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<std::string> VS;
static int run = 0; static std::string work; static int ninc = 0;
static bool plain = false;                                   // plainest layout
struct Tok { char k; int n, v; std::string s; };
static Tok V(int v) { return Tok{'v', 1, v, ""}; } static Tok Rp(int n, int v) { return Tok{'r', n, v, ""}; }
static Tok Df(int n) { return Tok{'d', n, 0, ""}; } static Tok St(const std::string& s) { return Tok{'s', 1, 0, s}; }
typedef std::vector<Tok> Toks;
struct Record { int t; Toks k; };
struct Block { std::string kw; std::vector<Record> r; std::string text; };
// ---------------------------------------------------------------- text
static std::string numText(int v, bool integer, Rng& r)
{
    char b[40]; int a = std::abs(v); std::string s = v < 0 ? "-" : (!integer && !plain && r.chance(1, 12)) ? "+" : "";
    if (integer) { snprintf(b, sizeof b, "%d", a / 1000); return s + b; }
    int c = plain ? 0 : r.in(0, 7);
    if (c == 1) snprintf(b, sizeof b, "%dE-3", a); else if (c == 2) snprintf(b, sizeof b, "%d.%03de0", a / 1000, a % 1000);
    else if (c == 3) snprintf(b, sizeof b, "%d.0e-3", a); else if (c == 4 && a < 1000) snprintf(b, sizeof b, ".%03d", a);
    else if (a % 1000 == 0) { if (r.chance(1, 4)) snprintf(b, sizeof b, "%d.", a / 1000); else snprintf(b, sizeof b, "%d", a / 1000); }
    else snprintf(b, sizeof b, "%d.%03d", a / 1000, a % 1000);
    return s + b;
}
static std::string junk(Rng& r) { return r.pick(VS{"-- a comment", "--", "--comment/with 3*4 slash /", "-- 1 2 3 /", "--PORO"}); }
static std::string gap(bool comments, bool oneline, Rng& r)
{
    if (plain || oneline) return " ";
    int c = r.in(0, 19);
    if (c < 14) return " "; if (c < 16) return "\n  "; if (c < 17) return "\t"; if (c < 18) return "   ";
    return comments ? (r.chance(1, 2) ? " " : "\n") + junk(r) + "\n " : "\n";
}
static std::string close(bool attached, Rng& r)
{ return std::string(attached && !plain && r.chance(1, 4) ? "/" : " /") + (plain ? "" : r.pick(VS{"", "", " ", " text after the end", " -- comment", " 1 2 3", " / /"})) + "\n"; }
static std::string tokText(const Tok& t, bool ints, bool quote, Rng& r)
{
    if (t.k == 's') return quote && r.chance(1, 2) ? "'" + t.s + "'" : t.s;
    if (t.k == 'd') return std::to_string(t.n) + "*";
    std::string x = numText(t.v, ints, r);
    return t.k == 'r' ? std::to_string(t.n) + "*" + x : x;
}
static std::string recText(const Toks& k, bool ints, bool comments, bool oneline, bool quote, Rng& r)
{ std::string s = r.chance(1, 2) ? " " : ""; for (size_t i = 0; i < k.size(); ++i) { bool num = i && k[i].k != 's' && k[i-1].k != 's'; if (i) s += gap(comments && num, oneline, r); std::string x = tokText(k[i], ints, quote, r); if (!i && x[0] == '+') x.erase(0, 1); s += x; } return s; }
// ---------------------------------------------------------------- blocks
static int val(Rng& r) { int c = r.in(0, 9); return c == 0 ? 0 : c < 3 ? r.in(1, 999) : c < 6 ? 1000 * r.in(1, 3000) : r.in(1, 400000); }
static int ival(Rng& r) { return 1000 * r.in(0, 40); }
// n positions of numbers, partly repeated or defaulted; maybe fewer (ended early), maybe spilling over the end
static Toks nums(int n, bool defaults, bool mayEnd, bool mayOver, bool ints, Rng& r)
{
    Toks t; int p = 0, stop = mayEnd && r.chance(1, 3) ? r.in(0, n - 1) : n;
    while (p < stop) { int c = r.in(0, 5), m = r.in(1, stop - p); if (m > 3 && r.chance(1, 2)) m = r.in(1, 3);
        if (mayOver && stop == n && m == stop - p && c < 2 && r.chance(1, 2)) m += r.in(1, 4);
        if (c == 0) { t.push_back(Rp(m, ints ? ival(r) : val(r))); p += m; }
        else if (c == 1 && defaults) { t.push_back(Df(m)); p += m; }
        else { t.push_back(V(ints ? ival(r) : val(r))); ++p; } }
    return t;
}
static int width(const Toks& t) { int w = 0; for (auto& x : t) w += x.n; return w; }
static void add(Toks& a, const Toks& b) { a.insert(a.end(), b.begin(), b.end()); }
static const VS DVEC = {"COORD", "ZCORN", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS", "PERMX", "PERMY", "PERMZ", "PERMXX", "PERMYY", "PERMZZ", "PERMXY", "PERMYZ", "PERMZX", "PRESSURE", "PORO", "BULKMOD", "YOUNGMOD",
    "LAMEMOD", "SHEARMOD", "PWAVEMOD", "MULTPV", "SGAS", "SWAT", "SOIL", "RS", "SWCR", "SWL", "SWU", "SOWCR", "KRW", "KRWR", "KRO", "KRORW"};
static const VS IVEC = {"ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "WELLDIMS", "TABDIMS", "FIPNUM"};
static const VS SPEC = {"DENSITY", "ROCK", "PVTW", "PVCDO", "PVDO", "PVDG", "ROCKTAB", "PVTO", "PVTG", "SWOF", "SGOF", "EQUIL", "PLYVISC", "PLYADS", "PLYMAX", "PLYROCK", "TLMIXPAR", "SPECGRID", "START", "TITLE",
    "ENDSCALE", "SCALECRS", "ENPTVD", "ENKRVD", "GRUPTREE", "WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "GCONINJE", "GCONPROD", "WGRUPCON", "WELTARG", "WELOPEN", "WPOLYMER", "FAULTS", "MULTFLT"};
static bool is(const VS& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
static Block make(const std::string& kw, Rng& r)
{
    Block b; b.kw = kw; std::string& T = b.text; T = kw + (r.chance(1, 6) && !plain ? "   -- keyword comment" : "") + "\n";
    auto pre = [&] { if (!plain && r.chance(1, 6)) T += junk(r) + "\n"; };
    auto name = [&] { return r.pick(VS{"W1", "PROD-2", "INJ_3", "G", "WELLNAM8", "A/B"}).substr(0, r.chance(1, 8) ? 1 : 8); };
    if (is(DVEC, kw) || is(IVEC, kw)) { bool ints = is(IVEC, kw); pre(); Toks t = nums(r.in(1, 14), false, false, true, ints, r); b.r.push_back({0, t}); T += recText(t, ints, true, false, false, r) + close(true, r); return b; }
    if (kw == "DENSITY" || kw == "ROCK" || kw == "PVTW" || kw == "PVCDO") { int n = r.in(1, 3);
        for (int i = 0; i < n; ++i) { pre(); Toks t; if (kw == "DENSITY") t = nums(3, true, true, true, false, r); else { int w = kw == "ROCK" ? 2 : r.in(4, 5); for (int q = 0; q < w; ++q) t.push_back(V(val(r))); }
            if (t.empty() || (t[0].k == 'd' && t.size() == 1 && false)) t.insert(t.begin(), V(1000 + val(r))); b.r.push_back({0, t}); T += recText(t, false, true, false, false, r) + close(t.back().k != 'd', r); } return b; }
    if (kw == "PVDO" || kw == "PVDG" || kw == "ROCKTAB") { int n = r.in(1, 2); for (int i = 0; i < n; ++i) { pre(); Toks t; int rows = r.in(1, 4); for (int q = 0; q < 3 * rows; ++q) t.push_back(V(val(r)));
            b.r.push_back({i, t}); T += recText(t, false, true, false, false, r) + close(true, r); } return b; }
    if (kw == "PVTO" || kw == "PVTG") { int n = r.in(1, 2); for (int i = 0; i < n; ++i) { int m = r.in(1, 3); for (int q = 0; q < m; ++q) { pre(); Toks t; int w = 1 + 3 * r.in(1, 3); for (int x = 0; x < w; ++x) t.push_back(V(val(r)));
            b.r.push_back({i, t}); T += recText(t, false, true, false, false, r) + close(true, r); } pre(); T += "/\n"; } return b; }
    if (kw == "SWOF" || kw == "SGOF") { int n = r.in(1, 2); for (int i = 0; i < n; ++i) { pre(); int rows = r.in(2, 6), x0 = r.in(0, 300), dx = 100 * r.in(1, 3); Toks t; bool alld[5]; for (int c = 2; c <= 4; ++c) alld[c] = r.chance(1, 10);
            for (int q = 0; q < rows; ++q) { t.push_back(V(x0 + q * dx)); for (int c = 2; c <= 4; ++c) { int y = 60 * r.in(0, 50) * (c == 4 && r.chance(1, 3) ? -1 : 1); if (c == 4 && r.chance(1, 8)) y = -1000;
                bool ends = rows < 3; if (y % 60) for (int z = 0; z < 1; ++z) ends = true;   // keep interpolated values exact
                if (alld[c]) t.push_back(Df(1)); else if (!ends && q > 0 && q < rows - 1 && r.chance(1, 3) && t[t.size() - 4].k != 's') t.push_back(Df(1)); else t.push_back(V(y)); } }
            // -1000 next to a default would not interpolate exactly
            for (size_t z = 0; z < t.size(); ++z) if (t[z].k == 'v' && t[z].v == -1000) { bool near = false; for (size_t y = z % 4; y < t.size(); y += 4) if (t[y].k == 'd') near = true; if (near) t[z].v = -960; }
            b.r.push_back({i, t}); T += recText(t, false, true, false, false, r) + close(false, r); } return b; }
    if (kw == "ENPTVD" || kw == "ENKRVD") { int n = r.in(1, 2); VI vals = kw == "ENPTVD" ? VI{2, 3, 4, 8} : VI{2, 4, 5, 8}; int W = kw == "ENPTVD" ? 9 : 8;
        for (int i = 0; i < n; ++i) { int rows = r.in(2, 5), x0 = 1000 * r.in(1000, 1010), dx = 1000 * r.in(5, 9); std::map<int, bool> alld; for (int c : vals) alld[c] = r.chance(1, 4);
            for (int q = 0; q < rows; ++q) { Toks t; for (int c = 1; c <= W; ++c) { if (c == 1) t.push_back(V(x0 + q * dx)); else if (!is(VS{"2"}, "3") && std::find(vals.begin(), vals.end(), c) == vals.end()) t.push_back(Df(1));
                    else if (alld[c]) t.push_back(Df(1)); else if (q > 0 && q < rows - 1 && r.chance(1, 3)) t.push_back(Df(1)); else t.push_back(V(60 * r.in(0, 16))); }
                Toks m; for (auto& x : t) if (x.k == 'd' && !m.empty() && m.back().k == 'd' && !plain && r.chance(2, 3)) m.back().n++; else m.push_back(x);
                b.r.push_back({i, m}); T += recText(m, false, false, true, false, r) + "\n"; }
            T += "/\n"; }
        T += "/\n"; return b; }
    auto single = [&](const Toks& t, bool ints, bool comments, bool oneline) { b.r.push_back({0, t}); T += recText(t, ints, comments, oneline, false, r) + close(t.empty() || t.back().k != 'd', r); };
    if (kw == "EQUIL") { pre(); single(nums(9, true, true, true, true, r), true, true, false); return b; }
    if (kw == "PLYROCK") { pre(); single(nums(5, true, true, true, false, r), false, true, false); return b; }
    if (kw == "TLMIXPAR") { pre(); Toks t = {V(val(r))}; if (r.chance(1, 2)) t.push_back(r.chance(1, 3) ? Df(1) : V(val(r))); single(t, false, true, false); return b; }
    if (kw == "PLYMAX") { pre(); single({V(val(r)), V(val(r))}, false, true, false); return b; }
    if (kw == "PLYVISC" || kw == "PLYADS") { pre(); Toks t; int n = r.in(1, 5); for (int i = 0; i < 2 * n; ++i) t.push_back(V(val(r))); single(t, false, true, false); return b; }
    if (kw == "SPECGRID") { pre(); Toks t = nums(4, true, true, false, true, r); if (width(t) == 4 && r.chance(1, 2)) t.push_back(St(r.chance(1, 2) ? "F" : "T")); 
        b.r.push_back({0, t}); T += recText(t, true, true, false, false, r) + " /\n"; return b; }
    if (kw == "START") { pre(); static const char* mon[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; int d = r.in(1, 28), m = r.in(1, 12), y = r.in(1900, 2100);
        b.r.push_back({0, {St(std::to_string(d)), St(std::to_string(m)), St(std::to_string(y))}}); std::string mn = mon[m-1]; if (m == 7 && r.chance(1, 2)) mn = "JLY"; if (r.chance(1, 2)) mn = "'" + mn + "'";
        T += " " + std::to_string(d) + " " + mn + " " + std::to_string(y) + close(false, r); return b; }
    if (kw == "TITLE") { std::string s = r.pick(VS{"A model", "PORO in the title", "test 1 2 3", "x"}); b.r.push_back({0, {St(s)}}); T = "TITLE\n" + s + "\n"; return b; }
    if (kw == "ENDSCALE") { pre(); Toks t; int n = r.in(0, 4); if (n > 0) t.push_back(St(r.chance(1, 2) ? "DIRECT" : "NODIR")); if (n > 1) t.push_back(St(r.chance(1, 2) ? "IRREVERS" : "REVERS")); if (n > 2) t.push_back(V(ival(r))); if (n > 3) t.push_back(V(ival(r)));
        b.r.push_back({0, t}); T += recText(t, true, false, true, true, r) + close(false, r); return b; }
    if (kw == "SCALECRS") { pre(); Toks t; if (r.chance(3, 4)) t.push_back(St(r.pick(VS{"YES", "NO", "Y", "N"}))); b.r.push_back({0, t}); if (!t.empty() && t[0].s == "N") b.r[0].k[0].s = "NO"; T += recText(t, false, false, true, false, r) + close(false, r); return b; }
    if (kw == "GRUPTREE") { VS ch = {"A1", "B2", "C3", "D4"}; int n = r.in(1, 4); for (int i = 0; i < n; ++i) { std::string p = r.pick(VS{"FIELD", "P1", "P2"}); b.r.push_back({0, {St(ch[i]), St(p)}}); T += " '" + ch[i] + "' '" + p + "' /\n"; } T += "/\n"; return b; }
    // lists of records
    int n = r.in(1, 4); bool quote = kw != "FAULTS" && kw != "MULTFLT";
    for (int i = 0; i < n; ++i) {
        pre(); Toks t; bool ints = false, complete = true; t.push_back(St(name()));
        if (kw == "WELSPECS") { t.push_back(St(r.pick(VS{"G1", "FIELD", "GRP_2"}))); add(t, nums(3, true, false, false, true, r)); ints = true; t.push_back(St(r.pick(VS{"OIL", "WATER", "GAS"}))); if (r.chance(1, 3)) { t.push_back(Df(1)); t.push_back(St("STD")); } }
        if (kw == "COMPDAT") { add(t, nums(4, false, false, false, true, r)); t.push_back(St(r.pick(VS{"OPEN", "SHUT"}))); Toks m = nums(3, true, true, true, true, r); ints = true; complete = width(m) >= 3; add(t, m); if (complete && r.chance(1, 3)) { t.push_back(Df(3)); t.push_back(St("Z")); } }
        if (kw == "WCONINJE") { t.push_back(St(r.pick(VS{"WATER", "GAS", "OIL"}))); t.push_back(St("OPEN")); t.push_back(St(r.pick(VS{"RATE", "BHP", "RESV"}))); Toks m = nums(6, true, true, true, true, r); ints = true; add(t, m); if (width(m) == 6 && r.chance(1, 3)) { t.push_back(V(5000)); t.push_back(Df(2)); } }
        if (kw == "WCONPROD") { t.push_back(St(r.pick(VS{"OPEN", "SHUT"}))); t.push_back(St(r.pick(VS{"ORAT", "BHP", "RESV"}))); add(t, nums(r.chance(1, 2) ? 14 : r.in(1, 13), true, true, false, true, r)); ints = true; }
        if (kw == "GCONINJE") { t.push_back(St(r.pick(VS{"WATER", "GAS"}))); t.push_back(St(r.pick(VS{"RATE", "RESV", "REIN", "VREP"}))); add(t, nums(4, true, true, true, false, r)); }
        if (kw == "GCONPROD") { if (r.chance(1, 4)) t.push_back(Df(1)); else t.push_back(St(r.pick(VS{"ORAT", "LRAT", "RESV", "NONE"}))); Toks m = nums(4, true, true, false, false, r); add(t, m);
            if (width(m) == 4) { int p = 7; bool end = r.chance(1, 4);                         // items 7..14
                while (p <= 14 && !end) { if (r.chance(1, 3)) { int k = r.in(1, 15 - p); t.push_back(Df(k)); p += k; } else { t.push_back(p == 7 ? St(r.pick(VS{"RATE", "WELL", "NONE"})) : p < 14 ? (r.chance(1, 2) ? St("YES") : V(ival(r))) : V(1000 * r.in(1, 999))); ++p; } end = r.chance(1, 10); } } }
        if (kw == "WGRUPCON") { if (r.chance(1, 4)) t.push_back(Df(1)); else t.push_back(St(r.pick(VS{"YES", "NO"}))); t.push_back(r.chance(1, 4) ? Df(1) : V(val(r))); if (r.chance(2, 3)) { t.push_back(St(r.pick(VS{"OIL", "WAT", "GAS"}))); if (r.chance(1, 3)) t.push_back(V(2000)); } }
        if (kw == "WELTARG") { t.push_back(St(r.pick(VS{"ORAT", "WRAT", "GRAT", "LRAT", "RESV", "BHP", "THP"}))); t.push_back(V(val(r))); }
        if (kw == "WELOPEN") { t.push_back(St(r.pick(VS{"OPEN", "SHUT", "STOP"}))); if (r.chance(1, 3)) t.push_back(Df(3)); }
        if (kw == "WPOLYMER") { t.push_back(V(val(r))); t.push_back(V(val(r))); if (r.chance(1, 2)) { t.push_back(St("PG1")); if (r.chance(1, 2)) t.push_back(St("SG1")); } }
        if (kw == "FAULTS") { add(t, nums(6, false, false, false, true, r)); ints = true; t.push_back(St(r.pick(VS{"X", "Y", "Z", "I-"}))); }
        if (kw == "MULTFLT") add(t, nums(2, true, true, true, false, r));
        b.r.push_back({0, t});
        bool free = kw != "WELTARG" && kw != "WPOLYMER" && kw != "WELOPEN" && kw != "GCONPROD" && kw != "WGRUPCON" && kw != "WELSPECS" && kw != "COMPDAT" && kw != "FAULTS";
        T += recText(t, ints, free, !free, quote, r) + (kw == "WPOLYMER" || kw == "GCONPROD" || kw == "WGRUPCON" ? " /\n" : close(false, r));
    }
    pre(); T += close(false, r);
    return b;
}
// ---------------------------------------------------------------- what the readers show
struct Val { bool str; std::string s; double x; };
static Val N(double x) { return Val{false, "", x}; } static Val S(const std::string& s) { return Val{true, s, 0}; }
struct Row { int t; std::vector<Val> v; };
typedef std::vector<Row> Rows;
static Row flat(int t, const std::vector<double>& x) { Row w; w.t = t; for (double d : x) w.v.push_back(N(d)); return w; }
static Row cols(int t, const std::vector<std::vector<double> >& c) { Row w; w.t = t; for (size_t i = 0; i < c[0].size(); ++i) for (size_t k = 0; k < c.size(); ++k) w.v.push_back(N(c[k][i])); return w; }
static Rows show(const Opm::EclipseGridParser& P, const std::string& kw)
{
    Rows R;
    if (is(DVEC, kw)) R.push_back(flat(0, P.getFloatingPointValue(kw)));
    else if (is(IVEC, kw)) { Row w; w.t = 0; for (int i : P.getIntegerValue(kw)) w.v.push_back(N(i)); R.push_back(w); }
    else if (kw == "DENSITY") for (auto& x : P.getDENSITY().densities_) R.push_back(flat(0, x));
    else if (kw == "ROCK") for (auto& x : P.getROCK().rock_compressibilities_) R.push_back(flat(0, x));
    else if (kw == "PVTW") for (auto& x : P.getPVTW().pvtw_) R.push_back(flat(0, x));
    else if (kw == "PVCDO") for (auto& x : P.getPVCDO().pvcdo_) R.push_back(flat(0, x));
    else if (kw == "PVDO") { int t = 0; for (auto& x : P.getPVDO().pvdo_) R.push_back(cols(t++, x)); }
    else if (kw == "PVDG") { int t = 0; for (auto& x : P.getPVDG().pvdg_) R.push_back(cols(t++, x)); }
    else if (kw == "ROCKTAB") { int t = 0; for (auto& x : P.getROCKTAB().rocktab_) R.push_back(cols(t++, x)); }
    else if (kw == "SWOF") { int t = 0; for (auto& x : P.getSWOF().swof_) R.push_back(cols(t++, x)); }
    else if (kw == "SGOF") { int t = 0; for (auto& x : P.getSGOF().sgof_) R.push_back(cols(t++, x)); }
    else if (kw == "PVTO") { int t = 0; for (auto& y : P.getPVTO().pvto_) { for (auto& x : y) R.push_back(flat(t, x)); ++t; } }
    else if (kw == "PVTG") { int t = 0; for (auto& y : P.getPVTG().pvtg_) { for (auto& x : y) R.push_back(flat(t, x)); ++t; } }
    else if (kw == "ENPTVD" || kw == "ENKRVD") { auto& T = kw == "ENPTVD" ? P.getENPTVD().table_ : P.getENKRVD().table_;
        for (size_t j = 0; j < T[0].size(); ++j) for (size_t i = 0; i < T[0][j].size(); ++i) { Row w; w.t = (int)j; for (int c = 0; c < 5; ++c) w.v.push_back(N(T[c][j][i])); R.push_back(w); } }
    else if (kw == "EQUIL") for (auto& e : P.getEQUIL().equil) R.push_back(flat(0, {e.datum_depth_, e.datum_depth_pressure_, e.water_oil_contact_depth_, e.oil_water_cap_pressure_, e.gas_oil_contact_depth_, e.gas_oil_cap_pressure_, (double)e.live_oil_table_index_, (double)e.wet_gas_table_index_, (double)e.N_}));
    else if (kw == "PLYVISC") { auto& p = P.getPLYVISC(); Row w; w.t = 0; for (size_t i = 0; i < p.concentration_.size(); ++i) { w.v.push_back(N(p.concentration_[i])); w.v.push_back(N(p.factor_[i])); } R.push_back(w); }
    else if (kw == "PLYADS") { auto& p = P.getPLYADS(); Row w; w.t = 0; for (size_t i = 0; i < p.local_concentration_.size(); ++i) { w.v.push_back(N(p.local_concentration_[i])); w.v.push_back(N(p.adsorbed_concentration_[i])); } R.push_back(w); }
    else if (kw == "PLYMAX") R.push_back(flat(0, P.getPLYMAX().plymax_));
    else if (kw == "PLYROCK") R.push_back(flat(0, P.getPLYROCK().plyrock_));
    else if (kw == "TLMIXPAR") R.push_back(flat(0, P.getTLMIXPAR().tlmixpar_));
    else if (kw == "TSTEP") R.push_back(flat(0, P.getTSTEP().tstep_));
    else if (kw == "SPECGRID") { auto& s = P.getSPECGRID(); Row w; w.t = 0; for (int d : s.dimensions) w.v.push_back(N(d)); w.v.push_back(N(s.numres)); w.v.push_back(S(std::string(1, s.qrdial))); R.push_back(w); }
    else if (kw == "START") { auto d = P.getSTART().date; Row w; w.t = 0; w.v = {S(std::to_string((int)d.day())), S(std::to_string((int)d.month())), S(std::to_string((int)d.year()))}; R.push_back(w); }
    else if (kw == "TITLE") R.push_back({0, {S(P.getTITLE().title)}});
    else if (kw == "ENDSCALE") { auto& e = P.getENDSCALE(); R.push_back({0, {S(e.dir_switch_), S(e.revers_switch_), N(e.n_tab_), N(e.n_node_)}}); }
    else if (kw == "SCALECRS") R.push_back({0, {S(P.getSCALECRS().scalecrs_)}});
    else if (kw == "GRUPTREE") for (auto& p : P.getGRUPTREE().tree) R.push_back({0, {S(p.first), S(p.second)}});
    else if (kw == "WELSPECS") for (auto& w : P.getWELSPECS().welspecs) R.push_back({0, {S(w.name_), S(w.group_), N(w.I_), N(w.J_), N(w.datum_depth_BHP_), S(w.pref_phase_)}});
    else if (kw == "COMPDAT") for (auto& c : P.getCOMPDAT().compdat) R.push_back({0, {S(c.well_), N(c.grid_ind_[0]), N(c.grid_ind_[1]), N(c.grid_ind_[2]), N(c.grid_ind_[3]), S(c.open_shut_flag_), N(c.sat_table_number_), N(c.connect_trans_fac_), N(c.diameter_)}});
    else if (kw == "WCONINJE") for (auto& w : P.getWCONINJE().wconinje) R.push_back({0, {S(w.well_), S(w.injector_type_), S(w.open_shut_flag_), S(w.control_mode_), N(w.surface_flow_max_rate_), N(w.reservoir_flow_max_rate_), N(w.BHP_limit_), N(w.THP_limit_), N(w.VFP_table_number_), N(w.concentration_)}});
    else if (kw == "WCONPROD") for (auto& w : P.getWCONPROD().wconprod) R.push_back({0, {S(w.well_), S(w.open_shut_flag_), S(w.control_mode_), N(w.oil_max_rate_), N(w.water_max_rate_), N(w.gas_max_rate_), N(w.liquid_max_rate_), N(w.reservoir_flow_max_rate_), N(w.BHP_limit_), N(w.THP_limit_), N(w.VFP_table_number_), N(w.artif_lift_quantity_)}});
    else if (kw == "GCONINJE") for (auto& g : P.getGCONINJE().gconinje) R.push_back({0, {S(g.group_), S(g.injector_type_), S(g.control_mode_), N(g.surface_flow_max_rate_), N(g.resv_flow_max_rate_), N(g.reinjection_fraction_target_), N(g.voidage_replacement_fraction_)}});
    else if (kw == "GCONPROD") for (auto& g : P.getGCONPROD().gconprod) R.push_back({0, {S(g.group_), S(g.control_mode_), N(g.oil_max_rate_), N(g.water_max_rate_), N(g.gas_max_rate_), N(g.liquid_max_rate_), S(g.procedure_), N(g.resv_max_rate_)}});
    else if (kw == "WGRUPCON") for (auto& g : P.getWGRUPCON().wgrupcon) R.push_back({0, {S(g.well_), S(g.available_for_group_control_ ? "YES" : "NO"), N(g.guide_rate_), S(g.phase_)}});
    else if (kw == "WELTARG") for (auto& g : P.getWELTARG().weltarg) R.push_back({0, {S(g.well_), S(g.control_change_), N(g.new_value_)}});
    else if (kw == "WELOPEN") for (auto& g : P.getWELOPEN().welopen) R.push_back({0, {S(g.well_), S(g.openshutflag_)}});
    else if (kw == "WPOLYMER") for (auto& g : P.getWPOLYMER().wpolymer_) R.push_back({0, {S(g.well_), N(g.polymer_concentration_), N(g.salt_concentration_), S(g.polymer_group_), S(g.salt_group_)}});
    else if (kw == "FAULTS") for (auto& f : P.getFAULTS().faults) { Row w; w.t = 0; w.v.push_back(S(f.fault_name)); for (int i : f.ijk_coord) w.v.push_back(N(i)); w.v.push_back(S(f.face)); R.push_back(w); }
    else if (kw == "MULTFLT") for (auto& f : P.getMULTFLT().multflts) R.push_back({0, {S(f.fault_name), N(f.transmis_multiplier), N(f.diffusivity_multiplier)}});
    return R;
}
// ---------------------------------------------------------------- units, written out from their definitions
struct Dim { const char* n; double f[2]; };
static std::vector<Dim> dims()
{
    const double ft = 0.3048, in = 0.0254, lb = 0.45359237, psi = lb * 9.80665 / (in * in), stb = 42 * 231 * in * in * in, day = 86400, bar = 1e5, cP = 1e-3, mD = 9.869232667160130e-16, mcf = 1000 * ft * ft * ft;
    return {{"none", {1, 1}}, {"length", {1, ft}}, {"time", {day, day}}, {"density", {1, lb / (ft * ft * ft)}}, {"polydens", {1, lb / stb}}, {"pressure", {bar, psi}}, {"compress", {1 / bar, 1 / psi}}, {"visc", {cP, cP}}, {"perm", {mD, mD}},
            {"lrate", {1 / day, stb / day}}, {"grate", {1 / day, mcf / day}}, {"rrate", {1 / day, stb / day}}, {"trans", {cP / (day * bar), cP * stb / (day * psi)}}, {"lvf", {1, 1}}, {"gvf", {1, stb / mcf}}, {"rs", {1, mcf / stb}}, {"rv", {1, stb / mcf}}};
}
static std::string canon(double x) { if (x == -1e20) return "-1e20"; if (x == -1e100) return "-1e100"; int v = qn(x, 1000); return v == BAD ? "?" : std::to_string(v); }
static std::string rows(const Rows& a, const Rows& b, bool field)
{
    static std::vector<Dim> D = dims(); std::string s = "[";
    if (a.size() != b.size()) return "[]";
    for (size_t i = 0; i < a.size(); ++i) {
        VS v; std::string d = "["; bool same = a[i].v.size() == b[i].v.size();
        for (size_t k = 0; k < a[i].v.size(); ++k) { const Val& x = a[i].v[k]; VS m;
            if (x.str) { v.push_back(same && b[i].v[k].s == x.s ? x.s : "?"); } else { v.push_back(canon(x.x));
                if (same) for (auto& q : D) { double w = x.x * q.f[field]; if (std::fabs(w - b[i].v[k].x) <= 1e-9 * std::fabs(w)) m.push_back(q.n); } }
            d += (k ? "," : "") + j(m); }
        s += (i ? "," : "") + Ev().put("t", a[i].t).put("v", v).raw("d", d + "]").str();
    }
    return s + "]";
}
static void logBlock(const Block& b)
{
    std::string s = "["; for (size_t i = 0; i < b.r.size(); ++i) { std::string k = "["; for (size_t q = 0; q < b.r[i].k.size(); ++q) { const Tok& t = b.r[i].k[q]; Ev e; e.put("k", std::string(1, t.k)); if (t.k == 'v') e.put("v", t.v); if (t.k == 'r') e.put("n", t.n).put("v", t.v); if (t.k == 'd') e.put("n", t.n); if (t.k == 's') e.put("s", t.s); k += (q ? "," : "") + e.str(); }
        s += (i ? "," : "") + Ev().put("t", b.r[i].t).raw("k", k + "]").str(); }
    Ev("block").put("kw", b.kw).raw("recs", s + "]").emit();
}
static const VS SKIP = {"XYZZY", "NTG", "RPTRST", "COORDSYS", "WBHP", "ABC1", "GRID", "PROPS", "SOLUTION", "ECHO", "NOECHO", "SUMMARY", "FOIP", "SWFN", "TUNING", "SOF2"};
static std::string skipText(const std::string& k, Rng& r)
{
    if (k == "SWFN" || k == "SOF2") return k + "\n 0.1 0.0 1.0\n 0.5 0.5 0 /\n 0.2 0 0 /\n"; if (k == "TUNING") return k + "\n 1 2 3 /\n 4 2* /\n/\n";
    if (k == "XYZZY") return k + "\n 1 2 'TEXT' /\n lower case line\n 'PORO' 3 /\n/\n"; if (k == "NTG") return k + "\n 10*0.5 1 /\n"; if (k == "RPTRST") return k + "\n 1 0 2*3 /\n";
    if (k == "WBHP") return k + "\n 'W1' 'W2' /\n"; if (k == "ABC1") return k + "\n -5 -6\n -7 /\n"; return k + "\n";
    (void)r;
}
static bool contains(const Block& b, char k) { for (auto& r : b.r) for (auto& t : r.k) if (t.k == k) return true; return false; }
static void play(const VS& kws, Rng& r, bool field, bool includes)
{
    ninc = 0; Ev("deck").put("run", ++run).emit(); std::string deck; VS data; std::set<std::string> seen;
    static const VS once = {"SPECGRID", "START", "TITLE", "ENDSCALE", "SCALECRS", "PLYROCK", "PLYMAX", "TLMIXPAR", "PLYVISC", "PLYADS", "GRUPTREE", "ENPTVD", "ENKRVD", "SWOF", "SGOF", "PVTO", "PVTG", "PVDO", "PVDG", "ROCKTAB", "TSTEP"};
    if (field || r.chance(1, 3)) { deck += field ? "FIELD\n\n" : "METRIC\n\n"; Ev("skip").put("kw", field ? "FIELD" : "METRIC").emit(); }
    for (auto& kw : kws) {
        std::string t;
        if (is(SKIP, kw)) { t = skipText(kw, r); Ev("skip").put("kw", kw).emit(); }
        else { if (is(once, kw) && seen.count(kw)) continue; Block b = make(kw, r); logBlock(b); if (seen.insert(kw).second) data.push_back(kw); t = b.text; }
        if (!plain && r.chance(1, 5)) t += r.pick(VS{"\n", "-- comment between\n", "\n\n--\n\n"});
        if (includes && r.chance(1, 6)) { std::string f = work + ".i" + std::to_string(ninc++); std::ofstream(f.c_str()) << t; deck += "INCLUDE\n " + (r.chance(1, 2) ? "'" + f.substr(f.rfind('/') + 1) + "'" : f.substr(f.rfind('/') + 1)) + " /\n\n"; }
        else deck += (kw == "TITLE" || plain || !r.chance(1, 12) ? "" : "  ") + t;
    }
    if (r.chance(1, 3)) { Toks t; int n = r.in(1, 5); for (int i = 0; i < n; ++i) t.push_back(r.chance(1, 4) ? Rp(r.in(1, 3), 250 * r.in(1, 40)) : V(250 * r.in(1, 400))); Block b; b.kw = "TSTEP"; b.r.push_back({0, t}); logBlock(b); data.push_back("TSTEP"); deck += "TSTEP\n" + recText(t, false, true, false, false, r) + close(true, r); }
    std::ofstream(work.c_str()) << deck; op("read deck");
    try {
        Opm::EclipseGridParser raw(work, false), si(work, true);
        VS f = raw.fieldNames(); std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
        Ev("read").put("ok", si.hasFields(f)).put("fields", f).put("deck", deck.size() < 3000 ? deck : deck.substr(0, 3000)).emit();
        for (auto& kw : data) { Rows a, b; bool ok = true; op("query " + kw); try { a = show(raw, kw); b = show(si, kw); } catch (std::exception&) { ok = false; }
            if (!ok) a = b = Rows(); Ev("obs").put("kw", kw).raw("recs", rows(a, b, field)).emit(); }
    } catch (std::exception& x) { Ev("read").put("ok", false).put("fields", VS()).put("what", x.what()).put("deck", deck).emit(); }
    for (int i = 0; i < ninc; ++i) unlink((work + ".i" + std::to_string(i)).c_str());
}
static void bad(const std::string& what, const std::string& deck)
{
    std::ofstream(work.c_str()) << deck; op("malformed: " + what); bool th = false; try { Opm::EclipseGridParser p(work, false); } catch (std::exception&) { th = true; }
    Ev("deck").put("run", ++run).emit(); Ev("bad").put("what", what).put("threw", th).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work; VS all = DVEC; all.insert(all.end(), IVEC.begin(), IVEC.end()); all.insert(all.end(), SPEC.begin(), SPEC.end());
    for (auto& k : all) for (int f = 0; f < 2; ++f) for (int t = 0; t < (is(SPEC, k) ? 8 : 1); ++t) { plain = t < 2; play({k}, r, f, false); }      // each keyword alone
    plain = false; VS mixed = all; for (int q = 0; q < 3; ++q) { mixed.insert(mixed.end(), SPEC.begin(), SPEC.end()); mixed.insert(mixed.end(), SKIP.begin(), SKIP.end()); }
    for (int t = 0; t < (a.thorough ? 6000 : 600); ++t) { VS k; int n = r.in(2, 14); for (int i = 0; i < n; ++i) k.push_back(r.pick(mixed)); play(k, r, r.chance(1, 2), r.chance(1, 2)); }
    VS vecs; for (auto& k : DVEC) vecs.push_back(k); for (auto& k : IVEC) vecs.push_back(k);
    for (auto& k : vecs) { bad(k + " with text", k + "\n 1 2 abc /\n"); bad(k + " without end", k + "\n 1 2\n"); }
    bad("missing include", "PORO\n 0.5 /\nINCLUDE\n 'nosuchfile.inc' /\n"); bad("DENSITY with text", "DENSITY\n 1 x 2 /\n"); bad("EQUIL with text", "EQUIL\n 1 2 x /\n"); bad("SWOF with text", "SWOF\n 0.1 0.2 y 0 /\n");
    done();
}
