// Driver for C06: decks with schedule sections, read and then visited epoch by epoch.
#include "common.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/io/eclipse/SpecialEclipseFields.hpp>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<std::string> VS;
namespace bg = boost::gregorian;
static const bg::date base(1900, 1, 1);
static const char* MON[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"};
static int run = 0; static bool fresh = true; static std::string work; static Opm::EclipseGridParser* P = 0; static bool si = false;
static const VS KW = {"WELSPECS", "COMPDAT", "WCONINJE", "WCONPROD", "WELTARG", "WELOPEN", "GRUPTREE", "GCONPROD", "GCONINJE", "WGRUPCON", "WPOLYMER", "TUNING", "DENSITY", "PVTW", "EQUIL"};
struct Rec { std::string text, id; };
static std::string num(int quarters) { char b[32]; snprintf(b, sizeof b, "%.2f", quarters / 4.0); return b; }
// One record of a keyword, its text in the deck and the way we name it.
static Rec rec(const std::string& kw, int id)
{
    std::string n = std::to_string(id), w = "W" + n;
    if (kw == "WELSPECS") return {"'" + w + "' G" + n + " " + n + " 2 3.5 OIL /", w + "|G" + n + "|" + n + "|2"};
    if (kw == "COMPDAT")  return {w + " " + n + " 2 3 4 OPEN 1 5.0 0.2 /", w + "|" + n + "|2|3|4|OPEN"};
    if (kw == "WCONINJE") return {w + " WATER OPEN BHP 10 20 " + n + " /", w + "|WATER|OPEN|BHP|" + n};
    if (kw == "WCONPROD") return {w + (id % 2 ? " OPEN" : " SHUT") + " BHP 5* " + n + " /", w + (id % 2 ? "|OPEN" : "|SHUT") + "|BHP|" + n};
    if (kw == "WELTARG")  return {w + " BHP " + n + " /", w + "|BHP|" + n};
    if (kw == "WELOPEN")  return {w + (id % 2 ? " OPEN /" : " SHUT /"), w + (id % 2 ? "|OPEN" : "|SHUT")};
    if (kw == "GCONPROD") return {"G" + n + " ORAT " + n + " 2 3 4 RATE /", "G" + n + "|ORAT|RATE"};
    if (kw == "GCONINJE") return {"G" + n + " WATER RATE " + n + " 2 0.5 1.0 /", "G" + n + "|WATER|RATE"};
    if (kw == "WGRUPCON") return {w + " YES " + n + " OIL /", w + "|1|" + n + "|OIL"};
    if (kw == "WPOLYMER") return {w + " 0." + n + " 0.0 /", w};
    if (kw == "DENSITY")  return {" 800 " + n + " 1 /", "d"};
    if (kw == "PVTW")     return {" 100 1." + n + " 1e-5 0.5 /", "v"};
    if (kw == "EQUIL")    return {" 2000 200 2100 0 1500 0 0 0 " + n + " /", "e" + n};
    return {"", ""};
}
static std::string q(double x) { double r = std::floor(x + 0.5); return std::fabs(x - r) < 1e-6 ? std::to_string((long)r) : "?"; }
static VS show(const std::string& kw)
{
    VS v; const double bar = si ? 1e5 : 1.0;
    if (kw == "WELSPECS") for (auto& r : P->getWELSPECS().welspecs) v.push_back(r.name_ + "|" + r.group_ + "|" + q(r.I_) + "|" + q(r.J_));
    if (kw == "COMPDAT")  for (auto& r : P->getCOMPDAT().compdat) v.push_back(r.well_ + "|" + q(r.grid_ind_[0]) + "|" + q(r.grid_ind_[1]) + "|" + q(r.grid_ind_[2]) + "|" + q(r.grid_ind_[3]) + "|" + r.open_shut_flag_);
    if (kw == "WCONINJE") for (auto& r : P->getWCONINJE().wconinje) v.push_back(r.well_ + "|" + r.injector_type_ + "|" + r.open_shut_flag_ + "|" + r.control_mode_ + "|" + q(r.BHP_limit_ / bar));
    if (kw == "WCONPROD") for (auto& r : P->getWCONPROD().wconprod) v.push_back(r.well_ + "|" + r.open_shut_flag_ + "|" + r.control_mode_ + "|" + q(r.BHP_limit_ / bar));
    if (kw == "WELTARG")  for (auto& r : P->getWELTARG().weltarg) v.push_back(r.well_ + "|" + r.control_change_ + "|" + q(r.new_value_ / bar));
    if (kw == "WELOPEN")  for (auto& r : P->getWELOPEN().welopen) v.push_back(r.well_ + "|" + r.openshutflag_);
    if (kw == "GCONPROD") for (auto& r : P->getGCONPROD().gconprod) v.push_back(r.group_ + "|" + r.control_mode_ + "|" + r.procedure_);
    if (kw == "GCONINJE") for (auto& r : P->getGCONINJE().gconinje) v.push_back(r.group_ + "|" + r.injector_type_ + "|" + r.control_mode_);
    if (kw == "WGRUPCON") for (auto& r : P->getWGRUPCON().wgrupcon) v.push_back(r.well_ + "|" + (r.available_for_group_control_ ? "1" : "0") + "|" + q(r.guide_rate_) + "|" + r.phase_);
    if (kw == "WPOLYMER") for (auto& r : P->getWPOLYMER().wpolymer_) v.push_back(r.well_);
    if (kw == "DENSITY")  v.assign(P->getDENSITY().densities_.size(), "d");
    if (kw == "PVTW")     v.assign(P->getPVTW().pvtw_.size(), "v");
    if (kw == "EQUIL")    for (auto& r : P->getEQUIL().equil) v.push_back("e" + q(r.N_));
    return v;
}
static bool spec(const std::string& k) { return k == "START" || std::find(KW.begin(), KW.end(), k) != KW.end(); }
static Raw obs()
{
    Ev e; VS f = P->fieldNames(); std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end()), f.end());
    bool all = P->hasFields(f); e.put("fields", all ? f : VS());
    Ev v; VI st; bool steps = false;
    for (auto& k : f) {
        if (k == "TSTEP") { steps = true; for (double x : P->getTSTEP().tstep_) st.push_back(qn(x / (si ? 86400.0 : 1.0), 4)); }
        else if (k == "START") { bg::date d = P->getSTART().date; v.raw(k.c_str(), "[" + j(VI{(int)d.year(), (int)d.month(), (int)d.day()}) + "]"); }
        else if (k == "GRUPTREE") { std::string s = "["; for (auto& p : P->getGRUPTREE().tree) s += (s.size() > 1 ? "," : "") + j(VS{p.first, p.second}); v.raw(k.c_str(), s + "]"); }
        else if (spec(k)) v.put(k.c_str(), show(k));
    }
    (void)steps;
    e.raw("vals", v.str()).put("steps", st);
    return e.asRaw();
}
struct Item { char k; std::string kw; VI a; };       // K kw ids / S y m d / T quarters / D offsets(days) / O kw / G pairs
static void play(const std::vector<Item>& its, Rng& r, int layout)
{
    std::string deck; auto nl = [&] { deck += r.chance(layout, 4) ? "-- a comment\n" : "\n"; };
    bool reuse = !fresh && r.chance(1, 3); { Ev b("begin"); if (!reuse) b.put("run", ++run); b.emit(); } fresh = false;
    bg::date start(1983, 1, 1); bool stepped = false; int now = 0;     // quarter days
    std::string inc; int ninc = 0;
    for (size_t i = 0; i < its.size(); ++i) {
        const Item& t = its[i]; std::string b;
        if (t.k == 'K') {
            Ev e("kw"); e.put("kw", t.kw); b = t.kw + "\n"; VS ids;
            if (t.kw == "TUNING") { b += " 1 2 3 /\n 4 5 /\n 6 /\n"; }
            else if (t.kw == "EQUIL") { Rec x = rec(t.kw, t.a[0]); b += x.text + "\n"; ids.push_back(x.id); }
            else for (int id : t.a) { Rec x = rec(t.kw, id); b += x.text + "\n"; ids.push_back(x.id); if (r.chance(layout, 8)) b += "-- note\n"; }
            if (t.kw != "TUNING" && t.kw != "EQUIL" && t.kw != "DENSITY" && t.kw != "PVTW") b += "/\n";
            e.put("recs", ids).emit();
        } else if (t.k == 'G') {
            b = "GRUPTREE\n"; std::string s = "[";
            for (size_t q = 0; q + 1 < t.a.size(); q += 2) { std::string c = "G" + std::to_string(t.a[q]), p = t.a[q+1] ? "P" + std::to_string(t.a[q+1]) : "FIELD";
                b += " '" + c + "' '" + p + "' /\n"; s += (s.size() > 1 ? "," : "") + j(VS{c, p}); }
            b += "/\n"; Ev("kw").put("kw", "GRUPTREE").raw("recs", s + "]").emit();
        } else if (t.k == 'S') {
            if (stepped) continue;
            start = bg::date(t.a[0], t.a[1], t.a[2]); b = "START\n " + std::to_string(t.a[2]) + " '" + MON[t.a[1]-1] + "' " + std::to_string(t.a[0]) + " /\n";
            Ev("kw").put("kw", "START").raw("recs", "[" + j(t.a) + "]").emit();
        } else if (t.k == 'T') {
            b = "TSTEP\n "; size_t q = 0;
            while (q < t.a.size()) { size_t n = 1; while (q + n < t.a.size() && t.a[q+n] == t.a[q]) ++n;
                if (n > 1 && r.chance(1, 2)) { b += std::to_string(n) + "*" + num(t.a[q]) + " "; q += n; } else { b += num(t.a[q]) + (r.chance(1, 4) ? "\n " : " "); ++q; } now += 0; }
            for (int x : t.a) now += x;
            b += "/\n"; stepped = true; Ev("tstep").put("s", t.a).emit();
        } else if (t.k == 'D') {
            b = "DATES\n"; std::string s = "["; 
            for (int off : t.a) {                       // days beyond the first whole day reached
                int day = (now + 3) / 4 + off; bg::date d = start + bg::days(day);
                int y = d.year(), m = d.month(), dd = d.day(); std::string mn = MON[m-1]; if (m == 7 && r.chance(1, 2)) mn = "JLY";
                b += " " + std::to_string(dd) + " '" + mn + "' " + std::to_string(y) + " /\n"; if (r.chance(layout, 8)) b += "-- date\n";
                s += (s.size() > 1 ? "," : "") + j(VI{y, m, dd}); now = 4 * day;
            }
            b += "/\n"; stepped = true; Ev("dates").raw("d", s + "]").emit();
        } else {
            b = t.kw + "\n"; if (t.kw == "PORO") b += " 3*0.25 0.5 /\n"; else if (t.kw == "ACTNUM") b += " 4*1 /\n"; else if (t.kw == "XYZZY") b += " 1 2 'a' /\n 3 /\n/\n"; else if (t.kw == "RPTRST") b += " 1 2 /\n";
            Ev("other").put("kw", t.kw).emit();
        }
        // some keywords sit in included files
        if (layout && r.chance(1, 8)) { std::string f = work + ".i" + std::to_string(ninc++); std::ofstream(f.c_str()) << b; 
            deck += "INCLUDE\n '" + f.substr(f.rfind('/') + 1) + "' /\n"; }
        else deck += b;
        nl();
    }
    std::ofstream(work.c_str()) << deck;
    si = r.chance(1, 2); op("read deck");
    bool ok = true;
    try { if (!reuse) { delete P; P = 0; P = new Opm::EclipseGridParser(work, si); } else { std::ifstream is(work.c_str()); P->read(is, si); } }
    catch (std::exception& x) { ok = false; }
    if (!ok) { Ev("parsed").put("ok", false).put("deck", deck).emit(); fresh = true; return; }
    bg::date sd = P->getStartDate(); int n = P->numberOfEpochs();
    Ev("parsed").put("ok", true).put("n", n).put("start", sd.is_special() ? -1 : (int)(sd - base).days()).put("o", obs()).put("deck", deck).emit();
    VI vis; for (int k = 0; k < n; ++k) vis.push_back(k); for (int k = 0; k < 3; ++k) vis.push_back(r.in(-2, n + 1)); r.shuffle(vis);
    for (int k : vis) {
        op("setCurrentEpoch"); bool g = true; try { P->setCurrentEpoch(k); } catch (std::exception&) { g = false; }
        Ev("visit").put("k", k).put("ok", g).put("o", obs()).emit();
        if (r.chance(1, 3)) { std::string kw = r.pick(KW); if (kw == "GRUPTREE") kw = "TSTEP"; bool th = false; op("missing field");
            try { P->getSpecialValue(kw); } catch (std::exception&) { th = true; }
            Ev("absent").put("kw", kw).put("threw", th).put("has", P->hasField(kw)).emit(); }
    }
}
static Item randItem(Rng& r, bool first)
{
    Item t; int c = r.in(0, 9);
    if (first && r.chance(1, 2)) { t.k = 'S'; t.a = {r.in(1901, 2090), r.in(1, 12), r.in(1, 28)}; if (r.chance(1, 4)) t.a = {r.chance(1, 2) ? 2000 : 1996, 2, 29}; return t; }
    if (c < 4) { t.k = 'K'; t.kw = r.pick(KW); if (t.kw == "GRUPTREE") { t.k = 'G'; int n = r.in(1, 3); VI ch = {1, 2, 3, 4, 5}; r.shuffle(ch); for (int i = 0; i < n; ++i) { t.a.push_back(ch[i]); t.a.push_back(r.in(0, 3)); } }
        else { int n = r.in(1, 3); for (int i = 0; i < n; ++i) t.a.push_back(r.in(1, 9)); } }
    else if (c < 7) { t.k = 'T'; int n = r.in(1, 4); for (int i = 0; i < n; ++i) t.a.push_back(r.in(1, 200)); if (r.chance(1, 3)) t.a.assign(n, t.a[0]); }
    else if (c < 9) { t.k = 'D'; int n = r.in(1, 3); for (int i = 0; i < n; ++i) t.a.push_back(r.chance(1, 6) ? r.in(300, 20000) : r.in(1, 70)); if (r.chance(1, 8)) t.a[0] = 0; }
    else { t.k = 'O'; t.kw = r.pick(VS{"PORO", "ACTNUM", "XYZZY", "RPTRST", "METRIC", "SCHEDULE"}); }
    return t;
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work;
    // behaviours of the specification
    if (!a.script.empty()) { std::ifstream f(a.script.c_str()); std::string ln;
        while (std::getline(f, ln)) {
            std::vector<Item> its; std::stringstream ss(ln); std::string w; bool started = false; int serial = 0;
            while (std::getline(ss, w, ';')) { if (w.empty()) continue; std::stringstream ws(w); std::string k, v; int x = 0; ws >> k >> v; ws >> x; Item t; ++serial; (void)started;
                if (k == "K" && v == "GRUPTREE") { t.k = 'G'; t.a = {x, serial % 4}; }
                else if (k == "K") { t.k = 'K'; t.kw = v; t.a = {x}; }
                else if (k == "S") { t.k = 'S'; t.a = v == "1999" ? VI{1999, 12, 31} : VI{2000, 2, 28}; }
                else if (k == "T") { t.k = 'T'; t.a = v == "0" ? VI() : v == "1" ? VI{4} : VI{1, 6}; }
                else if (k == "D") { t.k = 'D'; t.a = {atoi(v.c_str())}; }
                else { t.k = 'O'; t.kw = v; }
                its.push_back(t); }
            play(its, r, 1);
        } }
    // every order of few items
    std::vector<Item> alpha = {{'K', "WELOPEN", {1}}, {'K', "WCONPROD", {2}}, {'G', "", {1, 2}}, {'T', "", {4, 8}}, {'D', "", {10}}, {'O', "XYZZY", {}}};
    int L = a.thorough ? 5 : 4;
    for (int len = 0; len <= L; ++len) { VI ix(len, 0);
        while (true) { std::vector<Item> its; for (int i = 0; i < len; ++i) { Item t = alpha[ix[i]]; if (t.k == 'G') t.a[1] = i; its.push_back(t); } play(its, r, 0);
            int p = len - 1; while (p >= 0 && ++ix[p] == (int)alpha.size()) ix[p--] = 0; if (p < 0) break; } }
    for (int t = 0; t < (a.thorough ? 8000 : 900); ++t) { std::vector<Item> its; int n = r.in(1, 25); for (int i = 0; i < n; ++i) its.push_back(randItem(r, i == 0)); play(its, r, 1); }
    for (int i = 0; i < 40; ++i) unlink((work + ".i" + std::to_string(i)).c_str());
    done();
}
