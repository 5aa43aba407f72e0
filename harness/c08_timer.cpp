// Driver for C08: histories of the simulation clock, from parameters and from decks.
#include "common.hpp"
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
using namespace vf;
typedef std::vector<int> VI;
static int run = 0; static Opm::SimulatorTimer* T = 0; static std::string work; static bool dated = false;
static const double Q = 21600.0;                       // a quarter day
static const boost::gregorian::date base(1900, 1, 1);
static Raw obs()
{
    Ev e; int n = T->numSteps(); e.put("n", n).put("total", qn(T->totalTime() / Q)).put("step", T->currentStepNum()).put("time", qn(T->currentTime() / Q)).put("done", T->done());
    bool ok = true; double len = 0; int s = T->currentStepNum();
    if (s >= 0 && s <= n) { try { len = T->currentStepLength(); } catch (std::exception&) { ok = false; } }
    e.put("lenok", ok).put("len", qn(len / Q));
    int day = -1, sec = -1; boost::posix_time::ptime p = T->currentDateTime();
    if (!p.is_special()) { day = (p.date() - base).days(); sec = p.time_of_day().total_seconds(); }
    e.put("day", day).put("sec", sec);
    return e.asRaw();
}
static void fresh() { delete T; T = new Opm::SimulatorTimer; Ev("new").put("run", ++run).emit(); }
static void initParam(int n, int q, bool first)
{
    op("init from parameters"); Opm::parameter::ParameterGroup p; VI st;
    if (n >= 0) p.insertParameter("num_psteps", std::to_string(n)); else n = 1;
    if (q >= 0) { char b[40]; snprintf(b, sizeof b, "%.2f", q / 4.0); p.insertParameter("stepsize_days", b); } else q = 4;
    T->init(p); st.assign(n, q);
    if (first) dated = false;
    Ev("init").put("fresh", first).put("steps", st).put("start", -1).put("o", obs()).emit();
}
static void initDeck(const VI& st, Rng& r, bool first)
{
    static const char* mon[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"};
    int y = r.in(1950, 2080), m = r.in(1, 12), d = r.in(1, 28); bool start = r.chance(3, 4);
    std::ofstream f(work.c_str()); f << "RUNSPEC\n\n" << (r.chance(1, 2) ? "METRIC\n" : "FIELD\n") << "\n";
    if (start) f << "START\n " << d << " '" << mon[m-1] << "' " << y << " /\n\n"; else { y = 1983; m = d = 1; }
    f << "SCHEDULE\n\n"; size_t i = 0;
    while (i < st.size()) { int k = r.in(1, 4); f << "TSTEP\n "; for (int q = 0; q < k && i < st.size(); ++q) { char b[40]; snprintf(b, sizeof b, "%.2f ", st[i] / 4.0); f << b; ++i; } f << "/\n\n"; }
    f << "END\n"; f.close();
    op("init from a deck"); Opm::EclipseGridParser deck(work); T->init(deck); unlink(work.c_str());
    Ev("init").put("fresh", first).put("steps", st).put("start", (int) (boost::gregorian::date(y, m, d) - base).days()).put("o", obs()).emit(); dated = true;
}
static void set(int k) { op("setCurrentStepNum"); bool ok = true; try { T->setCurrentStepNum(k); } catch (std::exception&) { ok = false; } Ev("set").put("k", k).put("ok", ok).put("o", obs()).emit(); }
static void adv() { op("advance"); bool ok = true; try { ++*T; } catch (std::exception&) { ok = false; } Ev("advance").put("ok", ok).put("o", obs()).emit(); }
static void tot(int t) { op("setTotalTime"); T->setTotalTime(t * Q); Ev("total").put("t", t).put("o", obs()).emit(); }
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work + ".data";
    // all histories of four (five) operations over lists of up to three steps
    int L = a.thorough ? 5 : 4;
    for (int n = 0; n <= 3; ++n) {
        int K = 8, tot_ = 1; for (int i = 0; i < L; ++i) tot_ *= K;
        for (int x = 0; x < tot_; x += a.thorough ? 1 : r.in(1, 5)) { fresh(); if (n == 0 || x % 7) initParam(n, 4, true); else { VI s; for (int i = 0; i < n; ++i) s.push_back(r.in(1, 8)); initDeck(s, r, true); }
            for (int i = 0, y = x; i < L; ++i, y /= K) { int c = y % K; if (c <= 2) adv(); else set(c - 4); } }
        if (a.thorough && n == 3) break;
    }
    int nt = a.thorough ? 500 : 140;
    for (int t = 0; t < nt; ++t) {
        fresh(); int n = r.in(1, t % 10 == 0 ? 60 : 12); VI s(n); for (auto& x : s) x = t % 9 == 4 ? r.in(1, 40000) : r.in(0, 200);
        if (t % 3 == 0) { n = r.in(-1, 20); initParam(n, r.in(-1, 100), true); if (n < 0) n = 1; } else initDeck(s, r, true);
        int len = r.in(5, 50);
        for (int i = 0; i < len; ++i) { int c = r.in(0, 19);
            if (c <= 11) adv(); else if (c <= 15) set(r.in(0, n)); else if (c == 16) set(r.pick(VI{-1, -5, n + 1, n + 7})); else if (c == 17) tot(r.in(0, 100000));
            else { int at = T->currentStepNum(); // next epoch: a longer list with the same beginning, then jump to where we were
                if (t % 3 != 0) { int k = r.in(0, 5); for (int q = 0; q < k; ++q) s.push_back(r.in(1, 200)); n = s.size(); initDeck(s, r, false); set(std::min(at, n)); }
                else if (r.chance(1, 3)) { n = r.in(0, 9); initParam(n, r.in(1, 50), false); set(std::min(at, n)); } }
        }
        while (!T->done()) adv(); adv(); set(0);
    }
    done();
}
