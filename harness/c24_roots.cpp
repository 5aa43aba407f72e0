// Driver for C24: root finding.  Every evaluation is recorded; positions and sizes are logged as ranks.
#include "common.hpp"
#include <opm/core/utility/RootFinders.hpp>
#include <limits>
using namespace vf; using namespace Opm;
typedef std::vector<double> VD;
static int run = 0;
struct Seen { double x, f; };
static std::vector<Seen> seen;
// a family of functions, some with jumps, flat parts and several zeros
struct F { int kind; double z, w, k, c; int n;
    double raw(double x) const { double t = (x - z)/w; switch (kind) {
        case 0: return k*t; case 1: return k*(t*t*t + c*t); case 2: return k*(std::exp(c*t) - 1); case 3: return t < 0 ? -k : k*c; case 4: return k*std::sin(c*t);
        case 5: return k*(t > 0 ? std::pow(t, n) : -std::pow(-t, n)); case 6: return t < -1e-3 ? -k : t > 1e-3 ? k : k*1e3*t; case 7: return k*(t*t - c); case 8: return k*(t/(std::fabs(t) + c) + (t > 0 ? 0.5 : -0.5));
        case 9: return k*(c + t*t); case 10: return k*t*(t - c)*(t + c); default: return k*std::atan(c*t); } }
    double operator()(double x) const { double f = raw(x); Seen s = {x, f}; seen.push_back(s); return f; } };
static F family(Rng& r, double lo, double hi)
{ F f; f.kind = r.in(0, 11); f.w = (hi - lo)*std::pow(10.0, -r.in(0, 3))*r.in(1, 9); int where = r.in(0, 9); f.z = where == 0 ? lo : where == 1 ? hi : where == 2 ? hi + (hi - lo)*r.in(0, 9)/5 : lo + (hi - lo)*r.in(0, 1000)/1000.0;
  f.k = std::pow(10.0, r.in(-4, 4))*(r.chance(1, 2) ? 1 : -1)*r.in(1, 9); f.c = r.in(1, 30)/10.0; f.n = r.in(2, 7); return f; }
static int sgn(double f) { return f > 0 ? 1 : f < 0 ? -1 : 0; }
static void ranks(const VD& v, std::vector<int>& out, double same) { VD s(v); std::sort(s.begin(), s.end()); std::vector<int> n(s.size(), 0); for (size_t i = 1; i < s.size(); ++i) n[i] = n[i-1] + (s[i] - s[i-1] > same ? 1 : 0); out.clear(); for (double x : v) out.push_back(n[std::lower_bound(s.begin(), s.end(), x) - s.begin()]); }
static void evals(const std::vector<int>& px, const std::vector<int>& pm, size_t off, double tol, double scale, bool mark)
{
    for (size_t i = 0; i < seen.size(); ++i) { Ev e("eval"); int s = sgn(seen[i].f); double m = std::fabs(seen[i].f); bool loose = m <= tol + 1e-12*std::max(scale, 1.0);
        if (mark && s == 0) s = 1; e.put("x", px[off + i]).put("s", s).put("m", pm[i]); if (mark) e.put("tight", m < tol).put("loose", loose); e.emit(); }
}
template <class P> static void find(Rng& r, bool throws)
{
    double lo = r.in(-20, 20)*std::pow(10.0, r.in(-3, 3)), hi = lo + r.in(1, 20)*std::pow(10.0, r.in(-3, 3)); if (r.chance(1, 3)) { lo = 0; hi = 1; }
    F f = family(r, lo, hi); double a = lo, b = hi; if (r.chance(1, 6)) std::swap(a, b); bool guess = r.chance(1, 2); int gk = r.in(0, 6); double g = gk == 0 ? a : gk == 1 ? b : gk == 2 ? f.z : lo + (hi - lo)*r.in(0, 64)/64; if (g < lo || g > hi) g = lo;
    double tol = std::pow(10.0, -r.in(1, 14)); int max = r.chance(1, 3) ? r.in(0, 8) : r.in(9, 100); int used = r.chance(1, 2) ? -5 : 77; bool threw = false; double x = a; seen.clear(); op("solve");
    try { x = guess ? RegulaFalsi<P>::solve(f, g, a, b, max, tol, used) : RegulaFalsi<P>::solve(f, a, b, max, tol, used); } catch (...) { threw = true; }
    VD pos; pos.push_back(a); pos.push_back(b); pos.push_back(guess ? g : a); pos.push_back(x); for (auto& s : seen) pos.push_back(s.x); VD size; for (auto& s : seen) size.push_back(std::fabs(s.f)); std::vector<int> px, pm, ends, near; ranks(pos, px, 1e-15*std::max(std::fabs(a), std::fabs(b))); ranks(size, pm, 0);
    for (int i = 0; i < 3; ++i) ends.push_back(px[i]);
    double scale = 0; for (size_t i = 0; i < seen.size() && i < 3; ++i) scale = std::max(scale, std::fabs(seen[i].f)); double eps = tol + 1e-15*std::max(std::max(std::fabs(a), std::fabs(b)), 1.0); for (size_t i = 0; i < pos.size(); ++i) if (std::fabs(pos[i] - x) <= eps) near.push_back(px[i]);
    Ev("ask").put("run", run++).put("ends", ends).put("max", max).put("throws", throws).emit(); evals(px, pm, 4, tol, scale, true);
    Ev("answer").put("threw", threw).put("x", px[3]).put("near", near).put("used", used).emit();
}
static void search(Rng& r)
{
    double x0 = r.in(-20, 20)*std::pow(10.0, r.in(-2, 2)), dx = r.in(1, 20)*std::pow(10.0, r.in(-4, 2))*(r.chance(1, 2) ? 1 : -1); F f = family(r, x0 - 10*std::fabs(dx)*r.in(1, 100), x0 + 10*std::fabs(dx)*r.in(1, 100)); if (r.chance(1, 12)) { f.kind = 9; } if (r.chance(1, 10)) { f.kind = 0; f.z = x0; }
    double a = -1e300, b = -1e300; bool threw = false; seen.clear(); op("bracketZero"); try { bracketZero(f, x0, dx, a, b); } catch (...) { threw = true; }
    VD pos; pos.push_back(x0); pos.push_back(a); pos.push_back(b); for (auto& s : seen) pos.push_back(s.x); VD size; for (auto& s : seen) size.push_back(std::fabs(s.f)); std::vector<int> px, pm; ranks(pos, px, 0); ranks(size, pm, 0);
    Ev("search").put("run", run++).put("from", px[0]).emit(); evals(px, pm, 3, 0, 0, false); Ev("found").put("threw", threw).put("a", px[1]).put("b", px[2]).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2400); int T = a.thorough ? 25 : 1;
    for (int i = 0; i < 800*T; ++i) { find<ThrowOnError>(r, true); find<ContinueOnError>(r, false); if (i % 4 == 0) find<WarnAndContinueOnError>(r, false); search(r); }
    done();
}
