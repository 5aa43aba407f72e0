// Driver for C23: interpolation tables.
#include "common.hpp"
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <opm/core/utility/UniformTableLinear.hpp>
#include <opm/core/utility/NonuniformTableLinear.hpp>
#include <opm/core/utility/linearInterpolation.hpp>
#include <opm/core/utility/buildUniformMonotoneTable.hpp>
#include <memory>
#include <limits>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef MonotCubicInterpolator Cubic;
static int run = 0;
static int rnd(double x, double Q) { double y = std::floor(x*Q + 0.5); return y > -2e9 && y < 2e9 ? (int) y : BAD; }
static VI pair(double a, double b) { VI v; v.push_back(qn(a)); v.push_back(qn(b)); return v; }
static std::string pairs(const VD& x, const VD& f) { std::string s = "["; for (size_t i = 0; i < x.size() && i < f.size(); ++i) s += (i ? "," : "") + j(pair(x[i], f[i])); return s + "]"; }
static VI vals(Rng& r, int n)
{ VI f; int kind = r.in(0, 5), v = r.in(-6, 6); for (int i = 0; i < n; ++i) { f.push_back(v); int s = r.chance(1, 3) ? 0 : r.in(1, kind == 4 ? 9 : 3); if (kind == 4 && r.chance(1, 2)) s = r.in(0, 1);
      if (kind == 0 || kind == 4) v += s; else if (kind == 1) v -= s; else if (kind == 2) v = r.in(-6, 6); else if (kind == 3) v += 1 + s; else v -= 1 + s; } return f; }
static VI nodes(Rng& r, int n) { VI x; int at = r.in(-5, 5); for (int i = 0; i < n; ++i) { x.push_back(at); at += 1 << r.in(0, 2); } return x; }
static void look(Cubic& c)
{
    op("look"); VD x = c.get_xVector(), f = c.get_fVector(); int n = c.getSize(); Ev e("look"); e.raw("table", x.size() == f.size() ? pairs(x, f) : "[[-1]]").put("size", n);
    VD tx, tf; std::istringstream in(c.toString()); std::string line; while (std::getline(in, line) && line.find("Deriv") == std::string::npos) { std::istringstream ls(line); double a, b; if (ls >> a >> b) { tx.push_back(a); tf.push_back(b); } } e.raw("text", pairs(tx, tf));
    if (n > 0) e.put("left", rnd(c.evaluate(x[0] - 2.5), 512)).put("right", rnd(c(x.back() + 0.5), 512)).put("first", pair(c.getMinimumX().first, c.getMinimumX().second)).put("last", pair(c.getMaximumX().first, c.getMaximumX().second));
    if (n > 1) {
        std::string s = "["; for (int i = 0; i + 1 < n; ++i) { VI v; for (int k = 0; k <= 4; ++k) v.push_back(rnd(c(x[i] + k*(x[i+1] - x[i])/4), 512)); s += (i ? "," : "") + j(v); } e.raw("samples", s + "]");
        std::pair<double,double> hi = c.getMaximumF(), lo = c.getMinimumF(), mi = c.getMissingX();
        e.put("max", pair(hi.first, hi.second)).put("min", pair(lo.first, lo.second)).put("missing", pair(2*mi.first, mi.second));
        e.put("monotone", c.isMonotone()).put("rising", c.isMonotoneIncreasing()).put("falling", c.isMonotoneDecreasing()).put("strict", c.isStrictlyMonotone()).put("srising", c.isStrictlyIncreasing()).put("sfalling", c.isStrictlyDecreasing());
    }
    e.emit();
}
static void cubic(Rng& r, const std::string& work)
{
    std::unique_ptr<Cubic> c; int n = r.in(1, 7); VI x = nodes(r, n), f = vals(r, n), o(n); for (int i = 0; i < n; ++i) o[i] = i;
    if (r.chance(1, 2)) r.shuffle(o); VD xs, fs; for (int i : o) { xs.push_back(x[i]); fs.push_back(f[i]); }
    if (r.chance(1, 3)) { int k = r.in(0, n - 1); xs.push_back(x[k]); fs.push_back(r.in(-3, 3)); }
    Ev("new").put("run", run++).emit(); bool gone = false; int how = r.in(0, 2);
    if (how == 0) { op("from vectors"); c.reset(new Cubic(xs, fs)); Ev("build").raw("pairs", pairs(xs, fs)).emit(); }
    else if (how == 1) { op("addPair"); c.reset(new Cubic()); for (size_t i = 0; i < xs.size(); ++i) { c->addPair(xs[i], fs[i]); Ev("add").put("ok", true).put("pair", pair(xs[i], fs[i])).emit(); } }
    else {
        int xc = r.in(1, 3), fc = r.in(1, 3); if (xc == fc) fc = xc % 3 + 1; if (r.chance(1, 2)) xc = 1, fc = 2; std::ofstream out(work.c_str()); std::string L = "["; bool first = true; size_t k = 0;
        while (k < xs.size()) { VI line; std::string txt; int kind = r.in(0, 9);
            if (kind == 0) txt = "# 7 8 9"; else if (kind == 1) txt = ""; else if (kind == 2) { int m = r.in(1, std::max(xc, fc) - 1); for (int i = 0; i < m; ++i) { line.push_back(r.in(0, 9)); txt += std::to_string(line[i]) + " "; } if (r.chance(1, 2)) txt += "note"; }
            else { int m = std::max(xc, fc) + r.in(0, 2); for (int i = 1; i <= m; ++i) line.push_back(i == xc ? (int) xs[k] : i == fc ? (int) fs[k] : r.in(-9, 9)); ++k; txt = r.chance(1, 4) ? " " : ""; for (int i = 0; i < m; ++i) txt += std::to_string(line[i]) + (r.chance(1, 4) && i + 1 < m ? "," : r.chance(1, 4) ? "  " : "\t"); if (r.chance(1, 4)) txt += " and so on"; }
            out << txt << (k == xs.size() && r.chance(1, 3) ? "" : "\n"); L += (first ? "" : ",") + j(line); first = false; }
        out.close(); bool ok = true; op("read"); bool plain = xc == 1 && fc == 2, again = r.chance(1, 2);
        try { if (again) { c.reset(new Cubic(VD(2, 5.0), VD(2, 3.0))); ok = plain ? c->read(work) : c->read(work, xc, fc); }
              else if (plain) c.reset(r.chance(1, 2) ? new Cubic(work) : new Cubic(work.c_str())); else c.reset(r.chance(1, 2) ? new Cubic(work, xc, fc) : new Cubic(work.c_str(), xc, fc)); } catch (...) { ok = false; }
        Ev("read").raw("lines", L + "]").put("xc", xc).put("fc", fc).put("ok", ok).emit(); gone = !ok;
    }
    if (gone) return;
    if (r.chance(3, 4)) look(*c);
    for (int k = r.in(0, 5); k > 0; --k) {
        int what = r.in(0, 5), eps = r.in(0, 3);
        if (what == 0) { VD at = c->get_xVector(); int nx = (int) at[r.in(0, at.size() - 1)]; if (r.chance(1, 2)) { int i = r.in(0, at.size() - 1); bool gap = i + 1 < (int) at.size() && at[i+1] - at[i] > 1; nx = gap ? (int) (at[i] + at[i+1])/2 : (int) at.back() + 1; if (gap && (at[i] + at[i+1])/2 != nx) nx = (int) at[i] ; }
            int nf = r.in(-9, 9); op("addPair"); c->addPair(nx, nf); Ev("add").put("ok", true).put("pair", pair(nx, nf)).emit(); }
        else if (what == 1) { bool ok = true; double bad = r.chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::infinity(); op("addPair not a number"); try { if (r.chance(1, 2)) c->addPair(bad, 1); else c->addPair(100, bad); } catch (...) { ok = false; } Ev("addbad").put("ok", ok).emit(); }
        else if (what == 2) { int s = r.in(-2, 2); op("scaleData"); c->scaleData(s); Ev("scale").put("k", s).emit(); }
        else if (what == 3 || what == 4) { op("chopFlatEndpoints"); if (eps == 0) c->chopFlatEndpoints(); else c->chopFlatEndpoints(eps); Ev("chop").put("eps", eps ? eps : 1).emit(); }
        else { op("shrinkFlatAreas"); if (eps == 0) c->shrinkFlatAreas(); else c->shrinkFlatAreas(eps); Ev("shrink").put("eps", eps ? eps : 1).emit(); }
        if (r.chance(2, 3) || k == 1) { if (r.chance(1, 4)) { Cubic d(*c); look(d); } else look(*c); }
    }
}
static void uniform(Rng& r)
{
    int n = r.in(2, 7); VI y = vals(r, n); VD Y(y.begin(), y.end()); int lo = r.in(-10, 10), hi = lo + r.in(1, 12);
    op("UniformTableLinear"); UniformTableLinear<double> t(lo, hi, Y), u; if (r.chance(1, 2)) t = UniformTableLinear<double>(lo, hi, &Y[0], n);
    u = t; for (int k = 0; k < 2; ++k) {
        if (k) { lo = r.in(-10, 10); hi = lo + r.in(1, 12); t.rescaleDomain(std::make_pair(double(lo), double(hi))); u.rescaleDomain(std::make_pair(double(lo), double(hi))); }
        VI p, v, d; for (int i = -4; i <= 4*(n - 1) + 4; ++i) { double x = i == 4*(n - 1) ? hi : lo + i*double(hi - lo)/(4.0*(n - 1)); p.push_back(i); v.push_back(qn(t(x), 4)); d.push_back(qn(t.derivative(x), hi - lo)); }
        bool bad = false; try { t.setLeftPolicy(UniformTableLinear<double>::ClosestValue); t.setRightPolicy(UniformTableLinear<double>::ClosestValue); } catch (...) { bad = true; }
        for (int q = 0; q < 4; ++q) { UniformTableLinear<double>::RangePolicy rp = q & 1 ? UniformTableLinear<double>::Throw : UniformTableLinear<double>::Extrapolate; bool th = false; try { if (q & 2) t.setLeftPolicy(rp); else t.setRightPolicy(rp); } catch (...) { th = true; } if (!th) bad = true; }
        VD Z(Y); Z[r.in(0, n - 1)] += 1; UniformTableLinear<double> w(lo, hi, Z), w2(lo, hi + 1, Y);
        std::ostringstream os; os << t; std::istringstream in(os.str()); std::string s = "["; double a, b; bool first = true; while (in >> a >> b) { s += (first ? "" : ",") + std::string("[") + std::to_string((int) std::floor(a*(n - 1) + 0.5)) + "," + std::to_string(qn(b)) + "]"; first = false; }
        Ev("uniform").put("run", run++).put("y", y).put("range", pair(lo, hi)).put("domain", pair(t.domain().first, t.domain().second)).put("p", p).put("v", v).put("d", d).put("bad", bad).put("same", t == u).put("other", t == w || t == w2).raw("text", s + "]").emit();
    }
}
static void linear(Rng& r)
{
    int n = r.in(2, 7); VI x = nodes(r, n), f = vals(r, n); VD X(x.begin(), x.end()), F(f.begin(), f.end()); op("NonuniformTableLinear"); NonuniformTableLinear<double> t(X, F), u(X, F);
    for (int k = 0; k < 3; ++k) {
        if (k) { bool small = true; for (int i = 0; i + 1 < n; ++i) if (X[i+1] - X[i] > 2) small = false; int m = small && r.chance(1, 2) ? 2 : 1, c = r.in(-8, 8); double span = X.back() - X[0]; t.rescaleDomain(std::make_pair(double(c), c + m*span)); double a0 = X[0]; for (double& v : X) v = c + m*(v - a0); u = NonuniformTableLinear<double>(X, F); }
        bool down = true, up = true; for (int i = 0; i + 1 < n; ++i) { down = down && F[i] > F[i+1]; up = up && F[i] < F[i+1]; }
        VI q, v, w, d, at, inv; VD RX(X.rbegin(), X.rend()), RF(F.rbegin(), F.rend()); bool rev = r.chance(1, 2);
        for (int i = (int) (4*X[0]) - 5; i <= 4*X.back() + 5; ++i) { double p = i/4.0, g = t(p); q.push_back(i); v.push_back(qn(g, 16)); d.push_back(qn(rev ? linearInterpolationDerivative(RX, RF, p) : t.derivative(p), 4)); int ix = -7; double h;
            if (rev) { h = linearInterpolation(RX, RF, p); linearInterpolation(RX, RF, p, ix); ix = n - 2 - ix; } else { h = linearInterpolation(X, F, p, ix); } at.push_back(ix + 1); w.push_back(qn(h, 16)); inv.push_back(up || down ? qn(t.inverse(g), 4) : 0); }
        VD Z(F); Z[r.in(0, n - 1)] += 1; VD ZX(X); ZX.back() += 1;
        Ev("linear").put("run", run++).raw("table", pairs(X, F)).put("domain", pair(t.domain().first, t.domain().second)).put("q", q).put("v", v).put("w", w).put("d", d).put("at", at).put("inv", inv).put("same", t == u).put("other", t == NonuniformTableLinear<double>(X, Z) || t == NonuniformTableLinear<double>(ZX, F)).emit();
    }
}
static void resample(Rng& r)
{
    int n = r.in(2, 6), h = 1 << r.in(0, 2), at = r.in(-5, 5); VI f = vals(r, n); VD X, F(f.begin(), f.end()); for (int i = 0; i < n; ++i) X.push_back(at + h*i);
    op("buildUniformMonotoneTable"); UniformTableLinear<double> t; int s = 4*(n - 1) + 1; buildUniformMonotoneTable(X, F, s, t); VI v; for (int k = 0; k < s; ++k) v.push_back(rnd(t(at + k*h/4.0), 512));
    Ev("resample").put("run", run++).raw("table", pairs(X, F)).put("domain", pair(t.domain().first, t.domain().second)).put("v", v).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2300); int T = a.thorough ? 20 : 1;
    for (int i = 0; i < 1200*T; ++i) cubic(r, a.work + ".txt");
    for (int i = 0; i < 150*T; ++i) { uniform(r); linear(r); resample(r); }
    done();
}
