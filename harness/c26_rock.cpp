// Driver for C26: porosity and permeability read from decks onto the cells of a grid.
#include "common.hpp"
#include "fakegrid.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/props/rock/RockFromDeck.hpp>
#include <opm/core/props/rock/RockBasic.hpp>
#include <opm/core/utility/Units.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI;
static std::string path; static int run = 0;
static const char* KEYS[] = {"PORO", "PERMX", "PERMY", "PERMZ", "PERMXY", "PERMXZ", "PERMYX", "PERMYZ", "PERMZX", "PERMZY"};
struct Deck { std::map<std::string, VI> data; int n[3], box; };
static std::string tensor(const double* K, int n, int dim, bool& fine)
{
    std::string s = "["; for (int c = 0; c < n; ++c) { s += c ? ",[" : "["; for (int i = 0; i < dim; ++i) { s += i ? ",[" : "["; for (int jj = 0; jj < dim; ++jj) { int v = qn(K[(c*dim + i)*dim + jj], 1.0/(prefix::milli*unit::darcy)); s += (jj ? "," : "") + j(v); } s += "]"; } s += "]"; } fine = true; return s + "]";
}
// writes the deck, keywords in any order, values as plain numbers or with repeat counts
static void write(const Deck& d, Rng& r)
{
    std::ofstream o(path.c_str()); std::vector<std::string> ks; for (auto& k : d.data) ks.push_back(k.first); r.shuffle(ks);
    o << "RUNSPEC\nMETRIC\n\nDIMENS\n " << d.n[0] << " " << d.n[1] << " " << d.n[2] << " /\n\nGRID\n";
    for (auto& k : ks) { o << k << "\n"; const VI& v = d.data.find(k)->second; bool rep = r.chance(1, 2); int col = 0;
        for (size_t i = 0; i < v.size();) { size_t m = i; while (m < v.size() && v[m] == v[i]) ++m; if (!rep) m = i + 1; if (m - i > 1) o << (m - i) << "*"; if (k == "PORO") o << v[i]/10000.0; else o << v[i]; o << (++col % 5 ? " " : "\n"); i = m; } o << "/\n"; if (r.chance(1, 4)) o << "-- next\n\n"; }
    o << "\nSCHEDULE\nTSTEP\n 1.0 /\n\nEND\n";
}
static std::unique_ptr<RockFromDeck> kept;
static void read(const Deck& d, const VI& active, bool identity, Rng& r)
{
    op("deck with " + std::to_string(d.data.size()) + " arrays"); EclipseGridParser parser(path, true);
    FakeGrid fg(active.size(), VI()); fg.g.cartdims[0] = d.n[0]; fg.g.cartdims[1] = d.n[1]; fg.g.cartdims[2] = d.n[2]; VI gc(active); gc.push_back(0); fg.g.global_cell = identity ? 0 : gc.data();
    if (!kept || r.chance(1, 2)) kept.reset(new RockFromDeck); bool threw = false; op("RockFromDeck::init"); try { kept->init(parser, fg.g); } catch (...) { threw = true; }
    VI one; for (int g : active) one.push_back(g + 1); Ev e("read"); e.put("active", one).put("threw", threw);
    if (threw) kept.reset(); else { bool fine; int n = kept->numCells(); std::vector<int> p; for (int c = 0; c < n; ++c) p.push_back(qn(kept->porosity()[c], 10000)); op("permeability"); e.put("cells", n).put("dims", kept->numDimensions()).put("poro", p).raw("perm", tensor(kept->permeability(), n, 3, fine)); }
    e.emit();
}
static void announce(const Deck& d) { Ev k; for (auto& p : d.data) k.put(p.first.c_str(), p.second); Ev("deck").put("run", run++).put("box", d.box).raw("data", k.str()).emit(); }
static int value(const std::string& k, Rng& r, bool neg) { return k == "PORO" ? r.in(0, 9)*1000 + r.in(0, 9)*10 : neg && r.chance(1, 6) ? -r.in(1, 500) : r.chance(1, 8) ? 0 : k.size() > 5 ? r.in(-400, 400) : r.in(1, 5000); }
static void fill(Deck& d, const std::string& k, Rng& r, bool neg, int len) { VI v; while ((int) v.size() < len) { int x = value(k, r, neg), n = r.chance(1, 3) ? r.in(1, 5) : 1; while (n-- && (int) v.size() < len) v.push_back(x); } d.data[k] = v; }
static VI cells(const Deck& d, Rng& r, bool& identity)
{
    VI all; for (int i = 0; i < d.box; ++i) all.push_back(i); identity = false; int how = r.in(0, 3); if (how == 0) { identity = r.chance(1, 2); if (identity && r.chance(1, 3)) all.resize(r.in(1, d.box)); return all; }
    if (how == 1) r.shuffle(all); VI out; for (int g : all) if (r.chance(2, 3)) out.push_back(g); if (out.empty()) out.push_back(d.box - 1); if (how == 3) { out.push_back(out[0]); } return out;
}
static void dims(Deck& d, Rng& r) { for (int k = 0; k < 3; ++k) d.n[k] = r.in(1, 4); d.box = d.n[0]*d.n[1]*d.n[2]; }
static void subset(unsigned mask, Rng& r, bool neg, bool shorten)
{
    Deck d; dims(d, r); for (int k = 0; k < 10; ++k) if (mask >> k & 1) fill(d, KEYS[k], r, neg, d.box);
    if (shorten && mask) { std::vector<int> on; for (int k = 0; k < 10; ++k) if (mask >> k & 1) on.push_back(k); std::string k = KEYS[r.pick(on)]; VI v = d.data[k]; if (v.size() > 1 && r.chance(3, 4)) v.resize(r.in(1, v.size() - 1)); d.data[k] = v; }
    write(d, r); announce(d); int m = r.in(1, 3); bool id; for (int i = 0; i < m; ++i) { VI a = cells(d, r, id); read(d, a, id, r); }
}
static void replay(const std::string& f, Rng& r)
{
    std::ifstream in(f.c_str()); std::string line;
    while (std::getline(in, line)) {
        Deck d; d.n[0] = 2; d.n[1] = 2; d.n[2] = 1; d.box = 4; size_t e = line.find("active");
        for (int k = 0; k < 10; ++k) if (line.find("\"" + std::string(KEYS[k]) + "\"") != std::string::npos) fill(d, KEYS[k], r, false, d.box);
        VI a; for (size_t i = line.find("<<", e); i < line.size(); ++i) if (isdigit(line[i])) a.push_back(line[i] - '1');
        write(d, r); announce(d); read(d, a, false, r);
    }
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2600); path = a.work; int T = a.thorough ? 12 : 1;
    if (!a.script.empty()) replay(a.script, r);
    for (int t = 0; t < T; ++t) for (unsigned m = 0; m < 1024; ++m) { unsigned q = m; if (m % 2 == 0 || t) { q = m; } subset(q, r, m % 3 == 0, m % 16 == 7); }
    for (int t = 0; t < 150*T; ++t) { unsigned m = r.in(0, 1); m |= 2*r.in(1, 7); if ((m & 6) == 6) m |= r.chance(1, 2)*16 | r.chance(1, 2)*64; if ((m & 10) == 10) m |= r.chance(1, 2)*32 | r.chance(1, 2)*256; if ((m & 12) == 12) m |= r.chance(1, 2)*128 | r.chance(1, 2)*512; subset(m, r, r.chance(1, 4), r.chance(1, 8)); }
    for (int t = 0; t < 30*T; ++t) { RockBasic b; int dim = r.in(1, 3), n = r.in(0, 6), phi = r.in(0, 9999), k = r.in(0, 3000); op("RockBasic"); b.init(dim, n, phi/10000.0, k*prefix::milli*unit::darcy); if (r.chance(1, 2)) { n = r.in(0, 6); dim = r.in(1, 3); k = r.in(0, 3000); b.init(dim, n, phi/10000.0, k*prefix::milli*unit::darcy); }
        bool fine; std::vector<int> p; for (int c = 0; c < b.numCells(); ++c) p.push_back(qn(b.porosity()[c], 10000)); Ev("uniform").put("run", run++).put("cells", b.numCells()).put("n", n).put("phi", phi).put("k", k).put("dims", b.numDimensions()).put("poro", p).raw("perm", tensor(b.permeability(), n, dim, fine)).emit(); }
    unlink(path.c_str()); done();
}
