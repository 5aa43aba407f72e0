// Driver for C27: grids and cell data written for visualisation; the files are read back number by number.
#include "common.hpp"
#include "fakegrid.hpp"
#include <limits>
#include <tr1/array>
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/utility/DataMap.hpp>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/GridManager.hpp>
#include <memory>
using namespace vf; using namespace Opm;
typedef std::vector<double> VD; typedef std::vector<int> VI;
static int run = 0; static const int TINY = -1999999999;
static int enc(double x) { return x != 0 && std::fabs(x) < std::numeric_limits<double>::min() ? TINY : qn(x, 1000); }
static int back(const std::string& t) { char* e; double x = strtod(t.c_str(), &e); if (e == t.c_str() || *e) return BAD; return x != 0 && std::fabs(x) < 1e-300 ? BAD : qn(x, 1000); }
static int backi(const std::string& t) { char* e; long x = strtol(t.c_str(), &e, 10); return e == t.c_str() || *e || x > 1000000 || x < -1000000 ? BAD : (int) x; }
static double value(Rng& r) { switch (r.in(0, 9)) { case 0: return 0; case 1: return std::numeric_limits<double>::denorm_min()*r.in(1, 9)*(r.chance(1, 2) ? 1 : -1); case 2: return r.in(-9, 9)/(r.chance(1, 2) ? 1.0 : 1000.0); case 3: return r.in(1000000000, 1999999999)/1000.0; case 4: return -r.in(1000000000, 1999999999)/1000.0; default: return r.in(-999999, 999999)/1000.0; } }
static double small(Rng& r) { return r.chance(1, 3) ? r.in(-9, 9) : r.in(-99999, 99999)/100.0; }
struct Fields { std::vector<std::string> names; std::vector<VD> vals; VI ncomp; DataMap map;
    void add(const std::string& n, int cells, int comps, Rng& r, bool sm) { VD v; for (int i = 0; i < cells*comps; ++i) v.push_back(sm ? small(r) : value(r)); names.push_back(n); vals.push_back(v); ncomp.push_back(comps); }
    void link() { map.clear(); for (size_t i = 0; i < names.size(); ++i) map[names[i]] = &vals[i]; }
    std::string log() const { std::string s = "["; for (size_t i = 0; i < names.size(); ++i) { VI q; for (double x : vals[i]) q.push_back(enc(x)); Ev e; e.put("name", names[i]).put("ncomp", ncomp[i]).put("vals", q); s += (i ? "," : "") + e.str(); } return s + "]"; } };
static Fields fields(int n, Rng& r, bool sm)
{ static const char* N[] = {"saturation", "pressure", "velocity", "perm", "a", "z_9"}; Fields f; for (int k = 0; k < 6; ++k) if (r.chance(2, 5)) f.add(N[k], n, r.chance(1, 2) ? 1 : r.in(2, 9), r, sm); f.link(); return f; }
struct Array { std::vector<std::string> path; std::map<std::string, std::string> at; std::vector<std::string> tok; };
static bool attrs(const std::string& s, std::string& tag, std::map<std::string, std::string>& at)
{ size_t i = s.find_first_of(" \t\n"); tag = s.substr(0, i); while (i != std::string::npos && i < s.size()) { i = s.find_first_not_of(" \t\n", i); if (i == std::string::npos) break; size_t e = s.find('=', i); if (e == std::string::npos || e + 1 >= s.size() || s[e+1] != '"') return false; size_t q = s.find('"', e + 2); if (q == std::string::npos) return false; at[s.substr(i, e - i)] = s.substr(e + 2, q - e - 2); i = q + 1; } return true; }
static bool xml(const std::string& s, std::vector<Array>& out, std::map<std::string, std::map<std::string, std::string> >& top)
{
    std::vector<std::string> open; std::vector<std::string> names; bool any = false; size_t i = 0; Array cur; bool in = false;
    while (i < s.size()) {
        if (s[i] == '<') { size_t e = s.find('>', i); if (e == std::string::npos) return false; std::string t = s.substr(i + 1, e - i - 1); i = e + 1;
            if (t.size() && t[0] == '?') continue;
            if (t.size() && t[0] == '/') { if (open.empty() || open.back() != t.substr(1)) return false; if (t == "/DataArray") { if (!in) return false; out.push_back(cur); in = false; } open.pop_back(); if (open.empty()) any = true; continue; }
            bool self = t.size() && t[t.size()-1] == '/'; if (self) t.resize(t.size() - 1); if (in || (open.empty() && any)) return false; std::string tag; std::map<std::string, std::string> at; if (!attrs(t, tag, at)) return false;
            if (tag == "DataArray") { cur = Array(); cur.path = open; cur.at = at; in = true; } else top[tag] = at; if (self) { if (in) { out.push_back(cur); in = false; } } else open.push_back(tag); }
        else if (isspace((unsigned char) s[i])) ++i;
        else { size_t e = i; while (e < s.size() && s[e] != '<' && !isspace((unsigned char) s[e])) ++e; if (!in) return false; cur.tok.push_back(s.substr(i, e - i)); i = e; } }
    return open.empty() && any;
}
static std::string num(std::map<std::string, std::string>& m, const char* k) { return m.count(k) ? m[k] : std::string("?"); }
static void show(const UnstructuredGrid& g, Rng& r)
{
    Fields f = fields(g.number_of_cells, r, false); std::ostringstream os; bool threw = false; op("writeVtkData unstructured"); try { writeVtkData(g, f.map, os); } catch (...) { threw = true; }
    VI pts; if (g.dimensions == 3) for (int i = 0; i < 3*g.number_of_nodes; ++i) pts.push_back(enc(g.node_coordinates[i]));
    std::string cs = "["; for (int c = 0; c < g.number_of_cells; ++c) { cs += c ? ",[" : "["; for (int h = g.cell_facepos[c]; h < g.cell_facepos[c+1]; ++h) { int fc = g.cell_faces[h]; cs += (h > g.cell_facepos[c] ? "," : "") + jarr(g.face_nodes + g.face_nodepos[fc], g.face_nodepos[fc+1] - g.face_nodepos[fc]); } cs += "]"; } cs += "]";
    std::vector<Array> A; std::map<std::string, std::map<std::string, std::string> > top; bool ok = !threw && xml(os.str(), A, top); std::string as = "[";
    for (size_t i = 0; i < A.size(); ++i) { bool ints = A[i].path.size() && A[i].path.back() == "Cells"; VI v; for (auto& t : A[i].tok) v.push_back(ints ? backi(t) : back(t)); Ev e; e.put("path", A[i].path).put("name", A[i].at["Name"]).put("ncomp", A[i].at.count("NumberOfComponents") ? backi(A[i].at["NumberOfComponents"]) : 1).put("ascii", A[i].at["format"] == "ascii").put("vals", v); as += (i ? "," : "") + e.str(); } as += "]";
    Ev("unstructured").put("run", run++).put("dim", g.dimensions).put("threw", threw).put("wellformed", ok).put("kind", num(top["VTKFile"], "type")).put("npoints", backi(num(top["Piece"], "NumberOfPoints"))).put("ncells", backi(num(top["Piece"], "NumberOfCells")))
        .put("scalars", top["CellData"].count("Scalars") ? top["CellData"]["Scalars"] : std::string("")).put("points", pts).raw("cells", cs).raw("data", f.log()).raw("arrays", as).emit();
}
static void polyhedra(Rng& r)
{
    int nc = r.in(0, 12), nf = r.in(1, 20), nn = r.in(3, 30); VI pairs; for (int i = 0; i < nf; ++i) { int a = nc ? r.in(-1, nc - 1) : -1, b = nc ? r.in(-1, nc - 1) : -1; pairs.push_back(a); pairs.push_back(b); }
    for (int c = 0; c < nc; ++c) { pairs.push_back(c); pairs.push_back(-1); }      // every cell has a face
    FakeGrid fg(nc, pairs); fg.nodes.clear(); fg.npos.assign(1, 0); nf = pairs.size()/2; for (int f = 0; f < nf; ++f) { VI all; for (int k = 0; k < nn; ++k) all.push_back(k); r.shuffle(all); int m = r.in(3, std::min(nn, 9)); fg.nodes.insert(fg.nodes.end(), all.begin(), all.begin() + m); fg.npos.push_back(fg.nodes.size()); }
    VD xyz; for (int i = 0; i < 3*nn; ++i) xyz.push_back(r.chance(1, 3) ? r.in(-9, 9) : r.chance(1, 2) ? r.in(-1999999999, 1999999999)/1000.0 : r.in(-99999, 99999)/1000.0);
    fg.g.face_nodes = fg.nodes.data(); fg.g.face_nodepos = fg.npos.data(); fg.g.node_coordinates = xyz.data(); fg.g.number_of_nodes = nn; show(fg.g, r);
}
static void boxes(Rng& r)
{
    int d = r.in(0, 9); UnstructuredGrid* g = d == 0 ? create_grid_cart2d(r.in(1, 4), r.in(1, 4), 1, 2) : d < 5 ? create_grid_cart3d(r.in(1, 4), r.in(1, 4), r.in(1, 4)) : create_grid_hexa3d(r.in(1, 4), r.in(1, 3), r.in(1, 3), r.in(1, 99)/4.0, r.in(1, 99)/8.0, r.in(1, 99)/2.0); show(*g, r); destroy_grid(g);
}
static void structured(Rng& r)
{
    std::tr1::array<int, 3> n; std::tr1::array<double, 3> h; VI dn, dh; for (int k = 0; k < 3; ++k) { n[k] = r.in(1, 5); h[k] = r.in(1, 99999)/100.0; dn.push_back(n[k]); dh.push_back(qn(h[k], 1000)); } int N = n[0]*n[1]*n[2];
    Fields f = fields(N, r, true); std::stringstream os; bool threw = false; op("writeVtkData structured"); try { writeVtkData(n, h, f.map, os); } catch (...) { threw = true; }
    std::string line; bool ok = true; VI shown, origin, sp; int nc = -1; std::string as = "["; int na = 0, ln = 0; bool points = false, ascii = false; std::string name; VI vals; bool in = false, table = false;
    auto flush = [&]() { if (in) { Ev e; e.put("name", name).put("vals", vals); as += (na++ ? "," : "") + e.str(); ok = ok && table; } in = false; vals.clear(); };
    while (std::getline(os, line)) { ++ln; std::istringstream is(line); std::string t; if (ln == 1) { ok = ok && line.find("# vtk DataFile Version") == 0; continue; } if (ln == 2) continue; if (!(is >> t)) continue;
        if (t == "ASCII") ascii = true; else if (t == "DATASET") { is >> t; points = t == "STRUCTURED_POINTS"; } else if (t == "DIMENSIONS") { while (is >> t) shown.push_back(backi(t)); } else if (t == "ORIGIN") { while (is >> t) origin.push_back(back(t)); } else if (t == "SPACING") { while (is >> t) sp.push_back(back(t)); }
        else if (t == "CELL_DATA") { is >> t; nc = backi(t); } else if (t == "SCALARS") { flush(); is >> name; in = true; table = false; } else if (t == "LOOKUP_TABLE") table = true; else { if (!in) ok = false; do vals.push_back(back(t)); while (is >> t); } }
    flush(); as += "]"; Ev("structured").put("run", run++).put("threw", threw).put("wellformed", ok && ascii && points).put("dims", dn).put("size", dh).put("shown", shown).put("origin", origin).put("spacing", sp).put("ncells", nc).raw("data", f.log()).raw("arrays", as).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2700); int T = a.thorough ? 20 : 1;
    for (int i = 0; i < 250*T; ++i) { polyhedra(r); boxes(r); structured(r); }
    done();
}
