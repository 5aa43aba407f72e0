// Driver for C28: grids read from text files, whole, cut off or damaged.
#include "common.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/GridManager.hpp>
using namespace vf; using namespace Opm;
typedef std::vector<int> VI;
static std::string path; static int run = 0; static const int WORD = -2000000001;
static const char* words[] = {"x", "--", "/", "#1", "volume", ".", "+", "\"3\""};
static void write(const VI& t, Rng& r)
{
    std::ofstream o(path.c_str()); int sep = r.in(0, 2); if (r.chance(1, 4)) o << "\n  ";
    for (size_t i = 0; i < t.size(); ++i) { if (i) o << (sep == 0 ? "\n" : sep == 1 ? (i % 6 ? " " : "\n") : r.chance(1, 3) ? "\t  " : "\n "); if (t[i] == WORD) o << words[r.in(0, 7)]; else if (t[i] % 8 == 0) o << t[i]/8; else { char b[40]; snprintf(b, sizeof b, r.chance(1, 2) ? "%.3f" : "%.6e", t[i]/8.0); o << b; } } if (r.chance(1, 2)) o << "\n";
}
static std::string ints(const int* p, long n) { return jarr(p, n); }
static std::string gridOf(const UnstructuredGrid& g)
{
    Ev e; int nf = g.number_of_faces, nc = g.number_of_cells, d = g.dimensions, ncf = g.cell_facepos[nc];
    e.put("dims", d).put("nc", nc).put("nf", nf).put("nn", g.number_of_nodes).raw("cartdims", ints(g.cartdims, 3)).raw("nodes", jd(g.node_coordinates, d*g.number_of_nodes, 8)).raw("facenodepos", ints(g.face_nodepos, nf + 1)).raw("facenodes", ints(g.face_nodes, g.face_nodepos[nf]))
     .raw("facecells", ints(g.face_cells, 2*nf)).raw("areas", jd(g.face_areas, nf, 8)).raw("facecentroids", jd(g.face_centroids, d*nf, 8)).raw("normals", jd(g.face_normals, d*nf, 8)).raw("cellfacepos", ints(g.cell_facepos, nc + 1)).raw("cellfaces", ints(g.cell_faces, ncf))
     .put("tagged", g.cell_facetag != 0).raw("tags", ints(g.cell_facetag, g.cell_facetag ? ncf : 0)).put("mapped", g.global_cell != 0).raw("map", ints(g.global_cell, g.global_cell ? nc : 0)).raw("volumes", jd(g.cell_volumes, nc, 8)).raw("cellcentroids", jd(g.cell_centroids, d*nc, 8)); return e.str();
}
static void read(const VI& t, Rng& r)
{
    write(t, r); Ev e("read"); e.put("run", run++).put("file", t); bool manager = r.chance(1, 3); bool null = false;
    if (manager) { op("GridManager(file)"); try { GridManager m(path); e.raw("grid", gridOf(*m.c_grid())); } catch (...) { null = true; } }
    else { op("read_grid"); UnstructuredGrid* g = read_grid(path.c_str()); null = !g; if (g) e.raw("grid", gridOf(*g)); op("destroy_grid"); destroy_grid(g); }
    if (null) e.raw("grid", "{}"); e.put("null", null); e.emit();
}
static int real(Rng& r) { return r.chance(1, 4) ? 8*r.in(-9, 9) : r.in(-9999, 9999); }
struct File { VI t; std::vector<size_t> start; };
static File make(Rng& r)
{
    int d = r.in(1, 3), nc = r.in(0, 5), nf = r.in(0, 8), nn = r.in(0, 9); bool tag = r.chance(1, 2), map = r.chance(1, 2); VI fp(1, 0), cp(1, 0); for (int f = 0; f < nf; ++f) fp.push_back(fp.back() + r.in(0, 4)); for (int c = 0; c < nc; ++c) cp.push_back(cp.back() + r.in(0, 6));
    File F; VI& t = F.t; auto I = [&](int x) { t.push_back(8*x); }; auto begin = [&]() { F.start.push_back(t.size()); };
    begin(); I(d); I(nc); I(nf); I(nn); I(fp.back()); I(cp.back()); I(tag ? r.in(1, 2) : 0); I(map); begin(); for (int k = 0; k < d; ++k) I(r.in(1, 9)); begin(); for (int k = 0; k < d*nn; ++k) t.push_back(real(r)); begin(); for (int x : fp) I(x); begin(); for (int k = 0; k < fp.back(); ++k) I(r.in(0, 30)); begin(); for (int k = 0; k < 2*nf; ++k) I(r.in(-1, 20));
    begin(); for (int k = 0; k < nf; ++k) t.push_back(real(r)); begin(); for (int k = 0; k < d*nf; ++k) t.push_back(real(r)); begin(); for (int k = 0; k < d*nf; ++k) t.push_back(real(r)); begin(); for (int x : cp) I(x); begin(); for (int k = 0; k < cp.back(); ++k) { I(r.in(0, 20)); if (tag) I(r.in(0, 5)); } begin(); if (map) for (int c = 0; c < nc; ++c) I(r.in(0, 99)); begin(); for (int k = 0; k < nc; ++k) t.push_back(real(r)); begin(); for (int k = 0; k < d*nc; ++k) t.push_back(real(r)); return F;
}
static void faults(Rng& r)
{
    File f = make(r); read(f.t, r); size_t n = f.t.size();
    { VI t(f.t.begin(), f.t.begin() + r.in(0, n - 1)); read(t, r); }
    { size_t b = r.pick(f.start); VI t(f.t.begin(), f.t.begin() + std::min(n, b + (r.chance(1, 2) ? 0 : 1))); read(t, r); }       // cut at the edge of a block
    { VI t(f.t.begin(), f.t.end() - 1); read(t, r); }
    { VI t(f.t); t[r.in(0, n - 1)] = WORD; read(t, r); }
    { VI t(f.t); int k = r.in(4, 5); t[k] += 8*r.in(1, 9)*(r.chance(1, 2) && t[k] > 0 ? -1 : 1); if (t[k] >= 0) read(t, r); }
    { VI t(f.t); size_t k = f.start[r.chance(1, 2) ? 4 : 10] - 1; t[k] += 8*(r.chance(1, 3) ? 100000 : r.in(1, 40))*(r.chance(1, 4) ? -1 : 1); read(t, r); }
    if (r.chance(1, 2)) { VI t(f.t); t.push_back(r.chance(1, 2) ? WORD : 8*r.in(0, 9)); read(t, r); }
    if (r.chance(1, 4)) { VI t(f.t); t[0] = 8*r.in(4, 40); t.resize(t.size() + 200, 8); read(t, r); }
}
static void sizes(Rng& r)
{
    int d = r.in(1, 3), nc = r.in(0, 9), nf = r.in(0, 9), nfn = r.in(0, 9), ncf = r.in(0, 9), nn = r.in(0, 9); op("allocate_grid"); UnstructuredGrid* g = allocate_grid(d, nc, nf, nfn, ncf, nn); VI a; a.push_back(d); a.push_back(nc); a.push_back(nf); a.push_back(nn); VI s; s.push_back(g->dimensions); s.push_back(g->number_of_cells); s.push_back(g->number_of_faces); s.push_back(g->number_of_nodes);
    op("filling an allocated grid"); auto fi = [](int* p, int n) { for (int i = 0; i < n; ++i) p[i] = i; }; auto fd = [](double* p, int n) { for (int i = 0; i < n; ++i) p[i] = i; };
    fi(g->face_nodes, nfn); fi(g->face_nodepos, nf + 1); fi(g->face_cells, 2*nf); fi(g->cell_faces, ncf); fi(g->cell_facepos, nc + 1); fi(g->cell_facetag, ncf); fd(g->node_coordinates, d*nn); fd(g->face_centroids, d*nf); fd(g->face_areas, nf); fd(g->face_normals, d*nf); fd(g->cell_centroids, d*nc); fd(g->cell_volumes, nc);
    bool mapped = g->global_cell != 0; op("destroy_grid"); destroy_grid(g); Ev("sizes").put("run", run++).put("asked", a).put("shown", s).put("mapped", mapped).emit();
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed + 2800); path = a.work; int T = a.thorough ? 20 : 1;
    if (!a.script.empty()) { std::ifstream in(a.script.c_str()); std::string line; while (std::getline(in, line)) { VI t; size_t i = line.find("<<"); while (i < line.size()) { if (isdigit((unsigned char) line[i]) || line[i] == '-') { char* e; t.push_back(strtol(&line[i], &e, 10)); i = e - line.c_str(); } else ++i; } read(t, r); } }
    for (int i = 0; i < 300*T; ++i) { faults(r); sizes(r); }
    unlink(path.c_str()); { op("missing file"); UnstructuredGrid* g = read_grid(path.c_str()); Ev("missing").put("run", run++).put("null", g == 0).emit(); bool threw = false; try { GridManager m(path); } catch (...) { threw = true; } Ev("missing").put("run", run++).put("null", threw).emit(); }
    { op("empty grid"); UnstructuredGrid* g = create_grid_empty(); const void* p[] = {g->face_nodes, g->face_nodepos, g->face_cells, g->cell_faces, g->cell_facepos, g->node_coordinates, g->face_centroids, g->face_areas, g->face_normals, g->cell_centroids, g->cell_volumes, g->global_cell, g->cell_facetag}; int set = 0; for (auto q : p) set += q != 0; Ev("empty").put("run", run++).put("sum", g->dimensions + g->number_of_cells + g->number_of_faces + g->number_of_nodes + g->cartdims[0] + g->cartdims[1] + g->cartdims[2]).put("set", set).emit(); destroy_grid(g); destroy_grid(0); }
    done();
}
