// Driver for C18: boundary-condition and source tables, and conditions on the sides of grids.
#include "common.hpp"
#include <opm/core/pressure/flow_bc.h>
#define BC_PRESSURE COMPR_BC_PRESSURE   // both headers use the name
#include <opm/core/pressure/tpfa/compr_bc.h>
#undef BC_PRESSURE
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/transport/implicit/transport_source.h>
#include <opm/core/pressure/FlowBCManager.hpp>
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/grid/cpgpreprocess/preprocess.h>
#include <memory>
using namespace vf;
typedef std::vector<int> VI; typedef std::vector<double> VD;
static int run = 0;
struct Tab {                       // one live table of any kind
    std::string kind; int np = 0; FlowBoundaryConditions* f = 0; compr_bc* cb = 0; compr_src* cs = 0; TransportSource* ts = 0; std::unique_ptr<Opm::FlowBCManager> m;
    std::string rows() const {
        std::string s = "["; auto sep = [&]() { if (s.size() > 1) s += ","; };
        const FlowBoundaryConditions* q = m ? m->c_bcs() : f;
        if (q) for (size_t i = 0; i < q->nbc; ++i) { sep(); s += Ev().put("t", (int) q->type[i]).raw("f", jarr(q->face + q->cond_pos[i], (long) q->cond_pos[i+1] - (long) q->cond_pos[i])).put("v", qn(q->value[i], 8)).str(); }
        if (cb) for (int i = 0; i < cb->nbc; ++i) { sep(); s += Ev().put("t", (int) cb->type[i]).put("f", cb->face[i]).put("p", qi(cb->press[i], 8)).put("v", qi(cb->flux[i], 8)).raw("s", jd(cb->saturation + i*np, np, 8)).str(); }
        if (cs) for (int i = 0; i < cs->nsrc; ++i) { sep(); s += Ev().put("c", cs->cell[i]).put("v", qi(cs->flux[i], 8)).raw("s", jd(cs->saturation + i*np, np, 8)).str(); }
        if (ts) for (int i = 0; i < ts->nsrc; ++i) { sep(); s += Ev().put("c", ts->cell[i]).put("p", qi(ts->pressure[i], 8)).put("v", qi(ts->flux[i], 8)).raw("s", jd(ts->saturation + i*np, np, 8)).raw("z", jd(ts->surfvolume + i*np, np, 8)).str(); }
        return s + "]";
    }
};
static Tab T[5];
static std::string all() { std::string s = "["; for (int i = 1; i <= 4; ++i) { if (i > 1) s += ","; s += T[i].rows(); } return s + "]"; }
static void destroy(int id, bool log = true)
{
    Tab& t = T[id]; op("destroy"); flow_conditions_destroy(t.f); compr_bc_deallocate(t.cb); compr_src_deallocate(t.cs); destroy_transport_source(t.ts); t.m.reset();
    t.f = 0; t.cb = 0; t.cs = 0; t.ts = 0; t.kind = "";
    if (log) Ev("destroy").put("id", id).raw("tabs", all()).emit();
}
static void create(int id, const std::string& kind, int np, int cap)
{
    Tab& t = T[id]; t.kind = kind; t.np = np;
    op("create " + kind);
    if (kind == "flow") { t.f = flow_conditions_construct(cap); t.np = 1; }
    if (kind == "cbc") t.cb = compr_bc_allocate(np, cap);
    if (kind == "csrc") t.cs = compr_src_allocate(np, cap);
    if (kind == "tsrc") t.ts = create_transport_source(cap, np);
    if (kind == "man") { t.m.reset(new Opm::FlowBCManager); t.np = 1; }
    bool ok = t.f || t.cb || t.cs || t.ts || t.m;
    if (np <= 0 && !ok) { Ev("refused").put("np", np).put("null", true).emit(); t.kind = ""; return; }
    Ev("create").put("id", id).put("kind", kind).put("np", t.np).raw("tabs", all()).emit();
}
static void append(int id, Rng& r)
{
    Tab& t = T[id]; auto q = [&]() { return r.in(-4000, 4000) / 8.0; };
    int np = (t.kind != "flow" && t.kind != "man" && r.chance(1, 10)) ? t.np + r.pick(VI{-1, 1, 2}) : t.np;
    VD s(std::max(np, 1)), z(std::max(np, 1)); for (auto& x : s) x = q(); for (auto& x : z) x = q();
    int c = r.in(0, 100000), k = r.in(0, 2); double p = q(), v = q(); int ok = 0; Ev e; op("append " + t.kind);
    if (t.kind == "flow") { VI f(r.chance(1, 2) ? 1 : r.in(0, r.chance(1, 5) ? 40 : 5)); for (auto& x : f) x = r.in(0, 100000);
        ok = (f.size() == 1 && r.chance(1, 2)) ? flow_conditions_append((FlowBCType) k, f[0], v, t.f) : flow_conditions_append_multi((FlowBCType) k, f.size(), f.data(), v, t.f);
        e.put("t", k).put("f", f).put("v", qi(v, 8)); }
    if (t.kind == "man") { t.m->append((FlowBCType) k, c, v); ok = 1; e.put("t", k).put("f", VI(1, c)).put("v", qi(v, 8)); }
    if (t.kind == "cbc") { k = k % 2; ok = compr_bc_append((compr_bc_type) k, c, np, p, v, s.data(), t.cb); e.put("t", k).put("f", c).put("p", qi(p, 8)).put("v", qi(v, 8)).raw("s", jd(s.data(), np, 8)); }
    if (t.kind == "csrc") { ok = append_compr_source_term(c, np, v, s.data(), t.cs); e.put("c", c).put("v", qi(v, 8)).raw("s", jd(s.data(), np, 8)); }
    if (t.kind == "tsrc") { ok = append_transport_source(c, np, p, v, s.data(), z.data(), t.ts); e.put("c", c).put("p", qi(p, 8)).put("v", qi(v, 8)).raw("s", jd(s.data(), np, 8)).raw("z", jd(z.data(), np, 8)); }
    Ev("append").put("id", id).put("np", np).put("row", e.asRaw()).put("ok", ok > 0 ? 1 : ok).raw("tabs", all()).emit();
}
static void clear(int id)
{
    Tab& t = T[id]; op("clear " + t.kind);
    if (t.f) flow_conditions_clear(t.f); if (t.cb) compr_bc_clear(t.cb); if (t.cs) clear_compr_source_term(t.cs); if (t.ts) clear_transport_source(t.ts); if (t.m) t.m->clear();
    Ev("clear").put("id", id).raw("tabs", all()).emit();
}
static void begin() { for (int i = 1; i <= 4; ++i) if (!T[i].kind.empty()) destroy(i, false); Ev("new").put("run", ++run).emit(); }
static void sides(UnstructuredGrid* g, Rng& r)
{
    begin();
    std::string cells = "[", faces = "[";
    for (int c = 0; c < g->number_of_cells; ++c) { if (c) cells += ","; std::string hf = "["; for (int k = g->cell_facepos[c]; k < g->cell_facepos[c+1]; ++k) { if (hf.size() > 1) hf += ","; hf += "[" + j(g->cell_faces[k]) + "," + j(g->cell_facetag[k]) + "]"; }
        cells += Ev().put("gc", g->global_cell ? g->global_cell[c] : c).raw("hf", hf + "]").str(); }
    for (int f = 0; f < g->number_of_faces; ++f) { if (f) faces += ","; faces += Ev().raw("nb", jarr(g->face_cells + 2*f, 2)).put("a", qn(g->face_areas[f])).str(); }
    Ev("grid").put("grid", Ev().put("dims", g->dimensions).raw("cart", jarr(g->cartdims, g->dimensions)).raw("cells", cells + "]").raw("face", faces + "]").asRaw()).emit();
    create(1, "man", 1, 0);
    int n = r.in(2, 9);
    for (int i = 0; i < n; ++i) {
        int s = r.in(0, 2*g->dimensions - 1);
        // total area of the side, to choose a total that divides evenly; sides without cells are left out
        double A = 0; int cnt = 0, d = s/2, dims[3] = {g->cartdims[0], g->cartdims[1], g->dimensions > 2 ? g->cartdims[2] : 1};
        for (int c = 0; c < g->number_of_cells; ++c) { int gc = g->global_cell ? g->global_cell[c] : c; int ijk[3] = {gc % dims[0], gc / dims[0] % dims[1], gc / dims[0] / dims[1]};
            if (ijk[d] == (s % 2 ? dims[d] - 1 : 0)) for (int k = g->cell_facepos[c]; k < g->cell_facepos[c+1]; ++k) if (g->cell_facetag[k] == s) { A += g->face_areas[g->cell_faces[k]]; ++cnt; } }
        if (!cnt) continue;
        if (r.chance(1, 2)) { double p = r.in(-800, 800) / 8.0; op("pressureSide"); T[1].m->pressureSide(*g, (Opm::FlowBCManager::Side) s, p); Ev("pside").put("id", 1).put("side", s).put("v", qi(p, 8)).raw("tabs", all()).emit(); }
        else { double q = A * r.in(-3, 3) ; op("fluxSide"); T[1].m->fluxSide(*g, (Opm::FlowBCManager::Side) s, q); Ev("fside").put("id", 1).put("side", s).put("v", qn(q, 8)).raw("tabs", all()).emit(); }
        if (r.chance(1, 6)) append(1, r); if (r.chance(1, 10)) clear(1);
    }
    destroy_grid(g);
}
static UnstructuredGrid* corner(Rng& r)      // unit bricks with inactive cells, and layers shifted by whole units
{
    int nx = r.in(1, 4), ny = r.in(1, 3), nz = r.in(1, 3), d[3] = {nx, ny, nz};
    VD coord, z(8*nx*ny*nz); VI act(nx*ny*nz); for (auto& x : act) x = r.chance(4, 5); act[r.in(0, nx*ny*nz - 1)] = 1;
    for (int jj = 0; jj <= ny; ++jj) for (int i = 0; i <= nx; ++i) { double c[6] = {double(i), double(jj), 0, double(i), double(jj), 100}; coord.insert(coord.end(), c, c + 6); }
    std::vector<int> sh(nx*ny); for (auto& x : sh) x = r.chance(1, 3) ? r.in(1, 2) : 0;
    for (int k = 0; k < nz; ++k) for (int jj = 0; jj < ny; ++jj) for (int i = 0; i < nx; ++i) for (int a = 0; a < 8; ++a)
        z[(2*i + (a & 1)) + 2*nx*((2*jj + (a >> 1 & 1)) + 2*ny*(2*k + (a >> 2)))] = k + (a >> 2) + sh[i + nx*jj];
    grdecl g; std::memset(&g, 0, sizeof g); for (int q = 0; q < 3; ++q) g.dims[q] = d[q]; g.coord = coord.data(); g.zcorn = z.data(); g.actnum = act.data();
    return create_grid_cornerpoint(&g, 0.0);
}
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    const char* kinds[] = {"flow", "cbc", "csrc", "tsrc", "man"};
    begin(); for (int k = 1; k <= 3; ++k) { create(1, kinds[k], 0, 3); create(1, kinds[k], -1, 0); }
    // every kind alone, from every small initial capacity, across several growths
    for (int k = 0; k < 5; ++k) for (int cap = 0; cap <= 3; ++cap) for (int np = 1; np <= 3; ++np) {
        if ((k == 0 || k == 4) && np > 1) continue; if (k == 4 && cap) continue;
        begin(); create(1, kinds[k], np, cap); int n = a.thorough ? 70 : 18; for (int i = 0; i < n; ++i) { append(1, r); if (i == 6) { clear(1); } } destroy(1); }
    // mixed histories over four tables at once
    int nt = a.thorough ? 120 : 40;
    for (int t = 0; t < nt; ++t) {
        begin(); int len = r.in(10, 60);
        for (int i = 0; i < len; ++i) { int id = r.in(1, 4);
            if (T[id].kind.empty()) create(id, kinds[r.in(0, 4)], r.in(1, 4), r.pick(VI{0, 0, 1, 2, 5, 17}));
            else if (r.chance(1, 25)) clear(id); else if (r.chance(1, 30)) destroy(id); else append(id, r); }
    }
    // one long table of each kind
    for (int k = 0; k < 5; ++k) { begin(); create(1, kinds[k], 2, 0); int n = a.thorough ? 300 : 70; for (int i = 0; i < n; ++i) append(1, r); }
    int ng = a.thorough ? 150 : 50;
    for (int t = 0; t < ng; ++t) {
        UnstructuredGrid* g = 0; op("make a grid");
        int nx = r.in(1, 4), ny = r.in(1, 4), nz = r.in(1, 3);
        if (t % 4 == 0) g = create_grid_cart2d(nx, ny, r.in(1, 3), r.in(1, 3));
        else if (t % 4 == 1) g = create_grid_hexa3d(nx, ny, nz, r.in(1, 3), r.in(1, 3), r.in(1, 3));
        else if (t % 4 == 2) { VD x(nx+1), y(ny+1), z(nz+1); for (auto* v : {&x, &y, &z}) { (*v)[0] = r.in(-2, 2); for (size_t i = 1; i < v->size(); ++i) (*v)[i] = (*v)[i-1] + r.in(1, 3); } g = create_grid_tensor3d(nx, ny, nz, x.data(), y.data(), z.data(), 0); }
        else g = corner(r);
        if (g && g->number_of_cells) sides(g, r);
    }
    done();
}
