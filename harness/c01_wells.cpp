// Driver for C01: histories of operations on the wells container.
#include "common.hpp"
#include <opm/core/wells.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
using namespace vf;
typedef boost::property_tree::ptree PT;

static Wells* H[5];

static std::string wstate(const Wells* W)
{
    if (!W) return "{\"np\":0,\"wells\":[]}";
    const int np = W->number_of_phases;
    std::string s = "[";
    for (int w = 0; w < W->number_of_wells; ++w) {
        const int b = W->well_connpos[w], e = W->well_connpos[w+1];
        const WellControls* c = W->ctrls[w];
        std::string cs = "[";
        for (int i = 0; i < c->num; ++i) {
            if (i) cs += ",";
            cs += Ev().put("type", (int)c->type[i]).put("target", qi(c->target[i])).raw("distr", jd(c->distr + i*np, np)).str();
        }
        if (w) s += ",";
        s += Ev().put("type", (int)W->type[w]).put("depth", qi(W->depth_ref[w])).raw("comp", jd(W->comp_frac + w*np, np))
            .raw("cells", jarr(W->well_cells + b, e - b)).raw("wi", jd(W->WI + b, e - b))
            .put("name", W->name[w] ? W->name[w] : "").raw("ctrls", cs + "]").put("cur", c->current).str();
    }
    return Ev().put("np", np).raw("wells", s + "]").str();
}
static std::string allstate()
{ std::string s = "["; for (int h = 1; h <= 4; ++h) { if (h > 1) s += ","; s += wstate(H[h]); } return s + "]"; }

static void reset(int run)
{
    for (int h = 1; h <= 4; ++h) { if (H[h]) destroy_wells(H[h]); H[h] = 0; }
    Ev("new").put("run", run).emit();
}
typedef std::vector<double> VD; typedef std::vector<int> VI;
struct OptV { bool have; VD v; };
static std::string jopt(const OptV& o) { return o.have ? "[" + jd(o.v.data(), o.v.size()) + "]" : "[]"; }

static void do_create(int h, int np, int nw, int nperf)
{
    op("create_wells"); H[h] = create_wells(np, nw, nperf);
    Ev("create").put("h", h).put("np", np).put("nw", nw).put("nperf", nperf).raw("st", allstate()).emit();
}
static void do_add(int h, int ty, int depth, const OptV& comp, const VI& cells, const OptV& wi, const std::string& name)
{
    op("add_well");
    // own copies, released right after the call: the container must keep its own
    double* c = comp.have ? (double*)malloc(sizeof(double)*comp.v.size()) : 0;
    if (c) std::copy(comp.v.begin(), comp.v.end(), c);
    double* w = wi.have ? (double*)malloc(sizeof(double)*(wi.v.size()+1)) : 0;
    if (w) std::copy(wi.v.begin(), wi.v.end(), w);
    int* ce = (int*)malloc(sizeof(int)*(cells.size()+1)); std::copy(cells.begin(), cells.end(), ce);
    char* nm = name.empty() ? 0 : strdup(name.c_str());
    int ok = add_well((WellType)ty, depth, cells.size(), c, ce, w, nm, H[h]);
    free(c); free(w); free(ce); if (nm) { memset(nm, '#', strlen(nm)); free(nm); }
    Ev("add").put("h", h).put("ok", ok).put("type", ty).put("depth", depth).raw("comp", jopt(comp)).put("cells", cells)
        .raw("wi", jopt(wi)).put("name", name).raw("st", allstate()).emit();
}
static void do_append(int h, int w, int ty, int target, const OptV& distr)
{
    op("append_well_controls");
    VD d = distr.v;
    int ok = append_well_controls((WellControlType)ty, target, distr.have ? d.data() : 0, w - 1, H[h]);
    Ev("append").put("h", h).put("ok", ok).put("w", w).put("type", ty).put("target", target).raw("distr", jopt(distr)).raw("st", allstate()).emit();
}
static void do_current(int h, int w, int c)
{ op("set_current_control"); set_current_control(w - 1, c, H[h]); Ev("current").put("h", h).put("w", w).put("c", c).raw("st", allstate()).emit(); }
static void do_clear(int h, int w)
{ op("clear_well_controls"); clear_well_controls(w - 1, H[h]); Ev("clear").put("h", h).put("w", w).raw("st", allstate()).emit(); }
static void do_clone(int h, int g)
{ op("clone_wells"); H[g] = clone_wells(H[h]); Ev("clone").put("h", h).put("g", g).raw("st", allstate()).emit(); }
static void do_destroy(int h)
{ op("destroy_wells"); destroy_wells(H[h]); H[h] = 0; Ev("destroy").put("h", h).raw("st", allstate()).emit(); }

static VI ints(const PT& t) { VI v; for (auto& x : t) v.push_back(x.second.get_value<int>()); return v; }
static OptV optv(const PT& t) { OptV o; o.have = !t.empty(); if (o.have) for (auto& x : t.front().second) o.v.push_back(x.second.get_value<int>()); return o; }

static void replay(const std::string& line, int run)
{
    std::istringstream is(line); PT t; read_json(is, t);
    reset(run);
    for (auto& x : t) {
        const PT& a = x.second; std::string e = a.get<std::string>("e"); int h = a.get<int>("h");
        if (e == "create") do_create(h, a.get<int>("np"), a.get<int>("nw"), a.get<int>("nperf"));
        else if (e == "add") do_add(h, a.get<int>("type"), a.get<int>("depth"), optv(a.get_child("comp")), ints(a.get_child("cells")), optv(a.get_child("wi")), a.get<std::string>("name"));
        else if (e == "append") do_append(h, a.get<int>("w"), a.get<int>("type"), a.get<int>("target"), optv(a.get_child("distr")));
        else if (e == "current") do_current(h, a.get<int>("w"), a.get<int>("c"));
        else if (e == "clear") do_clear(h, a.get<int>("w"));
        else if (e == "clone") do_clone(h, a.get<int>("g"));
        else if (e == "destroy") do_destroy(h);
    }
}

static void randomrun(Rng& r, int run, int len, int bias)
{
    reset(run);
    std::vector<int> live;
    int np0 = r.in(1, 4);
    static const char* names[] = { "", "PROD", "INJ-1", "a b", "W'\\x", "AVERYLONGWELLNAMETHATEXCEEDSEIGHTCHARS" };
    for (int k = 0; k < len; ++k) {
        live.clear(); for (int h = 1; h <= 4; ++h) if (H[h]) live.push_back(h);
        int x = r.in(0, 99);
        if (live.empty() || (x < 3 && live.size() < 4)) {
            int h = 1; while (H[h]) ++h;
            do_create(h, np0, r.chance(1, 2) ? 0 : r.in(0, 5), r.chance(1, 2) ? 0 : r.in(0, 12));
            if (r.chance(1, 2)) np0 = r.in(1, 4);
            continue;
        }
        int h = r.pick(live); Wells* W = H[h]; int nw = W->number_of_wells, np = W->number_of_phases;
        int w = nw ? r.in(1, nw) : 0;
        if (bias == 1 && w) w = r.chance(3, 4) ? nw : w;
        if (x < (bias == 2 ? 60 : 30) || !w) {
            OptV comp, wi; comp.have = r.chance(2, 3); if (comp.have) for (int i = 0; i < np; ++i) comp.v.push_back(r.in(0, 9));
            VI cells; int n = r.chance(1, 5) ? 0 : r.in(1, bias == 2 ? 9 : 4); for (int i = 0; i < n; ++i) cells.push_back(r.in(0, 999));
            wi.have = r.chance(2, 3); if (wi.have) for (int i = 0; i < n; ++i) wi.v.push_back(r.in(0, 5000));
            do_add(h, r.in(0, 1), r.in(-50, 4000), comp, cells, wi, names[r.in(0, 5)]);
        } else if (x < 70) {
            OptV d; d.have = r.chance(3, 4); if (d.have) for (int i = 0; i < np; ++i) d.v.push_back(r.in(0, 3));
            do_append(h, w, r.in(0, 2), r.in(-1000, 1000), d);
        } else if (x < 82) {
            int n = W->ctrls[w-1]->num; int c = r.chance(1, 4) ? r.in(-9, -1) : (n ? r.in(0, n - 1) : -1);
            do_current(h, w, c);
        } else if (x < 88) do_clear(h, w);
        else if (x < 95) { if (live.size() < 4) { int g = 1; while (H[g]) ++g; do_clone(h, g); } }
        else if (x >= 98 && live.size() > 1) do_destroy(h);
    }
}

int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed);
    int run = 0;
    if (!a.script.empty()) { std::ifstream f(a.script); std::string ln; while (std::getline(f, ln)) if (!ln.empty()) replay(ln, ++run); }
    int n = a.thorough ? 260 : 60;
    for (int i = 0; i < n; ++i) randomrun(r, ++run, r.in(5, 60), i % 3);
    // long histories: many wells, many controls on one well
    for (int i = 0; i < (a.thorough ? 6 : 2); ++i) randomrun(r, ++run, 160, 2);
    done();
}
