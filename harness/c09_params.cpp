// Driver for C09: histories of insertions, files, merges and lookups of parameters.
#include "common.hpp"
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <memory>
#include <tr1/memory>
using namespace vf; using Opm::parameter::ParameterGroup; namespace op_ = Opm::parameter;
typedef std::vector<std::string> VS;
static int run = 0; static std::string work; static int nfile = 0; static VS made;
struct Item { char k; std::string n, v, ty; std::vector<Item> c; };
struct As { VS p; std::string v; };
static const VS VALS = {"17", "-3", "0", "2.5", "-0.125", "1e3", "true", "false", "text", "x_y", "17 ", "a b", ""};
static std::string joined(const VS& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? "/" : "") + p[i]; return s; }
static VS splitPath(const std::string& s) { VS p; std::string w; std::stringstream ss(s); while (std::getline(ss, w, '/')) if (!w.empty()) p.push_back(w); return p; }
static std::string aj(const std::vector<As>& a) { std::string s = "["; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + Ev().put("p", a[i].p).put("v", a[i].v).str(); return s + "]"; }
static std::string ij(const std::vector<Item>& c) { std::string s = "["; for (size_t i = 0; i < c.size(); ++i) s += (i ? "," : "") + Ev().put("k", std::string(1, c[i].k == 'f' ? 'g' : c[i].k)).put("n", c[i].n).put("v", c[i].v).put("ty", c[i].ty).raw("c", ij(c[i].c)).str(); return s + "]"; }
struct File { std::string kind, name; std::vector<As> a; std::vector<Item> c; };
static std::string fj(const File& f) { return Ev().put("k", f.kind).raw("c", f.kind == "param" ? aj(f.a) : ij(f.c)).str(); }
static std::string fresh(const std::string& dir, const std::string& ext) { std::string f = dir + (dir.empty() ? "" : "/") + (dir.empty() ? work : std::string("inc")) + ".f" + std::to_string(nfile++) + ext; made.push_back(f); return f; }
static std::string dirOf(const std::string& f) { size_t p = f.rfind('/'); return p == std::string::npos ? "" : f.substr(0, p); }
static VS randPath(Rng& r, int maxd = 3) { VS p; int d = r.in(1, maxd); for (int i = 0; i < d; ++i) p.push_back(r.pick(VS{"a", "b", "c", "prefix_1"})); return p; }
static std::vector<Item> randItems(Rng& r, int depth, const std::string& file);
static std::string xmlText(const std::vector<Item>& c, const std::string& file, Rng& r)
{
    std::string s; for (auto& i : c) { if (r.chance(1, 6)) s += "<!-- note -->\n";
        if (i.k == 'p') { std::string v = i.v; std::string d = dirOf(file); if (i.ty == "file" && !d.empty()) v = v.substr(d.size() + 1);
            s += "<Parameter name=\"" + i.n + "\" type=\"" + i.ty + "\" value=\"" + v + "\"/>\n"; }
        else if (i.k == 'g') s += "<ParameterGroup name=\"" + i.n + "\">\n" + xmlText(i.c, file, r) + "</ParameterGroup>\n";
        else { std::string f = fresh(work + ".d", ".xml"); std::ofstream(f.c_str()) << "<ParameterGroup>\n" << xmlText(i.c, f, r) << "</ParameterGroup>\n";
            std::string d = dirOf(file), rel = f; if (d == work + ".d") rel = f.substr(d.size() + 1); else if (!d.empty()) rel = f.substr(d.size() + 1);
            s += i.k == 'm' ? "<MergeWithFile value=\"" + rel + "\"/>\n" : "<ParameterGroupFromFile name=\"" + i.n + "\" value=\"" + rel + "\"/>\n"; } }
    return s;
}
static std::vector<Item> randItems(Rng& r, int depth, const std::string& dir)
{
    std::vector<Item> c; int n = r.in(depth == 3 ? 1 : 0, 3);
    for (int i = 0; i < n; ++i) { Item t; t.n = r.pick(VS{"a", "b", "c", "prefix_1"}); int k = depth ? r.in(0, 9) : 0;
        if (k < 4) { t.k = 'p'; t.v = r.pick(VALS); t.ty = r.pick(VS{"int", "double", "bool", "string", "string", "file"}); if (t.ty == "file") t.v = (dir.empty() ? "" : dir + "/") + "data"; }
        else if (k < 8) { t.k = 'g'; t.c = randItems(r, depth - 1, dir); }
        else { t.k = k == 8 ? 'm' : 'f'; if (t.k == 'm') t.n = ""; t.c = randItems(r, depth - 1, work + ".d"); }
        c.push_back(t); }
    return c;
}
static File randFile(Rng& r)
{
    File f; f.kind = r.chance(1, 2) ? "param" : "xml";
    if (f.kind == "param") { f.name = fresh("", ".param"); std::ofstream o(f.name.c_str()); int n = r.in(0, 5); std::set<std::string> leaf, group;
        for (int i = 0; i < n; ++i) { int k = r.in(0, 9);
            if (k == 0) { o << "// a comment = 3\n"; continue; } if (k == 1) { o << "\n"; continue; } if (k == 2) { o << "no assignment here\n"; continue; } if (k == 3) { o << "a=1=2\n"; continue; }
            As a; a.p = randPath(r); a.v = r.pick(VALS); bool bad = group.count(joined(a.p)); std::string pre; for (size_t q = 0; q + 1 < a.p.size(); ++q) { pre += (q ? "/" : "") + a.p[q]; if (leaf.count(pre)) bad = true; }
            if (bad) continue;                                   // a parameter and a group of one name stop the reading
            pre = ""; for (size_t q = 0; q + 1 < a.p.size(); ++q) { pre += (q ? "/" : "") + a.p[q]; group.insert(pre); } leaf.insert(joined(a.p));
            f.a.push_back(a); o << (r.chance(1, 4) ? "/" : "") << joined(a.p) << "=" << a.v << (r.chance(1, 6) ? "// comment" : "") << "\n"; } }
    else { f.name = fresh("", ".xml"); f.c = randItems(r, 3, dirOf(work)); std::ofstream(f.name.c_str()) << "<ParameterGroup>\n" << xmlText(f.c, f.name, r) << "</ParameterGroup>\n"; }
    return f;
}
// ---------------------------------------------------------------- one history
struct Sess {
    std::shared_ptr<ParameterGroup> root; std::vector<std::shared_ptr<ParameterGroup>> h;
    void drop() { h.clear(); h.push_back(root); }
    void begin(const std::vector<File>& fs, const std::vector<As>& as, Rng& r)
    {
        VS args; args.push_back("prog"); std::vector<std::pair<bool, std::string>> w;
        VS A; for (auto& a : as) A.push_back(joined(a.p) + "=" + a.v); VS F; for (auto& f : fs) F.push_back(f.name);
        size_t i = 0, k = 0; while (i < A.size() || k < F.size()) { if (k >= F.size() || (i < A.size() && r.chance(1, 2))) args.push_back(A[i++]); else args.push_back(F[k++]); }
        if (r.chance(1, 8)) args.push_back("a=1=2"); if (r.chance(1, 8)) args.push_back("unknown.txt");
        std::vector<char*> av; for (auto& s : args) av.push_back(const_cast<char*>(s.c_str()));
        std::string s = "["; for (size_t q = 0; q < fs.size(); ++q) s += (q ? "," : "") + fj(fs[q]); op("command line");
        root.reset(new ParameterGroup((int)av.size(), &av[0], false)); drop();
        if (r.chance(1, 2)) root->disableOutput();
        Ev("begin").put("run", ++run).raw("files", s + "]").raw("args", aj(as)).emit();
    }
    void insert(const VS& p, const std::string& v, bool slash) { op("insert"); bool th = false; try { root->insertParameter((slash ? "/" : "") + joined(p), v); } catch (std::exception&) { th = true; } drop(); Ev("insert").put("p", p).put("v", v).put("threw", th).emit(); }
    void read(const File& f) { op("read file"); if (f.kind == "param") root->readParam(f.name); else root->readXML(f.name); drop(); Ev("read").raw("f", fj(f)).emit(); }
    void join(const std::string& n, const std::vector<As>& as) { op("join"); std::tr1::shared_ptr<op_::ParameterMapItem> g(new ParameterGroup("/" + n, root.get())); for (auto& a : as) static_cast<ParameterGroup&>(*g).insertParameter(joined(a.p), a.v); root->insert(n, g); drop(); Ev("join").put("n", n).raw("c", aj(as)).emit(); }
    template <class F> void guard(std::string& st, F f)
    {
        try { f(); st = "ok"; } catch (ParameterGroup::NotFoundException&) { st = "notfound"; } catch (ParameterGroup::WrongTypeException&) { st = "wrong"; }
        catch (std::bad_cast&) { st = "other"; } catch (std::exception&) { st = "req"; }
    }
    static std::string show(int x) { return std::to_string(x); } static std::string show(bool b) { return b ? "true" : "false"; } static std::string show(const std::string& s) { return s; }
    static std::string show(double d) { int v = qi(d); if (v != BAD) return std::to_string(v); std::ostringstream o; o << d; return o.str(); }
    template <class T, class R> std::string fetch(int i, const std::string& p, bool def, const T& d, const R& q) { return def ? show(h[i]->getDefault<T>(p, d, q)) : show(h[i]->get<T>(p, q)); }
    template <class T> std::string num(int i, const std::string& p, bool def, T d, const std::string& q)
    {
        using namespace Opm::parameter;
        if (q == "positive") return fetch<T>(i, p, def, d, ParameterRequirementPositive()); if (q == "negative") return fetch<T>(i, p, def, d, ParameterRequirementNegative());
        if (q == "nonpositive") return fetch<T>(i, p, def, d, ParameterRequirementNonPositive()); if (q == "nonnegative") return fetch<T>(i, p, def, d, ParameterRequirementNonNegative());
        if (q == "nonzero") return fetch<T>(i, p, def, d, ParameterRequirementNonZero()); if (q == "probability") return fetch<T>(i, p, def, d, ParameterRequirementProbability());
        if (q == "and") return fetch<T>(i, p, def, d, ParameterRequirementAnd<ParameterRequirementNonNegative, ParameterRequirementNonZero>(ParameterRequirementNonNegative(), ParameterRequirementNonZero()));
        return def ? show(h[i]->getDefault<T>(p, d)) : show(h[i]->get<T>(p));
    }
    void get(int i, const VS& p, const std::string& ty, std::string req, bool def, const std::string& d)
    {
        using namespace Opm::parameter; std::string st, v, n = joined(p); op("look up " + n);
        guard(st, [&] {
            if (ty == "int") v = num<int>(i, n, def, atoi(d.c_str()), req);
            else if (ty == "double") v = num<double>(i, n, def, atof(d.c_str()), req);
            else if (ty == "bool") v = def ? show(h[i]->getDefault<bool>(n, d == "true")) : show(h[i]->get<bool>(n));
            else if (req == "nonempty") v = fetch<std::string>(i, n, def, d, ParameterRequirementNonEmpty());
            else if (req == "member") v = fetch<std::string>(i, n, def, d, ParameterRequirementMemberOf(VS{"text", "x_y"}));
            else if (req == "member1") v = fetch<std::string>(i, n, def, d, ParameterRequirementMemberOf(VS{"text"}));
            else v = def ? h[i]->getDefault<std::string>(n, d) : h[i]->get<std::string>(n); });
        Ev e(def ? "default" : "get"); e.put("h", i + 1).put("p", p).put("ty", ty).put("req", req); if (def) e.put("d", d); e.put("st", st).put("v", st == "ok" ? v : std::string()).emit();
    }
    void open(int i, const VS& p) { std::string st; op("group"); guard(st, [&] { h.push_back(std::shared_ptr<ParameterGroup>(new ParameterGroup(h[i]->getGroup(joined(p))))); }); Ev("open").put("h", i + 1).put("p", p).put("st", st).emit(); }
    void has(int i, const VS& p) { op("has"); bool r = h[i]->has(joined(p)); Ev("has").put("h", i + 1).put("p", p).put("r", r).emit(); }
    void usage()
    {
        op("usage"); std::string u[2]; for (int k = 0; k < 2; ++k) { std::ostringstream o; std::streambuf* b = std::cout.rdbuf(o.rdbuf()); root->displayUsage(k == 0); std::cout.rdbuf(b);
            std::string ln, s = "["; std::istringstream is(o.str()); bool first = true; while (std::getline(is, ln)) { s += (first ? "" : ",") + j(splitPath(ln)); first = false; } u[k] = s + "]"; }
        bool any = root->anyUnused(); Ev("usage").raw("used", u[0]).raw("unused", u[1]).put("any", any).emit();
    }
    static std::string lines(const std::string& f) { std::ifstream is(f.c_str()); std::string ln, s = "["; bool first = true; while (std::getline(is, ln)) { size_t p = ln.find('='); s += (first ? "" : ",") + Ev().put("p", splitPath(ln.substr(0, p))).put("v", ln.substr(p + 1)).str(); first = false; } return s + "]"; }
    void write()
    {
        op("write"); std::string f = work + ".out.param"; root->writeParam(f); std::string a = lines(f); ParameterGroup g; g.readParam(f); std::ostringstream o; g.writeParamToStream(o);
        std::string f2 = work + ".out2.param"; std::ofstream(f2.c_str()) << o.str(); Ev("write").raw("lines", a).raw("again", lines(f2)).emit(); unlink(f.c_str()); unlink(f2.c_str());
    }
    void clean() { for (auto& f : made) unlink(f.c_str()); made.clear(); nfile = 0; }
};
static std::string def(const std::string& ty, Rng& r) { return ty == "int" ? r.pick(VS{"17", "-3", "0"}) : ty == "double" ? r.pick(VS{"2.5", "-0.125", "0"}) : ty == "bool" ? r.pick(VS{"true", "false"}) : r.pick(VS{"text", "x_y", ""}); }
static void lookup(Sess& s, Rng& r)
{
    int i = r.in(0, (int)s.h.size() - 1); VS p = randPath(r); int k = r.in(0, 9);
    if (k < 2) s.has(i, p); else if (k < 4 && s.h.size() < 6) s.open(i, p);
    else { std::string ty = r.pick(VS{"int", "double", "bool", "string", "string"}), q;
        if (r.chance(1, 3)) q = ty == "int" ? r.pick(VS{"positive", "negative", "nonpositive", "nonnegative", "nonzero", "and"}) : ty == "double" ? r.pick(VS{"positive", "negative", "nonpositive", "nonnegative", "nonzero", "probability", "and"}) : ty == "string" ? r.pick(VS{"nonempty", "member", "member1"}) : "";
        s.get(i, p, ty, q, r.chance(1, 2), def(ty, r)); }
}
static std::vector<As> randAs(Rng& r, int n) { std::vector<As> a; std::set<std::string> leaf, group;
    for (int i = 0; i < n; ++i) { As x; x.p = randPath(r); x.v = r.pick(VALS); bool bad = group.count(joined(x.p)); std::string pre; for (size_t q = 0; q + 1 < x.p.size(); ++q) { pre += (q ? "/" : "") + x.p[q]; if (leaf.count(pre)) bad = true; }
        if (bad) continue; pre = ""; for (size_t q = 0; q + 1 < x.p.size(); ++q) { pre += (q ? "/" : "") + x.p[q]; group.insert(pre); } leaf.insert(joined(x.p)); a.push_back(x); } return a; }
int main(int argc, char** argv)
{
    Args a = init(argc, argv); Rng r(a.seed); work = a.work; mkdir((work + ".d").c_str(), 0755);
    if (!a.script.empty()) { std::ifstream f(a.script.c_str()); std::string ln;
        while (std::getline(f, ln)) { Sess s; s.begin({}, {}, r); std::stringstream ss(ln); std::string w;
            while (std::getline(ss, w, ';')) { if (w.empty()) continue; std::stringstream ws(w); std::string k, x, y, z, u; ws >> k >> x >> y >> z >> u;
                if (k == "I") s.insert(splitPath(x), y, false); else if (k == "J") s.join(x, {{splitPath(y), z}});
                else if (k == "X") { File q; q.kind = "xml"; q.name = fresh("", ".xml"); Item in{'p', y, z, "string", {}}; if (u == "1") q.c = {Item{'g', x, "", "", {in}}}; else q.c = {in}; std::ofstream(q.name.c_str()) << "<ParameterGroup>" << xmlText(q.c, q.name, r) << "</ParameterGroup>"; s.read(q); }
                else if (k == "G") s.get(atoi(x.c_str()) - 1, splitPath(y), "string", "", false, ""); else if (k == "O") s.open(atoi(x.c_str()) - 1, splitPath(y));
                if (r.chance(1, 4)) s.usage(); if (r.chance(1, 6)) s.write(); }
            s.usage(); s.write(); s.clean(); } }
    for (int t = 0; t < (a.thorough ? 6000 : 700); ++t) {
        Sess s; std::vector<File> fs; int nf = r.in(0, 2); bool ok = true; for (int i = 0; i < nf; ++i) fs.push_back(randFile(r));
        // files that put a group where another has a parameter stop the reading: use such files only one at a time
        if (nf == 2 && fs[0].kind == "param" && fs[1].kind == "param") fs.pop_back(); if (nf == 2 && fs[0].kind == "xml" && fs[1].kind == "param") std::swap(fs[0], fs[1]); (void)ok;
        std::vector<As> as; if (nf == 0) as = randAs(r, r.in(0, 4)); else if (r.chance(1, 2)) as = {As{VS{r.pick(VS{"a", "b", "c", "prefix_1"})}, r.pick(VALS)}};
        s.begin(fs, as, r); int n = r.in(1, 30);
        for (int i = 0; i < n; ++i) { int k = r.in(0, 19);
            if (k < 3) s.insert(randPath(r), r.pick(VALS), r.chance(1, 4)); else if (k == 3) s.join(r.pick(VS{"a", "b", "c"}), randAs(r, r.in(1, 3)));
            else if (k == 4) { File f = randFile(r); if (f.kind == "xml") s.read(f); } else if (k == 5) s.usage(); else if (k == 6) s.write(); else lookup(s, r); }
        s.usage(); s.write(); s.clean();
    }
    // malformed files
    for (int i = 0; i < 6; ++i) { bool th = false; Ev("begin").put("run", ++run).raw("files", "[]").raw("args", "[]").emit(); ParameterGroup g; op("malformed");
        try { if (i == 0) g.readParam(work + ".missing.param"); else if (i == 1) g.readXML(work + ".missing.xml"); else if (i == 5) g.insertParameter("//", "1");
            else { std::string f = fresh("", ".xml"); std::ofstream(f.c_str()) << (i == 2 ? "<ParameterGroup><Unknown name=\"a\"/></ParameterGroup>" : i == 3 ? "<ParameterGroup><Parameter name=" : "<ParameterGroup><MergeWithFile value=\"nosuch.xml\"/></ParameterGroup>"); g.readXML(f); } }
        catch (std::exception&) { th = true; } Ev("bad").put("what", i).put("threw", th).emit(); }
    for (auto& f : made) unlink(f.c_str()); rmdir((work + ".d").c_str());
    done();
}
