// XML and VTK writers, options, caches, timers, application instance: C14, C22, C24.
#include "hps.hpp"
#include "vtu.hpp"

#include <DataCache.hpp>
#include <InputParser.hpp>
#include <Options.hpp>
#include <Timer.hpp>
#include <VTK.hpp>
#include <XMLTree.hpp>

#include <climits>
#include <sys/stat.h>
#include <unistd.h>

using namespace vf;
using rig::Ctx; using rig::Src; using rig::fail;
using std::string; using std::to_string; using std::vector;

using namespace vtu;

// ---------------------------------------------------------------------------------------------
// C14: XML trees
static void makeTree(Src& s, vector<std::unique_ptr<EF::XMLNode>>& pool, EF::XMLNode& n, Elem& e, int depth, bool& special) {
    int na = s.range(0, 3); if (na == 3 && s.chance(3)) na = s.range(3, 40); for (int i = 0; i < na; i++) { string k = "a" + to_string(i) + "-" + word(s, 3, false), v = s.chance(20) ? "" : word(s, 8, true); special |= v.find_first_of("<>&\"") != string::npos; n.addAttribute(k, v); e.attrs.push_back({k, v}); }
    if (s.chance(40)) { n.data = trim(word(s, 12, true)); e.text = n.data; special |= n.data.find_first_of("<>&\"") != string::npos; }
    int nc = depth > 0 ? s.range(0, 3) : 0; if (nc == 3 && pool.size() < 150 && s.chance(3)) { nc = s.range(3, 70); depth = 1; } for (int i = 0; i < nc; i++) { if (s.chance(30)) { pool.emplace_back(new EF::XMLNode()); pool.back()->name = "N" + word(s, 4, false); } else pool.emplace_back(new EF::XMLNode("N" + word(s, 4, false))); EF::XMLNode* m = pool.back().get(); e.kids.emplace_back(); e.kids.back().name = m->name; bool late = s.chance(50); if (!late) { if (s.chance(50)) n.addChild(*m); else n.addChild(m); } makeTree(s, pool, *m, e.kids.back(), depth - 1, special); if (late) n.addChild(m); }
}
static void sameTree(const Elem& got, const Elem& want, const string& path) {
    if (got.name != want.name) fail("xml-name", path + " is <" + got.name + "> instead of <" + want.name + ">");
    if (got.attrs != want.attrs) { string t; for (auto& a : got.attrs) t += a.first + "=" + a.second + " "; fail("xml-attributes", path + " has attributes " + t); }
    if (trim(got.text) != trim(want.text)) fail("xml-data", path + " has data '" + got.text + "' instead of '" + want.text + "'");
    if (got.kids.size() != want.kids.size()) fail("xml-children", path + " has " + to_string(got.kids.size()) + " children instead of " + to_string(want.kids.size()));
    for (size_t i = 0; i < want.kids.size(); i++) sameTree(got.kids[i], want.kids[i], path + "/" + to_string(i));
}
static void xml_tree(Src& s, Ctx& c) {
    vector<std::unique_ptr<EF::XMLNode>> pool; EF::XMLNode root("Root"); Elem want; want.name = "Root"; bool special = false; int shape = s.range(0, 99); if (shape == 99) { c.tag("deep chain"); EF::XMLNode* n = &root; Elem* e = &want; int d = s.range(5, 60); for (int i = 0; i < d; i++) { pool.emplace_back(new EF::XMLNode("D" + to_string(i))); n->addChild(*pool.back()); e->kids.emplace_back(); e = &e->kids.back(); e->name = pool.back()->name; n = pool.back().get(); if (s.chance(50)) { n->data = to_string(i); e->text = n->data; } } } else if (shape == 98) { c.tag("long data"); Src q = rig::expand(s, 40000); string t; int k = s.range(100, 12000); for (int i = 0; i < k; i++) t += to_string(q.sint(1000)) + " "; root.data = t; want.text = trim(t); } else makeTree(s, pool, root, want, s.range(0, 4), special); if (special) c.tag("special characters"); c.desc << pool.size() + 1 << " nodes"; c.nontrivial = pool.size() > 2;
    EF::XMLTree tree(root); tree.write("tree.xml"); string a = slurp("tree.xml"); sameTree(readXml("tree.xml"), want, "/");
    tree.write("tree.xml"); if (slurp("tree.xml") != a) fail("xml-twice", "writing the same tree twice gives different files"); EF::XMLTree again(root); again.write("tree2.xml"); if (slurp("tree2.xml") != a) fail("xml-twice", "a second tree over the same root writes another file");
    if (s.chance(40)) { EF::XMLNode extra("Extra"); extra.data = "1 2 3"; root.addChild(extra); Elem k; k.name = "Extra"; k.text = "1 2 3"; want.kids.push_back(k); tree.write("tree.xml"); sameTree(readXml("tree.xml"), want, "/"); }
    unlink("tree.xml"); unlink("tree2.xml");
}

// ---------------------------------------------------------------------------------------------
// C14: VTK writers
static void vtk_rect(Src& s, Ctx& c) {
    EF::RectilinearGridVTK w; bool th = false; try { w.toVTK("none.vtr"); } catch (const std::invalid_argument&) { th = true; } if (!th || fileExists("none.vtr")) fail("vtk-incomplete", "a writer without a mesh wrote a file");
    int builds = s.chance(30) ? 2 : 1; vector<DArr> pd, cd; vector<DArr> co; RectMesh m; vector<vector<DArr>> keep;
    for (int b = 0; b < builds; b++) {
        int n[3] = {s.range(0, 8), s.range(0, 8), s.range(0, 3)}; if (s.chance(3)) { n[s.range(0, 2)] = s.range(8, 700); c.tag("large"); } auto ext = [&](int d) { int o = s.sint(3); return to_string(o) + " " + to_string(o + n[d]); }; m.w = ext(0) + " " + ext(1) + " " + ext(2); m.e = s.chance(70) ? m.w : ext(0) + " " + ext(1) + " " + ext(2);
        keep.push_back(std::move(co)); co.clear(); EF::DataArrayNodeBase* p[3]; for (int d = 0; d < 3; d++) { if (s.chance(d == 2 ? 60 : 15)) { DArr e; e.name = "Empty"; e.type = "Float32"; e.comps = "1"; e.v = {0.0}; co.push_back(std::move(e)); p[d] = nullptr; } else { co.push_back(genVec(s, n[d] + 1, string(1, "xyz"[d]))); p[d] = &co.back().node(); } }
        if (n[0] == n[2] && p[0] && p[2] && s.chance(50)) { p[2] = p[0]; auto& a = co[0]; DArr e; e.name = a.name; e.type = a.type; e.comps = a.comps; e.v = a.v; co[2] = std::move(e); c.tag("one array for two axes"); } w.buildMesh(m, p[0], p[1], p[2]);
        int np = s.range(0, 2), nc = s.range(0, 2); if (s.chance(2)) (s.chance(50) ? np : nc) = s.range(3, 12); for (int k = 0; k < np; k++) { pd.push_back(genVec(s, s.chance(3) ? s.range(20, 2000) : s.range(1, 20), arrName(s, k + 10*b))); w.addPointData(pd.back().node()); } for (int k = 0; k < nc; k++) { cd.push_back(genVec(s, s.range(1, 20), arrName(s, k + 10*b + 100))); w.addCellData(cd.back().node()); }
        c.desc << "extent " << m.w << " arrays " << pd.size() << "+" << cd.size() << "; "; c.nontrivial |= pd.size() + cd.size() > 0; int writes = s.chance(40) ? 2 : 1; string first;
        for (int q = 0; q < writes; q++) {
            w.toVTK("r.vtr"); string t = slurp("r.vtr"); if (q && t != first) fail("vtk-twice", "writing twice gives different files"); first = t; Elem e = readXml("r.vtr"); header(e, "RectilinearGrid"); const Elem& g = e.one("RectilinearGrid"); if (e.kids.size() != 1 || g.get("WholeExtent") != m.w || g.one("Piece").get("Extent") != m.e) fail("vtk-extent", "extents " + g.get("WholeExtent") + " / " + g.one("Piece").get("Extent"));
            const Elem& pc = g.one("Piece"); auto a = pc.one("Coordinates").all("DataArray"); if (a.size() != 3) fail("vtk-coordinates", to_string(a.size()) + " coordinate arrays"); for (int d = 0; d < 3; d++) sameArray(*a[d], co[d], "coordinates " + to_string(d)); sameGroup(pc, "PointData", pd, "rectilinear"); sameGroup(pc, "CellData", cd, "rectilinear");
        }
    }
    unlink("r.vtr");
}
static void vtk_unstr(Src& s, Ctx& c) {
    UMesh m; m.np = s.range(0, 12); m.nc = s.range(0, 6); if (s.chance(4)) { (s.chance(50) ? m.np : m.nc) = s.range(12, 2000); c.tag("large"); } m.p = genVec(s, 3*m.np, "points", false); m.co = genVec(s, 4*m.nc, "connectivity"); m.of = genVec(s, m.nc, "offsets"); m.ty = genVec(s, m.nc, "types"); vector<DArr> pd, cd; int np = s.range(0, 3), nc = s.range(0, 3); if (s.chance(2)) (s.chance(50) ? np : nc) = s.range(3, 12); for (int k = 0; k < np; k++) pd.push_back(genVec(s, m.np, arrName(s, k))); for (int k = 0; k < nc; k++) cd.push_back(genVec(s, m.nc, arrName(s, 10 + k)));
    c.desc << m.np << " points " << m.nc << " cells, arrays " << np << "+" << nc; c.nontrivial = m.np > 0 && np + nc > 0; bool par = s.chance(60); int writes = s.chance(40) ? 2 : 1;
    if (!par) {
        EF::UnstructuredGridVTK w; bool th = false; try { w.toVTK("none.vtu"); } catch (const std::invalid_argument&) { th = true; } if (!th) fail("vtk-incomplete", "a writer without a mesh wrote a file"); w.buildMesh(m); for (auto& x : pd) w.addPointData(x.node()); for (auto& x : cd) w.addCellData(x.node()); string first;
        for (int q = 0; q < writes; q++) { w.toVTK("u.vtu"); string t = slurp("u.vtu"); if (q && t != first) fail("vtk-twice", "writing twice gives different files"); first = t; checkVtu("u.vtu", m, pd, cd); } unlink("u.vtu");
    } else {
        string stem = s.chance(30) ? "p%d" : s.chance(50) ? "p.q" : "par", dir; if (s.chance(15)) stem += string(s.range(1, 200), 'l'); if (s.chance(40)) { mkdir("outdir", 0755); dir = s.chance(50) ? "outdir/" : "./outdir/"; } string base = dir + stem; c.desc << " parallel " << base; c.tag("parallel");
        EF::PUnstructuredGridVTK w = s.chance(50) ? EF::PUnstructuredGridVTK() : EF::PUnstructuredGridVTK(MPI_COMM_SELF); w.buildMesh(m); for (auto& x : pd) w.addPointData(x.node()); for (auto& x : cd) w.addCellData(x.node()); string first;
        for (int q = 0; q < writes; q++) {
            w.toVTK(base); string t = slurp(base + ".pvtu"); if (q && t != first) fail("vtk-twice", "writing twice gives different files"); first = t; Elem e = readXml(base + ".pvtu"); header(e, "PUnstructuredGrid"); const Elem& g = e.one("PUnstructuredGrid"); auto pcs = g.all("Piece"); if (pcs.size() != 1) fail("pvtu-pieces", to_string(pcs.size()) + " pieces"); string src = pcs[0]->get("Source"); if (!fileExists(dir + src)) fail("pvtu-pieces", "piece " + src + " of " + base + ".pvtu does not exist"); checkVtu(dir + src, m, pd, cd);
            auto decl = [&](const char* tag, vector<DArr>& v) { auto gr = g.all(tag); if (v.empty() && gr.empty()) return; auto a = g.one(tag).all("PDataArray"); if (a.size() != v.size()) fail("pvtu-arrays", string(tag) + " declares " + to_string(a.size()) + " arrays"); for (size_t k = 0; k < v.size(); k++) if (a[k]->get("Name") != v[k].name || a[k]->get("type") != v[k].type || a[k]->get("NumberOfComponents") != v[k].comps) fail("pvtu-arrays", string(tag) + " array " + to_string(k) + " is " + a[k]->get("Name")); };
            decl("PPointData", pd); decl("PCellData", cd); auto pp = g.one("PPoints").all("PDataArray"); if (pp.size() != 1 || pp[0]->get("Name") != m.p.name || pp[0]->get("NumberOfComponents") != m.p.comps) fail("pvtu-arrays", "PPoints"); unlink((dir + src).c_str());
        }
        unlink((base + ".pvtu").c_str()); rmdir("outdir");
    }
}

// ---------------------------------------------------------------------------------------------
// C22
using Val = EF::Options::OptionTypes;
struct Expect { vector<Val> any; };  // the acceptable results for one text
static string showVal(const Val& v) { std::ostringstream o; o.precision(17); const char* n[] = {"string", "bool", "int", "double"}; o << n[v.index()] << " "; std::visit([&](auto&& x) { o << x; }, v); return o.str(); }
static bool same(const Val& a, const Val& b) { if (a.index() != b.index()) return false; return a == b; }
// (text, expectation); kinds with a single reading have one acceptable value, unusual ones several
static std::pair<string, Expect> genText(Src& s, bool cli, Ctx& c) {
    auto num2 = [&](double d) { char t[60]; const char* f[] = {"%.1f", "%.6f", "%.17f", "%.3f"}; snprintf(t, 60, f[s.range(0, 3)], d); return string(t); };
    switch (s.range(0, 12)) {
        case 0: { int v = s.range(0, 5) ? s.sint(1000) : int(s.next()); if (v < 0) c.tag("negative integer"); return {to_string(v), {{v}}}; }
        case 1: { bool b = s.chance(50); return {b ? "true" : "false", {{b}}}; }
        case 2: { string t = num2(s.real(1000)); return {t, {{strtod(t.c_str(), nullptr)}}}; }
        case 3: { static const vector<string> w = {"hello", "a", "fishpack", "five-point", "True", "FALSE", "yes", "truely", "nan", "inf", "infinity", "e", "E5", "x86", "1a", "2x", "1-2", "--3", "+-1", "-", "+", "0x10", "1e", "1e+", "e10", "- 5", "1,5"}; string t = s.pick(w); c.tag("word"); return {t, {{t}}}; }
        case 4: { static const vector<string> w = {"file.txt", "a.b.c", "1.2.3", ".", "..", "./dir/x.vtk", "-.", "1.5x", "v1.0", "1.5e", "1..2", "3.0-", ".e5", "1.0.", "192.168.0.1", "1.5 2.5"}; string t = s.pick(w); c.tag("dots in words"); return {t, {{t}}}; }
        case 5: { char t[60]; const char* f[] = {"%.3e", "%.1E", "%de-3", "%dE4"}; int k = s.range(0, 3); if (k < 2) snprintf(t, 60, f[k], s.real(100)); else snprintf(t, 60, f[k], s.sint(50)); c.tag("exponent"); return {t, {{strtod(t, nullptr)}}}; }
        case 6: c.tag("empty value"); return {"", {{string("")}}};
        case 7: { static const vector<string> w = {"2147483648", "-2147483649", "99999999999", "123456789012345678901234567890"}; string t = s.pick(w); c.tag("large integer"); return {t, {{t, strtod(t.c_str(), nullptr)}}}; }
        case 8: { int v = s.range(0, 99); string t = "+" + to_string(v); return {t, {{v, t, double(v)}}}; }
        case 9: { string t = "00" + to_string(s.range(0, 77)); int v = atoi(t.c_str()); return {t, {{v, t}}}; }
        case 10: { static const vector<string> w = {"5.", ".5", "-.5", "+1.5", "-0.0", "1e400", "-1e400", "1.0e-400"}; string t = s.pick(w); double d = strtod(t.c_str(), nullptr); Expect e{{t}}; if (std::isfinite(d) && !(d == 0 && t[0] == '1')) e.any.push_back(d); c.tag("unusual number"); return {t, e}; }
        case 11: { string t = word(s, 4, false) + " " + word(s, 5, false); for (char& ch : t) if (isdigit((unsigned char) ch)) ch = 'q'; c.tag("inner space"); return {t, {{t}}}; }
        default: { string t = word(s, 4, false) + "=" + word(s, 4, false); if (isdigit((unsigned char) t[0])) t[0] = 'k'; c.tag("equals sign in value"); return {t, {{t}}}; }
    }
}
static void options(Src& s, Ctx& c) {
    EF::Options o; std::map<string, Expect> model; if (s.chance(30)) { std::map<string, Val> init{{"a", 1}, {"b", string("x")}}; o = EF::Options(init); model["a"] = {{1}}; model["b"] = {{string("x")}}; }
    vector<string> keys = {"a", "b", "nx", "min-level", "cache-operators", "c.d", "longer_key", "N0"}; bool many = s.chance(4); if (many) { c.tag("many keys"); int n = s.range(5, 120); for (int i = 0; i < n; i++) keys.push_back("key" + string(i % 7 == 6 ? s.range(1, 300) : i % 5, 'k') + to_string(i)); } int ops = s.range(1, 6);
    auto verify = [&](const string& when) {
        if (o.optionsMap.size() != model.size()) { string t; for (auto& [k, v] : o.optionsMap) if (!model.count(k)) t += " unexpected '" + k + "'"; for (auto& [k, v] : model) if (!o.optionsMap.count(k)) t += " missing '" + k + "'"; fail("options-keys", when + ":" + t); }
        for (auto& [k, e] : model) { if (!o.optionExists(k)) fail("options-missing", when + ": option " + k + " does not exist"); Val v = o[k]; bool ok = false; for (auto& x : e.any) ok |= same(x, v); if (!ok) fail("options-value", when + ": option " + k + " is " + showVal(v) + " instead of " + showVal(e.any[0])); }
        for (auto& k : keys) if (!model.count(k) && o.optionExists(k)) fail("options-exists", when + ": option " + k + " exists");
    };
    for (int i = 0; i < ops; i++) {
        int op = s.range(0, 4);
        if (op == 0) { string k = s.pick(keys); Val v; int t = s.range(0, 3); if (t == 0) v = s.sint((1 << 30) - 1); else if (t == 1) v = s.real(1e3); else if (t == 2) v = s.chance(50); else v = word(s, 6, true); if (s.chance(50)) o.setOption(k, v); else o[k] = v; model[k] = {{v}}; c.desc << " set " << k << "=" << showVal(v); verify("after setting " + k); }
        else if (op <= 2) {  // INI file
            string text, eol = s.chance(20) ? "\r\n" : "\n"; int lines = many ? s.range(0, 40) : s.range(0, 10); bool in = false; vector<string> pad = {"", " ", "\t", "    ", " \t "}; if (eol == "\r\n") c.tag("CRLF");
            for (int l = 0; l < lines; l++) {
                int k = s.range(0, 9); auto P = [&]() { return s.pick(pad); };
                if (k == 0) text += P() + (s.chance(50) ? ";" : "; a = 1") + P();
                else if (k == 1) text += P();
                else if (k == 2 || (l == 0 && s.chance(70))) { static const vector<string> sec = {"EllipticForest", "Other", "ellipticforest", "EllipticForest2", ""}; string n = s.chance(60) ? sec[0] : s.pick(sec); text += P() + "[" + n + "]" + P(); in = n == "EllipticForest"; }
                else if (k == 3) text += P() + s.pick(keys) + P();  // no value
                else { string key = s.pick(keys); auto [t, e] = genText(s, false, c); text += P() + key + P() + "=" + P() + t + P(); if (in) model[key] = e; else c.tag("ignored key"); c.nontrivial |= in; }
                if (l + 1 < lines || s.chance(70)) text += eol;
            }
            std::ofstream("opt.ini", std::ios::binary) << text; c.desc << " ini{" << text << "}"; o.setFromFile("opt.ini"); unlink("opt.ini"); verify("after the INI file");
        } else if (op == 3) {  // command line
            vector<string> args = {"prog"}; int n = many ? s.range(0, 40) : s.range(0, 6); std::map<string, Expect> shortopts;
            for (int k = 0; k < n; k++) { int t = s.range(0, 9); string key = s.pick(keys);
                if (t == 0) args.push_back(""); else if (t == 1) args.push_back(word(s, 5, false)); 
                else if (t == 2) { args.push_back("--" + key); model[key] = {{string("")}}; } else if (t == 3) { string v = word(s, 5, false); args.push_back("-" + key + "=" + v); model[key] = {{v}}; for (char ch : v) if (isdigit((unsigned char) ch)) { model[key] = EF::Options().checkValue(v).index() == 0 ? Expect{{v}} : Expect{{v, EF::Options().checkValue(v)}}; break; } }
                else if (t == 4) { args.push_back("-" + key); model[key] = {{string("")}}; }
                else { auto [v, e] = genText(s, true, c); args.push_back("--" + key + "=" + v); model[key] = e; c.nontrivial = true; } }
            c.desc << " argv{"; vector<char*> av; for (auto& a : args) { c.desc << a << "|"; av.push_back(a.data()); } c.desc << "}"; av.push_back(nullptr); int argc = int(args.size()); char** argv = av.data(); EF::InputParser p(argc, argv); if (p.args.size() != args.size() - 1) fail("argv", "parser kept " + to_string(p.args.size()) + " arguments"); p.parse(o); verify("after the command line");
            // dashes alone and empty names must be survived; what they are stored as is not specified
            if (s.chance(30)) { vector<string> odd = {"prog", "-", "--", "---", "--=1", "-=", "--=", "=", "=x"}; vector<char*> a2; for (auto& a : odd) a2.push_back(a.data()); a2.push_back(nullptr); int n2 = int(odd.size()); char** v2 = a2.data(); EF::InputParser q(n2, v2); q.parse(o); for (auto it = o.optionsMap.begin(); it != o.optionsMap.end();) if (it->first.find_first_not_of("-") == string::npos) it = o.optionsMap.erase(it); else ++it; verify("after odd arguments"); }
        } else {
            static const vector<string> bad = {"", "i", "in", "x", "opt.txt", "opt", "ini.txt", "optini.", "a.in"}; string f = s.pick(bad); if (s.chance(50)) std::ofstream("opt.txt") << "[EllipticForest]\na = 77\n"; bool th = false; c.desc << " file '" << f << "'"; c.tag("bad file name");
            try { o.setFromFile(f); } catch (const std::invalid_argument&) { th = true; } catch (const std::exception& e) { fail("bad-file", "file name '" + f + "' gives " + e.what()); }
            if (!th) fail("bad-file", "file name '" + f + "' accepted"); unlink("opt.txt"); try { o.setFromFile("missing-file.ini"); } catch (const std::exception&) {} verify("after bad file names");
        }
    }
    std::ostringstream os; os << o; size_t lines = 0; for (char ch : os.str()) lines += ch == '\n'; bool nl = false; for (auto& [k, e] : model) if (auto* t = std::get_if<string>(&o[k])) nl |= t->find('\n') != string::npos; if (!nl && lines != model.size()) fail("options-print", "printing gives " + to_string(lines) + " lines for " + to_string(model.size()) + " options");
}

// ---------------------------------------------------------------------------------------------
// C24
template<class T, class G> static void cacheRun(Src& s, Ctx& c, Src*& cur, G gen, const T& zero) {
    std::map<string, T> model; if (s.chance(30)) { int n = s.range(1, 3); for (int i = 0; i < n; i++) model["k" + to_string(s.range(0, 5))] = gen(); } EF::DataCache<T> cache = model.empty() ? EF::DataCache<T>() : EF::DataCache<T>(model); bool many = s.chance(4); int ops = many ? 300 : s.range(1, 30); Src wide = many ? rig::expand(s, 3000) : Src(); Src& s2 = many ? wide : s; int last = many ? 400 : 7; cur = &s2;
    for (int i = 0; i < ops; i++) {
        string k = s2.chance(10) ? "" : s2.chance(30) ? "K" + to_string(s2.range(0, 3)) : "k" + to_string(s2.range(0, last)); int op = s2.range(0, 3);
        if (op == 0) { T v = gen(); cache[k] = v; model[k] = v; } else if (op == 1) { if (cache.contains(k) != bool(model.count(k))) fail("cache-contains", "contains('" + k + "') is wrong after " + to_string(i) + " operations"); }
        else if (op == 2) { bool had = model.count(k); if (!(cache[k] == (had ? model[k] : zero))) fail("cache-read", "reading '" + k + "' gives another value"); model[k]; }
        else if (model.count(k)) { T& r = cache[k]; string o = "k" + to_string(s2.range(0, last)); T v = gen(); cache[o] = v; model[o] = v; if (!(r == model[k])) fail("cache-reference", "a reference to '" + k + "' changed when '" + o + "' was stored"); }
    }
    for (auto& [k, v] : model) { if (!cache.contains(k)) fail("cache-contains", "'" + k + "' was stored and is not contained"); if (!(cache[k] == v)) fail("cache-read", "'" + k + "' has another value"); }
    for (int q = 0; q <= last; q++) { string k = "k" + to_string(q); if (cache.contains(k) != bool(model.count(k))) fail("cache-contains", "contains('" + k + "')"); } if (cache.contains("never")) fail("cache-contains", "contains('never')"); c.nontrivial = ops > 4;
}
static void cache(Src& s, Ctx& c) {
    int k = s.range(0, 2); c.desc << "type " << k; Src* g = &s; if (k == 0) cacheRun<int>(s, c, g, [&] { return g->sint(1000); }, 0); else if (k == 1) cacheRun<string>(s, c, g, [&] { return word(*g, 5, true); }, ""); else cacheRun<vector<double>>(s, c, g, [&] { int n = g->range(0, 4); return vector<double>(n, g->real(3)); }, {});
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void timer(Src& s, Ctx& c) {
    auto& app = EF::EllipticForestApp::getInstance(); bool inApp = s.chance(40); string name = "t" + to_string(s.range(0, 2)); if (inApp) app.addTimer(name); EF::Timer local; auto T = [&]() -> EF::Timer& { return inApp ? EF::EllipticForestApp::getInstance().timers[name] : local; };
    if (T().time() != 0) fail("timer-initial", "a new timer shows " + num(T().time())); int ops = s.range(1, 8); bool many = s.chance(3); if (many) ops = s.range(8, 150); double lo = 0, hi = 0, sum = 0; c.desc << ops << " operations"; int stops = 0;
    for (int i = 0; i < ops; i++) {
        int op = s.range(0, 5);
        if (op == 0) { T().restart(); lo = hi = sum = 0; if (T().time() != 0) fail("timer-restart", "time after restart is " + num(T().time())); }
        else {
            int again = s.chance(20) ? 2 : 1; double a0 = 0, a1 = 0; for (int q = 0; q < again; q++) { a0 = now(); T().start(); a1 = now(); if (again > 1 && !q) usleep(200); }
            bool inner = s.chance(15); if (inner) { T().restart(); lo = hi = sum = 0; }
            int us = many ? 20 : s.range(0, 400); double t0 = now(); while ((now() - t0)*1e6 < us) {} double b0 = now(), r = T().stop(), b1 = now(); stops++;
            if (!(r >= b0 - a1 - 2e-6) || !(r <= b1 - a0 + 2e-6)) fail("timer-interval", "interval of at least " + num(b0 - a1) + " and at most " + num(b1 - a0) + " seconds measured as " + num(r)); lo += b0 - a1; hi += b1 - a0; sum += r;
        }
        double t = T().time(); if (!(std::fabs(t - sum) <= 1e-12 + 1e-9*sum)) fail("timer-sum", "total is " + num(t) + " after intervals adding up to " + num(sum)); if (t < lo - 2e-6*(ops + 1) || t > hi + 2e-6*(ops + 1)) fail("timer-sum", "total is " + num(t) + ", real time between " + num(lo) + " and " + num(hi));
        if (T().time() != t) fail("timer-read", "reading the time changes it");
    }
    c.nontrivial = stops > 1;
}
static EF::EllipticForestApp* gApp = nullptr;
static void app(Src& s, Ctx& c) {
    auto& a = EF::EllipticForestApp::getInstance(); if (&a != gApp) fail("app-instance", "getInstance() is not the application object that was constructed"); int ops = s.range(1, 12); std::map<string, Val> opt; std::map<string, double> tm; c.desc << ops << " operations"; c.nontrivial = ops > 2;
    auto before = a.options.optionsMap; for (int i = 0; i < ops; i++) {
        auto& x = EF::EllipticForestApp::getInstance(); if (&x != gApp) fail("app-instance", "another instance after " + to_string(i) + " operations"); string k = "app-opt-" + to_string(s.range(0, 4)); int op = s.range(0, 3);
        if (op == 0) { Val v = s.sint(1000); x.options.setOption(k, v); opt[k] = v; } else if (op == 1) { Val v = word(s, 4, true); x.options[k] = v; opt[k] = v; } else if (op == 2) { string t = "app-t" + to_string(s.range(0, 2)); x.addTimer(t); x.timers[t].start(); x.timers[t].stop(); tm[t] = x.timers[t].time(); }
        else { EF::FiniteVolumeSolver sv; (void) sv; x.log("message %i %s", i, "text"); x.logHead("message"); }
        auto& y = EF::EllipticForestApp::getInstance(); for (auto& [q, v] : opt) if (!y.options.optionExists(q) || !same(y.options[q], v)) fail("app-options", "option " + q + " lost"); for (auto& [q, v] : tm) if (!y.timers.count(q) || y.timers[q].time() != v) fail("app-timers", "timer " + q + " lost"); for (auto& [q, v] : before) if (!opt.count(q) && (!y.options.optionExists(q) || !same(y.options[q], v))) fail("app-options", "option " + q + " changed");
    }
    for (auto& [q, v] : opt) a.options.optionsMap.erase(q); for (auto& [q, v] : tm) a.timers.erase(q); if (!a.timers.count("app-lifetime")) fail("app-timers", "life time timer lost");
}

// ---------------------------------------------------------------------------------------------
// C28: what is printed about objects
static vector<string> tokens(const string& t) { std::istringstream is(t); vector<string> v; string w; while (is >> w) v.push_back(w); return v; }
static void sameNumber(const string& tok, double x, const string& what) {
    char* e; double y = strtod(tok.c_str(), &e); if (*e) fail("print", what + " is printed as '" + tok + "'"); if (std::fabs(x) < 1e-14 ? !(std::fabs(y) <= 1.01e-14) : !(std::fabs(y - x) <= 6e-4*std::fabs(x))) fail("print", what + " = " + num(x) + " is printed as " + tok);
}
template<class T> static T printable(Src& s) {
    if constexpr (std::is_same_v<T, int>) { int k = s.range(0, 9); return k < 7 ? s.sint(1000) : k == 7 ? int(s.next()) : k == 8 ? INT_MAX : INT_MIN + 1; }
    else { int k = s.range(0, 9); double m = s.real(1); return T(k < 5 ? 100*m : k == 5 ? m*1e-13 : k == 6 ? m*1e-16 : m*std::pow(10.0, s.range(-30, 30))); }
}
template<class T> static void printNumbers(Src& s0, Ctx& c) {
    int r = s0.range(0, 12), n = s0.range(0, 12); if (s0.chance(3)) n = s0.range(13, 300); c.desc << r << "x" << n; Src wide = r*n + n > 40 ? rig::expand(s0, 3*(r*n + n)) : Src(); Src& s = r*n + n > 40 ? wide : s0; std::ostringstream o;
    EF::Vector<T> v(n); vector<T> x(n); for (int i = 0; i < n; i++) x[i] = v[i] = printable<T>(s); EF::Matrix<T> A(r, n); vector<T> y(r*n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) A(i, j) = y[i*n + j] = printable<T>(s);
    o << v; string t = o.str(), h = t.substr(0, t.find('\n')), b = t.substr(std::min(t.size(), h.size() + 1)); int got = -1; if (sscanf(h.c_str(), " [%d]", &got) != 1 || got != n) fail("print-shape", "a vector of " + to_string(n) + " entries is announced as '" + h + "'"); auto tok = tokens(b); if (int(tok.size()) != n) fail("print", to_string(tok.size()) + " entries printed for a vector of " + to_string(n));
    for (int i = 0; i < n; i++) sameNumber(tok[i], double(x[i]), "entry " + to_string(i)); for (int i = 0; i < n; i++) if (v[i] != x[i]) fail("print", "printing changed a vector");
    o.str(""); o << A; t = o.str(); std::istringstream is(t); string line; std::getline(is, line); int gr = -1, gc = -1; if (sscanf(line.c_str(), " [%d x %d]", &gr, &gc) != 2 || gr != r || gc != n) fail("print-shape", to_string(r) + "x" + to_string(n) + " matrix announced as '" + line + "'");
    for (int i = 0; i < r; i++) { if (!std::getline(is, line)) fail("print", "row " + to_string(i) + " of " + to_string(r) + " is not printed"); tok = tokens(line); if (int(tok.size()) != n) fail("print", "row " + to_string(i) + " is printed with " + to_string(tok.size()) + " of " + to_string(n) + " entries"); for (int j = 0; j < n; j++) { sameNumber(tok[j], double(y[i*n + j]), "entry (" + to_string(i) + "," + to_string(j) + ")"); if (A(i, j) != y[i*n + j]) fail("print", "printing changed a matrix"); } }
    while (std::getline(is, line)) if (!tokens(line).empty()) fail("print", "additional line '" + line + "'"); c.nontrivial = n > 1;
}
static void gridText(const string& t, const Box& b, int nx, int ny) {
    double v[6]; int a = 0, d = 0; if (sscanf(t.c_str(), "X: [%lf:%lf], nx = %d, dx = %lf Y: [%lf:%lf], ny = %d, dy = %lf", v, v + 1, &a, v + 2, v + 3, v + 4, &d, v + 5) != 8) fail("grid-text", "grid described as '" + t + "'");
    double w[6] = {b.xl, b.xu, b.w()/nx, b.yl, b.yu, b.h()/ny}; if (a != nx || d != ny) fail("grid-text", "grid described as '" + t + "'"); for (int k = 0; k < 6; k++) if (!(std::fabs(v[k] - w[k]) <= 6e-7 + 1e-12*std::fabs(w[k]))) fail("grid-text", "grid described as '" + t + "'");
}
static void printPatch(Src& s, Ctx& c) {
    Box b = genBox(s); int nx = s.range(1, 20), ny = s.range(1, 20); Grid g(MPI_COMM_WORLD, nx, b.xl, b.xu, ny, b.yl, b.yu); gridText(g.str(), b, nx, ny); Patch p(MPI_COMM_WORLD, g); gridText(p.grid().str(), b, nx, ny); p.n_coarsens = s.range(0, 9); std::map<string, vector<int>> want; double total = 0; int sets = 0;
    auto mat = [&](const char* k, EF::Matrix<double>& m) { int r = 0, n = 0; if (s.chance(60)) { r = s.range(1, 30); n = s.range(1, 30); m = EF::Matrix<double>(r, n, 1.0); sets++; } want[k] = {r, n}; total += 8.0*r*n; };
    auto vec = [&](const char* k, EF::Vector<double>& v) { int n = 0; if (s.chance(60)) { n = s.range(1, 200); v = EF::Vector<double>(n, 1.0); sets++; } want[k] = {n}; total += 8.0*n; };
    int repeat = s.chance(30) ? 2 : 1; for (int q = 0; q < repeat; q++) {
        total = 0; want.clear(); p.matrixX() = p.matrixS() = p.matrixT() = p.matrixH() = EF::Matrix<double>(); p.vectorU() = p.vectorG() = p.vectorV() = p.vectorF() = p.vectorH() = p.vectorW() = EF::Vector<double>();
        mat("X", p.matrixX()); mat("S", p.matrixS()); mat("T", p.matrixT()); mat("H", p.matrixH()); vec("u", p.vectorU()); vec("g", p.vectorG()); vec("v", p.vectorV()); vec("f", p.vectorF()); vec("h", p.vectorH()); vec("w", p.vectorW());
        double mb = p.dataSize()*1024*1024; if (!(mb >= total && mb <= total + 64)) fail("data-size", "a patch holding " + num(total) + " bytes reports " + num(mb));
        std::istringstream is(p.str()); string line; std::set<string> seen; while (std::getline(is, line)) {
            auto eq = line.find(" = "); if (eq == string::npos) continue; auto a = line.find_first_not_of(' '); string k = line.substr(a, eq - a), v = line.substr(eq + 3); seen.insert(k); double w = 0; bool scalar = true;
            if (k == "n_coarsens") w = p.n_coarsens; else if (k == "nx") w = nx; else if (k == "ny") w = ny; else if (k == "x_lower") w = b.xl; else if (k == "x_upper") w = b.xu; else if (k == "y_lower") w = b.yl; else if (k == "y_upper") w = b.yu; else scalar = false;
            if (scalar) { if (!(std::fabs(atof(v.c_str()) - w) <= 6e-7 + 1e-12*std::fabs(w))) fail("patch-text", k + " of a patch is printed as " + v + " instead of " + num(w)); }
            else if (want.count(k)) { vector<int> d; for (char& ch : v) if (ch == '[' || ch == ']' || ch == ',') ch = ' '; for (auto& t : tokens(v)) d.push_back(atoi(t.c_str())); if (d != want[k]) fail("patch-text", "size of " + k + " is printed as " + v); } }
        for (auto k : {"n_coarsens", "nx", "ny", "x_lower", "x_upper", "y_lower", "y_upper", "X", "S", "T", "u", "g", "v", "f", "h"}) if (!seen.count(k)) fail("patch-text", string("the description of a patch lacks ") + k);
    }
    EF::FiniteVolumeNodeFactory fac(MPI_COMM_WORLD); string path = "0"; int lv = s.range(0, 18); for (int k = 0; k < lv; k++) path += char('0' + s.range(0, 3)); int a = s.range(0, 999), z = a + s.range(0, 999); std::unique_ptr<Node> n(fac.createNode(p, path, lv, a, z)); std::ostringstream o; o << *n;
    for (string t : {n->str(), o.str()}) { char q[80]; int l, x, y; if (sscanf(t.c_str(), "node: path = %70[0-9], level = %d, ranks = [%d-%d]", q, &l, &x, &y) != 4 || path != q || l != lv || x != a || y != z) fail("node-text", "node " + path + " of level " + to_string(lv) + ", ranks " + to_string(a) + ".." + to_string(z) + " described as '" + t + "'"); }
    c.desc << nx << "x" << ny << " patch, " << sets << " fields, node " << path; c.nontrivial = sets > 1;
}
static void printOptions(Src& s, Ctx& c) {
    EF::Options o; std::map<string, Val> m; int n = s.range(0, 8); for (int i = 0; i < n; i++) { string k = "k" + to_string(s.range(0, 20)) + (s.chance(20) ? word(s, 6, false) : ""); Val v; int t = s.range(0, 3); if (t == 0) v = s.sint(1 << 29); else if (t == 1) v = s.real(1e3); else if (t == 2) v = s.chance(50); else v = "w" + word(s, 9, false); o.setOption(k, v); m[k] = v; }
    std::ostringstream os; os << o; std::istringstream is(os.str()); string line; auto it = m.begin(); while (std::getline(is, line)) {
        if (it == m.end()) fail("print-options", "additional line '" + line + "'"); auto a = line.find(" : "); auto tok = tokens(line.substr(0, a)); if (a == string::npos || tok.empty() || tok.back() != it->first) fail("print-options", "option " + it->first + " is printed as '" + line + "'"); string t = line.substr(a + 3); const Val& v = it->second; bool ok = true;
        if (auto* x = std::get_if<string>(&v)) ok = t == *x; else if (auto* x = std::get_if<int>(&v)) ok = t == to_string(*x); else if (auto* x = std::get_if<bool>(&v)) ok = t == (*x ? "1" : "0") || t == (*x ? "true" : "false"); else { double d = std::get<double>(v); ok = std::fabs(atof(t.c_str()) - d) <= 6e-6*std::fabs(d); }
        if (!ok) fail("print-options", "option " + it->first + " = " + showVal(v) + " is printed as '" + line + "'"); ++it; }
    if (it != m.end()) fail("print-options", "option " + it->first + " is not printed"); c.nontrivial = m.size() > 1; c.desc << m.size() << " options";
}
static void print(Src& s, Ctx& c) { switch (s.range(0, 4)) { case 0: c.tag("double"); printNumbers<double>(s, c); break; case 1: c.tag("int"); printNumbers<int>(s, c); break; case 2: c.tag("float"); printNumbers<float>(s, c); break; case 3: c.tag("options"); printOptions(s, c); break; default: c.tag("patch"); printPatch(s, c); } }

int main(int argc, char** argv) {
    Session S(argc, argv); gApp = S.app.get();
    return rig::run(argc, argv, {
        {"xml_tree", 200, xml_tree, "more than three nodes"},
        {"vtk_rect", 250, vtk_rect, "at least one data array"},
        {"vtk_unstr", 250, vtk_unstr, "points present and at least one data array"},
        {"options", 250, options, "a key read from the right section of a file or from the command line"},
        {"cache", 200, cache, "more than four operations"},
        {"timer", 80, timer, "at least two intervals"},
        {"print", 250, print, "at least two entries, fields or options"},
        {"app", 120, app, "at least three operations"},
    });
}
