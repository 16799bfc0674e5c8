// Generators and strict readers for the VTK files of C13 and C14, shared by the single- and multi-rank harnesses.
#ifndef VERIF_VTU_HPP_
#define VERIF_VTU_HPP_
#include "hps.hpp"
#include "xml.hpp"

#include <VTK.hpp>
#include <zlib.h>

namespace vtu {
using namespace vf;
using rig::Ctx; using rig::Src; using rig::fail;
using std::string; using std::to_string; using std::vector;

inline string trim(const string& s) { size_t a = s.find_first_not_of(" \t\r\n\v\f"); if (a == string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n\v\f") - a + 1); }
inline string word(Src& s, int maxlen, bool special) {
    static const string plain = "abcXYZ_019", odd = "<>&\"'= ;:%[]#/.-"; int n = s.range(1, maxlen); string o; if (n == maxlen && s.chance(4)) { n = s.range(maxlen, 400); Src q = rig::expand(s, 3*n); for (int i = 0; i < n; i++) { bool z = special && i > 0 && q.chance(35); const string& f = z ? odd : plain; o += f[q.next() % f.size()]; } return o; }
    for (int i = 0; i < n; i++) { bool q = special && i > 0 && s.chance(35); const string& f = q ? odd : plain; o += f[s.next() % f.size()]; }
    return o;
}
struct RectMesh : EF::RectilinearGridNodeBase { string w, e; string getWholeExtent() override { return w; } string getExtent() override { return e; } };
struct DArr { std::unique_ptr<EF::Vector<double>> d; std::unique_ptr<EF::Vector<int>> i; string name, type, comps; vector<double> v;
    EF::DataArrayNodeBase& node() { if (d) return *d; return *i; } };
inline DArr genVec(Src& s0, int n, const string& name, bool intsAllowed = true) {
    Src wide = n > 40 ? rig::expand(s0, n + 8) : Src(); Src& s = n > 40 ? wide : s0;
    DArr r; r.name = name; bool in = intsAllowed && s.chance(35); r.comps = to_string(s.range(1, 3)); const char* ty[] = {"Float32", "Float64"}; r.type = in ? "Int64" : ty[s.range(0, 1)]; double mag[] = {10, 1, 1e5, 1e-2}; double m = mag[s.range(0, 3)];
    if (in) { vector<int> x; for (int k = 0; k < n; k++) x.push_back(s.sint(100000)); r.i.reset(new EF::Vector<int>(x)); r.i->name() = name; r.i->setType(r.type); r.i->setNumberOfComponents(r.comps); for (int q : x) r.v.push_back(q); }
    else { vector<double> x; for (int k = 0; k < n; k++) x.push_back(s.real(m)); r.d.reset(new EF::Vector<double>(x)); r.d->name() = name; r.d->setType(r.type); r.d->setNumberOfComponents(r.comps); r.v = x; }
    return r;
}
inline void sameArray(const Elem& a, const DArr& w, const string& what) {
    if (a.get("Name") != w.name || a.get("type") != w.type || a.get("NumberOfComponents") != w.comps || a.get("format") != "ascii") fail("vtk-array", what + ": name " + a.get("Name") + " type " + a.get("type") + " components " + a.get("NumberOfComponents") + " format " + a.get("format"));
    vector<double> v = a.numbers(); if (v.size() != w.v.size()) fail("vtk-data", what + ": " + to_string(v.size()) + " values instead of " + to_string(w.v.size()));
    double lo = INFINITY, hi = -INFINITY; for (size_t k = 0; k < v.size(); k++) { if (!(std::fabs(v[k] - w.v[k]) <= 6e-7)) fail("vtk-data", what + ": value " + to_string(k) + " is " + num(v[k]) + " instead of " + num(w.v[k])); lo = std::min(lo, w.v[k]); hi = std::max(hi, w.v[k]); }
    if (!v.empty() && !(std::fabs(atof(a.get("RangeMin").c_str()) - lo) <= 6e-7 && std::fabs(atof(a.get("RangeMax").c_str()) - hi) <= 6e-7)) fail("vtk-range", what + ": range " + a.get("RangeMin") + ".." + a.get("RangeMax") + " instead of " + num(lo) + ".." + num(hi));
}
inline void sameGroup(const Elem& piece, const char* tag, vector<DArr>& w, const string& what) {
    auto g = piece.all(tag); if (w.empty()) { if (!g.empty() && !g[0]->all("DataArray").empty()) fail("vtk-group", what + ": unexpected " + tag); return; }
    const Elem& e = piece.one(tag); auto a = e.all("DataArray"); if (a.size() != w.size()) fail("vtk-group", what + ": " + tag + " has " + to_string(a.size()) + " arrays instead of " + to_string(w.size()));
    string names; for (auto& x : w) names += x.name + " "; if (trim(e.get("Scalars")) != trim(names)) fail("vtk-group", what + ": Scalars is '" + e.get("Scalars") + "'"); for (size_t k = 0; k < w.size(); k++) sameArray(*a[k], w[k], what + " " + tag + " " + to_string(k));
}
inline void header(const Elem& e, const string& type) { if (e.name != "VTKFile" || e.get("type") != type || e.get("version") != "0.1" || e.get("byte_order") != "LittleEndian") fail("vtk-header", "root element <" + e.name + "> type " + e.get("type")); }
inline string arrName(Src& s, int k) { return "v" + to_string(k) + (s.chance(30) ? trim(word(s, 5, true)) : ""); }
struct UMesh : EF::UnstructuredGridNodeBase { int np = 0, nc = 0; DArr p, co, of, ty; string getNumberOfPoints() override { return to_string(np); } string getNumberOfCells() override { return to_string(nc); }
    EF::DataArrayNodeBase& getPoints() override { return p.node(); } EF::DataArrayNodeBase& getConnectivity() override { return co.node(); } EF::DataArrayNodeBase& getOffsets() override { return of.node(); } EF::DataArrayNodeBase& getTypes() override { return ty.node(); } };
inline void checkVtu(const string& f, UMesh& m, vector<DArr>& pd, vector<DArr>& cd) {
    Elem e = readXml(f); header(e, "UnstructuredGrid"); const Elem& g = e.one("UnstructuredGrid"); const Elem& pc = g.one("Piece"); if (e.kids.size() != 1 || g.kids.size() != 1) fail("vtk-structure", f + ": extra elements"); if (pc.get("NumberOfPoints") != to_string(m.np) || pc.get("NumberOfCells") != to_string(m.nc)) fail("vtk-counts", "piece declares " + pc.get("NumberOfPoints") + " points and " + pc.get("NumberOfCells") + " cells");
    sameArray(pc.one("Points").one("DataArray"), m.p, "points"); auto a = pc.one("Cells").all("DataArray"); if (a.size() != 3) fail("vtk-cells", to_string(a.size()) + " cell arrays"); sameArray(*a[0], m.co, "connectivity"); sameArray(*a[1], m.of, "offsets"); sameArray(*a[2], m.ty, "types"); sameGroup(pc, "PointData", pd, "unstructured"); sameGroup(pc, "CellData", cd, "unstructured");
}
inline void checkArray(const Elem& a, const string& type, const string& name, const string& comps) { if (a.get("type") != type || a.get("Name") != name || a.get("NumberOfComponents") != comps || a.get("format") != "ascii") fail("array-header", "data array " + a.get("Name") + " has type " + a.get("type") + ", " + a.get("NumberOfComponents") + " components, format " + a.get("format")); }
inline vector<Box> leafCells(const Box& b, int nx, int ny) { vector<Box> v; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) v.push_back(Box{b.xl + i*b.w()/nx, b.xl + (i + 1)*b.w()/nx, b.yl + j*b.h()/ny, b.yl + (j + 1)*b.h()/ny}); return v; }
// Metadata of a parallel mesh file; the files of the pieces are returned.
// inline binary data of VTK: base64 header {blocks, block size, last size, compressed sizes}, then the base64 zlib blocks
inline std::string unbase64(const string& t) {
    string o; unsigned v = 0; int bits = 0; for (char ch : t) { int d = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1; if (d < 0) break; v = v << 6 | unsigned(d); bits += 6; if (bits >= 8) { bits -= 8; o += char(v >> bits & 255); } } return o;
}
inline std::string inlineData(const Elem& a) {
    string t; for (char ch : a.text) if (!isspace((unsigned char) ch)) t += ch; string h = unbase64(t.substr(0, 8)); if (h.size() < 4) fail("quadtree-data", "no data header"); auto u = [](const string& z, size_t k) { unsigned v; memcpy(&v, z.data() + 4*k, 4); return v; };
    size_t nb = u(h, 0), hl = 4*(3 + nb), hc = (hl + 2)/3*4; if (nb > 100000 || t.size() < hc) fail("quadtree-data", "bad data header"); h = unbase64(t.substr(0, hc)); string z = unbase64(t.substr(hc)), o; size_t at = 0;
    for (size_t b = 0; b < nb; b++) { uLongf n = b + 1 == nb && u(h, 2) ? u(h, 2) : u(h, 1); string blk(n, 0); size_t len = u(h, 3 + b); if (at + len > z.size() || uncompress((Bytef*) &blk[0], &n, (const Bytef*) z.data() + at, len) != Z_OK) fail("quadtree-data", "data cannot be decompressed"); blk.resize(n); o += blk; at += len; } return o;
}
// the quadtree files: every piece well formed, one cell per local leaf, drawn where the leaf is
inline void checkQuadtree(const string& stem, int ranks, int rank, const vector<Box>& leaves) {
    Elem P = readXml(stem + ".pvtu"); if (P.name != "VTKFile" || P.get("type") != "PUnstructuredGrid") fail("quadtree-file", "root element " + P.name); auto pieces = P.one("PUnstructuredGrid").all("Piece"); if (int(pieces.size()) != ranks) fail("quadtree-file", to_string(pieces.size()) + " pieces on " + to_string(ranks) + " ranks");
    char t[16]; snprintf(t, sizeof t, "_%04d.vtu", rank); size_t sl = stem.rfind('/'); if (pieces[rank]->get("Source") != stem.substr(sl == string::npos ? 0 : sl + 1) + t) fail("quadtree-file", "piece " + to_string(rank) + " is " + pieces[rank]->get("Source")); Elem e = readXml(stem + t); const Elem& pc = e.one("UnstructuredGrid").one("Piece"); size_t n = leaves.size();
    if (pc.get("NumberOfCells") != to_string(n)) fail("quadtree-cells", stem + t + " has " + pc.get("NumberOfCells") + " cells for " + to_string(n) + " leaves"); size_t np = strtoul(pc.get("NumberOfPoints").c_str(), nullptr, 10);
    const Elem& pd = pc.one("Points").one("DataArray"); string co, of, pt; if (pd.get("format") != "binary" || pd.get("type") != "Float32") return; pt = inlineData(pd); for (auto* a : pc.one("Cells").all("DataArray")) { if (a->get("Name") == "connectivity") co = inlineData(*a); if (a->get("Name") == "offsets") of = inlineData(*a); }
    if (pt.size() != np*12 || co.size() != n*16 || of.size() != n*4) fail("quadtree-cells", "array sizes " + to_string(pt.size()) + "/" + to_string(co.size()) + "/" + to_string(of.size()));
    const float* x = (const float*) pt.data(); const int* k = (const int*) co.data(); for (size_t q = 0; q < n; q++) {
        const Box& b = leaves[q]; double lo[2] = {INFINITY, INFINITY}, hi[2] = {-INFINITY, -INFINITY}; for (int v = 0; v < 4; v++) { int i = k[4*q + v]; if (i < 0 || size_t(i) >= np) fail("quadtree-cells", "cell " + to_string(q) + " refers to point " + to_string(i)); for (int d = 0; d < 2; d++) { lo[d] = std::min(lo[d], double(x[3*i + d])); hi[d] = std::max(hi[d], double(x[3*i + d])); } if (x[3*i + 2] != 0) fail("quadtree-cells", "point off the plane"); }
        double w[4] = {b.xl, b.xu, b.yl, b.yu}, g[4] = {lo[0], hi[0], lo[1], hi[1]}; for (int d = 0; d < 4; d++) if (!(std::fabs(w[d] - g[d]) <= 1e-6*(1 + std::fabs(w[d]) + b.w() + b.h()))) fail("quadtree-cells", "cell " + to_string(q) + " is drawn at [" + num(g[0]) + "," + num(g[1]) + "]x[" + num(g[2]) + "," + num(g[3]) + "], its leaf is [" + num(w[0]) + "," + num(w[1]) + "]x[" + num(w[2]) + "," + num(w[3]) + "]");
    }
}
inline vector<string> checkMeshPvtu(const string& file, int ranks, const vector<string>& names) {
    Elem P = readXml(file); if (P.name != "VTKFile" || P.get("type") != "PUnstructuredGrid") fail("pvtu", "root element " + P.name + " type " + P.get("type"));
    string dir = file.find('/') == string::npos ? "" : file.substr(0, file.find_last_of('/') + 1); vector<string> src; const Elem& PG = P.one("PUnstructuredGrid"); auto pieces = PG.all("Piece"); if (int(pieces.size()) != ranks) fail("pvtu", to_string(pieces.size()) + " pieces on " + to_string(ranks) + " ranks");
    for (auto* p : pieces) { string f = dir + p->get("Source"); for (auto& o : src) if (o == f) fail("pvtu", "piece " + f + " is listed twice"); if (!fileExists(f)) fail("pvtu", "piece " + f + " does not exist"); src.push_back(f); }
    auto pp = PG.one("PPoints").all("PDataArray"); if (pp.size() != 1 || pp[0]->get("NumberOfComponents") != "3") fail("pvtu", "PPoints");
    if (PG.all("PCellData").size() == 1) { auto pa = PG.one("PCellData").all("PDataArray"); if (pa.size() != names.size()) fail("pvtu", "cell arrays declared: " + to_string(pa.size())); for (size_t k = 0; k < pa.size(); k++) if (pa[k]->get("Name") != names[k]) fail("pvtu", "cell array " + to_string(k) + " is called " + pa[k]->get("Name")); } else if (!names.empty()) fail("pvtu", "no PCellData");
    return src;
}
// One piece: exactly these cells in this order, and for every named function its value on each of them.
inline void checkMeshVtu(const string& file, const vector<Box>& cells, const vector<string>& names, const std::function<double(size_t, size_t)>& value) {
    size_t N = cells.size(); Elem V = readXml(file); const Elem& piece = V.one("UnstructuredGrid").one("Piece"); if (piece.get("NumberOfPoints") != to_string(4*N) || piece.get("NumberOfCells") != to_string(N)) fail("vtu-counts", "piece declares " + piece.get("NumberOfPoints") + " points and " + piece.get("NumberOfCells") + " cells for " + to_string(N) + " leaf cells");
    const Elem& pts = piece.one("Points").one("DataArray"); checkArray(pts, pts.get("type"), "points", "3"); vector<double> x = pts.numbers(); std::map<string, vector<double>> cellarr; for (auto* a : piece.one("Cells").all("DataArray")) { if (cellarr.count(a->get("Name"))) fail("vtu-cells", "array " + a->get("Name") + " twice"); cellarr[a->get("Name")] = a->numbers(); }
    auto& con = cellarr["connectivity"]; auto& off = cellarr["offsets"]; auto& typ = cellarr["types"]; if (x.size() != 12*N) fail("vtu-points", to_string(x.size()) + " coordinates for " + to_string(4*N) + " points"); if (off.size() != N || typ.size() != N) fail("vtu-cells", to_string(off.size()) + " offsets and " + to_string(typ.size()) + " types for " + to_string(N) + " cells");
    double tol = 1.1e-6; for (size_t k = 0, b = 0; k < N; k++) {
        if (typ[k] != 9) fail("vtu-type", "cell " + to_string(k) + " has type " + num(typ[k])); if (off[k] != double(b + 4) || b + 4 > con.size()) fail("vtu-offset", "cell " + to_string(k) + " ends at offset " + num(off[k]) + " instead of " + to_string(b + 4));
        const double cx[4] = {cells[k].xl, cells[k].xu, cells[k].xu, cells[k].xl}, cy[4] = {cells[k].yl, cells[k].yl, cells[k].yu, cells[k].yu};
        for (int q = 0; q < 4; q++) { double id = con[b + q]; if (id < 0 || id >= double(4*N) || id != std::floor(id)) fail("vtu-connectivity", "cell " + to_string(k) + " refers to point " + num(id)); size_t p = size_t(id); if (!(std::fabs(x[3*p] - cx[q]) <= tol && std::fabs(x[3*p + 1] - cy[q]) <= tol && x[3*p + 2] == 0)) fail("vtu-corner", "corner " + to_string(q) + " of cell " + to_string(k) + " is (" + num(x[3*p]) + "," + num(x[3*p + 1]) + ") instead of (" + num(cx[q]) + "," + num(cy[q]) + ")"); }
        b += 4;
    }
    if (con.size() != 4*N) fail("vtu-connectivity", to_string(con.size()) + " connectivity entries for " + to_string(N) + " cells");
    if (names.empty()) return; auto arr = piece.one("CellData").all("DataArray"); if (arr.size() != names.size()) fail("vtu-celldata", to_string(arr.size()) + " cell arrays for " + to_string(names.size()) + " mesh functions");
    for (size_t k = 0; k < names.size(); k++) { if (arr[k]->get("Name") != names[k]) fail("vtu-celldata", "cell array " + to_string(k) + " is called " + arr[k]->get("Name")); vector<double> v = arr[k]->numbers(); if (v.size() != N) fail("vtu-celldata", arr[k]->get("Name") + " has " + to_string(v.size()) + " values for " + to_string(N) + " cells");
        for (size_t q = 0; q < N; q++) { double e = value(k, q); if (!(std::fabs(v[q] - e) <= tol + 1e-9*std::fabs(e))) fail("vtu-value", arr[k]->get("Name") + " of cell " + to_string(q) + " is " + num(v[q]) + " instead of " + num(e)); } }
}
} // namespace vtu
#endif
