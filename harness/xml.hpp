// Small strict XML reader used as the oracle for written files.
#ifndef VERIF_XML_HPP_
#define VERIF_XML_HPP_

#include <memory>

#include "rig.hpp"

namespace vf {

struct Elem {
    std::string name, text; std::vector<std::pair<std::string, std::string>> attrs; std::vector<Elem> kids;
    const std::string* attr(const std::string& k) const { for (auto& a : attrs) if (a.first == k) return &a.second; return nullptr; }
    std::vector<const Elem*> all(const std::string& n) const { std::vector<const Elem*> v; for (auto& k : kids) if (k.name == n) v.push_back(&k); return v; }
    const Elem& one(const std::string& n) const {
        auto v = all(n); if (v.size() != 1) rig::fail("xml-structure", "<" + name + "> has " + std::to_string(v.size()) + " <" + n + "> elements instead of one"); return *v[0];
    }
    std::string get(const std::string& k) const { auto* a = attr(k); if (!a) rig::fail("xml-structure", "<" + name + "> has no attribute " + k); return *a; }
    std::vector<double> numbers() const {
        std::vector<double> v; std::istringstream is(text); std::string w;
        while (is >> w) { char* e; v.push_back(strtod(w.c_str(), &e)); if (*e) rig::fail("xml-data", "<" + name + "> contains " + w + ", not a number"); } return v;
    }
};

class XmlReader {
    const std::string& s; size_t p = 0; std::string file;
    [[noreturn]] void bad(const std::string& m) { rig::fail("xml-malformed", file + ": " + m + " near offset " + std::to_string(p) + ": " + s.substr(p > 30 ? p - 30 : 0, 80)); }
    static bool nameStart(char c) { return isalpha((unsigned char) c) || c == '_' || c == ':'; }
    static bool nameChar(char c) { return nameStart(c) || isdigit((unsigned char) c) || c == '-' || c == '.'; }
    void ws() { while (p < s.size() && isspace((unsigned char) s[p])) p++; }
    std::string name() { size_t a = p; if (p >= s.size() || !nameStart(s[p])) bad("name expected"); while (p < s.size() && nameChar(s[p])) p++; return s.substr(a, p - a); }
    std::string unescape(const std::string& t) {
        std::string o; for (size_t i = 0; i < t.size(); i++) {
            if (t[i] == '<') bad("unescaped <"); if (t[i] != '&') { o += t[i]; continue; }
            size_t e = t.find(';', i); if (e == std::string::npos) bad("unescaped &"); std::string n = t.substr(i + 1, e - i - 1); i = e;
            if (n == "lt") o += '<'; else if (n == "gt") o += '>'; else if (n == "amp") o += '&'; else if (n == "quot") o += '"'; else if (n == "apos") o += '\'';
            else if (n.size() > 1 && n[0] == '#') { int base = n[1] == 'x' ? 16 : 10; char* q; long v = strtol(n.c_str() + (base == 16 ? 2 : 1), &q, base); if (*q || v <= 0 || v > 127) bad("bad character reference &" + n + ";"); o += char(v); }
            else bad("unknown entity &" + n + ";");
        } return o;
    }
    Elem element() {
        Elem e; if (s[p] != '<') bad("< expected"); p++; e.name = name();
        for (;;) {
            size_t b = p; ws(); if (p >= s.size()) bad("unterminated tag");
            if (s[p] == '/') { if (s.compare(p, 2, "/>")) bad("/> expected"); p += 2; return e; }
            if (s[p] == '>') { p++; break; }
            if (b == p) bad("white space expected before attribute");
            std::string k = name(); ws(); if (p >= s.size() || s[p] != '=') bad("= expected"); p++; ws();
            if (p >= s.size() || (s[p] != '"' && s[p] != '\'')) bad("quoted value expected"); char q = s[p++]; size_t a = p; while (p < s.size() && s[p] != q) p++; if (p >= s.size()) bad("unterminated value");
            std::string v = unescape(s.substr(a, p - a)); p++; if (e.attr(k)) bad("attribute " + k + " given twice"); e.attrs.push_back({k, v});
        }
        for (;;) {
            size_t a = p; while (p < s.size() && s[p] != '<') p++; if (p >= s.size()) bad("<" + e.name + "> is not closed");
            e.text += unescape(s.substr(a, p - a));
            if (!s.compare(p, 4, "<!--")) { size_t q = s.find("-->", p + 4); if (q == std::string::npos) bad("unterminated comment"); p = q + 3; continue; }
            if (!s.compare(p, 2, "</")) { p += 2; std::string n = name(); if (n != e.name) bad("</" + n + "> closes <" + e.name + ">"); ws(); if (p >= s.size() || s[p] != '>') bad("> expected"); p++; return e; }
            e.kids.push_back(element());
        }
    }
public:
    XmlReader(const std::string& text, std::string f) : s(text), file(std::move(f)) {}
    Elem document() {
        ws(); if (!s.compare(p, 5, "<?xml")) { size_t q = s.find("?>", p); if (q == std::string::npos) bad("unterminated declaration"); p = q + 2; } else bad("no XML declaration");
        ws(); if (p >= s.size()) bad("no root element"); Elem e = element(); ws(); if (p != s.size()) bad("text after the root element"); return e;
    }
};
inline bool fileExists(const std::string& f) { std::ifstream g(f); return bool(g); }
inline std::string slurp(const std::string& f) {
    std::ifstream g(f, std::ios::binary); if (!g) rig::fail("file-missing", "file " + f + " was not written"); std::ostringstream o; o << g.rdbuf(); if (rig::current) rig::current->mix(o.str()); return o.str();
}
inline Elem readXml(const std::string& f) { std::string t = slurp(f); return XmlReader(t, f).document(); }

} // namespace vf
#endif
