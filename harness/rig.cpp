// The engine behind rig.hpp: generation (rapidcheck), shrinking, replay, statistics, multi-rank lock step.
#include <rapidcheck.h>

#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <unistd.h>

#include "rig.hpp"

namespace rig {

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c);
    }
    return o;
}

struct Opts { std::string watch, mode = "gen", sub, replay, out, failfile, cur, known; double cap = 1e9; int shrink = 300; };

struct Runner {
    Opts o; std::vector<Sub> subs; int rank = 0, size = 1; MPI_Comm comm = MPI_COMM_NULL;
    long evals = 0, nontrivial = 0, skipped = 0; std::unordered_set<uint64_t> distinct;
    std::map<std::string, long> tags; std::map<std::string, double> maxima; std::vector<std::string> samples;
    std::map<std::string, long> knownhits; std::map<std::string, std::string> knownsample;
    std::set<std::string> known; char* curmap = nullptr; size_t curcap = 1 << 20;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    bool havefail = false; std::vector<uint32_t> failcase; Fail failinfo; std::string faildesc; long shrinkruns = 0;
    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    static std::string text(const std::string& sub, const std::vector<uint32_t>& v) {
        std::string s = "sub " + sub + "\nchoices";
        for (auto x : v) s += " " + std::to_string(x);
        return s + "\n";
    }
    void writecur(const Sub& s, const std::vector<uint32_t>& v) {
        if (!curmap) return;
        std::string t = text(s.name, v);
        if (t.size() + 1 > curcap) return;
        memcpy(curmap, t.c_str(), t.size() + 1);
    }
    // Leaves a byte pattern in fresh heap blocks and in the unused part of the stack.
    __attribute__((noinline)) static void pattern(int b) {
#if !defined(__SANITIZE_ADDRESS__)
        mallopt(M_PERTURB, b);
#endif
        volatile char room[192*1024]; for (size_t i = 0; i < sizeof room; i++) room[i] = char(b);
    }
    // Runs one case on every rank.  Returns true when it passed.
    struct Res { bool ok = true; Fail f; std::string desc; bool nontrivial = false; size_t used = 0; std::vector<std::string> tags; std::map<std::string, double> maxima; uint64_t digest = 0; };
    Res once(const Sub& s, const std::vector<uint32_t>& v) {
        Src src; src.v = v; Ctx c; c.soft = size > 1; current = &c; Res r;
        try { s.prop(src, c); if (c.failed) throw c.first; }
        catch (const Fail& f) { r.ok = false; r.f = f; }
        catch (const std::exception& e) { r.ok = false; r.f = Fail{"exception", std::string("unexpected exception: ") + e.what()}; if (size > 1) die(r.f); }
        catch (...) { r.ok = false; r.f = Fail{"exception", "unexpected non-standard exception"}; if (size > 1) die(r.f); }
        r.desc = c.desc.str(); r.nontrivial = c.nontrivial; r.used = std::min(src.pos, v.size()); r.tags = c.tags; r.maxima = c.maxima; r.digest = c.digest;
        return r;
    }
    static std::string differ(const Res& a, const Res& b) {
        if (a.ok != b.ok || (!a.ok && (a.f.key != b.f.key || a.f.msg != b.f.msg))) return "verdict '" + (a.ok ? "pass" : a.f.msg) + "' against '" + (b.ok ? "pass" : b.f.msg) + "'";
        if (a.desc != b.desc) return "description"; if (a.tags != b.tags) return "tags"; if (a.digest != b.digest) return "digest of all results";
        for (auto& [k, x] : a.maxima) if (!b.maxima.count(k) || memcmp(&x, &b.maxima.at(k), sizeof x)) return k + " " + std::to_string(x) + " against " + (b.maxima.count(k) ? std::to_string(b.maxima.at(k)) : "nothing");
        return "";
    }
    Res one(const Sub& s, const std::vector<uint32_t>& v) {
        if (rank == 0) writecur(s, v);
        if (size > 1 && rank == 0) {
            int n = int(v.size()), cmd = 1; int si = int(&s - subs.data()); int hdr[3] = {cmd, si, n};
            MPI_Bcast(hdr, 3, MPI_INT, 0, comm);
            MPI_Bcast(const_cast<uint32_t*>(v.data()), n, MPI_UNSIGNED, 0, comm);
        }
        Res r = once(s, v);
        if (o.watch == "fill") {
            auto with = [&](int b) { pattern(b); Res x = once(s, v); pattern(0); return x; };
            Res a = with(0x5a), b = with(0xff); r = a; std::string d = differ(a, b); int both[2] = {!d.empty(), 0};
            if (size > 1) { MPI_Allreduce(&both[0], &both[1], 1, MPI_INT, MPI_MAX, comm); both[0] = both[1]; }
            if (both[0]) { Res a2 = with(0x5a), b2 = with(0xff); if (!differ(a, a2).empty() || !differ(b, b2).empty()) { d = ""; r.tags.push_back("results vary between equal runs"); } }
            r.ok = d.empty(); r.f = Fail{"uninitialised", "the outcome depends on the content of fresh memory: " + d};
        } else if (o.watch == "mem" && !r.ok) { r.ok = true; r.tags.push_back("failures of other properties (ignored here)"); }
        if (size > 1) {
            int bad = r.ok ? size : rank, who; MPI_Allreduce(&bad, &who, 1, MPI_INT, MPI_MIN, comm);
            if (who < size) {
                char buf[2048]; memset(buf, 0, sizeof buf);
                if (rank == who) snprintf(buf, sizeof buf, "%s\n[rank %d] %s", r.f.key.c_str(), rank, r.f.msg.c_str());
                MPI_Bcast(buf, sizeof buf, MPI_CHAR, who, comm);
                std::string t(buf); auto p = t.find('\n'); r.ok = false; r.f = Fail{t.substr(0, p), t.substr(p + 1)};
            }
        }
        return r;
    }
    void die(const Fail& f) {  // an exception on one rank of several: the others may be inside a collective
        if (!o.failfile.empty()) { std::ofstream g(o.failfile + ".rank" + std::to_string(rank)); g << f.key << "\n" << f.msg << "\n"; }
        std::cerr << "[rank " << rank << "] " << f.msg << std::endl;
        MPI_Abort(MPI_COMM_WORLD, 77);
    }
    void serve() {  // ranks > 0
        for (;;) {
            int hdr[3]; MPI_Bcast(hdr, 3, MPI_INT, 0, comm);
            if (hdr[0] == 0) return;
            std::vector<uint32_t> v(hdr[2]); MPI_Bcast(v.data(), hdr[2], MPI_UNSIGNED, 0, comm);
            one(subs[hdr[1]], v);
        }
    }
    void stop() { if (size > 1 && rank == 0) { int hdr[3] = {0, 0, 0}; MPI_Bcast(hdr, 3, MPI_INT, 0, comm); } }

    // In-process shrinking over the choice sequence: truncate, delete blocks, zero blocks, reduce values.
    void shrink(const Sub& s) {
        auto better = [&](const std::vector<uint32_t>& cand) {
            if (shrinkruns >= o.shrink) return false;
            shrinkruns++;
            Res r = one(s, cand);
            if (r.ok || r.f.key != failinfo.key) return false;
            failcase = cand; failcase.resize(std::min(failcase.size(), r.used));
            failinfo = r.f; faildesc = r.desc; return true;
        };
        bool progress = true;
        while (progress && shrinkruns < o.shrink) {
            progress = false;
            for (size_t len = std::max<size_t>(1, failcase.size()/2); len >= 1; len /= 2) {
                for (size_t i = 0; i + len <= failcase.size() && shrinkruns < o.shrink;) {
                    auto c = failcase; c.erase(c.begin() + i, c.begin() + i + len);
                    if (better(c)) { progress = true; continue; }
                    c = failcase; bool nz = false;
                    for (size_t k = i; k < i + len; k++) { nz |= c[k] != 0; c[k] = 0; }
                    if (nz && better(c)) { progress = true; }
                    i += len;
                }
                if (len == 1) break;
            }
            for (size_t i = 0; i < failcase.size() && shrinkruns < o.shrink; i++) {
                for (uint32_t d : {2u, 16u, 65536u}) {
                    if (failcase.size() <= i || failcase[i] == 0) break;
                    auto c = failcase; c[i] /= d; if (better(c)) { progress = true; }
                }
            }
        }
    }
    void record(const Sub& s, const std::vector<uint32_t>& v, const Res& r) {
        evals++;
        for (auto& t : r.tags) tags[t]++;
        for (auto& [k, x] : r.maxima) { auto it = maxima.find(k); if (it == maxima.end() || x > it->second) maxima[k] = x; }
        if (r.nontrivial) {
            nontrivial++;
            uint64_t h = 1469598103934665603ull; for (char ch : s.name) h = (h ^ uint8_t(ch))*1099511628211ull;
            for (size_t i = 0; i < r.used; i++) h = (h ^ v[i])*1099511628211ull;
            if (distinct.insert(h).second && (samples.size() < 2 || (distinct.size() == 40 && samples.size() < 3)))
                samples.push_back(s.name + ": " + r.desc.substr(0, 700));
        }
    }
    void writefail(const Sub& s) {
        std::ofstream g(o.failfile); g << text(s.name, failcase);
        g << "key " << failinfo.key << "\n# " << s.name << "\n";
        std::istringstream is(failinfo.msg + "\ncase: " + faildesc); std::string l; while (std::getline(is, l)) g << "# " << l << "\n";
    }
    int gen(const Sub& s) {
        bool aborted = false;
        bool ok = rc::check(s.name, [&]() {
            auto v = *rc::gen::noShrink(rc::gen::resize(100, rc::gen::container<std::vector<uint32_t>>(size_t(s.choices), rc::gen::inRange<uint32_t>(0u, 2147483647u))));
            if (elapsed() > o.cap) { skipped++; return; }
            Res r = one(s, v);
            record(s, v, r);
            if (!r.ok && known.count(r.f.key)) { knownhits[r.f.key]++; if (!knownsample.count(r.f.key)) knownsample[r.f.key] = r.f.msg + " | " + r.desc; return; }
            if (!r.ok) {
                havefail = true; failcase = v; failcase.resize(r.used); failinfo = r.f; faildesc = r.desc;
                shrink(s); writefail(s);
                RC_FAIL(failinfo.key + ": " + failinfo.msg);
            }
        });
        if (!ok && !havefail) aborted = true;
        writestats(s, ok, aborted);
        return ok ? 0 : (havefail ? 1 : 3);
    }
    void writestats(const Sub& s, bool ok, bool aborted) {
        std::ofstream g(o.out); g << "{\"sub\":\"" << jesc(s.name) << "\",\"rule\":\"" << jesc(s.rule) << "\",\"ok\":" << (ok ? "true" : "false") << ",\"aborted\":" << (aborted ? "true" : "false")
          << ",\"evaluations\":" << evals << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size() << ",\"skipped_by_time_cap\":" << skipped << ",\"seconds\":" << elapsed() << ",\"tags\":{";
        bool f = true; for (auto& [k, n] : tags) { g << (f ? "" : ",") << "\"" << jesc(k) << "\":" << n; f = false; }
        g << "},\"maxima\":{"; f = true; for (auto& [k, n] : maxima) { g << (f ? "" : ",") << "\"" << jesc(k) << "\":"; if (std::isfinite(n)) g << n; else g << "\"nonfinite\""; f = false; }
        g << "},\"known\":{"; f = true; for (auto& [k, n] : knownhits) { g << (f ? "" : ",") << "\"" << jesc(k) << "\":[" << n << ",\"" << jesc(knownsample[k]) << "\"]"; f = false; }
        g << "},\"samples\":["; f = true; for (auto& t : samples) { g << (f ? "" : ",") << "\"" << jesc(t) << "\""; f = false; }
        g << "]}\n";
    }
    int replay() {
        std::ifstream in(o.replay); std::string w, name; std::vector<uint32_t> v; std::string line;
        while (std::getline(in, line)) {
            std::istringstream is(line); is >> w;
            if (w == "sub") is >> name; else if (w == "choices") { uint32_t x; while (is >> x) v.push_back(x); }
        }
        for (auto& s : subs) if (s.name == name) {
            Res r = one(s, v);
            std::cerr << "replay " << name << ": " << (r.ok ? "PASS" : "FAIL") << "\n" << r.desc << "\n";
            if (!r.ok) { std::cerr << "key " << r.f.key << "\n" << r.f.msg << std::endl;
                if (!o.out.empty()) { std::ofstream g(o.out); g << "key " << r.f.key << "\n" << r.f.msg << "\n"; } }
            return r.ok ? 0 : (known.count(r.f.key) ? 0 : 1);
        }
        std::cerr << "no sub-property named " << name << std::endl; return 3;
    }
};

// Entry point; call after MPI/PETSc initialisation.
int run(int argc, char** argv, std::vector<Sub> subs) {
    Runner R; R.subs = std::move(subs);
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") { for (auto& s : R.subs) std::cout << s.name << "\n"; return 0; }
        else if (a == "--sub") R.o.sub = val(); else if (a == "--watch") R.o.watch = val(); else if (a == "--replay") { R.o.mode = "replay"; R.o.replay = val(); }
        else if (a == "--out") R.o.out = val(); else if (a == "--fail") R.o.failfile = val(); else if (a == "--cur") R.o.cur = val();
        else if (a == "--known") R.o.known = val(); else if (a == "--cap") R.o.cap = atof(val().c_str()); else if (a == "--shrink") R.o.shrink = atoi(val().c_str());
    }
    { std::istringstream is(R.o.known); std::string k; while (std::getline(is, k, ',')) if (!k.empty()) R.known.insert(k); }
    int inited = 0; MPI_Initialized(&inited);
    if (inited) { MPI_Comm_dup(MPI_COMM_WORLD, &R.comm); MPI_Comm_rank(R.comm, &R.rank); MPI_Comm_size(R.comm, &R.size); }
    if (!R.o.cur.empty() && R.rank == 0) {
        int fd = open(R.o.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, R.curcap) == 0) { void* p = mmap(nullptr, R.curcap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) R.curmap = (char*) p; }
        if (fd >= 0) close(fd);
    }
    int rcv = 3;
    if (R.rank > 0) { R.serve(); rcv = 0; }
    else if (R.o.mode == "replay") { rcv = R.replay(); R.stop(); }
    else { for (auto& s : R.subs) if (s.name == R.o.sub) rcv = R.gen(s); R.stop(); }
    if (R.comm != MPI_COMM_NULL) MPI_Comm_free(&R.comm);
    return rcv;
}

} // namespace rig
