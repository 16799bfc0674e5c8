// Property-based testing rig shared by every harness in this directory.
//
// A case is a finite sequence of 32-bit choices.  rapidcheck generates it (seeded through
// RC_PARAMS only), the property decodes it into structured arguments through Src, and the
// property reports a failure by throwing rig::Fail.  The same sequence is the replay file,
// so shrinking and replay work identically for every property (and for process crashes,
// which bin/check.py shrinks from the outside).  Exhausted sequences decode as zeros, and
// every decoder maps 0 to its simplest value.
#ifndef RIG_HPP_
#define RIG_HPP_

#include <mpi.h>


#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace rig {

struct Fail {
    std::string key;  // short stable class of the failure (used by the known-findings file)
    std::string msg;
};

[[noreturn]] inline void fail(std::string key, std::string msg) { throw Fail{std::move(key), std::move(msg)}; }

struct Src {
    std::vector<uint32_t> v;
    size_t pos = 0;
    uint32_t next() { uint32_t r = pos < v.size() ? v[pos] : 0u; pos++; return r; }
    bool more() const { return pos < v.size(); }
    int range(int lo, int hi) { if (hi <= lo) { next(); return lo; } return lo + int(next() % uint32_t(hi - lo + 1)); }
    bool chance(int pct) { return int(next() % 100u) >= 100 - pct; }
    int sint(int mag) { uint32_t k = next() % (2*uint32_t(mag) + 1); return (k & 1) ? -int((k + 1)/2) : int(k/2); }
    // signed "ordinary" real, |x| <= mag; 0 first
    double real(double mag) {
        uint32_t k = next();
        if (k % 3 == 0) { int q = int((k/3) % 33u); q = (q & 1) ? -(q + 1)/2 : q/2; return mag*q/16.0; }
        uint32_t r = (k/3) % 2000001u; double d = (r & 1) ? -double((r + 1)/2) : double(r/2);
        return mag*d/1000000.0;
    }
    double pos_real(double lo, double hi) { uint32_t k = next() % 1000001u; return lo + (hi - lo)*k/1000000.0; }
    template<class T> const T& pick(const std::vector<T>& xs) { return xs[next() % xs.size()]; }
};

// many decisions expanded from one choice, so that large cases do not use up the sequence
inline Src expand(Src& s, size_t n) { Src q; uint32_t z = s.next(); for (size_t i = 0; i < n; i++) { z = z*1664525u + 1013904223u; q.v.push_back((z >> 12) ^ z); } return q; }

struct Ctx {
    bool nontrivial = false;
    std::ostringstream desc;
    std::vector<std::string> tags;
    std::map<std::string, double> maxima;
    void tag(const std::string& t) { tags.push_back(t); }
    void maximum(const std::string& k, double x) { auto it = maxima.find(k); if (it == maxima.end() || x > it->second) maxima[k] = x; }
    // fingerprint of results, compared between two runs of the same case in fresh memory of different content
    uint64_t digest = 1469598103934665603ull;
    void mix(const void* p, size_t n) { const unsigned char* q = (const unsigned char*) p; for (size_t i = 0; i < n; i++) digest = (digest ^ q[i])*1099511628211ull; }
    void mix(double x) { if (x == 0) x = 0; mix(&x, sizeof x); }
    void mix(const std::string& s) { mix(s.data(), s.size()); }
    // multi-rank mode: record instead of throwing (a throw on one rank would strand the others)
    bool soft = false; Fail first; bool failed = false;
    void check(bool ok, const std::string& key, const std::string& msg) {
        if (ok) return;
        if (!soft) fail(key, msg);
        if (!failed) { failed = true; first = Fail{key, msg}; }
    }
};

inline Ctx* current = nullptr;  // the context of the running case
using Prop = std::function<void(Src&, Ctx&)>;
struct Sub { std::string name; int choices; Prop prop; std::string rule; };

// Entry point; call after MPI/PETSc initialisation.
int run(int argc, char** argv, std::vector<Sub> subs);

} // namespace rig

#endif
