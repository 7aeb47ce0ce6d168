// Choice-sequence property-based testing engine.
//
// A property is a function of a Src (the only source of randomness).  Every
// generated value is a bounded integer drawn from the Src; the recorded list of
// draws *is* the test case: it is what shrinks (delete / lower entries), what is
// replayed, and what is mutated by the coverage-guided mode.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
    std::string msg;
    std::string key;    // classification of the failure (for known findings)
};
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

// Shared page so that the choices survive a crash of this process.
struct Journal {
    static const size_t MAX = 1 << 16;
    volatile uint64_t index;
    volatile uint64_t n;
    volatile uint64_t choice[MAX];
};
extern Journal *journal;

class Src {
    std::vector<uint64_t> given;
    bool replaying;
    uint64_t state;
public:
    std::vector<uint64_t> rec;
    std::ostringstream desc;            // human readable description of the case
    std::set<std::string> labels;
    bool is_nontrivial = false;
    double unit = 1;                    // of intensity, used by the generators of models
    void choose_unit() { if (chance(1, 8)) unit = pick({0.02, 15.0}); }

    explicit Src(uint64_t seed) : replaying(false), state(seed) { start(); }
    explicit Src(const std::vector<uint64_t> &c) : given(c), replaying(true), state(0) { start(); }
    void start() { if (journal) journal->n = 0; desc.precision(17); }

    // uniform in [0, n)
    uint64_t draw(uint64_t n) {
        if (n == 0) n = 1;
        uint64_t v;
        if (replaying) {
            v = rec.size() < given.size() ? given[rec.size()] : 0;
            if (v >= n) v = n - 1;
        } else {
            v = n == 1 ? 0 : splitmix(state) % n;
        }
        rec.push_back(v);
        if (journal && journal->n < Journal::MAX) {
            journal->choice[journal->n] = v;
            journal->n = journal->n + 1;
        }
        return v;
    }
    // integer in [lo, hi] shrinking towards lo
    long integer(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo) + 1); }
    // a size: usually in [lo, hi], occasionally up to big
    long size(long lo, long hi, long big) { return chance(1, 16) ? integer(lo, big) : integer(lo, hi); }
    bool boolean() { return draw(2) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    // real in [lo, hi]; shrinks towards lo; endpoints are over-represented
    double real(double lo, double hi) {
        const uint64_t N = 1 << 20;
        uint64_t k = draw(N + N / 32);
        if (k > N) k = N;
        if (k == N) return hi;
        return lo + (hi - lo) * ((double)k / (double)N);
    }
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    template <class T> T pick(std::initializer_list<T> l) {
        return *(l.begin() + draw(l.size()));
    }
    template <class T> const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }
    // weighted choice; returns index
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned tot = 0;
        for (unsigned x : w) tot += x;
        uint64_t k = draw(tot);
        size_t i = 0;
        for (unsigned x : w) { if (k < x) return i; k -= x; i++; }
        return w.size() - 1;
    }
    void nontrivial() { is_nontrivial = true; }
    void label(const std::string &s) { labels.insert(s); }
    std::set<std::string> known;        // listed findings this case ran into
    // A failure identified as the finding `key`: tolerated only if known_findings.json lists it.
    void finding(const std::string &key, const std::string &msg) {
        const char *e = std::getenv("PBT_KNOWN");
        std::string l = std::string(",") + (e ? e : "") + ",";
        if (l.find("," + key + ",") == std::string::npos) throw Fail{msg, key};
        known.insert(key);
    }
};

typedef void (*PropFn)(Src &);
struct Prop { std::string name; PropFn fn; std::string rule; };
std::vector<Prop> &registry();
struct Reg { Reg(const char *n, PropFn f, const char *rule) { registry().push_back({n, f, rule}); } };
#define PROP(name, rule) \
    static void prop_##name(pbt::Src &s); \
    static pbt::Reg reg_##name(#name, prop_##name, rule); \
    static void prop_##name(pbt::Src &s)

// ---- assertions -----------------------------------------------------------
template <class... A> std::string cat(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int>{((void)(o << a), 0)...};
    return o.str();
}
[[noreturn]] inline void fail(const std::string &m, const std::string &key = "") { throw Fail{m, key}; }
inline void check(bool ok, const std::string &m) { if (!ok) fail(m); }

// equal up to relative tolerance `rel` of the larger, or absolute `abs_`; NaN==NaN; inf==inf
inline bool close(double a, double b, double rel, double abs_ = 0) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= std::max(abs_, rel * std::max(std::fabs(a), std::fabs(b)));
}
inline void eq(double got, double want, double rel, double abs_, const std::string &what) {
    if (!close(got, want, rel, abs_))
        fail(cat(what, ": got ", got, ", expected ", want, " (rel ", rel, ", abs ", abs_, ")"));
}
}
