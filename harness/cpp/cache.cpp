// C17: memoised functions and values under scheduled concurrent calls, clears, slow and failing calculations.
#include "common.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace pbt;
using std::vector; using std::shared_ptr;

namespace {
struct Oops { long calc; };
thread_local long current_call = -1;
thread_local int current_thread = 0;
thread_local int depth = 0;

struct Calc { double arg; long call; long start, end = 0; bool threw = false; };
struct Call { double arg; long invoke, ret = 0; long calc = -1; bool threw = false; bool main = false; };
struct Clear { long invoke, ret = 0; };

// everything the threads touch; kept alive by the threads themselves should they never end
struct State {
    std::mutex m;
    std::condition_variable cv;
    long clock = 0;
    vector<Calc> calcs; vector<Call> calls; vector<Clear> clears;
    struct Gate { bool open; double arg; };
    std::map<long, Gate> gates;      // calculations held up
    bool all_open = false;
    vector<int> plan;                // what the n-th calculation does
    int waited = 0, cleared_under_way = 0, thrown_under_way = 0;
    std::function<double (double)> cached;            // the memoised function (or value: argument ignored)
    std::function<void ()> clear;
    bool value = false;

    // the underlying calculation; its result identifies it
    double calculate(double v) {
        std::unique_lock<std::mutex> l(m);
        long id = (long)calcs.size();
        calcs.push_back({v, current_call, ++clock});
        int p = plan.empty() ? 0 : plan[id % plan.size()];
        if ((p & 1) && !all_open) {
            gates[id] = {false, v};
            cv.notify_all();
            cv.wait(l, [&]() { return all_open || gates[id].open; });
            gates.erase(id);
        }
        int kind = p >> 1;
        if (kind == 2 && !value && depth == 0 && v < 1) {      // uses the memoised function itself, for another argument
            depth++;
            l.unlock();
            try { cached(v + 10); } catch (Oops &) {}
            l.lock();
            depth--;
        }
        if (kind == 3) { l.unlock(); do_clear(); l.lock(); }
        calcs[id].end = ++clock;
        if (kind == 1) { calcs[id].threw = true; if (calls_pending(v) > 1) thrown_under_way++; l.unlock(); throw Oops{id}; }
        return (double)id;
    }
    int calls_pending(double v) { int n = 0; for (auto &c : calls) n += c.ret == 0 && same(c.arg, v); return n; }
    bool same(double a, double b) { return value || a == b; }
    void do_clear() {
        std::unique_lock<std::mutex> l(m);
        size_t k = clears.size();
        clears.push_back({++clock});
        for (auto &c : calcs) if (!c.end) { cleared_under_way++; break; }
        l.unlock();
        clear();
        l.lock();
        clears[k].ret = ++clock;
    }
    void do_call(double v, bool main = false) {
        std::unique_lock<std::mutex> l(m);
        long k = (long)calls.size();
        if (calls_pending(v)) waited++;
        calls.push_back({v, ++clock});
        calls[k].main = main;
        l.unlock();
        long outer = current_call;
        current_call = k;
        double r = -1; bool threw = false;
        try { r = cached(v); } catch (Oops &o) { r = (double)o.calc; threw = true; }
        current_call = outer;
        l.lock();
        calls[k].calc = (long)r; calls[k].threw = threw; calls[k].ret = ++clock;
        cv.notify_all();
    }
};
struct Worker {
    struct Job { int what = 0; double v = 0; };
    std::mutex m; std::condition_variable cv;
    Job job; bool busy = false, quit = false;
    void run(shared_ptr<State> st) {
        std::unique_lock<std::mutex> l(m);
        while (true) {
            cv.wait(l, [&]() { return busy || quit; });
            if (!busy) return;
            Job j = job;
            l.unlock();
            if (j.what == 0) st->do_call(j.v); else st->do_clear();
            l.lock();
            busy = false;
            cv.notify_all();
        }
    }
    bool give(Job j) { std::unique_lock<std::mutex> l(m); if (busy) return false; job = j; busy = true; cv.notify_all(); return true; }
    bool idle() { std::unique_lock<std::mutex> l(m); return !busy; }
    bool finish(std::chrono::seconds t) {
        std::unique_lock<std::mutex> l(m);
        if (!cv.wait_for(l, t, [&]() { return !busy; })) return false;
        quit = true;
        cv.notify_all();
        return true;
    }
};

void verify(Src &s, State &st, bool active) {
    // 1. every call got the outcome of a calculation for its argument
    for (auto &c : st.calls) {
        check(c.calc >= 0 && c.calc < (long)st.calcs.size(), cat("a call with argument ", c.arg, " returned ", c.calc, ", which no calculation returned"));
        const Calc &k = st.calcs[c.calc];
        bool nan = std::isnan(c.arg);
        check(nan ? std::isnan(k.arg) || st.value : st.same(k.arg, c.arg), cat("a call with argument ", c.arg, " returned the result for ", k.arg));
        check(k.threw == c.threw, cat("a call with argument ", c.arg, (c.threw ? " threw" : " returned"), " though its calculation ", (k.threw ? "threw" : "returned")));
        check(k.start < c.ret, "a call returned a result before it was calculated");
        if (c.threw) check(k.end > c.invoke, cat("a call with argument ", c.arg, " was given an exception from before it"));
        if (!st.value && (nan || !active)) check(k.call == &c - &st.calls[0], cat("a call with argument ", c.arg, (nan ? "" : " of a disabled cache"), " was given another call's result"));
        // 2. nothing computed before a completed clear
        for (auto &e : st.clears)
            if (e.ret && e.ret < c.invoke) check(k.start > e.invoke, cat("a call with argument ", c.arg, " returned a result computed before an earlier clear"));
    }
    // 3. calculated once until cleared
    if (active || st.value)
        for (size_t j = 0; j < st.calcs.size(); j++)
            for (size_t i = 0; i < j; i++) {
                const Calc &a = st.calcs[i], &b = st.calcs[j];
                if (a.threw || std::isnan(a.arg) || std::isnan(b.arg) || !st.same(a.arg, b.arg) || a.call < 0) continue;
                long from = st.calls[a.call].invoke;
                bool excused = false;
                for (auto &e : st.clears) if (e.invoke < b.start && (!e.ret || e.ret > from)) excused = true;
                check(excused, cat("the result for ", a.arg, " was calculated again though nothing was cleared"));
            }
}

void scenario(Src &s, bool value) {
    auto st = std::make_shared<State>();
    st->value = value;
    bool active = value || !s.chance(1, 12);
    auto fn = value ? nullptr : std::make_shared<Caching::CachedFunction<double, double>>([st = st.get()] (double v) { return st->calculate(v); }, "f", active);
    auto val = value ? std::make_shared<Caching::CachedValue<double>>([st = st.get()] (void) { return st->calculate(0); }, "v") : nullptr;
    bool global = s.chance(1, 3);            // clear through the registry
    if (value) { st->cached = [val] (double) { return (*val)(); }; st->clear = [val, global] () { if (global) Caching::Clear_Caches(); else val->ClearCache(); }; }
    else { st->cached = [fn] (double v) { return (*fn)(v); }; st->clear = [fn, global] () { if (global) Caching::Clear_Caches(); else fn->ClearCache(); }; }
    int np = (int)s.integer(1, 6);
    // bit 0: held up until the schedule releases it; 0 plain, 1 throws, 2 nested use, 3 clears
    for (int i = 0; i < np; i++) st->plan.push_back((int)(s.boolean() | s.weighted({8, 3, 1, 1}) << 1));
    int nt = (int)s.integer(1, 4);
    vector<shared_ptr<Worker>> w;
    for (int i = 0; i < nt; i++) {
        w.push_back(std::make_shared<Worker>());
        std::thread([w = w.back(), st] () { w->run(st); }).detach();
    }
    const vector<double> args{0, 0, 0, 1, 0.5, INFINITY, -3, NAN};
    s.desc << (value ? "value" : active ? "function" : "function, caching off") << " plan";
    for (int p : st->plan) s.desc << " " << (p & 1 ? "held-" : "") << (p >> 1 == 0 ? "plain" : p >> 1 == 1 ? "throws" : p >> 1 == 2 ? "nested" : "clears");
    s.desc << " |";
    int steps = (int)s.integer(2, 25);
    for (int k = 0; k < steps; k++) {
        switch (s.weighted({8, 5, 3, 1})) {
        case 0: {
            size_t t = (size_t)s.integer(0, nt - 1);
            double v = value ? 0 : args[s.integer(0, 7)];
            if (w[t]->give({0, v})) s.desc << " t" << t << ":call(" << v << ")";
            break; }
        case 1: {
            std::unique_lock<std::mutex> l(st->m);
            size_t which = (size_t)s.integer(0, 3), open = 0;
            for (auto &g : st->gates) open += !g.second.open;
            if (!open) break;
            which %= open;
            for (auto &g : st->gates) if (!g.second.open && which-- == 0) { g.second.open = true; s.desc << " release(" << g.second.arg << ")"; break; }
            st->cv.notify_all();
            break; }
        case 2: s.desc << " clear"; st->do_clear(); break;
        default: {
            size_t t = (size_t)s.integer(0, nt - 1);
            if (w[t]->give({1, 0})) s.desc << " t" << t << ":clear";
        } }
        switch (s.integer(0, 3)) {              // let the threads settle, or not
        case 0: break;
        case 1: std::this_thread::yield(); break;
        default: std::this_thread::sleep_for(std::chrono::microseconds(150));
        }
    }
    { std::unique_lock<std::mutex> l(st->m); st->all_open = true; st->cv.notify_all(); }
    for (auto &x : w) check(x->finish(std::chrono::seconds(20)), "a caller never returned");
    // still usable, and clearing still works
    { std::unique_lock<std::mutex> l(st->m); st->plan.clear(); }
    for (double v : {0.0, 1.0}) { st->do_call(v); st->do_call(v); }
    st->do_clear();
    for (double v : {0.0, 1.0}) { st->do_call(v); st->do_call(v); }
    verify(s, *st, active);
    if (st->waited && (st->cleared_under_way || st->thrown_under_way)) s.nontrivial();
    st->cached = nullptr; st->clear = nullptr;
}
}

PROP(c17_function, "a memoised function called by 1..4 threads with 7 arguments, its calculations held up, failing, nested or clearing by plan, 2..25 scheduled calls, releases and clears; the history is checked; "
     "non-trivial: concurrent calls for one argument, and a clear or exception during a calculation") { scenario(s, false); }
PROP(c17_value, "a memoised value, as c17_function") { scenario(s, true); }

PROP(c17_registry, "a changing population of memoised functions and values (created and destroyed in any order), used, cleared singly or all at once, against counts; "
     "non-trivial: a global clear with a population that had shrunk and grown") {
    struct C { shared_ptr<Caching::CachedFunction<double, double>> f; shared_ptr<Caching::CachedValue<double>> v; shared_ptr<std::map<double, int>> n; std::map<double, int> want; std::set<double> have; double k; bool active = true; };
    vector<C> c;
    bool shrunk = false, grown = false;
    int steps = (int)s.integer(5, 60);
    double serial = 0;
    for (int i = 0; i < steps; i++) {
        switch (s.weighted({3, 2, 8, 2, 2})) {
        case 0: {
            C x;
            x.n = std::make_shared<std::map<double, int>>();
            x.k = ++serial;
            auto n = x.n; double k = x.k;
            if (s.boolean()) x.v = std::make_shared<Caching::CachedValue<double>>([n, k] () { (*n)[0]++; return k; });
            else {
                x.active = !s.chance(1, 6);
                auto f = [n, k] (double v) { (*n)[v]++; return k * 1000 + v; };
                if (x.active) x.f = std::make_shared<Caching::CachedFunction<double, double>>(f);
                else x.f = std::make_shared<Caching::CachedFunction<double, double>>(f, "off", false);
            }
            c.push_back(x);
            if (shrunk) grown = true;
            s.desc << " +" << x.k;
            break; }
        case 1: if (!c.empty()) { size_t k = (size_t)s.integer(0, c.size() - 1); s.desc << " -" << c[k].k; c.erase(c.begin() + k); shrunk = true; } break;
        case 2: if (!c.empty()) {
            C &x = c[s.integer(0, c.size() - 1)];
            double a = x.v ? 0 : s.pick({0.0, 1.0, 2.5, -7.0});
            double got = x.v ? (*x.v)() : (*x.f)(a);
            s.desc << " " << x.k << "(" << a << ")";
            eq(got, x.v ? x.k : x.k * 1000 + a, 0, 0, "result");
            if (!x.active || !x.have.count(a)) x.want[a]++;
            x.have.insert(a);
            break; }
        case 3: if (!c.empty()) { C &x = c[s.integer(0, c.size() - 1)]; s.desc << " clear " << x.k; if (x.v) x.v->ClearCache(); else x.f->ClearCache(); x.have.clear(); } break;
        default: s.desc << " clear all"; Caching::Clear_Caches(); for (auto &x : c) x.have.clear(); if (shrunk && grown && c.size() > 1) s.nontrivial(); break;
        }
        for (auto &x : c) if (*x.n != x.want) {
            for (auto &p : x.want) eq((*x.n)[p.first], p.second, 0, 0, cat("number of calculations of ", x.k, "(", p.first, ")"));
            fail("a calculation was performed for an argument nobody asked for");
        }
    }
}

// a caching object of each argument type against a list of calls; R: how a result shows its argument
template <class V, class T> void arguments(Src &s, std::function<V()> draw, std::function<T(V)> calc, std::function<bool(const T &, const T &)> same) {
    vector<V> log;
    bool active = !s.chance(1, 8);
    Caching::CachedFunction<T, V> f([&](V v) { log.push_back(v); return calc(v); }, "args", active);
    auto eqv = [](V a, V b) { return a == b || (a != a && b != b); };
    vector<V> pool;
    int np = (int)s.integer(1, 8), calls = (int)s.integer(2, 40), distinct = 0;
    for (int i = 0; i < np; i++) pool.push_back(draw());
    vector<V> have;
    s.desc << (active ? "" : "off ");
    s.desc.precision(17);
    for (int i = 0; i < calls; i++) {
        if (s.chance(1, 15)) { if (s.boolean()) f.ClearCache(); else Caching::Clear_Caches(); have.clear(); s.desc << " clear"; continue; }
        V v = pool[s.integer(0, np - 1)];
        s.desc << " " << v;
        size_t before = log.size();
        T got = f(v);
        check(same(got, calc(v)), cat("result for the argument ", v, " is that of another"));
        bool known = active && v == v && std::find(have.begin(), have.end(), v) != have.end();
        check(log.size() == before + !known, cat("argument ", v, known ? " calculated again" : " not calculated"));
        if (!known) { check(eqv(log.back(), v), cat("calculated for ", log.back(), " instead of ", v)); have.push_back(v); distinct++; }
    }
    if (distinct >= 3 && active) s.nontrivial();
}
PROP(c17_arguments, "single caller: 2..40 calls for 1..8 arguments which may be tiny, huge, negative, infinite, not a number or nearly equal, to memoised functions of numbers and integers, with numbers, lists "
     "and distributions as results, between clears: each result is that of its own argument, calculated once; non-trivial: at least 3 calculations") {
    double last = 1;
    auto num = [&]() -> double {
        double v;
        switch (s.draw(7)) {
        case 0: v = (double)s.integer(-3, 3); break;
        case 1: v = s.real(-5, 5); break;
        case 2: v = s.logreal(1e-300, 1e300); break;
        case 3: v = -s.logreal(1e-300, 1e300); break;
        case 4: v = std::nextafter(last, s.boolean() ? INFINITY : -INFINITY); break;
        case 5: v = last * (1 + s.pick({1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-4})); break;
        default: v = s.pick({0.0, (double)INFINITY, -(double)INFINITY, (double)NAN, 5e-324, 1.7e308}); break;
        }
        return last = v;
    };
    auto same = [](const double &a, const double &b) { return a == b || (a != a && b != b); };
    switch (s.draw(4)) {
    case 0: arguments<double, double>(s, num, [](double v) { return -v; }, same); break;
    case 1: arguments<double, vector<double>>(s, num, [](double v) { return vector<double>{v, v / 2}; },
                [&](const vector<double> &a, const vector<double> &b) { return a.size() == 2 && b.size() == 2 && same(a[0], b[0]) && same(a[1], b[1]); }); break;
    case 2: arguments<int, double>(s, [&]() { return (int)(s.boolean() ? s.integer(-5, 60) : s.integer(-2000000000, 2000000000)); }, [](int v) { return v * 0.5; }, same); break;
    default: arguments<double, LogNormalDist>(s, num, [](double v) { return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(v, 0.25); },
                [&](const LogNormalDist &a, const LogNormalDist &b) { return same(a.get_mu_lnX(), b.get_mu_lnX()); }); break;
    }
}

PROP(c17_stress, "2..6 threads calling a memoised function (1..40 arguments) or value freely, 100..600 calls each, while another changes the underlying model and clears: each result is for its argument and "
     "no older than the last clear completed before the call; non-trivial: at least 20 clears while calls were made") {
    int nt = (int)s.integer(2, 6), nargs = (int)s.integer(1, 40), calls = (int)s.integer(100, 600), work = (int)s.integer(0, 200);
    bool value = s.chance(1, 3), global = s.chance(1, 3), thrower = s.chance(1, 3);
    s.desc << nt << " threads " << nargs << " arguments " << calls << " calls" << (value ? " value" : "") << (thrower ? " failing" : "");
    std::atomic<long> version(0), completed(0), ended(0), clears(0);
    auto spin = [&](int n) { volatile int z = 0; for (int i = 0; i < n; i++) z = z + 1; };
    auto body = [&](double v) -> double { long k = version; spin(work); if (thrower && k % 3 == 1) throw Oops{k}; return (double)k * 1000 + v; };
    Caching::CachedFunction<double, double> f(body, "stress");
    Caching::CachedValue<double> g([&]() { return body(0); }, "stress");
    std::mutex m; std::string bad;
    uint64_t seed = s.draw(1000000);
    vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
        uint64_t r = seed * 100 + t;
        for (int i = 0; i < calls; i++) {
            double a = value ? 0 : (double)(splitmix(r) % nargs), got = 0;
            long lo = completed, v;
            try { got = value ? g() : f(a); v = (long)floor(got / 1000); } catch (Oops &o) { v = o.calc; got = v * 1000.0 + a; }
            long hi = version;
            if (got - v * 1000.0 != a || v < lo || v > hi) { std::unique_lock<std::mutex> l(m); bad = cat("argument ", a, ": got ", got, " with versions ", lo, "..", hi, " possible"); }
        }
        ended++;
    });
    while (ended < nt) { long v = ++version; if (global) Caching::Clear_Caches(); else if (value) g.ClearCache(); else f.ClearCache(); completed = v; clears++; spin(work * 3); }
    for (auto &x : th) x.join();
    check(bad.empty(), bad);
    if (clears >= 20) s.nontrivial();
}

PROP(c17_clear_all, "2..5 threads, each with memoised functions and values of its own that it calls, and whose underlying model it changes and then clears through Clear_Caches, while it and the others create and destroy more: "
     "a call never returns anything older than the last completed global clear; non-trivial: at least 100 global clears") {
    int nt = (int)s.integer(2, 5), rounds = (int)s.integer(20, 300), extra = (int)s.integer(0, 8), args = (int)s.integer(1, 5), work = (int)s.integer(0, 60);
    bool value = s.boolean(), one = s.chance(1, 3);           // one: only the first thread clears, the others come and go
    s.desc << nt << " threads " << rounds << " rounds " << extra << " more each, " << args << " arguments" << (one ? ", one clears" : "");
    std::mutex m; std::string bad; std::atomic<int> clears(0), ready(0);
    vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
        auto spin = [&](int n) { volatile int z = 0; for (int i = 0; i < n; i++) z = z + 1; };
        long model = 0;
        Caching::CachedFunction<double, double> f([&](double v) -> double { return (double)model * 100 + v; }, "own");
        Caching::CachedValue<double> g([&]() -> double { return (double)model; }, "own");
        ready++;
        while (ready < nt) std::this_thread::yield();
        for (int i = 0; i < rounds; i++) {
            for (int a = 0; a < args; a++) { f(a); if (value) g(); }
            model++;
            if (one && t > 0) { f.ClearCache(); g.ClearCache(); } else { Caching::Clear_Caches(); clears++; }
            for (int a = 0; a < args; a++) {
                double got = f(a), got2 = value ? g() : (double)model;
                if (got != (double)model * 100 + a || got2 != (double)model) {
                    std::unique_lock<std::mutex> l(m);
                    bad = cat("after a clear, argument ", a, " gave ", got, " and the value ", got2, ", with version ", model, " current");
                }
            }
            vector<std::unique_ptr<Caching::CachedFunction<double, double>>> more;
            for (int k = 0; k < extra; k++) { more.push_back(std::make_unique<Caching::CachedFunction<double, double>>([](double v) -> double { return v; }, "more")); (*more.back())(k); }
            spin(work);
        }
    });
    for (auto &x : th) x.join();
    check(bad.empty(), bad);
    if (clears >= 100 && (!one || extra)) s.nontrivial();
}

PROP(c17_many, "many at once: up to 20000 arguments to one memoised function asked for again in any order, up to 70000 clears during one calculation, or up to 3000 memoised functions and values cleared together; "
     "non-trivial: at least 100 of them") {
    long n = s.chance(1, 2) ? s.pick({255L, 256L, 257L, 1000L, 1024L, 4096L, 65535L, 65536L, 65537L}) + s.integer(-1, 1) : (long)s.logreal(1, 20000);
    uint64_t r = s.draw(1000000);
    switch (s.draw(3)) {
    case 0: {
        n = std::min(n, 20000L);
        bool whole = s.boolean();
        double step = s.pick({1.0, 0.5, 1e-6, 1e6, -3.0});
        s.desc << n << " arguments " << (whole ? "" : cat(step, " apart"));
        vector<int> count(n);
        auto at = [&](double v) { return (size_t)std::llround(v / step); };
        auto fd = whole ? nullptr : std::make_shared<Caching::CachedFunction<double, double>>([&](double v) -> double { count.at(at(v))++; return v + 0.25; }, "many");
        auto fi = whole ? std::make_shared<Caching::CachedFunction<double, int>>([&](int v) -> double { count.at(v)++; return v + 0.25; }, "many") : nullptr;
        auto ask = [&](long i) { double got = whole ? (*fi)((int)i) : (*fd)(i * step), want = (whole ? i : i * step) + 0.25; if (got != want) fail(cat("argument number ", i, " gave ", got, " instead of ", want)); };
        for (long i = 0; i < n; i++) ask(i);
        for (long i = 0; i < n; i++) ask((long)(splitmix(r) % n));
        for (long i = 0; i < n; i++) { ask(i); if (count[i] != 1) fail(cat("the calculation for argument number ", i, " of ", n, " was performed ", count[i], " times")); }
        if (whole) fi->ClearCache(); else fd->ClearCache();
        for (long i = 0; i < n; i++) { ask(i); ask(i); if (count[i] != 2) fail(cat("after a clear, the calculation for argument number ", i, " of ", n, " was performed ", count[i] - 1, " times")); }
        break; }
    case 1: {
        bool value = s.boolean(), global = s.boolean();
        s.desc << n << " clears during a calculation of a " << (value ? "value" : "function");
        double model = 1; bool clear = true;
        std::function<void()> once;
        auto body = [&]() -> double { double was = model; if (clear) { clear = false; model = 2; for (long i = 0; i < n; i++) once(); } return was; };
        Caching::CachedFunction<double, double> f([&](double) { return body(); }, "many");
        Caching::CachedValue<double> g([&]() { return body(); }, "many");
        once = [&]() { if (global) Caching::Clear_Caches(); else if (value) g.ClearCache(); else f.ClearCache(); };
        eq(value ? g() : f(3), 1, 0, 0, "the calculation under way");
        eq(value ? g() : f(3), 2, 0, 0, "after the clears");
        break; }
    default: {
        n = std::min(n, 3000L);
        s.desc << n << " memoised functions and values";
        vector<std::unique_ptr<Caching::CachedFunction<double, double>>> f; vector<std::unique_ptr<Caching::CachedValue<double>>> g;
        double model = 1;
        for (long i = 0; i < n; i++) {
            if (splitmix(r) % 3) f.push_back(std::make_unique<Caching::CachedFunction<double, double>>([&model](double v) -> double { return v + model; }, "many"));
            else g.push_back(std::make_unique<Caching::CachedValue<double>>([&model]() -> double { return model; }, "many"));
        }
        auto all = [&](double m) {
            for (auto &x : f) if ((*x)(7) != 7 + m) fail(cat("a function gave ", (*x)(7) - 7, " instead of ", m, ", ", n, " in use"));
            for (auto &x : g) if ((*x)() != m) fail(cat("a value gave ", (*x)(), " instead of ", m, ", ", n, " in use"));
        };
        all(1); model = 2; all(1);
        Caching::Clear_Caches();
        all(2);
        if (f.size() > 1) f.erase(f.begin() + (long)(splitmix(r) % f.size()));
        model = 3; all(2);
        Caching::Clear_Caches();
        all(3); }
    }
    if (n >= 100) s.nontrivial();
}
