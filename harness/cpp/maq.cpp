// C06 numerical integration
#include "model.h"
using namespace pbt;
typedef IntegrationSettings IS;

struct Family {              // non-negative smooth integrand on [0, inf) with known integral
    int kind; double m, s, scale;
    double operator()(double x) const {
        if (!(x >= 0) || std::isinf(x)) return 0;
        switch (kind) {
        case 0: { if (x == 0) return 0; double z = (log(x) - log(m)) / s; return scale * exp(-z * z / 2) / (x * s * sqrt(2 * M_PI)); }
        case 1: { double u = x / m; return scale * pow(u, s) * exp(-u) / m / tgamma(s + 1); }       // gamma density, shape s+1
        default: { double u = x / m; return scale * (s + 1) / m * pow(1 + u, -(s + 2)); }            // Pareto
        }
    }
    double exact() const { return scale; }
    std::string str() const {
        const char *n[] = {"lognormal", "gamma", "pareto"};
        return cat(scale, "*", n[kind], "(m=", m, ",s=", s, ")");
    }
};
static Family gen_family(Src &s, bool unit = false) {
    Family f;
    f.kind = (int)s.weighted({4, 2, 1});
    f.m = s.logreal(0.02, 50);
    f.s = f.kind == 0 ? s.real(0.5, 1.5) : f.kind == 1 ? s.real(0.5, 4) : s.real(0.5, 4);
    f.scale = unit ? 1 : s.logreal(1e-3, 1e6);
    return f;
}
static IS::METHOD_TYPE gen_method(Src &s) {
    return s.pick<IS::METHOD_TYPE>({IS::DIRECTED, IS::BINARY_SUBDIVISION, IS::REVERSE_BINARY_SUBDIVISION,
                                    IS::LOW_FIRST_REVERSE_BINARY_SUBDIVISION, IS::SCATTERED});
}

// What a search may cost: the scattered and directed searches stop at the limit; the binary ones complete the
// subdivision they are in, which at most doubles it.
static unsigned long search_bound(IS::METHOD_TYPE me, unsigned lim) {
    return me == IS::SCATTERED || me == IS::DIRECTED ? lim + 3ul : 2ul * lim + 4;
}

PROP(c06_accuracy, "40 random smooth integrands (lognormal, gamma, Pareto shapes, location 0.02..50) under one random method and tolerance 1e-2..1e-8: "
     "all successful; median error <= 0.5 tol, at least 3/4 within tol; tighter tolerance costs more and errs less; non-trivial: all") {
    IS::METHOD_TYPE me = gen_method(s);
    double tol = s.logreal(1e-8, 1e-2);
    IS::Set_Integration_Method(me);
    IS::Set_Tolerance(tol);
    IS::Set_Integration_Eval_Limit(5000000);
    s.desc << "method " << (int)me << " tol " << tol << " integrands";
    std::vector<double> e;
    int within = 0;
    unsigned long ev1 = 0, ev2 = 0;
    for (int i = 0; i < 40; i++) {
        Family f = gen_family(s);
        if (i < 2) s.desc << " " << f.str();
        IS::Set_Tolerance(tol);
        MAQ_RESULT r = MAQ(f);
        check(r.successful, "integration of a smooth integrand not successful: " + f.str());
        double err = fabs(r.integral - f.exact()) / f.exact();
        e.push_back(err);
        if (err <= tol) within++;
        if (tol <= 1e-6) check(err <= 2e-2, cat("integral of ", f.str(), " is ", r.integral));
        ev1 += r.evaluations;
        IS::Set_Tolerance(tol / 100);
        ev2 += MAQ(f).evaluations;
    }
    std::sort(e.begin(), e.end());
    check(e[20] <= 0.5 * tol, cat("median error ", e[20], " at tolerance ", tol));
    check(within >= 30, cat("only ", within, " of 40 integrals within tolerance ", tol));
    check(ev2 > ev1, cat("tolerance/100 does not cost more evaluations: ", ev1, " -> ", ev2));
    s.label(cat("method", (int)me));
    s.nontrivial();
}

PROP(c06_search, "60 narrower single-peaked integrands far from 1 (location 1e-3..100, log width 0.2..0.5), needing the search phase; for each of the four "
     "methods that find them >= 85% within 10 tol at tol 1e-5; non-trivial: all") {
    IS::METHOD_TYPE me = s.pick<IS::METHOD_TYPE>({IS::DIRECTED, IS::BINARY_SUBDIVISION, IS::REVERSE_BINARY_SUBDIVISION,
                                                  IS::LOW_FIRST_REVERSE_BINARY_SUBDIVISION});
    IS::Set_Integration_Method(me);
    IS::Set_Tolerance(1e-5);
    IS::Set_Integration_Eval_Limit(1000000);
    s.desc << "method " << (int)me << " narrow lognormals";
    int good = 0, n = 60;
    for (int i = 0; i < n; i++) {
        Family f{0, s.logreal(1e-3, 100), s.real(0.2, 0.5), s.logreal(0.1, 1e3)};
        if (i < 3) s.desc << " " << f.str();
        MAQ_RESULT r = MAQ(f);
        if (r.successful && fabs(r.integral / f.exact() - 1) <= 1e-4) good++;
    }
    check(good >= n * 85 / 100, cat("only ", good, " of ", n, " narrow integrands integrated by method ", (int)me));
    s.label(cat("method", (int)me));
    s.nontrivial();
}

PROP(c06_linear, "integrand times a power of two gives exactly that multiple (same decisions), for every method and tolerance; non-trivial: factor != 1") {
    IS::Set_Integration_Method(gen_method(s));
    IS::Set_Tolerance(s.logreal(1e-7, 1e-2));
    IS::Set_Integration_Eval_Limit(1000000);
    Family f = gen_family(s, true);
    int k = (int)s.integer(0, 60) - 20;
    s.desc << f.str() << " times 2^" << k;
    double at1 = f(1.0), at0 = f(0.0);
    MAQ_RESULT a = MAQ(f);
    MAQ_RESULT b = MAQ([&](double x) { return ldexp(f(x), k); });
    if (std::max(at1, at0) < 1e-6) throw Discard();     // the search phase uses an absolute threshold
    check(a.successful && b.successful, "not successful");
    eq(b.integral, ldexp(a.integral, k), 1e-12, 0, "scaled integral");
    if (k) s.nontrivial();
}

PROP(c06_limits, "random evaluation limit 3..6000: successful exactly when the unlimited run needs no more, then with the identical value; otherwise unsuccessful with "
     "NaN; calls of the integrand bounded by the limits; non-trivial: limit reached") {
    IS::METHOD_TYPE me = gen_method(s);
    IS::Set_Integration_Method(me);
    IS::Set_Tolerance(s.logreal(1e-9, 1e-2));
    Family f = gen_family(s);
    unsigned lim = (unsigned)s.logreal(3, 6000), slim = (unsigned)s.logreal(1, 4000);
    IS::Set_Integration_Search_Limit(slim);
    IS::Set_Integration_Eval_Limit(50000000);
    unsigned long calls = 0;
    auto g = [&](double x) { calls++; return f(x); };
    MAQ_RESULT u = MAQ(g);
    unsigned long ucalls = calls;
    s.desc << f.str() << " method " << (int)me << " limit " << lim << " search limit " << slim << " needs " << u.evaluations;
    check(u.successful && !std::isnan(u.integral), "unlimited integration failed");
    check(ucalls <= 2ul * u.evaluations + 16, cat(ucalls, " calls but ", u.evaluations, " evaluations reported"));
    IS::Set_Integration_Eval_Limit(lim);
    calls = 0;
    unsigned long before = get_statistics()->total_search_evals;
    MAQ_RESULT r = MAQ(g);
    unsigned long search = get_statistics()->total_search_evals - before;
    check(search <= search_bound(me, slim), cat(search, " evaluations searching with search limit ", slim));
    check(calls <= search + 5 + (lim > search ? 2ul * (lim - search) : 0), cat(calls, " calls of the integrand, ", search, " of them searching, with limits ", lim, " and ", slim));
    check(calls <= 2ul * lim + 2ul * slim + 32, cat(calls, " calls of the integrand with limits ", lim, " and ", slim));
    if (u.integral == 0) { check(r.successful && r.integral == 0, "nothing found must be zero"); s.label("nothing found"); return; }
    if (r.successful) {
        check(r.integral == u.integral, cat("with limit ", lim, ": ", r.integral, ", unlimited: ", u.integral));
        check(u.evaluations <= lim, cat("needs ", u.evaluations, " evaluations but succeeded with limit ", lim));
    } else {
        check(std::isnan(r.integral), cat("unsuccessful with value ", r.integral));
        check(u.evaluations > lim, cat("needs only ", u.evaluations, " evaluations but failed with limit ", lim));
        s.nontrivial(); s.label("limit reached");
    }
}

PROP(c06_noise, "integrand with per-point noise that cannot be resolved: always reported unsuccessful with NaN; non-trivial: all") {
    IS::Set_Integration_Method(gen_method(s));
    IS::Set_Tolerance(s.logreal(1e-9, 1e-6));
    unsigned lim = (unsigned)s.logreal(10, 5000);
    IS::Set_Integration_Eval_Limit(lim);
    Family f = gen_family(s);
    uint64_t salt = s.draw(1u << 20);
    s.desc << f.str() << " with noise, limit " << lim;
    MAQ_RESULT r = MAQ([&](double x) {
        uint64_t h; memcpy(&h, &x, 8); h += salt; uint64_t k = splitmix(h);
        return f(x) * (1 + 0.5 * (double)(k >> 11) / 9007199254740992.0);
    });
    check(!r.successful && std::isnan(r.integral), cat("unresolvable integrand reported ", r.integral, r.successful ? " successful" : " unsuccessful"));
    s.nontrivial();
}

PROP(c06_nan, "integrand undefined on a random interval (or everywhere): if an evaluation of the integration stage gave NaN the result is unsuccessful "
     "NaN; without any NaN it equals that of the integrand without the hole; non-trivial: NaN was evaluated while integrating") {
    IS::METHOD_TYPE me = gen_method(s);
    IS::Set_Integration_Method(me);
    IS::Set_Tolerance(s.logreal(1e-6, 1e-2));
    Family f = gen_family(s);
    double lo = s.chance(1, 10) ? 0 : s.logreal(1e-3, 100), hi = s.chance(1, 10) ? INFINITY : lo * s.logreal(1.0001, 100) + 1e-6;
    s.desc << f.str() << " undefined on [" << lo << "," << hi << "] method " << (int)me;
    unsigned long calls = 0, last_hit = 0, before = get_statistics()->total_search_evals;
    MAQ_RESULT r = MAQ([&](double x) { calls++; if (x >= lo && x <= hi) { last_hit = calls; return (double)NAN; } return f(x); });
    unsigned long search = get_statistics()->total_search_evals - before;
    MAQ_RESULT clean = MAQ(f);
    if (last_hit > search) {
        check(!r.successful && std::isnan(r.integral), cat("NaN integrand reported ", r.integral, r.successful ? " successful" : " unsuccessful"));
        s.nontrivial();
    } else if (!last_hit) {
        check(r.successful == clean.successful && (r.integral == clean.integral || (std::isnan(r.integral) && std::isnan(clean.integral))),
              cat("differs without NaN: ", r.integral, " vs ", clean.integral));
    }
}

PROP(c06_zero, "identically zero integrand under random method and limits; non-trivial: all") {
    IS::METHOD_TYPE me = gen_method(s);
    IS::Set_Integration_Method(me);
    unsigned lim = (unsigned)s.logreal(1, 5000);
    IS::Set_Integration_Search_Limit(lim);
    s.desc << "zero integrand method " << (int)me << " search limit " << lim;
    unsigned long calls = 0;
    MAQ_RESULT r = MAQ([&](double) { calls++; return 0.0; });
    check(r.successful && r.integral == 0, cat("zero integrand gives ", r.integral));
    check(calls <= search_bound(me, lim), cat(calls, " calls with search limit ", lim));
    check(r.evaluations == calls, cat(r.evaluations, " evaluations reported, ", calls, " made"));
    s.nontrivial();
}

PROP(c06_settings, "1..15 random setter calls (valid, zero, negative, NaN), defaults, reset; getters follow a reference; non-trivial: an invalid value was offered") {
    double tol = 1e-3; unsigned ev = 2048, se = 2048; IS::METHOD_TYPE me = IS::DIRECTED;
    int n = (int)s.integer(1, 15);
    for (int i = 0; i < n; i++) {
        switch (s.draw(7)) {
        case 0: { double t = s.weighted({4, 1, 1, 1}) ? s.pick({0.0, -1.0, -1e-9, (double)NAN}) : s.logreal(1e-12, 1);
            s.desc << " tolerance=" << t; IS::Set_Tolerance(t); if (t > 0) tol = t; else s.nontrivial(); break; }
        case 1: { unsigned k = (unsigned)s.integer(0, 5000); if (s.chance(1, 3)) k = 0; s.desc << " evals=" << k; IS::Set_Integration_Eval_Limit(k); if (k) ev = k; else s.nontrivial(); break; }
        case 2: { unsigned k = (unsigned)s.integer(0, 5000); if (s.chance(1, 3)) k = 0; s.desc << " search=" << k; IS::Set_Integration_Search_Limit(k); if (k) se = k; else s.nontrivial(); break; }
        case 3: me = gen_method(s); s.desc << " method=" << (int)me; IS::Set_Integration_Method(me); break;
        case 4: IS::Use_Default_Tolerance(); tol = 1e-3; s.desc << " default-tolerance"; break;
        case 5: IS::Use_Default_Integration_Eval_Limit(); ev = 2048; s.desc << " default-evals"; break;
        default: IS::Reset(); tol = 1e-3; ev = se = 2048; me = IS::DIRECTED; s.desc << " reset";
        }
        check(IS::Get_Tolerance() == tol, cat("tolerance ", IS::Get_Tolerance(), " expected ", tol));
        check(IS::Get_Integration_Eval_Limit() == ev, cat("evaluation limit ", IS::Get_Integration_Eval_Limit(), " expected ", ev));
        check(IS::Get_Integration_Search_Limit() == se, cat("search limit ", IS::Get_Integration_Search_Limit(), " expected ", se));
        check(IS::Get_Integration_Method() == me, "method");
        const IntegrationStats *st = get_statistics();
        check(st->tolerance == tol && st->eval_limit == ev && st->search_limit == se && st->method == me, "statistics report other settings");
    }
}

PROP(c06_stats, "1..12 integrations of random outcome (fine, limit exceeded, NaN, nothing found), counters compared with what the calls reported; non-trivial: "
     ">= 2 kinds of outcome") {
    reset_statistics();
    unsigned ok = 0, lim = 0, nan = 0, none = 0;
    unsigned long evals = 0, none_evals = 0, max_int = 0;
    int n = (int)s.integer(1, 12);
    for (int i = 0; i < n; i++) {
        Family f = gen_family(s);
        IS::Reset();
        IS::Set_Integration_Method(gen_method(s));
        int kind = (int)s.draw(4);
        MAQ_RESULT r;
        s.desc << " " << kind;
        if (kind == 0) { IS::Set_Integration_Eval_Limit(100000); r = MAQ(f); }
        else if (kind == 1) { IS::Set_Tolerance(1e-12); IS::Set_Integration_Eval_Limit((unsigned)s.integer(8, 30)); r = MAQ(f); }
        else if (kind == 2) r = MAQ([](double) { return (double)NAN; });
        else { IS::Set_Integration_Search_Limit((unsigned)s.integer(4, 400)); r = MAQ([](double) { return 0.0; }); }
        if (kind == 2) { nan++; evals += r.evaluations; }
        else if (kind == 3) { none++; none_evals += r.evaluations; }
        else if (r.successful) { ok++; evals += r.evaluations; max_int = std::max(max_int, (unsigned long)r.evaluations); }
        else { lim++; evals += r.evaluations; }
    }
    const IntegrationStats *st = get_statistics();
    check(st->calls == (unsigned)n, cat("calls ", st->calls, " expected ", n));
    check(st->successes == ok, cat("successes ", st->successes, " expected ", ok));
    check(st->number_integration_fails == lim, cat("integration failures ", st->number_integration_fails, " expected ", lim));
    check(st->nans == nan, cat("NaNs ", st->nans, " expected ", nan));
    check(st->number_search_fails == none, cat("search failures ", st->number_search_fails, " expected ", none));
    check(st->total_integrations_evals == evals, cat("total evaluations ", st->total_integrations_evals, " expected ", evals));
    check(st->total_search_evals >= none_evals + 2 * (unsigned)(n - (int)none), cat("search evaluations ", st->total_search_evals));
    check(st->max_successful_integration >= max_int, cat("maximum evaluations ", st->max_successful_integration, " below ", max_int));
    std::ostringstream o;
    format_statistics(o);
    for (auto &kv : std::vector<std::pair<const char *, unsigned long>>{{"Number of Calls: ", (unsigned long)n}, {"Successes: ", ok}, {"NANs: ", nan},
             {"Integration Failures: ", lim}, {"Number Search Fails: ", none}, {"Total Integration Evals: ", evals}})
        check(o.str().find(cat(kv.first, kv.second, "\n")) != std::string::npos, cat("report lacks '", kv.first, kv.second, "'"));
    reset_statistics();
    st = get_statistics();
    check(!st->calls && !st->successes && !st->number_integration_fails && !st->nans && !st->number_search_fails && !st->total_integrations_evals &&
          !st->total_search_evals && !st->max_successful_integration && !st->max_successful_search, "reset left counters");
    if ((ok > 0) + (lim > 0) + (nan > 0) + (none > 0) >= 2) s.nontrivial();
}
