// C04 deterministic functions, C05 lognormal functions
#include "model.h"
#include <omp.h>
using namespace pbt;
using model::Fn;

static Fn gen_fn(Src &s) {
    Fn f;
    switch (s.draw(4)) {
    case 0: return model::power(s.logreal(1e-4, 1e4) * (s.chance(1, 6) ? -1 : 1), s.chance(1, 5) ? s.integer(-2, 3) : s.real(-4, 4));
    case 1: return model::hyper(s.logreal(1e-3, 1e4), s.logreal(0.1, 100), s.real(1, 100));
    default: break;
    }
    f.kind = s.boolean() ? model::LIN : model::LOGLOG;
    int n = (int)s.size(2, 12, 80);
    double x = s.logreal(1e-3, 10);
    if (f.kind == model::LIN && s.chance(1, 4)) x = 0;
    for (int i = 0; i < n; i++) {
        f.xs.push_back(x);
        f.ys.push_back(i && s.chance(1, 10) ? s.pick(f.ys) : f.kind == model::LIN ? s.real(-100, 100) : s.logreal(1e-4, 1e4));
        x = x == 0 ? s.logreal(1e-3, 1) : x * (1 + s.logreal(0.01, 3));
    }
    return f;
}
static double gen_x(Src &s, const Fn &f) {
    if (!f.xs.empty()) {
        switch (s.weighted({3, 2, 1, 1, 1})) {
        case 0: {
            size_t i = s.draw(f.xs.size() - 1);
            return f.xs[i] + (f.xs[i + 1] - f.xs[i]) * s.real(0, 1);
        }
        case 1: return s.pick(f.xs);
        case 2: return std::nextafter(s.pick(f.xs), s.boolean() ? INFINITY : 0.0);
        case 3: return f.xs.back() * s.logreal(1, 100);
        default: return s.chance(1, 4) ? 0.0 : f.xs.front() * s.real(0.01, 1);
        }
    }
    if (f.kind == model::NLH) {
        switch (s.weighted({6, 1, 1, 1, 1})) {
        case 4: return 0.0;
        case 0: return f.b * s.logreal(1e-4, 0.999);
        case 1: return f.b;
        case 2: return std::nextafter(f.b, INFINITY);
        default: return f.b * s.logreal(1, 10);
        }
    }
    return f.b >= 0 && s.chance(1, 8) ? 0.0 : s.logreal(1e-3, 1e3);
}
static double tol_at(const Fn &f, double x) {
    if (f.kind == model::NLH && x < f.b) { double l = log(x / f.b); return 1e-12 + 1e-14 * f.c / (l * l); }
    return 1e-11;
}

PROP(c04_values, "one function (power, hyperbolic, linear or log-log table of 2..12 points) evaluated at 1..12 points (inside, on and next to "
     "nodes, outside, at the asymptote) in random order; non-trivial: >= 3 points") {
    Fn f = gen_fn(s);
    auto lib = f.make();
    int n = (int)s.integer(1, 12);
    s.desc << f.str() << " at";
    double ymax = 0;
    for (double y : f.ys) ymax = std::max(ymax, fabs(y));
    for (int i = 0; i < n; i++) {
        double x = gen_x(s, f);
        s.desc << " " << x;
        double tol = tol_at(f, x), at = f.kind == model::LIN ? 1e-12 * ymax : 0;
        if (f.kind == model::LOGLOG) tol = 1e-9;
        // next to a node of a steep table the two neighbouring segments agree only to rounding of x
        eq(lib->ValueAt(x), f.val(x), tol, at, cat("value at ", x));
    }
    for (size_t i = 0; i < f.xs.size(); i++)
        eq(lib->ValueAt(f.xs[i]), f.ys[i], 1e-9, 1e-12 * ymax, cat("value at data point ", i));
    s.label(f.kind == model::NLH ? "hyperbolic" : f.kind == model::PLC ? "power" : f.kind == model::LIN ? "linear" : "loglog");
    if (n >= 3) s.nontrivial();
}

PROP(c04_derivative, "derivative at a point well inside a smooth stretch against the analytic derivative; non-trivial: derivative not zero") {
    Fn f = gen_fn(s);
    double x;
    if (!f.xs.empty()) {
        size_t i = s.draw(f.xs.size() - 1);
        x = f.xs[i] + (f.xs[i + 1] - f.xs[i]) * s.real(0.1, 0.9);
        if (s.chance(1, 8)) x = f.xs.back() * s.real(1.1, 3);
        else if (f.xs[0] > 0 && s.chance(1, 8)) x = f.xs[0] * s.real(0.2, 0.9);
    } else if (f.kind == model::NLH) x = f.b * s.chance(1, 8) ? f.b * s.real(1.1, 3) : f.b * s.logreal(1e-2, 0.9);
    else x = s.logreal(1e-2, 1e2);
    auto lib = f.make();
    s.desc << f.str() << " at " << x;
    double want = f.der(x), v = f.val(x);
    // numerical differentiation: step 1e-8, so noise ~ eps*f/1e-8 plus truncation
    double at = 3e-6 * fabs(v) + 1e-9 * (fabs(v) + 1e-300) * std::max(1.0, x);
    if (f.kind == model::LIN) { double m = 0; for (double y : f.ys) m = std::max(m, fabs(y)); at = 3e-6 * m; }
    eq(lib->DerivativeAt(x), want, 2e-4 + 1e-6 * x, at, "derivative");       // 1e-6 x: rounding of x against the step
    if (want != 0) s.nontrivial();
}

PROP(c04_threads, "a shared table evaluated by 8 threads at different points at once; every value equals the sequential value; "
     "non-trivial: table of >= 3 points") {
    Fn f;
    do f = gen_fn(s); while (f.xs.size() < 3 && s.rec.size() < 2000);
    if (f.xs.size() < 3) throw Discard();
    auto lib = f.make();
    const int N = 2000;
    std::vector<double> xs, want, got(N);
    for (int i = 0; i < 32; i++) xs.push_back(gen_x(s, f));
    for (int i = 0; i < 32; i++) want.push_back(f.val(xs[i]));
    s.desc << f.str() << " evaluated concurrently at 32 points";
    double ymax = 0;
    for (double y : f.ys) ymax = std::max(ymax, fabs(y));
    omp_set_num_threads(8);
#pragma omp parallel for schedule(static, 1)
    for (int i = 0; i < N; i++) got[i] = lib->ValueAt(xs[(i * 7 + i / 8) % 32]);
    for (int i = 0; i < N; i++)
        eq(got[i], want[(i * 7 + i / 8) % 32], 1e-9, f.kind == model::LIN ? 1e-12 * ymax : 0, cat("concurrent value at ", xs[(i * 7 + i / 8) % 32]));
    s.nontrivial();
}

PROP(c05_lognormal_fn, "one of 6 location/spread kinds over random underlying functions, at 1..6 points; all moments, exceedance and inverse "
     "against the reference; non-trivial: dispersion in 0.02..3 at some point") {
    model::Prob p;
    p.mk = (model::MuKind)s.draw(3);
    p.sk = (model::SdKind)s.draw(2);
    auto posfn = [&](double lo, double hi) {
        Fn f;
        switch (s.draw(3)) {
        case 0: return model::power(s.logreal(lo, hi), s.real(-1, 1.5));
        case 1: f.kind = model::LIN; break;
        default: f.kind = model::LOGLOG;
        }
        int n = (int)s.integer(2, 6);
        double x = s.logreal(0.01, 1);
        for (int i = 0; i < n; i++) { f.xs.push_back(x); f.ys.push_back(s.logreal(lo, hi)); x *= s.real(1.1, 3); }
        return f;
    };
    if (p.mk == model::MEAN_LN) {
        p.mu.kind = model::LIN;
        int n = (int)s.integer(2, 6);
        double x = s.logreal(0.01, 1);
        for (int i = 0; i < n; i++) { p.mu.xs.push_back(x); p.mu.ys.push_back(s.real(-6, 6)); x *= s.real(1.1, 3); }
    }
    double unit = s.chance(1, 4) ? s.logreal(1e-25, 1e25) : 1;       // quantities may be in any unit
    if (p.mk == model::MEAN_LN) for (double &y : p.mu.ys) y += log(unit);
    else p.mu = posfn(1e-3 * unit, 1e3 * unit);
    p.sd = p.sk == model::SD_LN ? posfn(0.05, 1.5) : posfn(1e-3 * unit, 1e3 * unit);
    s.desc << p.str() << " at";
    s.label(cat("kind", (int)p.mk, (int)p.sk));
    auto lib = p.make();
    int n = (int)s.integer(1, 6);
    for (int i = 0; i < n; i++) {
        double x = s.logreal(0.01, 10);
        s.desc << " " << x;
        model::LN d = p.at(x);
        if (d.sigma > 5 || d.sigma < 1e-3) continue;
        double sr = 1e-8 + 1e-14 / (d.sigma * d.sigma);
        eq(lib->MeanLn(x), d.mu, 1e-9, 1e-9 + sr, "mean of log");
        eq(lib->Median(x), d.median(), sr, 0, "median");
        eq(lib->Mean(x), d.mean(), sr, 0, "mean");
        eq(lib->SD_ln(x), d.sigma, sr, 0, "log dispersion");
        eq(lib->SD(x), d.sd(), sr * (1 + d.sigma * d.sigma) * 4, 0, "standard deviation");
        if (p.mk == model::MEAN) eq(lib->Mean(x), p.mu.val(x), sr, 0, "mean as given");
        if (p.mk == model::MEDIAN) eq(lib->Median(x), p.mu.val(x), sr, 0, "median as given");
        if (p.sk == model::SD) eq(lib->SD(x), p.sd.val(x), sr * (1 + d.sigma * d.sigma) * 4, 0, "sd as given");
        double z = s.chance(1, 5) ? s.real(-9, 9) : s.real(-4, 4), y = d.median() * exp(z * d.sigma);
        eq(lib->P_exceedence(x, y), d.ccdf(y), 1e-6 + sr * 20 / d.sigma, 1e-12, cat("P(exceed ", y, ")"));
        double q = s.chance(1, 4) ? s.logreal(1e-12, 1e-3) : s.real(0.001, 0.999);
        if (s.chance(1, 6)) q = 1 - s.logreal(1e-12, 1e-3);
        eq(lib->X_at_exceedence(x, q), d.median() * exp(d.sigma * (double)ref::PhiInv(q)), 1e-7 + sr * 10 * (1 + d.sigma), 0, cat("value at p=", q));
        if (d.sigma > 0.02 && d.sigma < 3) s.nontrivial();
    }
    if (p.mk != model::MEAN_LN && p.sk == model::SD_LN && p.mu.kind == model::PLC && p.mu.b > 0.05) {
        s.desc << " 0";                                               // certainly zero
        eq(lib->Mean(0), 0, 0, 0, "mean at zero");
        eq(lib->Median(0), 0, 0, 0, "median at zero");
        if (p.sd.kind != model::PLC) {
            eq(lib->SD(0), 0, 0, 0, "standard deviation at zero");
            eq(lib->P_exceedence(0, p.mu.val(1)), 0, 0, 0, "P(exceed) at zero");
        }
    }
}

PROP(c05_invalid, "invalid kinds are rejected at construction; non-trivial: all") {
    auto m = model::constant(s.real(0.1, 2)).make(), d = model::constant(s.real(0.1, 1)).make();
    int bad = (int)s.integer(1, 3);
    auto mt = (bad & 1) ? LogNormalFn::MEAN_INVALID : (LogNormalFn::M_TYPE)s.integer(1, 3);
    auto st = (bad & 2) ? LogNormalFn::SIGMA_INVALID : (LogNormalFn::S_TYPE)s.integer(1, 2);
    s.desc << "kinds " << (int)mt << "," << (int)st;
    bool threw = false;
    try { LogNormalFn f(m, mt, d, st); } catch (std::invalid_argument &) { threw = true; }
    check(threw, "invalid kind accepted");
    s.nontrivial();
}
