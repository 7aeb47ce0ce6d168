// C01 parameterisation, C02 probabilities/quantiles, C03 combination of lognormals
#include "common.h"
using namespace pbt;

static ref::LN gen_ln(Src &s) {
    double med = s.chance(1, 8) ? s.logreal(1e-14, 1e15) : s.logreal(1e-6, 1e8);
    double sig = s.weighted({8, 2}) == 0 ? s.real(0.02, 2.5) : s.pick({0.0, 0.01, 1.0, 1e-4, 3.5});
    return {logl((ref::L)med), sig};
}
static double srel(double sig) {     // rounding of exp(s^2)-1 and its inverse
    return 1e-10 + (sig > 0 ? 2e-15 / (sig * sig) : 0);
}
static void check_all(const LND &d, const ref::LN &r, const std::string &w) {
    double sr = srel((double)r.sigma);
    eq(d.get_mu_lnX(), r.mu, 1e-10, 1e-10 + sr * 1e-1, w + ": mean of log");
    eq(d.get_sigma_lnX(), r.sigma, sr, 1e-12, w + ": sd of log");
    eq(d.get_median_X(), r.median(), 1e-9 + sr, 0, w + ": median");
    eq(d.get_mean_X(), r.mean(), 1e-9 + sr, 0, w + ": mean");
    eq(d.get_sigma_X(), r.sd(), 1e-9 + sr, 1e-12 * (double)r.mean(), w + ": sd");
}

PROP(c01_params, "one parameter pair drawn (median log-uniform 1e-6..1e8, dispersion 0..2.5), built through one of the "
     "4 factories, all 5 reported parameters compared with closed forms, then rebuilt through all 4 from what was "
     "reported; non-trivial: dispersion > 0.01") {
    ref::LN r = gen_ln(s);
    int how = (int)s.draw(4);
    s.desc << "factory " << how << " median " << (double)r.median() << " sd_ln " << (double)r.sigma;
    double mu = (double)r.mu, mean = (double)r.mean(), med = (double)r.median(), sd = (double)r.sd(), sg = (double)r.sigma;
    auto build = [](int how, double mu, double mean, double med, double sd, double sg) {
        switch (how) {
        case 0: return LND::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sg);
        case 1: return LND::LogNormalDist_from_mean_X_and_sigma_lnX(mean, sg);
        case 2: return LND::LogNormalDist_from_median_X_and_sigma_lnX(med, sg);
        default: return LND::LogNormalDist_from_mean_X_and_sigma_X(mean, sd);
        }
    };
    LND d = build(how, mu, mean, med, sd, sg);
    check_all(d, r, "built");
    for (int k = 0; k < 4; k++) {
        LND e = build(k, d.get_mu_lnX(), d.get_mean_X(), d.get_median_X(), d.get_sigma_X(), d.get_sigma_lnX());
        check_all(e, r, cat("rebuilt through factory ", k));
    }
    LND c(d), a;
    check_all(c, r, "copied");
    check(std::isnan(a.get_mu_lnX()) && std::isnan(a.get_sigma_lnX()) && std::isnan(a.get_mean_X()) &&
          std::isnan(a.get_median_X()) && std::isnan(a.get_sigma_X()), "default distribution is not undefined");
    a = d;
    check_all(a, r, "assigned");
    if (r.sigma > 0.01) s.nontrivial();
    s.label(cat("factory", how));
}

PROP(c01_zero, "mean zero with random spread through the mean-based factories, and median zero; non-trivial: all") {
    int how = (int)s.draw(3);
    double sp = s.real(0.0, 3.0), x = s.logreal(1e-12, 1e6);
    s.desc << "zero factory " << how << " spread " << sp << " x " << x;
    LND d = how == 0 ? LND::LogNormalDist_from_mean_X_and_sigma_X(0, sp)
        : how == 1 ? LND::LogNormalDist_from_mean_X_and_sigma_lnX(0, sp)
        : LND::LogNormalDist_from_median_X_and_sigma_lnX(0, sp);
    eq(d.get_mean_X(), 0, 0, 0, "mean of zero distribution");
    eq(d.get_median_X(), 0, 0, 0, "median of zero distribution");
    eq(d.get_sigma_X(), 0, 0, 0, "sd of zero distribution");
    eq(d.p_at_least(x), 0, 0, 0, "P(zero >= x)");
    if (sp > 0 || how == 0) eq(d.p_at_most(x), 1, 0, 0, "P(zero <= x)");
    s.nontrivial();
}

PROP(c02_probs, "distribution + a set of 2..8 abscissae placed around it in log space (z in -9..9, far tails, 0) and "
     "probabilities; cdf, ccdf, complement, monotonicity, quantile inverse against erfc reference; non-trivial: "
     "some probability strictly between 1e-12 and 1-1e-12") {
    ref::LN r = gen_ln(s);
    if (r.sigma < 0.005L) r.sigma = 0.3L;
    LND d;
    switch (s.draw(3)) {
    case 0: d = lnd(r); break;
    case 1: d = LND::LogNormalDist_from_mean_X_and_sigma_lnX((double)r.mean(), (double)r.sigma); break;
    default: d = LND::LogNormalDist_from_median_X_and_sigma_lnX((double)r.median(), (double)r.sigma);
    }
    s.desc << "median " << (double)r.median() << " sd_ln " << (double)r.sigma << " at";
    int n = (int)s.integer(2, 8);
    double px = -1, pa = 0, pl = 0;
    std::vector<double> xs;
    for (int i = 0; i < n; i++) {
        double z = s.real(-9, 9);
        double x = s.chance(1, 12) ? s.pick({0.0, (double)expl(r.mu), (double)r.mean()}) : s.chance(1, 10) ? s.logreal(1e-30, 1e30) : (double)expl(r.mu + r.sigma * z);
        xs.push_back(x);
    }
    std::sort(xs.begin(), xs.end());
    for (double x : xs) {
        s.desc << " " << x;
        double most = d.p_at_most(x), least = d.p_at_least(x);
        ref::L wm = r.cdf(x), wl = r.ccdf(x);
        double zz = x > 0 ? fabs((log(x) - (double)r.mu) / (double)r.sigma) : 0;
        double rel = 1e-9 + 1e-13 * zz * zz / (double)r.sigma * 10;   // conditioning of the tails
        if (zz > 30) rel = 1;
        eq(most, wm, rel, 1e-290, cat("P(X <= ", x, ")"));
        eq(least, wl, rel, 1e-290, cat("P(X >= ", x, ")"));
        eq(most + least, 1, 0, 1e-12, "complement");
        check(most >= 0 && most <= 1 && least >= 0 && least <= 1, "probability outside [0,1]");
        if (px >= 0) {
            check(most >= pa - 1e-15 && least <= pl + 1e-15, cat("not monotone between ", px, " and ", x));
        }
        px = x; pa = most; pl = least;
        if (wm > 1e-12L && wl > 1e-12L) s.nontrivial();
    }
    double p = s.chance(1, 8) ? s.logreal(1e-12, 1e-3) : s.chance(1, 8) ? s.boolean() ? 1 - s.logreal(1e-12, 1e-3) : s.pick({0.5, 0.16, 0.84, 0.9, 1 - 1e-5, 1 - 1e-7}) : s.real(0.0001, 0.9999);
    s.desc << " p " << p;
    double x = d.x_at_p(p);
    eq(x, r.quantile(p), 1e-8, 0, cat("quantile at ", p));
    eq(d.p_at_most(x), p, 1e-6, 0, "quantile then cdf");
    double q = s.real(0.0001, 0.9999);
    check((q < p) ? d.x_at_p(q) <= x : d.x_at_p(q) >= x, "quantile not monotone");
    LND u;
    check(std::isnan(u.p_at_least(px)) && std::isnan(u.p_at_most(px)) && std::isnan(u.x_at_p(p)),
          "undefined distribution gave a number");
}

PROP(c03_sum, "0..6 independent lognormals (some zero) added: moments and order invariance; non-trivial: >= 2 non-zero terms") {
    int n = (int)s.size(0, 6, 60), nz = 0;
    std::vector<LND> v;
    ref::L m = 0, var = 0;
    std::vector<ref::LN> rs;
    s.desc << "sum of";
    for (int i = 0; i < n; i++) {
        ref::LN r = gen_ln(s);
        if (s.chance(1, 8)) r = {-ref::INF, 0}; else nz++;
        if (i && s.chance(1, 6)) r = rs[s.draw(rs.size())];                 // another item of the same kind
        rs.push_back(r);
        s.desc << " (mean " << (double)r.mean() << " sd " << (double)r.sd() << ")";
        v.push_back(lnd(r));
        m += r.mean(); var += r.var();
    }
    LND t = LND::AddDistributions(v);
    double cov = m > 0 ? (double)(sqrtl(var) / m) : 0, rel = 1e-9 + (cov > 0 ? 4e-15 / (cov * cov) : 0);
    eq(t.get_mean_X(), m, 1e-9, 0, "mean of sum");
    eq(t.get_sigma_X(), sqrtl(var), rel, 1e-9 * (double)m * 1e-3, "sd of sum");
    std::vector<LND> w(v);
    for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[s.draw(i)]);
    LND t2 = LND::AddDistributions(w);
    eq(t2.get_mean_X(), t.get_mean_X(), 1e-9, 0, "mean of reordered sum");
    eq(t2.get_sigma_X(), t.get_sigma_X(), rel, 1e-9 * (double)m * 1e-3, "sd of reordered sum");
    if (n == 1 && nz == 1) eq(t.get_mu_lnX(), v[0].get_mu_lnX(), 1e-8, 1e-8, "sum of one");
    if (nz >= 2) s.nontrivial();
}

PROP(c03_mixture, "1..6 lognormals mixed with probabilities summing to <= 1 (rest is zero loss); mean, second moment, sd, order "
     "invariance; size mismatch rejected; non-trivial: >= 2 positive weights") {
    int n = (int)s.size(1, 6, 30), pos = 0;
    std::vector<LND> v;
    std::vector<double> w;
    std::vector<ref::LN> rs;
    double left = 1;
    s.desc << "mixture of";
    ref::L m = 0, m2 = 0;
    double scale = s.logreal(1e-3, 1e6);
    for (int i = 0; i < n; i++) {
        ref::LN r{logl((ref::L)(scale * s.logreal(0.01, 100))), s.real(0.0, 1.5)};
        if (s.chance(1, 10)) r = {-ref::INF, 0};
        if (i && s.chance(1, 6)) r = rs[s.draw(rs.size())];
        double p = s.chance(1, 8) ? 0.0 : s.chance(1, 8) ? left : left * s.real(0, 1);
        left -= p;
        if (left < 0) left = 0;
        if (p > 0 && r.mean() > 0) pos++;
        s.desc << " " << p << "*(mean " << (double)r.mean() << " sd " << (double)r.sd() << ")";
        v.push_back(lnd(r)); w.push_back(p); rs.push_back(r);
        m += p * r.mean(); m2 += p * r.m2();
    }
    LND t = LND::AddWeightedDistributions(v, w);
    ref::L var = fabsl(m2 - m * m);
    eq(t.get_mean_X(), m, 1e-9, 0, "mean of mixture");
    double cond = var > 0 ? (double)(m2 / var) : 1e300;
    if (cond < 1e5) eq(t.get_sigma_X(), sqrtl(var), 1e-9 * cond, 0, "sd of mixture");
    else eq(t.get_sigma_X() * t.get_sigma_X() + t.get_mean_X() * t.get_mean_X(), m2, 1e-7, 0, "second moment of mixture");
    std::vector<size_t> perm(n);
    for (int i = 0; i < n; i++) perm[i] = (size_t)i;
    for (size_t i = (size_t)n; i > 1; i--) std::swap(perm[i - 1], perm[s.draw(i)]);
    std::vector<LND> v2; std::vector<double> w2;
    for (size_t i : perm) { v2.push_back(v[i]); w2.push_back(w[i]); }
    LND t2 = LND::AddWeightedDistributions(v2, w2);
    eq(t2.get_mean_X(), t.get_mean_X(), 1e-9, 0, "mean of reordered mixture");
    if (cond < 1e5) eq(t2.get_sigma_X(), t.get_sigma_X(), 1e-9 * cond, 0, "sd of reordered mixture");
    bool threw = false;
    if (s.boolean()) w.push_back(0.0); else w.pop_back();
    try { LND::AddWeightedDistributions(v, w); } catch (std::invalid_argument &) { threw = true; }
    check(threw, "mixture with mismatched weights accepted");
    if (pos >= 2) s.nontrivial();
}

PROP(c03_scale, "a lognormal scaled by a factor (0, fractions, counts, large) via the three scalings: mean scales, log dispersion "
     "kept, so does sd; composition of factors; non-trivial: factor not in {0,1}") {
    ref::LN r = gen_ln(s);
    LND d = lnd(r);
    double f = s.chance(1, 12) ? 0.0 : s.chance(1, 3) ? (double)s.integer(1, 1000) : s.logreal(1e-3, 1e3);
    double g = s.logreal(1e-2, 1e2);
    int how = (int)s.draw(3);
    s.desc << "scale (mean " << (double)r.mean() << " sd_ln " << (double)r.sigma << ") by " << f << " how " << how;
    auto sc = [&](LND &d, double f) {
        return how == 0 ? d.ScaleDistributionByProbability(f) : how == 1 ? d.ScaleDistributionByNumComponents(f)
            : d.ApplyAdjustmentFactor(f);
    };
    LND t = sc(d, f);
    eq(t.get_mean_X(), f * r.mean(), 1e-9, 0, "scaled mean");
    eq(t.get_sigma_X(), f * r.sd(), 1e-9 + srel((double)r.sigma), 0, "scaled sd");
    if (f > 0) {
        eq(t.get_sigma_lnX(), r.sigma, 1e-12, 0, "scaled dispersion");
        eq(t.get_median_X(), f * r.median(), 1e-9, 0, "scaled median");
        LND u = sc(t, g), u2 = sc(d, f * g);
        eq(u.get_mean_X(), u2.get_mean_X(), 1e-9, 0, "factors compose");
    }
    eq(d.get_mean_X(), r.mean(), 1e-9, 0, "operand changed");
    if (f != 0 && f != 1) s.nontrivial();
}
