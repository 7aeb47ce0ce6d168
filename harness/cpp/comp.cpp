// C12 component groups per demand and intensity, C13 annual component-group results
#include <numeric>
#include "agree.h"
#include <omp.h>
using namespace pbt;
using model::Hazard; using model::Demand; using model::Frag; using model::Loss; using model::Group; using std::vector;
typedef model::LN MLN;

static Group gen_group(Src &s, bool annual) {
    Group g;
    double scale = s.pick({1.0, 0.03, 5.0});
    g.d.p1 = model::gen_prob(s, scale);
    g.d.compound = !annual && s.chance(1, 5);
    if (g.d.compound) g.d.p2 = model::gen_prob(s, scale * s.real(0.5, 2));
    int n = (int)s.size(1, annual ? 4 : 6, 12);
    g.f = model::gen_frag(s, scale, n);
    g.has_c = !s.chance(1, 8);
    g.has_t = !s.chance(1, 4);
    double money = s.chance(1, 8) ? s.logreal(0.01, 1e9) : s.logreal(0.1, 1e5);
    g.c = model::gen_loss(s, n, money);
    g.t = model::gen_loss(s, n, s.logreal(0.1, 50));
    g.count = s.chance(1, 12) ? 0 : s.chance(1, 4) ? 1 : (int)s.size(2, 60, 5000);
    g.ca = s.boolean() ? 1 : !annual && s.chance(1, 12) ? 0 : s.real(0.2, 3);
    g.ta = s.boolean() ? 1 : !annual && s.chance(1, 12) ? 0 : s.real(0.2, 3);
    return g;
}

static double full_loss(const Group &g, const Loss &l, double adj) { return l.worst(std::max(1, g.count), adj); }

PROP(c12_per_demand, "random groups (1..6 states, simple/two-level/no cost and delay functions, count 0..60, factors), demands 0..large: cost and delay distribution and all its "
     "statistics against the mixture; non-trivial: positive loss with dispersion") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, false);
    auto im = h.make();
    auto e = g.d.make(im);
    auto lib = g.make(e, "group");
    s.desc << g.str();
    check(lib->getIM() == im && lib->get_EDP() == e && lib->get_Name() == "group", "accessors");
    double y0 = g.f.ds[0].median();
    bool nt = false;
    for (int k = 0; k < 6; k++) {
        double y = s.chance(1, 8) ? 0 : y0 * s.logreal(0.1, 100);
        s.desc << " @" << y;
        double m, m2, total = 0;
        for (double p : g.f.highest(y)) total += p;
        if (total > 1 + 1e-12) continue;        // crossing curves: the clipped state probabilities are no distribution
        auto one = [&](const LND &d, double mean, double sd_ln, double sd, bool has, const Loss &l, double adj, const char *w) {
            if (!has) {
                check(std::isnan(d.get_mean_X()) && std::isnan(mean) && std::isnan(sd_ln) && std::isnan(sd), cat(w, " defined although there is no loss function"));
                return;
            }
            l.moments(g.f.highest(y), g.count, adj, m, m2);
            eq(mean, m, 1e-7, 1e-300, cat("mean ", w, " at ", y));
            eq(d.get_mean_X(), m, 1e-7, 1e-300, cat("mean of ", w, " distribution at ", y));
            if (m > 0) {
                double cv2 = m2 / (m * m) - 1;
                eq(expm1(sd_ln * sd_ln), cv2, 1e-6, 1e-9 * (1 + cv2), cat("sd ln ", w, " at ", y));
                eq(sd, m * sqrt(cv2), 1e-6, 1e-4 * m, cat("sd ", w, " at ", y));
                eq(d.get_sigma_lnX(), sd_ln, 0, 0, "dispersion of the distribution");
                if (cv2 > 1e-3) nt = true;
            } else check(sd == 0, cat("sd ", w, " of a zero loss is ", sd));
        };
        one(lib->cost_EDP_dist(y), lib->E_cost_EDP(y), lib->SD_ln_cost_EDP(y), lib->SD_cost_EDP(y), g.has_c, g.c, g.ca, "cost");
        one(lib->delay_EDP_dist(y), lib->E_delay_EDP(y), lib->SD_ln_delay_EDP(y), lib->SD_delay_EDP(y), g.has_t, g.t, g.ta, "delay");
        if (g.has_c) { double mu = lib->mean_ln_cost_EDP(y); g.c.moments(g.f.highest(y), g.count, g.ca, m, m2); if (m > 0) eq(exp(mu) * exp(0.5 * pow(lib->SD_ln_cost_EDP(y), 2)), m, 1e-6, 0, "mean ln cost"); }
    }
    if (nt) s.nontrivial();
}

PROP(c12_at_intensity, "random groups at 1..2 intensities: mean and log dispersion of cost and delay, damage-state probabilities against the integral over the demand distribution; "
     "non-trivial: mean loss at an intensity where the first state is reached with probability > 0.001") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, false);
    s.desc << g.str();
    bool nt = false;
    int n = (int)s.integer(1, 2);
    for (int k = 0; k < n; k++) {
        // an intensity at which some states are likely
        double x = s.unit * s.real(0.1, 2);
        double likely = s.chance(2, 3) ? 0.3 : 0.1;
        for (int i = 0; i < 30 && g.d.at(x).median() < likely * g.f.ds[0].median(); i++) x *= 1.2;
        MLN y = g.d.at(x);
        if (!(y.sigma > 0.02) || std::isinf(y.mu)) throw Discard();
        s.desc << " @" << x;
        auto fresh = [&]() { return g.make(g.d.make(h.make())); };
        auto mom = [&](bool has, const Loss &l, double adj, double &mean, double &sd_ln) {
            mean = sd_ln = 0;
            if (!has || !g.count) return;
            double m2;
            g.loss_at(y, l, adj, mean, m2);
            sd_ln = sqrt(log(std::max(1.0, m2 / (mean * mean))));
        };
        bool proper = g.proper_at(y);
        if (!proper) s.label("crossing states");
        double m, sl;
        mom(g.has_c, g.c, g.ca, m, sl);
        agree::value(s, [&]() { return fresh()->E_cost_IM(x); }, m, 2e-3, 1e-11 * full_loss(g, g.c, g.ca), cat("expected cost at ", x));
        // a mean below the resolution of the numerical derivative gives no dispersion
        auto resolved = [&](const Loss &l, double adj) { return !proper ? false : m == 0 || m > 1e-8 * full_loss(g, l, adj); };
        if (resolved(g.c, g.ca)) agree::value(s, [&]() { return fresh()->SD_ln_cost_IM(x); }, sl, 2e-2, 1e-3, cat("log dispersion of cost at ", x));
        mom(g.has_t, g.t, g.ta, m, sl);
        agree::value(s, [&]() { return fresh()->E_delay_IM(x); }, m, 2e-3, 1e-11 * full_loss(g, g.t, g.ta), cat("expected delay at ", x));
        if (!resolved(g.t, g.ta)) ;
        else if (g.count > 1 && m > 0) {
            // F8: the mean is divided by the count and the standard deviation is not
            double n = g.count, mm, q, e2;
            g.loss_at(y, g.t, g.ta, mm, q, &e2);
            double wrong = sqrt(log(1 + std::max(0.0, n * n * (q - e2) + e2 - mm * mm) / (mm * mm)));
            try { agree::value(s, [&]() { return fresh()->SD_ln_delay_IM(x); }, sl, 2e-2, 1e-3, cat("log dispersion of delay at ", x)); }
            catch (Fail &f) {
                agree::value(s, [&]() { return fresh()->SD_ln_delay_IM(x); }, wrong, 2e-2, 1e-3, cat(f.msg, "; nor the value of the listed finding at ", x));
                s.finding("delay-dispersion-count", f.msg);
            }
        } else
            agree::value(s, [&]() { return fresh()->SD_ln_delay_IM(x); }, sl, 2e-2, 1e-3, cat("log dispersion of delay at ", x));
        vector<double> want = g.reach_at(y);
        agree::values(s, [&]() { return fresh()->pDS_IM(x); }, want, 2e-3, {1e-9}, cat("P(reach state) at ", x), 1);
        auto one = fresh();
        omp_set_num_threads(2);
        LND d = one->CostDist_IM(x);
        omp_set_num_threads(1);
        double e = one->E_cost_IM(x), sd = one->SD_ln_cost_IM(x);
        eq(d.get_mean_X(), e, 1e-12, 0, "mean of CostDist_IM");
        eq(d.get_sigma_lnX(), sd, 0, 0, "dispersion of CostDist_IM");
        if (want[0] > 1e-3 && (g.has_c || g.has_t) && g.count) nt = true;
    }
    if (nt) s.nontrivial();
}

PROP(c13_annual_cost, "random groups and hazards: expected annual cost against the double integral; the fates do not enter; non-trivial: positive cost") {
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, true);
    model::make_integrable(s, h, g.d);
    s.desc << h.str() << " " << g.str();
    double want = 0, full = full_loss(g, g.c, g.ca);
    auto cost = [&](double x) { double m, m2; g.loss_at(g.d.at(x), g.c, g.ca, m, m2); return m; };
    if (g.has_c && g.count) want = h.integral(cost, g.d.breaks(), 0.4, 1e-6, 1e5);
    if (want > 20 * full || (g.has_c && g.count && h.vanishing(cost, want, 1e-6, 1e-6 * full))) throw Discard();      // dominated by vanishing intensities
    agree::value(s, [&]() { return g.make(g.d.make(h.make()))->E_annual_cost(); }, want, 1e-2, 1e-11 * full + (want > 0 ? h.jump(cost) : 0), "expected annual cost", agree::NESTED, 0);
    if (want > 0) s.nontrivial();
}

PROP(c13_rates, "random groups and hazards: rate of reaching each damage state against the double integral; ordered states have decreasing rates; non-trivial: a rate within 1e-8..1") {
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, true);
    model::make_integrable(s, h, g.d);
    s.desc << h.str() << " " << g.str();
    size_t n = g.f.ds.size();
    vector<double> want(n);
    vector<double> allow(n);
    for (size_t i = 0; i < n; i++) {
        auto reach = [&](double x) { MLN y = g.d.at(x); return model::phi_reach(y, g.f.ds[i]); };
        want[i] = h.integral(reach, g.d.breaks(), 0.4, 1e-6, 1e5);
        allow[i] = 1e-11 + h.jump(reach);
        if (h.vanishing(reach, want[i], 1e-6, 1e-6)) throw Discard();
    }
    if (want[0] > 20) throw Discard();          // dominated by vanishing intensities
    agree::values(s, [&]() { return g.make(g.d.make(h.make()))->Rate(); }, want, 1e-2, allow, "damage state rate", 0, agree::NESTED);
    if (want[0] > 1e-8 && want[0] < 1) s.nontrivial();
}

PROP(c13_lambda, "random groups and hazards, 1..3 increasing costs: rate of exceeding each against the integral over intensity of the lognormal with the conditional "
     "mean and dispersion; never increasing; non-trivial: a rate within 1e-8..10") {
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, true);
    model::make_integrable(s, h, g.d);
    s.desc << h.str() << " " << g.str();
    double full = full_loss(g, g.c, g.ca);
    int n = (int)s.integer(1, 3);
    double c = full * s.logreal(0.02, 1);
    bool nt = false;
    double prev = INFINITY;
    for (int k = 0; k < n; k++, c *= s.real(1.2, 3)) {
        s.desc << " cost>" << c;
        double want = 0;
        auto above = [&](double x) {
            double m, q;
            g.loss_at(g.d.at(x), g.c, g.ca, m, q);
            if (!(m > 1e-280)) return 0.0;
            MLN l = MLN::mean_sdln(m, sqrt(log(std::max(1.0, q / (m * m)))));
            return l.ccdf(c);
        };
        if (g.has_c && g.count) want = h.integral(above, g.d.breaks(), 0.4, 1e-6, 1e5);
        if (want > 20 || (g.has_c && g.count && h.vanishing(above, want, 1e-6))) throw Discard();
        agree::value(s, [&]() { return g.make(g.d.make(h.make()))->lambda_cost(c); }, want, 1.5e-2, 1e-10 + (want > 0 ? h.jump(above) : 0), cat("rate of exceeding cost ", c), agree::NESTED, 0);
        check(want <= prev * (1 + 1e-6), "reference not monotone");
        prev = want;
        if (want > 1e-8 && want < 10) nt = true;
    }
    if (nt) s.nontrivial();
}

PROP(c13_proportional, "a random group against copies with one quantity scaled (cost factor, delay factor, unit costs, count with simple losses, hazard): expected annual cost, conditional means scale, "
     "damage-state rates, log dispersions and cost-exceedance rates at scaled cost do not; non-trivial: positive cost") {
    Hazard h = model::gen_im(s);
    Group g = gen_group(s, true);
    model::make_integrable(s, h, g.d);
    g.has_c = g.has_t = true;
    if (!g.count) g.count = 3;
    agree::use(1, agree::NESTED);
    double k = ldexp(1, (int)s.integer(1, 4));       // powers of two: identical integration decisions
    Group a = g;
    double kc = 1, kt = 1;
    switch (s.draw(3)) {
    case 0: a.ca *= k; kc = k; s.desc << "cost factor"; break;
    case 1: a.ta *= k; kt = k; s.desc << "delay factor"; break;
    default: a.c.bilevel = g.c.bilevel = false; a.t.bilevel = g.t.bilevel = false;
        if (g.c.unit.empty()) for (auto &b : g.c.bl) g.c.unit.push_back(MLN::mean_sdln(b.c0, b.disp));
        if (g.t.unit.empty()) for (auto &b : g.t.bl) g.t.unit.push_back(MLN::mean_sdln(b.c0, b.disp));
        a = g; a.count = g.count * (int)k; kc = kt = k; s.desc << "count";
    }
    s.desc << " times " << k << ": " << h.str() << " " << g.str();
    auto A = a.make(a.d.make(h.make())), G = g.make(g.d.make(h.make()));
    double x = s.unit * s.real(0.2, 2);
    double annual = G->E_annual_cost(), full = full_loss(g, g.c, g.ca), fullt = full_loss(g, g.t, g.ta);
    if (annual > 20 * full) throw Discard();
    eq(A->E_annual_cost(), kc * annual, 1e-3, 1e-8 * full, "annual cost");
    eq(A->E_cost_IM(x), kc * G->E_cost_IM(x), 1e-3, 1e-12 * kc * full, "cost at intensity");
    eq(A->E_delay_IM(x), kt * G->E_delay_IM(x), 1e-3, 1e-12 * kt * fullt, "delay at intensity");
    if (G->E_cost_IM(x) > 1e-10 * full) eq(A->SD_ln_cost_IM(x), G->SD_ln_cost_IM(x), 2e-2, 1e-3, "log dispersion of cost");
    if (a.count == g.count && G->E_delay_IM(x) > 1e-10 * fullt)             // listed finding delay-dispersion-count (C12): depends on the count
        eq(A->SD_ln_delay_IM(x), G->SD_ln_delay_IM(x), 2e-2, 1e-3, "log dispersion of delay");
    auto ra = A->Rate(), rg = G->Rate();
    for (size_t i = 0; i < ra.size(); i++) eq(ra[i], rg[i], 0, 0, "damage-state rate");
    if (annual > 0) s.nontrivial();
}
