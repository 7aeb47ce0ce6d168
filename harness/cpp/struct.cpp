// C14 structure cost at an intensity, C15 annual and discounted losses
#include "agree.h"
#include <omp.h>
using namespace pbt;
using model::Building; using model::Group; using model::Hazard; using std::vector;
typedef model::LN MLN;

static double second(const LND &d) { double m = d.get_mean_X(), s = d.get_sigma_X(); return m * m + s * s; }
// of a lognormal, also when the square of its mean leaves the range of a double
static double variance(double mean, double sd_ln) { return mean > 1e-140 ? exp(2 * log(mean) + (sd_ln > 20 ? sd_ln * sd_ln : log(expm1(sd_ln * sd_ln)))) : 0; }
static double intensity(Src &s, const Building &b) {
    double x = s.unit * (s.chance(1, 10) ? s.logreal(1e-3, 50) : s.real(0.05, 2.5));
    for (double k : b.h.f.breaks()) if (fabs(x - k) < 1e-4 * k) x = k * 1.001;      // no slope at a point of the table
    for (auto &g : b.g) if (std::isinf(g.d.at(x).mu)) return 0.5 * s.unit;
    return x;
}

PROP(c14_weights, "random structures (1..5 groups, rebuild/demolition costs, collapse/demolition settings), 3 intensities: every breakdown against the group results and fate probabilities; "
     "non-trivial: at least two fates each with probability above 1e-3, or two groups with positive cost") {
    s.choose_unit();
    Building b = model::gen_building(s, 5, 4);
    auto st = b.make();
    omp_set_num_threads(s.chance(1, 50) ? 2 : 1);
    s.desc << b.str();
    vector<std::shared_ptr<CompGroup>> groups = st->Components();
    check(groups.size() == b.g.size() && st->get_Name() == "structure", "components");
    auto im = groups[0]->getIM();
    const double tiny = 1e-25 * b.full();       // squares below this leave the range of a double
    int n = (int)s.integer(1, 3);
    for (int k = 0; k < n; k++) {
        double x = intensity(s, b);
        s.desc << " @" << x;
        double m = 0, v = 0;
        int positive = 0;
        bool resolved = true;
        for (auto &g : groups) {
            double e = g->E_cost_IM(x), d = g->SD_ln_cost_IM(x);
            m += e;
            v += variance(e, d);
            if (e > 0 && e < 1e-60 * b.full()) resolved = false;       // its dispersion is not
            positive += e > 0;
        }
        double pC = b.h.pC(x), pD = b.h.pD(x), pR = b.h.pR(x);
        LND nc = st->Cost(x, false);
        eq(nc.get_mean_X(), m, 1e-9, tiny, "repair cost is the sum over the groups");
        if (resolved && m > tiny) eq(nc.get_sigma_X(), sqrt(v), 1e-6, 1e-7 * m, "variance of the repair cost is the sum over the groups");
        double q = v + m * m;
        // fates: each the cost of that fate scaled by its probability (log dispersion unchanged)
        Structure::COSTS f = st->CostsByFate(x);
        eq(f.repair.get_mean_X(), pR * m, 1e-9, 1e-13 * m + tiny, "mean repair cost of its fate");
        double R = b.rebuild.mean(), D = b.demo.mean(), R2 = b.rebuild.m2(), D2 = b.demo.m2();
        if (b.has_rebuild) {
            eq(f.collapse.get_mean_X(), pC * R, 1e-9, 1e-13 * R, "mean collapse cost of its fate");
            eq(second(f.collapse), pC * pC * R2, 1e-6, 1e-12 * R2, "spread of the collapse cost");
        }
        if (b.has_demo) {
            eq(f.demolition.get_mean_X(), pD * D, 1e-9, 1e-13 * D, "mean demolition cost of its fate");
            eq(second(f.demolition), pD * pD * D2, 1e-6, 1e-12 * D2, "spread of the demolition cost");
        }
        if (resolved && m > tiny) eq(second(f.repair), pR * pR * q, 1e-6, 1e-12 * q, "spread of the repair cost");
        LND t = st->TotalCost(x);
        double tm = pR * m + (b.h.has_d ? pD * D : 0) + (b.h.has_c ? pC * R : 0);
        double tq = pR * q + (b.h.has_d ? pD * D2 : 0) + (b.h.has_c ? pC * R2 : 0);
        eq(t.get_mean_X(), tm, 1e-9, 1e-13 * (R + D), "mean total cost");
        if (resolved && tm > 1e-9 * (R + D)) eq(second(t), tq, 1e-6, 1e-10 * tm * tm, "second moment of the total cost");
        if (b.has_rebuild && b.has_demo && b.h.has_c && b.h.has_d)
            eq(f.repair.get_mean_X() + f.collapse.get_mean_X() + f.demolition.get_mean_X(), t.get_mean_X(), 1e-9, 1e-13 * (R + D), "fate means add up to the total");
        // collapse or not
        auto de = st->DeaggregatedCost(x);
        eq(de.first.get_mean_X(), (1 - pC) * m, 1e-9, 1e-13 * m + tiny, "no-collapse part of the cost");
        if (resolved && m > tiny) eq(second(de.first), (1 - pC) * (1 - pC) * q, 1e-6, 1e-12 * q, "spread of the no-collapse part");
        if (b.has_rebuild) {
            eq(de.second.get_mean_X(), pC * R, 1e-9, 1e-13 * R, "collapse part of the cost");
            eq(second(de.second), pC * pC * R2, 1e-6, 1e-12 * R2, "spread of the collapse part");
        }
        LND c = st->Cost(x, true);
        double cm = (1 - pC) * m + (b.h.has_c ? pC * R : 0), cq = (1 - pC) * q + (b.h.has_c ? pC * R2 : 0);
        eq(c.get_mean_X(), cm, 1e-9, 1e-13 * R, "mean cost with collapse");
        if (resolved && cm > 1e-9 * R) eq(second(c), cq, 1e-6, 1e-10 * cm * cm, "second moment of the cost with collapse");
        eq(st->pdf(x), t.get_mean_X() * fabs(im->DerivativeAt(x)), 1e-12, 0, "loss-rate density");
        eq(fabs(im->DerivativeAt(x)), fabs(b.h.f.der(x)), 2e-4, 1e-6 * fabs(b.h.f.val(x)) / x + 1e-280, "slope of the hazard curve") ;
        if ((pR > 1e-3) + (pC > 1e-3) + (pD > 1e-3) > 1 || positive > 1) s.nontrivial();
    }
}

PROP(c14_end_to_end, "random structures at one intensity: repair and total cost against the integral over each group's demand, from the definition alone, at several integration settings; "
     "non-trivial: positive repair cost") {
    Building b = model::gen_building(s, 3, 3);
    double x = intensity(s, b);
    s.desc << b.str() << " @" << x;
    double m, v, tm, tq, full = b.full();
    b.repair(x, m, v);
    b.total(x, tm, tq);
    // the numerical derivative of the demand's distribution resolves about 1e-9 of a full loss
    if (!(m > 1e-7 * full)) throw Discard();
    for (auto &g : b.g) if (!g.proper_at(g.d.at(x))) throw Discard();
    agree::values(s, [&]() { LND d = b.make()->Cost(x, false); return vector<double>{d.get_mean_X(), second(d)}; }, {m, v + m * m}, 5e-3, {1e-9 * full}, "repair cost", 0);
    agree::values(s, [&]() { LND d = b.make()->TotalCost(x); return vector<double>{d.get_mean_X(), second(d)}; }, {tm, tq}, 5e-3, {1e-9 * full}, "total cost", 0);
    s.nontrivial();
}

PROP(c14_extreme, "structures whose outcome is nearly certain: deterministic or narrow unit costs, high demands, equal fixed rebuild and demolition costs: total cost stays finite with the right mean; "
     "non-trivial: coefficient of variation of the total below 1e-4") {
    s.choose_unit();
    Building b = model::gen_building(s, 2, 2);
    double narrow = s.pick({0.0, 1e-9, 1e-6, 1e-3});
    bool same = s.boolean();
    b.rebuild = MLN::mean_sdln(b.rebuild.mean(), narrow);
    b.demo = MLN::mean_sdln(same ? b.rebuild.mean() : b.demo.mean(), narrow);
    for (auto &g : b.g) { for (auto &u : g.c.unit) u = MLN::mean_sdln(u.mean(), narrow); for (auto &u : g.c.bl) u.disp = narrow; }
    auto st = b.make();
    double x = s.unit * (s.pick({0.0, 1.0, 10.0, 1e3}) + s.real(0, 20));
    if (x == 0) x = 0.5 * s.unit;
    for (auto &g : b.g) if (std::isinf(g.d.at(x).mu)) throw Discard();
    s.desc << b.str() << " @" << x;
    double m = 0, v = 0;
    for (auto &g : st->Components()) { double e = g->E_cost_IM(x), d = g->SD_ln_cost_IM(x); m += e; v += variance(e, d); }
    double pC = b.h.pC(x), pD = b.h.pD(x), pR = b.h.pR(x), R = b.rebuild.mean(), D = b.demo.mean();
    double tm = pR * m + (b.h.has_d ? pD * D : 0) + (b.h.has_c ? pC * R : 0);
    double tq = pR * (v + m * m) + (b.h.has_d ? pD * b.demo.m2() : 0) + (b.h.has_c ? pC * b.rebuild.m2() : 0);
    LND t = st->TotalCost(x);
    eq(t.get_mean_X(), tm, 1e-9, 1e-13 * (R + D), "mean total cost");
    check(t.get_sigma_X() >= 0 && std::isfinite(t.get_sigma_X()), cat("standard deviation of the total cost is ", t.get_sigma_X()));
    if (tm < 1e-25 * b.full()) throw Discard();     // squares below this leave the range of a double
    eq(second(t), tq, 1e-6, 1e-10 * tm * tm, "second moment of the total cost");
    LND c = st->Cost(x, true);
    double cm = (1 - pC) * m + (b.h.has_c ? pC * R : 0);
    eq(c.get_mean_X(), cm, 1e-9, 1e-13 * R, "mean cost with collapse");
    check(c.get_sigma_X() >= 0 && std::isfinite(c.get_sigma_X()), cat("standard deviation of the cost with collapse is ", c.get_sigma_X()));
    if (tm > 0 && tq - tm * tm < 1e-8 * tm * tm) s.nontrivial();
}

PROP(c14_groups, "a random history of adding groups (also of a foreign hazard curve: refused), and removing them, against a list; then the order of adding does not matter; "
     "non-trivial: a refusal and a removal happened") {
    s.choose_unit();
    Building b = model::gen_building(s, 4, 3);
    auto im = b.h.make(), other = b.h.make("other");
    Structure st("x");
    vector<std::shared_ptr<CompGroup>> have, made;
    for (auto &g : b.g) made.push_back(g.make(g.d.make(im)));
    auto foreign = b.g[0].make(b.g[0].d.make(other));
    double x = intensity(s, b);
    bool refused = false, removed = false;
    int steps = (int)s.integer(1, 12);
    for (int k = 0; k < steps; k++) {
        switch (s.weighted({4, 2, 2})) {
        case 0: { auto g = s.pick(made); st.AddCompGroup(g); have.push_back(g); s.desc << "+"; break; }
        case 1:
            if (have.empty()) break;
            s.desc << "?";
            try { st.AddCompGroup(foreign); fail("a group based on another hazard curve was accepted"); }
            catch (std::invalid_argument &) { refused = true; }
            break;
        default: {
            auto g = s.chance(1, 4) ? foreign : s.pick(made);
            st.RemoveCompGroup(g);
            s.desc << "-";
            for (size_t i = 0; i < have.size(); i++) if (have[i] == g) { have.erase(have.begin() + i); removed = true; break; }
        } }
        auto c = st.Components();
        check(c == have, cat("the structure has ", c.size(), " groups, expected ", have.size()));
        if (!have.empty() && s.chance(1, 3)) {
            double m = 0, v = 0;
            for (auto &g : have) { double e = g->E_cost_IM(x), d = g->SD_ln_cost_IM(x); m += e; v += variance(e, d); }
            LND d = st.Cost(x, false);
            eq(d.get_mean_X(), m, 1e-9, 1e-140, "repair cost");
            eq(d.get_sigma_X(), sqrt(v), 1e-6, 1e-140 + 1e-7 * m, "sd of the repair cost");
        }
    }
    LND p = b.make()->TotalCost(x), q = b.make(true)->TotalCost(x);
    eq(p.get_mean_X(), q.get_mean_X(), 1e-12, 1e-140, "mean total in the other order");
    eq(p.get_sigma_X(), q.get_sigma_X(), 1e-7, 1e-140 + 1e-7 * p.get_mean_X(), "sd of total in the other order");
    if (refused && removed) s.nontrivial();
}

PROP(c15_annual, "random structures and hazards: mean and standard deviation of the annual cost against the integral over intensity of the reference total cost, at several integration settings; "
     "non-trivial: two groups, or collapse or demolition, and losses negligible where the hazard table stops") {
    Building b = model::gen_building(s, 3, 3);
    for (auto &g : b.g) model::make_integrable(s, b.h, g.d);
    s.desc << b.str();
    double full = b.full(), mean, q;
    auto tot = [&](double x, bool sq) { double m, m2; b.total(x, m, m2); return sq ? m2 : m; };
    mean = b.h.integral([&](double x) { return tot(x, false); }, b.breaks(), 0.4, 1e-8, 1e5);
    if (mean > full || mean < 1e-8 * full) throw Discard();
    q = b.h.integral([&](double x) { return tot(x, true); }, b.breaks(), 0.4, 1e-8, 1e5);
    if (fabs(q - mean * mean) < 0.05 * q) throw Discard();       // cancellation
    bool proper = true;
    for (auto &g : b.g)
        for (double x = b.h.f.xs.empty() ? 0.01 : std::max(0.005, b.h.f.xs.front()); x < 20; x *= 1.15) proper = proper && g.proper_at(g.d.at(x));
    // a hazard table that stops where losses still matter leaves a jump that the adaptive integration may misplace slightly
    double end = 0, jm = 0, jq = 0;
    if (b.h.f.kind == model::LIN || b.h.f.kind == model::LOGLOG) {
        end = b.h.f.xs.back();
        double slope = fabs(b.h.f.der(end * (1 - 1e-9)));
        jm = tot(end, false) * slope * end; jq = tot(end, true) * slope * end;
    }
    agree::value(s, [&]() { return b.make()->AnnualCost().get_mean_X(); }, mean, 1.5e-2, 1e-10 * full + 0.04 * jm, "mean annual cost", agree::NESTED, 0);
    if (proper) agree::value(s, [&]() { LND d = b.make()->AnnualCost(); double m = d.get_mean_X(), sd = d.get_sigma_X(); return q > mean * mean ? sd * sd + m * m : m * m - sd * sd; },
                 q, 2e-2, 1e-10 * full * full + 0.04 * jq, "second moment of the annual cost", agree::NESTED, 0);
    bool tight = 0.04 * jq < 0.02 * q;
    s.label(tight ? "tight" : "hazard table cut short");
    if (!proper) s.label("crossing states");
    if (tight) if (b.g.size() > 1 || b.h.has_c || b.h.has_d) s.nontrivial();
}

PROP(c15_density, "random structures, 2 intensities: loss-rate density against the reference total cost and hazard slope; non-trivial: positive cost") {
    s.choose_unit();
    Building b = model::gen_building(s, 3, 3);
    double x = intensity(s, b);
    s.desc << b.str() << " @" << x;
    double m, q, full = b.full();
    b.total(x, m, q);
    if (!(m > 1e-7 * full)) throw Discard();
    double slope = fabs(b.h.f.der(x));
    for (double k : b.h.f.breaks()) if (fabs(x / k - 1) < 1e-6) throw Discard();
    agree::value(s, [&]() { return b.make()->pdf(x); }, m * slope, 5e-3, 1e-9 * full * slope + 1e-7 * m * fabs(b.h.f.val(x)) / x + 1e-280 * full, "loss-rate density", 100000, 0);
    s.nontrivial();
}

PROP(c15_present_value, "random structures, discount rates 0..0.3 (down to 1e-18, sometimes up to 3 or negative) and sets of years: single and list queries against (1-e^(-rt))/r times the annual cost, increasing in t; "
     "non-trivial: positive annual cost and two distinct years") {
    Building b = model::gen_building(s, 2, 2);
    for (auto &g : b.g) model::make_integrable(s, b.h, g.d);
    if (s.chance(1, 12)) b.g.clear();
    IntegrationSettings::Set_Tolerance(1e-3);
    IntegrationSettings::Set_Integration_Eval_Limit(300);
    std::shared_ptr<Structure> st = b.make();
    int threads = (int)s.integer(1, 4);
    omp_set_num_threads(1);
    double a = b.g.empty() ? NAN : st->AnnualCost().get_mean_X();
    omp_set_num_threads(threads);
    s.desc << b.str();
    for (int k = 0; k < 3; k++) {
        double r = s.chance(1, 8) ? 0 : s.chance(1, 6) ? s.logreal(1e-18, 1e-8) : s.logreal(1e-5, s.chance(1, 6) ? 3 : 0.3);
        if (s.chance(1, 8)) r = -r;                          // prices that fall
        vector<int> years;
        int n = (int)s.integer(0, 12), t = (int)s.integer(0, 3);
        for (int i = 0; i < n; i++) { years.push_back(t); t += (int)s.integer(0, 12); }
        s.desc << " r=" << r << " years " << (years.empty() ? 0 : years.back());
        vector<double> v = st->E_cost(years, r);
        check(v.size() == years.size(), "one value per year");
        for (size_t i = 0; i < v.size(); i++) {
            double y = years[i], f = r == 0 ? y : -expm1(-r * y) / r;
            eq(v[i], f * a, 1e-9, 0, cat("present value of ", years[i], " years at rate ", r));
            eq(st->E_cost(years[i], r), v[i], 1e-15, 0, "single query");
            if (i && a > 0) { check(v[i] >= v[i - 1], "present value decreases with the period"); if (v[i] > v[0]) s.nontrivial(); }
        }
        // rates under which a list of years may be given in any order
        vector<int> back(years.rbegin(), years.rend());
        vector<double> w = st->E_cost(back, r);
        for (size_t i = 0; i < v.size(); i++) eq(w[v.size() - 1 - i], v[i], 1e-15, 0, "list in another order");
    }
}
