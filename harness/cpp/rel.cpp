// C09 hazard and fates, C10 demand exceedance rate, C11 compound demand
#include "agree.h"
#include <omp.h>
using namespace pbt;
using model::Fn; using model::Hazard; using model::Demand; using model::Prob; using std::vector;
typedef model::LN MLN;

static double tail_p(Src &s) {
    double p = s.chance(1, 5) ? s.logreal(1e-12, 1e-2) : s.real(0.01, 0.99);
    return s.chance(1, 6) ? 1 - s.logreal(1e-12, 1e-2) : p;
}
PROP(c09_points, "random hazard (4 kinds), collapse/demolition set in random order and kinds, replaced 0..3 times, with queries between; rates, slopes and fate probabilities at 1..12 "
     "intensities, lists against points; non-trivial: collapse and demolition both set") {
    Hazard h;
    s.choose_unit();
    h.f = model::gen_hazard(s);
    auto im = h.make();
    s.desc << h.f.str();
    int steps = (int)s.integer(0, 4);
    for (int k = 0; k < steps; k++) {
        MLN l = MLN::median_sdln(s.unit * s.logreal(0.01, 30), s.real(0.05, 1.5));
        bool dem = s.boolean(), ptr = s.boolean();
        s.desc << (dem ? " demolition(" : " collapse(") << l.median() << "," << l.sigma << ")";
        if (dem) { h.d = l; h.has_d = true; if (ptr) im->SetDemolition(std::make_shared<LND>(l.make())); else im->SetDemolition(l.make()); }
        else { h.c = l; h.has_c = true; if (ptr) im->SetCollapse(std::make_shared<LND>(l.make())); else im->SetCollapse(l.make()); }
    }
    vector<double> xs;
    int n = (int)s.size(1, 12, 80);
    for (int i = 0; i < n; i++) xs.push_back(s.chance(1, 15) ? 0 : s.chance(1, 4) && h.f.breaks().size() ? s.pick(h.f.breaks()) : i && s.chance(1, 10) ? xs[0] : s.unit * s.logreal(1e-3, 100));
    if (h.f.kind == model::PLC) for (double &x : xs) if (x == 0) x = 0.01 * s.unit;
    for (double x : xs) {
        s.desc << " @" << x;
        eq(im->lambda(x), h.f.val(x), 1e-9, 1e-300, cat("rate at ", x));
        double c = h.pC(x), d = h.pD(x);
        eq(im->pCollapse(x), c, 1e-9, 1e-13, cat("pCollapse at ", x));
        eq(im->pDemolition(x), d, 1e-9, 1e-13, cat("pDemolition at ", x));
        eq(im->pRepair(x), 1 - c - d, 1e-9, 1e-13, cat("pRepair at ", x));
        eq(im->pCollapse(x) + im->pDemolition(x) + im->pRepair(x), 1, 1e-12, 0, cat("sum of fates at ", x));
        bool near = false;
        for (double b : h.f.breaks()) if (fabs(x - b) <= 1e-6 * (1 + b)) near = true;
        if (!near && x > 1e-4) {
            double v = h.f.val(x), der = h.f.der(x);
            eq(im->DerivativeAt(x), der, 1e-4, 1e-6 * v + 1e-300, cat("slope at ", x));
        }
    }
    auto same = [&](const vector<double> &l, std::function<double(double)> f, const char *what) {
        check(l.size() == xs.size(), cat(what, " list has ", l.size(), " entries"));
        for (size_t i = 0; i < xs.size(); i++) eq(l[i], f(xs[i]), 0, 0, cat(what, " list entry ", i));
    };
    omp_set_num_threads(s.boolean() ? 1 : 3);
    same(im->lambda(xs), [&](double x) { return im->lambda(x); }, "lambda");
    same(im->pCollapse(xs), [&](double x) { return im->pCollapse(x); }, "pCollapse");
    same(im->pDemolition(xs), [&](double x) { return im->pDemolition(x); }, "pDemolition");
    same(im->pRepair(xs), [&](double x) { return im->pRepair(x); }, "pRepair");
    omp_set_num_threads(1);
    if (h.has_c && h.has_d) s.nontrivial();
}

PROP(c09_rates, "collapse and demolition rates of random hazards and fates against the reference integral; zero when not set; "
     "non-trivial: some fate set") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    bool d_first = s.boolean();
    s.desc << h.str();
    auto fresh = [&]() {
        auto im = std::make_shared<IM>(h.f.make(), "im");
        if (h.has_d && d_first) im->SetDemolition(h.d.make());
        if (h.has_c) im->SetCollapse(h.c.make());
        if (h.has_d && !d_first) im->SetDemolition(h.d.make());
        return im;
    };
    double c = h.collapse_rate(), d = h.demolition_rate();
    agree::value(s, [&]() { auto im = fresh(); double v = im->CollapseRate(); eq(im->CollapseRate(), v, 0, 0, "second query"); return v; }, c, 1e-3, 1e-12 + h.jump([&](double x) { return h.pC(x); }), "collapse rate");
    agree::value(s, [&]() { return fresh()->DemolitionRate(); }, d, 2e-3, 1e-3 * c + 1e-12 + h.jump([&](double x) { return h.pD(x); }), "demolition rate");
    if (h.has_c || h.has_d) s.nontrivial();
}

static Demand gen_demand(Src &s, bool compound) {
    Demand d;
    double scale = s.pick({1.0, 0.03, 5.0, 1.0, 0.03, 5.0, 40.0});
    d.p1 = model::gen_prob(s, scale);
    d.compound = compound;
    if (compound) d.p2 = model::gen_prob(s, scale * s.real(0.5, 2));
    return d;
}
static vector<double> gen_levels(Src &s, const Demand &d, int n) {
    vector<double> y;
    for (int i = 0; i < n; i++) y.push_back(d.at(s.unit * s.real(0.15, 1.5)).median() * s.logreal(0.3, 3));
    return y;
}

static void rate_case(Src &s, bool compound) {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Demand d = gen_demand(s, compound);
    if (compound) {        // two far-apart peaks (a second, more dispersed model taking over near zero intensity) are beyond any adaptive quadrature
        double sd = s.real(0.25, 0.6);
        for (Prob *p : {&d.p1, &d.p2}) {
            if (p->mk == model::MEAN_LN || p->mu.kind == model::LOGLOG) { p->mk = model::MEDIAN; p->mu = model::power(s.real(0.4, 2.5) / s.unit, 1); }
            p->sk = model::SD_LN; p->sd = model::constant(sd * s.real(0.85, 1.15));
        }
    }
    model::make_integrable(s, h, d);
    auto ys = gen_levels(s, d, (int)s.integer(1, 2));
    s.desc << h.str() << " demand " << d.str();
    bool nt = false;
    for (double y : ys) {
        s.desc << " y=" << y;
        double want = d.rate(h, y);
        agree::value(s, [&]() { auto e = d.make(h.make()); return e->lambda(y); }, want, 2e-3, 1e-11 + h.jump([&](double x) { double r = h.pR(x); return d.at(x).ccdf(y) * r + (1 - r); }), cat("rate of exceeding ", y));
        if (want > 1e-7 && want < 10) nt = true;
    }
    if (nt) s.nontrivial();
}
PROP(c10_rate, "random hazard x fates x demand (3 location kinds, 4 function kinds): rate of exceeding 1..2 levels against the reference integral; "
     "non-trivial: rate in 1e-7..10") { rate_case(s, false); }

PROP(c10_queries, "conditional queries (mean, median, mean-ln, sd, sd-ln, probability, inverse) at random intensities against the reference, lists and "
     "parallel lists against points in order, for 1..4 threads; non-trivial: list of >= 3 points") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Demand d = gen_demand(s, false);
    auto im = h.make();
    auto e = d.make(im, "the edp");
    s.desc << h.str() << " demand " << d.str();
    vector<double> xs;
    int n = (int)s.size(1, 8, 60);
    for (int i = 0; i < n; i++) xs.push_back(i && s.chance(1, 10) ? xs[0] : s.unit * s.logreal(0.01, 5));
    for (double x : xs) {
        MLN l = d.at(x);
        if (!(l.sigma > 0) || std::isinf(l.mu)) continue;
        s.desc << " @" << x;
        eq(e->Mean(x), l.mean(), 1e-8, 0, cat("mean at ", x));
        eq(e->Median(x), l.median(), 1e-8, 0, cat("median at ", x));
        eq(e->MeanLn(x), l.mu, 1e-8, 1e-8, cat("mean ln at ", x));
        eq(e->SD_ln(x), l.sigma, 1e-7, 0, cat("sd ln at ", x));
        eq(e->SD(x), l.sd(), 1e-7, 0, cat("sd at ", x));
        double y = l.median() * s.logreal(0.2, 5), p = tail_p(s), z = log(y / l.median()) / l.sigma;
        if (s.chance(1, 5)) { z = s.real(-9, 9); y = l.median() * exp(z * l.sigma); }
        eq(e->P_exceedence(x, y), l.ccdf(y), 1e-6 + z * z * (1e-12 + 1e-13 / (l.sigma * l.sigma)), 1e-280, cat("P(demand>", y, ") at ", x));
        eq(e->X_at_exceedence(x, p), exp(l.mu + l.sigma * (double)ref::PhiInv(p)), 1e-6, 0, cat("demand at probability ", p));
    }
    check(e->Base_Rate() == im, "Base_Rate is the intensity measure");
    check(e->get_Name() == "the edp", "name");
    omp_set_num_threads((int)s.integer(1, 4));
    auto same = [&](const vector<double> &l, std::function<double(double)> f, const char *what) {
        check(l.size() == xs.size(), cat(what, " list has ", l.size(), " entries"));
        for (size_t i = 0; i < xs.size(); i++) eq(l[i], f(xs[i]), 0, 0, cat(what, " list entry ", i));
    };
    same(e->Mean(xs), [&](double x) { return e->Mean(x); }, "Mean");
    same(e->Median(xs), [&](double x) { return e->Median(x); }, "Median");
    same(e->MeanLn(xs), [&](double x) { return e->MeanLn(x); }, "MeanLn");
    same(e->SD_ln(xs), [&](double x) { return e->SD_ln(x); }, "SD_ln");
    same(e->SD(xs), [&](double x) { return e->SD(x); }, "SD");
    omp_set_num_threads(1);
    if (n >= 3) s.nontrivial();
}

PROP(c10_monotone, "rates at 6..14 increasing demand levels queried as one parallel list in shuffled order: equal the point queries of a fresh object, never increase beyond the tolerance; "
     "non-trivial: rates vary by more than 10 times") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Demand d = gen_demand(s, s.chance(1, 4));
    model::make_integrable(s, h, d);
    int n = (int)s.integer(6, 14);
    vector<double> y, order;
    double y0 = d.at(s.unit * s.real(0.2, 0.6)).median() * s.real(0.3, 1);
    for (int i = 0; i < n; i++) { y.push_back(y0); y0 *= s.real(1.1, 1.7); }
    order = y;
    for (int i = n - 1; i > 0; i--) std::swap(order[i], order[s.draw(i + 1)]);
    s.desc << h.str() << " demand " << d.str() << " " << n << " levels from " << y[0];
    agree::use(2, 100000);
    auto e1 = d.make(h.make()), e2 = d.make(h.make());
    omp_set_num_threads((int)s.integer(1, 4));
    vector<double> par = e1->par_lambda(order);
    omp_set_num_threads(1);
    check(par.size() == order.size(), "list size");
    std::map<double, double> at;
    for (int i = 0; i < n; i++) { eq(par[i], e2->lambda(order[i]), 0, 0, cat("parallel list entry ", i)); at[order[i]] = par[i]; }
    double prev = INFINITY, first = NAN, last = NAN;
    int i = 0, bad = 0;
    std::string where;
    for (auto &p : at) {
        if (std::isnan(p.second)) { prev = INFINITY; continue; }
        if (p.second > prev * (1 + 1e-3) + 1e-14) { bad++; where += cat(" rate(", p.first, ")=", p.second, ">", prev); }
        prev = p.second;
        if (i++ == 0) first = p.second;
        last = p.second;
    }
    if (bad) {             // isolated false convergences: settle with the tighter settings
        agree::use(5, 1000000);
        auto e3 = d.make(h.make());
        prev = INFINITY; bad = 0; where = "";
        for (auto &p : at) { double r = e3->lambda(p.first); if (std::isnan(r)) continue; if (r > prev * (1 + 1e-3) + 1e-14) { bad++; where += cat(" rate(", p.first, ")=", r, ">", prev); } prev = r; }
        check(bad < 2, "rate increases with demand:" + where);
        s.label("settled at tighter tolerance");
    }
    if (first > 10 * last) s.nontrivial();
}

PROP(c11_choice, "two random models (crossing or not), 1..10 intensities: every query answered by the model with the larger mean; lists too; non-trivial: both "
     "models chosen at some intensity") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Demand d = gen_demand(s, true);
    auto im = h.make();
    auto e = d.make(im);
    s.desc << d.str();
    vector<double> xs;
    int n = (int)s.integer(2, 10);
    for (int i = 0; i < n; i++) xs.push_back(s.unit * s.logreal(0.005, 10));
    bool a = false, b = false;
    for (double x : xs) {
        double m1 = d.p1.at(x).mean(), m2 = d.p2.at(x).mean();
        if (close(m1, m2, 1e-9)) continue;
        MLN l = d.at(x);
        if (!(l.sigma > 0) || std::isinf(l.mu)) continue;
        (m1 > m2 ? a : b) = true;
        s.desc << " @" << x << (m1 > m2 ? "(1)" : "(2)");
        eq(e->Mean(x), l.mean(), 1e-8, 0, cat("mean at ", x));
        eq(e->Median(x), l.median(), 1e-8, 0, cat("median at ", x));
        eq(e->MeanLn(x), l.mu, 1e-8, 1e-8, cat("mean ln at ", x));
        eq(e->SD_ln(x), l.sigma, 1e-7, 0, cat("sd ln at ", x));
        eq(e->SD(x), l.sd(), 1e-7, 0, cat("sd at ", x));
        double y = l.median() * s.logreal(0.2, 5), p = tail_p(s), z = log(y / l.median()) / l.sigma;
        if (s.chance(1, 5)) { z = s.real(-9, 9); y = l.median() * exp(z * l.sigma); }
        eq(e->P_exceedence(x, y), l.ccdf(y), 1e-6 + z * z * (1e-12 + 1e-13 / (l.sigma * l.sigma)), 1e-280, cat("P(demand>", y, ") at ", x));
        eq(e->X_at_exceedence(x, p), exp(l.mu + l.sigma * (double)ref::PhiInv(p)), 1e-6, 0, cat("demand at probability ", p));
    }
    auto same = [&](const vector<double> &l, std::function<double(double)> f, const char *what) {
        check(l.size() == xs.size(), cat(what, " list has ", l.size(), " entries"));
        for (size_t i = 0; i < xs.size(); i++) eq(l[i], f(xs[i]), 0, 0, cat(what, " list entry ", i));
    };
    same(e->Mean(xs), [&](double x) { return e->Mean(x); }, "Mean");
    same(e->Median(xs), [&](double x) { return e->Median(x); }, "Median");
    same(e->MeanLn(xs), [&](double x) { return e->MeanLn(x); }, "MeanLn");
    same(e->SD_ln(xs), [&](double x) { return e->SD_ln(x); }, "SD_ln");
    same(e->SD(xs), [&](double x) { return e->SD(x); }, "SD");
    if (a && b) s.nontrivial();
}
PROP(c11_rate, "exceedance rate of random compound demands against the reference integral of the choice; non-trivial: rate in 1e-7..10") { rate_case(s, true); }

PROP(c11_replace, "random histories of replacing and announcing changes to either model or the hazard, querying between; queries follow the current definition; "
     "non-trivial: both models replaced") {
    s.choose_unit();
    Hazard h = model::gen_im(s);
    Demand d = gen_demand(s, true);
    auto bounded = [&](Hazard &g) { if (g.f.kind == model::PLC) g.f = model::hyper(500, 30 * s.unit, 50); };
    bounded(h);
    auto f1 = d.p1.make(), f2 = d.p2.make();
    auto im = h.make();
    auto e = std::make_shared<CompoundEDP>(im, f1, f2, "compound");
    s.desc << d.str();
    agree::use(1, 20000);
    bool r1 = false, r2 = false;
    int steps = (int)s.integer(1, 6);
    double y0 = d.at(0.5 * s.unit).median();
    for (int k = 0; k < steps; k++) {
        if (s.boolean()) e->lambda(y0);
        switch (s.weighted({3, 3, 1})) {
        case 0: d.p1 = model::gen_prob(s, 1); { auto n = d.p1.make(); f1->replace(n); f1 = n; } r1 = true; s.desc << " ; first:=" << d.p1.str(); break;
        case 1: d.p2 = model::gen_prob(s, 1); { auto n = d.p2.make(); f2->replace(n); f2 = n; } r2 = true; s.desc << " ; second:=" << d.p2.str(); break;
        default: { Hazard g = model::gen_im(s); bounded(g); h = g; auto n = g.make(); im->replace(n); im = n; s.desc << " ; hazard:=" << g.str(); }
        }
        double x = s.unit * s.logreal(0.02, 3);
        MLN l = d.at(x);
        if (!close(d.p1.at(x).mean(), d.p2.at(x).mean(), 1e-9) && l.sigma > 0 && !std::isinf(l.mu)) {
            eq(e->Mean(x), l.mean(), 1e-8, 0, cat("mean at ", x, " after step ", k));
            eq(e->SD_ln(x), l.sigma, 1e-7, 0, cat("sd ln at ", x, " after step ", k));
        }
        double now = e->lambda(y0), want = d.make(h.make())->lambda(y0);
        eq(now, want, 1e-12, 0, cat("rate of exceeding ", y0, " after step ", k));
    }
    if (r1 && r2) s.nontrivial();
}
