// C07 fragility functions, C08 loss functions
#include "model.h"
using namespace pbt;
using model::Frag; using model::Loss; using std::vector;
typedef model::LN MLN;

static MLN gen_onset(Src &s, double m, double sg) {
    MLN r = MLN::median_sdln(m, sg);
    return r;
}
static LND build(Src &s, const MLN &l) {
    switch (s.draw(4)) {
    case 0: return l.make();
    case 1: return LND::LogNormalDist_from_median_X_and_sigma_lnX(l.median(), l.sigma);
    case 2: return LND::LogNormalDist_from_mean_X_and_sigma_lnX(l.mean(), l.sigma);
    default: return LND::LogNormalDist_from_mean_X_and_sigma_X(l.mean(), l.sd());
    }
}

PROP(c07_probabilities, "1..8 ordered onsets (crossing dispersions included), demands 0, tiny, typical, huge; reach/highest probabilities against Phi; "
     "non-trivial: >= 2 states and some probability strictly between 0.001 and 0.999") {
    int n = (int)s.size(1, 8, 25);
    double m = s.chance(1, 8) ? s.logreal(1e-10, 1e8) : s.logreal(1e-4, 10);
    bool same = s.boolean();
    double sg0 = s.real(0.05, 1.2);
    Frag f;
    vector<LND> on;
    for (int i = 0; i < n; i++) {
        f.ds.push_back(gen_onset(s, m, same ? sg0 : s.real(0.05, 1.2)));
        on.push_back(build(s, f.ds.back()));
        m *= s.chance(1, 5) ? 1.02 : s.real(1.05, 3);
    }
    FragilityFn lib(on);
    s.desc << f.str();
    eq((double)lib.n_states(), n, 0, 0, "number of states");
    vector<double> ys{0};
    for (int k = 0; k < 6; k++) ys.push_back(f.ds[s.draw(n)].median() * s.logreal(0.02, 50));
    ys.push_back(s.pick({1e-300, 1e-12, 1e12, 1e300}));
    bool mid = false;
    for (double y : ys) {
        auto want = f.exceeded(y);
        for (int rep = 0; rep < 2; rep++) {
            auto ex = lib.pExceeded(y), hi = lib.pHighest(y);
            check(ex.size() == (size_t)n && hi.size() == (size_t)n, cat("result sizes ", ex.size(), ",", hi.size(), " for ", n, " states"));
            double sum = 0, up = 0;
            bool ordered = true;
            for (int i = 0; i < n; i++) {
                eq(ex[i], want[i], 1e-9, 1e-14, cat("P(reach state ", i + 1, " | ", y, ")"));
                double d = i + 1 < n ? std::max(0.0, want[i] - want[i + 1]) : want[i];
                eq(hi[i], d, 1e-9, 1e-14, cat("P(highest is state ", i + 1, " | ", y, ")"));
                check(hi[i] >= 0 && hi[i] <= 1 && ex[i] >= 0 && ex[i] <= 1, "probability outside [0,1]");
                if (i + 1 < n && ex[i] < ex[i + 1]) ordered = false;
                sum += hi[i];
                up += hi[i];
                if (want[i] > 1e-3 && want[i] < 0.999) mid = true;
            }
            if (ordered) eq(sum, ex[0], 1e-12, 1e-14, cat("sum of highest-state probabilities at ", y));
            else s.label("crossing states");
        }
    }
    auto states = lib.DamageStates();
    check(states.size() == (size_t)n, "DamageStates size");
    for (int i = 0; i < n; i++) { eq(states[i].get_mu_lnX(), f.ds[i].mu, 1e-12, 1e-12, "stored onset mu"); eq(states[i].get_sigma_lnX(), f.ds[i].sigma, 1e-9, 1e-9, "stored onset sigma"); }
    if (mid && n >= 2) s.nontrivial();
}

PROP(c07_reject, "lists of onsets with an equal or decreasing pair at a random place are rejected, strictly increasing ones accepted; empty rejected; "
     "non-trivial: rejected with >= 2 states") {
    int n = (int)s.size(0, 8, 25);
    vector<LND> on;
    bool ok = n > 0;
    double mu = s.real(-5, 3), prev = 0;
    for (int i = 0; i < n; i++) {
        on.push_back(LND::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, s.real(0.05, 1)));
        if (i && mu <= prev) ok = false;
        s.desc << mu << " ";
        prev = mu;
        switch (s.weighted({12, 1, 1, 1})) {
        case 0: mu += s.logreal(1e-12, 2); if (mu <= prev) mu = std::nextafter(prev, INFINITY); break;
        case 1: break;
        case 2: mu -= s.logreal(1e-12, 2); break;
        default: mu = on[0].get_mu_lnX(); break;
        }
    }
    bool thrown = false;
    try { FragilityFn f(on); } catch (std::invalid_argument &) { thrown = true; }
    check(thrown == !ok, cat(n, " onsets ", ok ? "strictly increasing but rejected" : "not strictly increasing but accepted"));
    if (!ok && n > 1) s.nontrivial();
}

static void check_loss(const LND &d, double mean, double m2, const std::string &what) {
    eq(d.get_mean_X(), mean, 1e-9, 1e-300, what + " mean");
    if (mean > 0) {
        double cv2 = m2 / (mean * mean) - 1;
        eq(expm1(d.get_sigma_lnX() * d.get_sigma_lnX()), cv2, 1e-9, 2e-12 * (1 + cv2) , what + " squared coefficient of variation");
    } else eq(d.get_sigma_X(), 0, 0, 0, what + " sd of zero loss");
}

static vector<double> gen_probs(Src &s, int n) {
    vector<double> p(n, 0);
    switch (s.weighted({5, 1, 1})) {
    case 0: { double left = 1; for (int i = 0; i < n; i++) { p[i] = left * s.real(0, 1); left -= p[i]; } break; }
    case 1: p[s.draw(n)] = 1; break;
    default: break;
    }
    if (s.boolean()) std::reverse(p.begin(), p.end());
    return p;
}

PROP(c08_loss, "simple and two-level loss functions of 1..6 states, 1..8 queries with random probabilities, counts (in, at, below, above the limits) and factors, some repeated; "
     "mean and second moment against the mixture; non-trivial: >= 2 states with positive probability") {
    int n = (int)s.size(1, 6, 20);
    Loss l;
    l.bilevel = s.boolean();
    double unit = s.chance(1, 8) ? s.logreal(1e-9, 1e6) : 1;
    for (int i = 0; i < n; i++) {
        double c = s.chance(1, 12) ? 0 : unit * s.logreal(1e-3, 1e6);
        if (l.bilevel) {
            Loss::BL b;
            b.n0 = (int)s.size(0, 20, 200000); b.n1 = b.n0 + (int)s.size(1, 60, 200000);
            b.c0 = c; b.c1 = s.chance(1, 8) ? c : unit * s.logreal(1e-3, 1e6); b.disp = s.real(0.05, 1.5);
            l.bl.push_back(b);
        } else l.unit.push_back(MLN::mean_sdln(c, s.real(0.05, 1.5)));
    }
    auto lib = l.make();
    s.desc << l.str();
    eq((double)lib->n_states(), n, 0, 0, "number of states");
    int q = (int)s.integer(1, 8);
    bool nt = false;
    for (int k = 0; k < q; k++) {
        auto p = gen_probs(s, n);
        int count = (int)s.size(0, 100, s.boolean() ? 20000 : 1000000);
        if (l.bilevel && s.chance(1, 6)) { auto &b = l.bl[s.draw(n)]; count = (int)s.integer(0, b.n1 + 10); }
        if (l.bilevel && s.boolean()) { auto &b = l.bl[s.draw(n)]; count = s.pick({b.n0, b.n1, b.n0 + 1, b.n1 - 1, b.n1 + 1}); }
        double adj = s.chance(1, 3) ? 1 : s.chance(1, 10) ? 0 : s.logreal(0.01, 100);
        double mean, m2;
        l.moments(p, count, adj, mean, m2);
        s.desc << " | count " << count << " factor " << adj << " p";
        int pos = 0;
        for (int i = 0; i < n; i++) { s.desc << " " << p[i]; if (p[i] > 0 && l.unit_at(i, count).mean() > 0) pos++; }
        if (pos >= 2 && count > 0 && adj > 0) nt = true;
        // the coefficient of variation is kept when the scale is zero; moments() already returns zero then
        check_loss(lib->CalculateLoss(p, count, adj), mean, m2, "loss");
        if (adj == 1) { check_loss(lib->CalculateUnadjustedLoss(p, count), mean, m2, "unadjusted loss"); }
    }
    if (nt) s.nontrivial();
}

PROP(c08_reject, "wrong number of probabilities (shorter, longer, empty) is rejected and the right number still works afterwards; empty functions rejected; non-trivial: all") {
    int n = (int)s.integer(1, 6), k = (int)s.integer(0, 8);
    bool bl = s.boolean();
    s.desc << n << " states, " << k << " probabilities" << (bl ? " bilevel" : "");
    Loss l;
    l.bilevel = bl;
    for (int i = 0; i < n; i++) { if (bl) l.bl.push_back({1, 10, 5.0 + i, 3.0 + i, 0.4}); else l.unit.push_back(MLN::mean_sdln(5.0 + i, 0.4)); }
    auto lib = l.make();
    vector<double> p(k, 1.0 / 8);
    bool thrown = false;
    try { lib->CalculateLoss(p, 4, 1.5); } catch (std::invalid_argument &) { thrown = true; }
    check(thrown == (k != n), thrown ? "matching probabilities rejected" : "mismatched number of probabilities accepted");
    vector<double> p2(n, 1.0 / 8);
    double mean, m2;
    l.moments(p2, 4, 1.5, mean, m2);
    check_loss(lib->CalculateLoss(p2, 4, 1.5), mean, m2, "loss after rejection");
    thrown = false;
    try { if (bl) BiLevelLossFn e(vector<std::shared_ptr<BiLevelLoss>>{}); else SimpleLossFn e(vector<LND>{}); } catch (std::invalid_argument &) { thrown = true; }
    check(thrown, "empty loss function accepted");
    s.nontrivial();
}
