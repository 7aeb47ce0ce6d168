// Independent model of the whole calculation (functions, hazard, demand, fragility, loss, component group, structure)
// in terms of plain parameter structs, each of which can also build the corresponding library object.
#pragma once
#include "common.h"

namespace model {
using pbt::Src;
using std::vector;

// Gauss-Legendre over [a,b], 16 points
template <class F> double gl16(F f, double a, double b) {
    double m = (a + b) / 2, h = (b - a) / 2, s = 0;
    for (int j = 0; j < 8; j++) {
        double x = (double)ref::gl_x()[j], w = (double)ref::gl_w()[j];
        s += w * (f(m + h * x) + f(m - h * x));
    }
    return s * h;
}
// integral over x in (lo,hi) of f(x) dx in u = log x with break points
template <class F> double integrate(F f, vector<double> breaks, double lo, double hi, double width) {
    vector<double> b{log(lo)};
    for (double x : breaks) if (x > lo && x < hi) b.push_back(log(x));
    b.push_back(log(hi));
    std::sort(b.begin(), b.end());
    double tot = 0;
    for (size_t i = 0; i + 1 < b.size(); i++) {
        double len = b[i + 1] - b[i];
        if (len <= 1e-14) continue;
        int n = (int)ceil(len / width);
        for (int k = 0; k < n; k++)
            tot += gl16([&](double u) { double x = exp(u); return f(x) * x; }, b[i] + len * k / n, b[i] + len * (k + 1) / n);
    }
    return tot;
}
inline double phi_c(double z) { return 0.5 * erfc(z / M_SQRT2); }     // P(Z > z)

struct LN {
    double mu = NAN, sigma = NAN;
    double mean() const { return mu == -INFINITY ? 0 : exp(mu + sigma * sigma / 2); }
    double sd() const { return mu == -INFINITY ? 0 : mean() * sqrt(expm1(sigma * sigma)); }
    double median() const { return exp(mu); }
    double m2() const { return mu == -INFINITY ? 0 : exp(2 * mu + 2 * sigma * sigma); }
    double ccdf(double x) const {
        if (x <= 0) return 1;
        if (mu == -INFINITY) return 0;
        if (sigma == 0) return log(x) < mu ? 1 : 0;
        return phi_c((log(x) - mu) / sigma);
    }
    double cdf(double x) const {
        if (x <= 0) return 0;
        if (mu == -INFINITY) return 1;
        if (sigma == 0) return log(x) < mu ? 0 : 1;
        return phi_c(-(log(x) - mu) / sigma);
    }
    LND make() const { return LND::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sigma); }
    static LN mean_sd(double m, double s) {
        if (m == 0) return {-INFINITY, 0};
        double s2 = log1p((s / m) * (s / m));
        return {log(m) - s2 / 2, sqrt(s2)};
    }
    static LN mean_sdln(double m, double s) { return m == 0 ? LN{-INFINITY, s} : LN{log(m) - s * s / 2, s}; }
    static LN median_sdln(double m, double s) { return {log(m), s}; }
};

enum FnKind { NLH, PLC, LIN, LOGLOG };
struct Fn {
    FnKind kind = PLC;
    double a = 0, b = 0, c = 0;        // NLH: v_asy, IM_asy, alpha;  PLC: a*x^b
    vector<double> xs, ys;
    double val(double x) const {
        switch (kind) {
        case NLH: return x >= b ? 0 : a * exp(c / log(x / b));
        case PLC: return a * pow(x, b);
        default: {
            size_t n = xs.size();
            if (x <= xs[0]) return ys[0];
            if (x >= xs[n - 1]) return ys[n - 1];
            size_t i = (size_t)(std::upper_bound(xs.begin(), xs.end(), x) - xs.begin()) - 1;
            if (kind == LIN) return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i]);
            double t = log(x / xs[i]) / log(xs[i + 1] / xs[i]);
            return ys[i] * pow(ys[i + 1] / ys[i], t);
        }
        }
    }
    double der(double x) const {
        switch (kind) {
        case NLH: { if (x >= b) return 0; double l = log(x / b); return -a * exp(c / l) * c / (l * l) / x; }
        case PLC: return a * b * pow(x, b - 1);
        default: {
            size_t n = xs.size();
            if (x < xs[0] || x > xs[n - 1]) return 0;
            size_t i = (size_t)(std::upper_bound(xs.begin(), xs.end(), x) - xs.begin()) - 1;
            if (i + 1 >= n) i = n - 2;
            if (kind == LIN) return (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]);
            return val(x) / x * log(ys[i + 1] / ys[i]) / log(xs[i + 1] / xs[i]);
        }
        }
    }
    vector<double> breaks() const { return kind == NLH ? vector<double>{b} : kind == PLC ? vector<double>() : xs; }
    std::shared_ptr<DeterministicFn> make() const {
        vector<double> x(xs), y(ys);
        switch (kind) {
        case NLH: return std::make_shared<NonLinearHyperbolicLaw>(a, b, c);
        case PLC: return std::make_shared<PowerLawParametricCurve>(a, b);
        case LIN: return std::make_shared<LinearInterpolatedFn>(x.data(), y.data(), x.size());
        default: return std::make_shared<LogLogInterpolatedFn>(x.data(), y.data(), x.size());
        }
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(6);
        const char *n[] = {"hyperbolic", "power", "linear", "loglog"};
        o << n[kind] << "(";
        if (kind == NLH) o << a << "," << b << "," << c;
        else if (kind == PLC) o << a << "," << b;
        else for (size_t i = 0; i < xs.size(); i++) o << (i ? " " : "") << xs[i] << ":" << ys[i];
        o << ")";
        return o.str();
    }
};
inline Fn power(double a, double b) { Fn f; f.kind = PLC; f.a = a; f.b = b; return f; }
inline Fn hyper(double v, double x, double al) { Fn f; f.kind = NLH; f.a = v; f.b = x; f.c = al; return f; }
inline Fn constant(double c) { return power(c, 0); }

// a hazard curve: positive, decreasing
inline Fn gen_table(Src &s) {
    Fn f;
    bool ll = s.boolean();
    f.kind = ll ? LOGLOG : LIN;
    int n = (int)s.integer(3, 8);
    double x = s.logreal(0.005, 0.05), y = s.logreal(0.05, 1);
    for (int i = 0; i < n; i++) {
        f.xs.push_back(x * s.unit); f.ys.push_back(y);
        x *= s.real(1.4, 2.6);
        y *= s.real(0.08, 0.7);
    }
    return f;
}
inline Fn gen_hazard(Src &s) {
    switch (s.weighted({3, 3, 2, 1})) {
    case 0: { double a = s.logreal(1e-5, 1e-2), b = -s.real(1.4, 3.5); return power(a * pow(s.unit, -b), b); }
    case 1: { double v = s.logreal(50, 5000), x = s.real(8, 60) * s.unit; return hyper(v, x, s.real(30, 90)); }
    default: return gen_table(s);
    }
}

// a positive, increasing location function of intensity with typical value `scale` at intensity 1
inline Fn gen_location(Src &s, double scale) {
    switch (s.weighted({4, 1, 1})) {
    case 0: { double a = scale * s.real(0.4, 2.5), b = s.real(0.5, 1.6); return power(a * pow(s.unit, -b), b); }
    case 1: {
        Fn f; f.kind = LIN;
        int n = (int)s.integer(2, 6);
        double x = s.real(0.05, 0.3), y = scale * x * s.real(0.5, 2);
        f.xs.push_back(0); f.ys.push_back(0);
        for (int i = 0; i < n; i++) { f.xs.push_back(x * s.unit); f.ys.push_back(y); x += s.real(0.2, 0.9); y += scale * s.real(0.1, 0.9); }
        return f;
    }
    default: {
        Fn f; f.kind = LOGLOG;
        int n = (int)s.integer(2, 6);
        double x = s.logreal(0.003, 0.05), y = scale * x * s.real(0.5, 2);
        for (int i = 0; i < n; i++) { f.xs.push_back(x * s.unit); f.ys.push_back(y); x *= s.real(1.6, 4); y *= s.real(1.4, 4); }
        return f;
    }
    }
}
inline Fn gen_sdln(Src &s) {
    if (s.chance(3, 4)) return constant(s.real(0.2, 0.8));
    Fn f; f.kind = LIN;
    double x = s.real(0, 0.3);
    int n = (int)s.integer(2, 4);
    for (int i = 0; i < n; i++) { f.xs.push_back(x * s.unit); f.ys.push_back(s.real(0.25, 0.8)); x += s.real(0.2, 1); }
    return f;
}

enum MuKind { MEAN, MEDIAN, MEAN_LN };
enum SdKind { SD, SD_LN };
struct Prob {                    // lognormal function of x
    Fn mu, sd;
    MuKind mk = MEDIAN;
    SdKind sk = SD_LN;
    LN at(double x) const {
        double m = mu.val(x), s = sd.val(x);
        if (sk == SD) {
            if (mk == MEAN) return LN::mean_sd(m, s);
            double med = mk == MEDIAN ? m : exp(m);
            double r = s / med, w = (1 + sqrt(1 + 4 * r * r)) / 2;      // w = exp(sigma^2)
            return {log(med), sqrt(log(w))};
        }
        switch (mk) {
        case MEAN: return LN::mean_sdln(m, s);
        case MEDIAN: return LN::median_sdln(m, s);
        default: return {m, s};
        }
    }
    vector<double> breaks() const { vector<double> b = mu.breaks(), c = sd.breaks(); b.insert(b.end(), c.begin(), c.end()); return b; }
    std::shared_ptr<ProbabilisticFn> make(std::shared_ptr<DeterministicFn> m, std::shared_ptr<DeterministicFn> d) const {
        return std::make_shared<LogNormalFn>(m,
            mk == MEAN ? LogNormalFn::MEAN_X : mk == MEDIAN ? LogNormalFn::MEDIAN_X : LogNormalFn::MEAN_LN_X, d,
            sk == SD ? LogNormalFn::SIGMA_X : LogNormalFn::SIGMA_LN_X);
    }
    std::shared_ptr<ProbabilisticFn> make() const { return make(mu.make(), sd.make()); }
    std::string str() const {
        const char *m[] = {"mean ", "median ", "mean_ln "};
        return std::string(m[mk]) + mu.str() + (sk == SD ? ", sd " : ", sd_ln ") + sd.str();
    }
};
inline Prob gen_prob(Src &s, double scale) {
    Prob p;
    p.mk = (MuKind)s.weighted({3, 3, 1});
    p.sk = SD_LN;
    p.sd = gen_sdln(s);
    if (p.mk == MEAN_LN) {                     // linear table of log medians
        p.mu.kind = LIN;
        int n = (int)s.integer(2, 5);
        double x = s.real(0.02, 0.2), y = log(scale * x);
        for (int i = 0; i < n; i++) { p.mu.xs.push_back(x * s.unit); p.mu.ys.push_back(y); x += s.real(0.2, 1); y += s.real(0.1, 1.2); }
    } else {
        p.mu = gen_location(s, scale);
        if (p.mk == MEAN && s.chance(1, 4)) {          // sd proportional to mean
            p.sk = SD;
            p.sd = p.mu;
            double k = s.real(0.25, 0.9);
            if (p.sd.kind == PLC) p.sd.a *= k; else for (double &y : p.sd.ys) y *= k;
        }
    }
    return p;
}

struct Hazard {
    Fn f;
    bool has_c = false, has_d = false;
    LN c, d;
    double pC(double x) const { return has_c ? c.cdf(x) : 0; }
    double pD(double x) const { return has_d ? d.cdf(x) - pC(x) : 0; }
    double pR(double x) const { return 1 - (pC(x) + pD(x)); }
    std::shared_ptr<IM> make(const std::string &name = "im") const {
        auto im = std::make_shared<IM>(f.make(), name);
        apply(im);
        return im;
    }
    void apply(std::shared_ptr<IM> im) const {
        if (has_c) im->SetCollapse(c.make());
        if (has_d) im->SetDemolition(d.make());
    }
    // integral of g(x) |dlambda|
    static constexpr double LO = 1e-9, HI = 1e7;
    template <class G> double integral(G g, vector<double> extra = {}, double width = 0.25, double lo = LO, double hi = HI) const {
        vector<double> b = f.breaks();
        b.insert(b.end(), extra.begin(), extra.end());
        if (f.kind == NLH) hi = std::min(hi, f.b);
        if (f.kind == LIN || f.kind == LOGLOG) { lo = std::max(lo, f.xs.front()); hi = std::min(hi, f.xs.back()); if (hi <= lo) return 0; }
        return integrate([&](double x) { return g(x) * fabs(f.der(x)); }, b, lo, hi, width);
    }
    // whether a rate depends on vanishing intensities (below lo), or on values so small (below least) that the numerical
    // derivative of the demand's distribution does not resolve them
    template <class G> bool vanishing(G g, double want, double lo, double least = 0) const {
        return integral([&](double x) { double v = g(x); return x < lo || v < least ? v : 0; }, {lo}, 0.8, LO, least > 0 ? 1e5 : lo) > 1e-3 * fabs(want);
    }
    // allowance for a hazard table that stops where g still matters: the adaptive integration may misplace that jump slightly
    template <class G> double jump(G g) const {
        if (f.kind != LIN && f.kind != LOGLOG) return 0;
        double x = f.xs.back();
        return 0.04 * fabs(g(x) * f.der(x * (1 - 1e-9))) * x;
    }
    double collapse_rate() const { return has_c ? integral([&](double x) { return pC(x); }) : 0; }
    double demolition_rate() const { return has_d ? integral([&](double x) { return pD(x); }) : 0; }
    std::string str() const {
        std::ostringstream o;
        o.precision(6);
        o << f.str();
        if (has_c) o << " collapse(" << c.median() << "," << c.sigma << ")";
        if (has_d) o << " demolition(" << d.median() << "," << d.sigma << ")";
        return o.str();
    }
};
inline void gen_fates(Src &s, Hazard &h) {
    // demolition stochastically below collapse, same dispersion: pDemolition >= 0 everywhere
    h.has_c = s.boolean();
    h.has_d = s.boolean();
    double cm = s.real(0.6, 3) * s.unit, sg = s.real(0.25, 0.6);
    h.c = LN::median_sdln(cm, sg);
    h.d = LN::median_sdln(cm * s.real(0.3, 0.95), sg);
}
inline Hazard gen_im(Src &s) { Hazard h; h.f = gen_hazard(s); gen_fates(s, h); return h; }

struct Demand {
    Prob p1, p2;
    bool compound = false;
    const Prob &which(double x) const { return compound && !(p1.at(x).mean() > p2.at(x).mean()) ? p2 : p1; }
    LN at(double x) const { return which(x).at(x); }
    vector<double> breaks() const {
        vector<double> b = p1.breaks();
        if (!compound) return b;
        vector<double> c = p2.breaks();
        b.insert(b.end(), c.begin(), c.end());
        // crossing points of the two means
        double px = 1e-6; bool pw = p1.at(px).mean() > p2.at(px).mean();
        for (double u = log(1e-6); u < log(1e4); u += 0.02) {
            double x = exp(u); bool w = p1.at(x).mean() > p2.at(x).mean();
            if (w != pw) {
                double lo = px, hi = x;
                for (int i = 0; i < 60; i++) { double m = sqrt(lo * hi); ((p1.at(m).mean() > p2.at(m).mean()) == pw ? lo : hi) = m; }
                b.push_back(hi);
            }
            px = x; pw = w;
        }
        return b;
    }
    double rate(const Hazard &h, double y) const {
        return h.integral([&](double x) { double r = h.pR(x); return at(x).ccdf(y) * r + (1 - r); }, breaks());
    }
    std::shared_ptr<EDP> make(std::shared_ptr<IM> im, const std::string &name = "edp") const {
        if (compound) return std::make_shared<CompoundEDP>(im, p1.make(), p2.make(), name);
        return std::make_shared<EDP>(im, p1.make(), name);
    }
    std::string str() const { return compound ? "max{" + p1.str() + " | " + p2.str() + "}" : p1.str(); }
};

// A hazard unbounded at zero intensity has a finite rate only for demands that vanish there
inline void make_integrable(Src &s, Hazard &h, const Demand &d) {
    auto vanishes = [](const Prob &p) { return p.mk != MEAN_LN && p.mu.kind != LOGLOG && p.mu.val(0) == 0; };
    if (h.f.kind == PLC && !(vanishes(d.p1) && (!d.compound || vanishes(d.p2))))
        h.f = gen_table(s);
    else if (h.f.kind == NLH && !(vanishes(d.p1) && (!d.compound || vanishes(d.p2))))
        h.f = gen_table(s);
}

struct Frag {
    vector<LN> ds;
    vector<double> exceeded(double y) const { vector<double> r; for (auto &d : ds) r.push_back(d.cdf(y)); return r; }
    vector<double> highest(double y) const {
        vector<double> r = exceeded(y);
        for (size_t i = 0; i + 1 < r.size(); i++) r[i] = std::max(0.0, r[i] - r[i + 1]);
        return r;
    }
    std::shared_ptr<FragilityFn> make() const { vector<LND> v; for (auto &d : ds) v.push_back(d.make()); return std::make_shared<FragilityFn>(v); }
    std::string str() const {
        std::ostringstream o; o.precision(6); o << "frag[";
        for (auto &d : ds) o << "(" << d.median() << "," << d.sigma << ")";
        o << "]"; return o.str();
    }
};
inline Frag gen_frag(Src &s, double scale, int n) {
    Frag f;
    double m = scale * s.real(0.1, 0.6);
    if (n > 6) {                     // many states lie close together; with one dispersion their curves do not cross
        double sd = s.real(0.2, 0.6);
        for (int i = 0; i < n; i++) { f.ds.push_back(LN::median_sdln(m, sd)); m *= s.real(1.05, 1.3); }
        return f;
    }
    for (int i = 0; i < n; i++) { f.ds.push_back(LN::median_sdln(m, s.real(0.2, 0.6))); m *= s.real(1.3, 3); }
    return f;
}
struct Loss {
    bool bilevel = false;
    vector<LN> unit;
    struct BL { int n0, n1; double c0, c1, disp; };
    vector<BL> bl;
    size_t n() const { return bilevel ? bl.size() : unit.size(); }
    LN unit_at(size_t i, int count) const {
        if (!bilevel) return unit[i];
        const BL &b = bl[i];
        double m = count <= b.n0 ? b.c0 : count >= b.n1 ? b.c1 : b.c0 + (b.c1 - b.c0) * (count - b.n0) / double(b.n1 - b.n0);
        return LN::mean_sdln(m, b.disp);
    }
    // mean and sd of loss given probabilities
    void moments(const vector<double> &p, int count, double adj, double &mean, double &m2) const {
        mean = m2 = 0;
        for (size_t i = 0; i < n(); i++) { LN u = unit_at(i, count); mean += p[i] * u.mean(); m2 += p[i] * u.m2(); }
        double k = count * adj;
        mean *= k; m2 *= k * k;
    }
    // mean loss when every unit is in its most expensive state
    double worst(int count, double adj) const {
        double r = 0;
        for (size_t i = 0; i < n(); i++) r = std::max(r, unit_at(i, count).mean());
        return r * count * adj;
    }
    std::shared_ptr<LossFn> make() const {
        if (bilevel) {
            vector<std::shared_ptr<BiLevelLoss>> v;
            for (auto &b : bl) v.push_back(std::make_shared<BiLevelLoss>(b.n0, b.n1, b.c0, b.c1, b.disp));
            return std::make_shared<BiLevelLossFn>(v);
        }
        vector<LND> v;
        for (auto &u : unit) v.push_back(u.make());
        return std::make_shared<SimpleLossFn>(v);
    }
    std::string str() const {
        std::ostringstream o; o.precision(6);
        if (bilevel) { o << "bilevel["; for (auto &b : bl) o << "(" << b.n0 << ".." << b.n1 << ": " << b.c0 << ".." << b.c1 << " disp " << b.disp << ")"; }
        else { o << "simple["; for (auto &u : unit) o << "(mean " << u.mean() << " sd_ln " << u.sigma << ")"; }
        o << "]"; return o.str();
    }
};
inline Loss gen_loss(Src &s, int n, double scale) {
    Loss l;
    l.bilevel = s.chance(1, 3);
    double c = scale * s.real(0.2, 1);
    for (int i = 0; i < n; i++) {
        if (l.bilevel) {
            Loss::BL b;
            b.n0 = (int)s.integer(1, 10); b.n1 = b.n0 + (int)s.integer(1, 30);
            b.c0 = c; b.c1 = c * (s.chance(1, 4) ? s.real(1, 3) : s.real(0.3, 1.0)); b.disp = s.real(0.1, 0.8);
            l.bl.push_back(b);
        } else l.unit.push_back(LN::mean_sdln(c, s.real(0.1, 0.8)));
        c *= s.chance(1, 6) ? s.real(0.4, 1.2) : s.real(1.2, 4);
    }
    return l;
}

// P(X >= onset) for lognormal demand and onset: the difference of logs is normal
inline double phi_reach(const LN &y, const LN &onset) {
    if (y.mu == -INFINITY) return 0;
    return phi_c((onset.mu - y.mu) / sqrt(y.sigma * y.sigma + onset.sigma * onset.sigma));
}

struct Group {
    Demand d;
    Frag f;
    bool has_c = true, has_t = true;
    Loss c, t;
    int count = 1;
    double ca = 1, ta = 1;
    // mean and second moment of a loss when the demand has distribution y
    void loss_at(const LN &y, const Loss &l, double adj, double &mean, double &m2, double *mean2 = nullptr) const {
        mean = m2 = 0;
        double e2 = 0;      // second moment of the conditional mean
        if (y.mu == -INFINITY || std::isinf(y.mu) || !count) return;
        size_t n = f.ds.size();
        vector<double> um(n), u2(n);
        for (size_t i = 0; i < n; i++) { LN u = l.unit_at(i, count); um[i] = u.mean(); u2[i] = u.m2(); }
        auto acc = [&](double z, double w) {
            double e = exp(y.mu + y.sigma * z), pdf = w * exp(-z * z / 2) / sqrt(2 * M_PI), a = 0, b = 0;
            vector<double> p = f.highest(e);
            for (size_t i = 0; i < n; i++) { a += p[i] * um[i]; b += p[i] * u2[i]; }
            mean += pdf * a; m2 += pdf * b; e2 += pdf * a * a;
        };
        const int panels = 14;
        const double Z = 9.5;
        for (int k = 0; k < panels; k++) {
            double m = -Z + Z * (2 * k + 1) / panels, hh = Z / panels;
            for (int j = 0; j < 8; j++) {
                double x = (double)ref::gl_x()[j], w = (double)ref::gl_w()[j] * hh;
                acc(m + hh * x, w); acc(m - hh * x, w);
            }
        }
        double k = count * adj;
        mean *= k; m2 *= k * k;
        if (mean2) *mean2 = e2 * k * k;
    }
    // crossing curves: where the clipped state probabilities exceed one there is no distribution to have a dispersion
    bool proper_at(const LN &y) const {
        if (std::isinf(y.mu)) return true;
        double excess = 0;
        for (double z = -5; z <= 5; z += 0.05) {
            vector<double> p = f.highest(exp(y.mu + y.sigma * z));
            excess += 0.05 * exp(-z * z / 2) / sqrt(2 * M_PI) * std::max(0.0, std::accumulate(p.begin(), p.end(), -1.0));
        }
        return excess < 1e-5;
    }
    vector<double> reach_at(const LN &y) const { vector<double> r; for (auto &o : f.ds) r.push_back(phi_reach(y, o)); return r; }
    std::shared_ptr<CompGroup> make(std::shared_ptr<EDP> e, const std::string &name = "cg") const {
        return std::make_shared<CompGroup>(e, f.make(), has_c ? c.make() : nullptr, has_t ? t.make() : nullptr, count, ca, ta, name);
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(6);
        o << count << " x { demand " << d.str() << "; " << f.str() << "; cost ";
        if (has_c) o << ca << "*" << c.str(); else o << "none";
        o << "; delay ";
        if (has_t) o << ta << "*" << t.str(); else o << "none";
        o << " }";
        return o.str();
    }
};
}

// ---- structures -------------------------------------------------------------------------------------------------
namespace model {
inline Group gen_simple_group(Src &s, double scale, double money, int states) {
    Group g;
    g.d.p1 = gen_prob(s, scale);
    int n = (int)s.size(1, states, 12);
    g.f = gen_frag(s, scale, n);
    g.has_c = !s.chance(1, 10);
    g.has_t = s.chance(1, 2);
    g.c = gen_loss(s, n, money * s.real(0.2, 2));
    g.t = gen_loss(s, n, s.logreal(0.1, 50));
    g.count = s.chance(1, 10) ? 0 : s.chance(1, 4) ? 1 : (int)s.size(2, 40, 5000);
    g.ca = s.boolean() ? 1 : s.real(0.2, 3);
    g.ta = s.boolean() ? 1 : s.real(0.2, 3);
    return g;
}
struct Building {
    Hazard h;
    vector<Group> g;
    bool has_rebuild = true, has_demo = true;
    LN rebuild, demo;
    // mean and variance of the repair cost at intensity x
    void repair(double x, double &mean, double &var) const {
        mean = var = 0;
        for (auto &c : g) {
            if (!c.has_c) continue;
            double m, q;
            c.loss_at(c.d.at(x), c.c, c.ca, m, q);
            mean += m; var += std::max(0.0, q - m * m);
        }
    }
    void total(double x, double &mean, double &m2) const {
        double m, v;
        repair(x, m, v);
        mean = h.pR(x) * m; m2 = h.pR(x) * (v + m * m);
        if (h.has_d) { mean += h.pD(x) * demo.mean(); m2 += h.pD(x) * demo.m2(); }
        if (h.has_c) { mean += h.pC(x) * rebuild.mean(); m2 += h.pC(x) * rebuild.m2(); }
    }
    double full() const {           // mean cost of the worst outcome
        double t = 0;
        for (auto &c : g) if (c.has_c) t += c.c.worst(std::max(1, c.count), c.ca);
        if (h.has_d) t = std::max(t, demo.mean());
        if (h.has_c) t = std::max(t, rebuild.mean());
        return t;
    }
    vector<double> breaks() const {
        vector<double> b;
        for (auto &c : g) { auto e = c.d.breaks(); b.insert(b.end(), e.begin(), e.end()); }
        return b;
    }
    std::shared_ptr<Structure> make(bool backwards = false) const {
        auto im = h.make();
        auto st = std::make_shared<Structure>("structure");
        for (size_t k = 0; k < g.size(); k++) {
            const Group &c = g[backwards ? g.size() - 1 - k : k];
            st->AddCompGroup(c.make(c.d.make(im)));
        }
        if (has_rebuild) st->setRebuildCost(rebuild.make());
        if (has_demo) st->setDemolitionCost(demo.make());
        return st;
    }
    std::string str() const {
        std::ostringstream o;
        o.precision(6);
        o << h.str();
        if (has_rebuild) o << " rebuild(" << rebuild.mean() << "," << rebuild.sigma << ")";
        if (has_demo) o << " demolish(" << demo.mean() << "," << demo.sigma << ")";
        for (auto &c : g) o << " " << c.str();
        return o.str();
    }
};
inline Building gen_building(Src &s, int groups, int states) {
    Building b;
    b.h = gen_im(s);
    double money = s.chance(1, 8) ? s.logreal(0.01, 1e9) : s.logreal(1, 1e4), scale = s.pick({1.0, 0.03});
    int n = (int)s.size(1, groups, 5 * groups);
    for (int i = 0; i < n; i++) b.g.push_back(gen_simple_group(s, scale, money, states));
    b.has_rebuild = b.h.has_c || s.boolean();
    b.has_demo = b.h.has_d || s.boolean();
    double big = money * s.logreal(10, 1000);
    b.rebuild = LN::mean_sdln(big, s.real(0.05, 0.8));
    b.demo = LN::mean_sdln(big * s.real(0.3, 1.5), s.real(0.05, 0.8));
    return b;
}
}
