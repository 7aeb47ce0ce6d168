// Independent reference model: written from the published equations
// (slat-lang.org and the lognormal identities), in long double, without using
// GSL or any code of the library under test.
#pragma once
#include <cmath>
#include <functional>
#include <limits>
#include <vector>
#include <algorithm>

namespace ref {
typedef long double L;
const L NaN = std::numeric_limits<L>::quiet_NaN();
const L INF = std::numeric_limits<L>::infinity();

inline L Phi(L z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }          // standard normal cdf
inline L PhiC(L z) { return 0.5L * erfcl(z / sqrtl(2.0L)); }
inline L PhiInv(L p) {                                                 // by bisection + Newton
    if (p <= 0) return -INF;
    if (p >= 1) return INF;
    if (p > 0.5L) return -PhiInv(1 - p);                             // where the distribution function is precise
    L lo = -40, hi = 40;
    for (int i = 0; i < 80; i++) { L m = (lo + hi) / 2; (Phi(m) < p ? lo : hi) = m; }
    return (lo + hi) / 2;
}

struct LN {                    // lognormal; mean zero is mu = -inf
    L mu, sigma;
    L mean() const { return mu == -INF ? 0 : expl(mu + sigma * sigma / 2); }
    L median() const { return expl(mu); }
    L sd() const { return mu == -INF ? 0 : mean() * sqrtl(expm1l(sigma * sigma)); }
    L var() const { return sd() * sd(); }
    L m2() const { return mu == -INF ? 0 : expl(2 * mu + 2 * sigma * sigma); }   // E[X^2]
    L cdf(L x) const {
        if (x <= 0) return 0;
        if (mu == -INF) return 1;
        if (sigma == 0) return logl(x) < mu ? 0 : 1;
        return Phi((logl(x) - mu) / sigma);
    }
    L ccdf(L x) const {
        if (x <= 0) return 1;
        if (mu == -INF) return 0;
        if (sigma == 0) return logl(x) < mu ? 1 : 0;
        return PhiC((logl(x) - mu) / sigma);
    }
    L quantile(L p) const { return mu == -INF ? 0 : expl(mu + sigma * PhiInv(p)); }
};
inline LN from_mean_sd(L mean, L sd) {
    if (mean == 0) return {-INF, 0};
    L s2 = log1pl((sd / mean) * (sd / mean));
    return {logl(mean) - s2 / 2, sqrtl(s2)};
}
inline LN from_mean_sdln(L mean, L s) { return {logl(mean) - s * s / 2, s}; }
inline LN from_median_sdln(L med, L s) { return {logl(med), s}; }

// Composite 16-point Gauss-Legendre in u = log(x), with user-supplied break points.
inline const L *gl_x() {
    static const L x[8] = {0.0950125098376374401853193354249580631L, 0.2816035507792589132304605014604961065L,
        0.4580167776572273863424194429835775736L, 0.6178762444026437484466717640487910190L,
        0.7554044083550030338951011948474422683L, 0.8656312023878317438804678977123931324L,
        0.9445750230732325760779884155346083451L, 0.9894009349916499325961541734503326274L};
    return x;
}
inline const L *gl_w() {
    static const L w[8] = {0.1894506104550684962853967232082831051L, 0.1826034150449235888667636679692199394L,
        0.1691565193950025381893120790303599622L, 0.1495959888165767320815017305474785490L,
        0.1246289712555338720524762821920164201L, 0.0951585116824927848099251076022462264L,
        0.0622535239386478928628438369943776943L, 0.0271524594117540948517805724560181035L};
    return w;
}
// integral over x in (lo, hi) of f(x) dx
inline L integrate(const std::function<L(L)> &f, std::vector<L> breaks, L lo, L hi, L width = 0.25L) {
    std::vector<L> b;
    b.push_back(logl(lo));
    for (L x : breaks) if (x > lo && x < hi) b.push_back(logl(x));
    b.push_back(logl(hi));
    std::sort(b.begin(), b.end());
    L tot = 0;
    for (size_t i = 0; i + 1 < b.size(); i++) {
        L len = b[i + 1] - b[i];
        if (len <= 0) continue;
        int n = (int)ceill(len / width);
        for (int k = 0; k < n; k++) {
            L a = b[i] + len * k / n, c = b[i] + len * (k + 1) / n, m = (a + c) / 2, h = (c - a) / 2, s = 0;
            for (int j = 0; j < 8; j++) {
                L x1 = expl(m + h * gl_x()[j]), x2 = expl(m - h * gl_x()[j]);
                s += gl_w()[j] * (f(x1) * x1 + f(x2) * x2);
            }
            tot += s * h;
        }
    }
    return tot;
}
}
