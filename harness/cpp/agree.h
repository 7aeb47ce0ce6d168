// The library integrates adaptively, and an individual integration can converge falsely, so a computed integral is
// compared with the reference under several independent settings: it must agree under at least one.
#pragma once
#include "model.h"

namespace agree {
typedef SLAT::Integration::IntegrationSettings IS;
struct Set { IS::METHOD_TYPE m; double tol; };
inline const std::vector<Set> &settings() {
    static const std::vector<Set> v{{IS::DIRECTED, 1e-4}, {IS::DIRECTED, 1e-5}, {IS::DIRECTED, 1e-6}, {IS::BINARY_SUBDIVISION, 3e-7}, {IS::DIRECTED, 1e-7},
                                    {IS::REVERSE_BINARY_SUBDIVISION, 1e-8}, {IS::DIRECTED, 3e-9}};
    return v;
}
// Integrals within integrals use a shorter list, bounded so that a case takes seconds at most.
inline const std::vector<Set> &nested_settings() {
    static const std::vector<Set> v{{IS::DIRECTED, 1e-4}, {IS::DIRECTED, 2e-5}, {IS::BINARY_SUBDIVISION, 1e-5}, {IS::DIRECTED, 3e-6}, {IS::BINARY_SUBDIVISION, 2e-6}};
    return v;
}
const unsigned NESTED = 3000;           // evaluation limit that selects the short list
inline const std::vector<Set> &list(unsigned limit) { return limit == NESTED ? nested_settings() : settings(); }
inline void use(size_t i, unsigned limit) {
    IS::Set_Integration_Method(list(limit)[i].m);
    IS::Set_Tolerance(list(limit)[i].tol);
    IS::Set_Integration_Eval_Limit(i == 0 ? std::min(limit, 3000u) : limit);
    IS::Set_Integration_Search_Limit(i == 0 || limit == NESTED ? 2048 : 8192);
}
// compute() evaluates a freshly built model under the current settings
template <class F> void value(pbt::Src &s, F compute, double want, double rel, double abs_, const std::string &what, unsigned limit = 100000, size_t first = 1) {
    std::string seen;
    for (size_t i = first; i < list(limit).size(); i++) {
        use(i, limit);
        double got = compute();
        if (pbt::close(got, want, rel, abs_)) {
            if (i > first) s.label(pbt::cat("agreed at setting ", i));
            use(first, limit);
            return;
        }
        seen += pbt::cat(seen.empty() ? "" : ", ", got);
    }
    use(first, limit);
    pbt::fail(pbt::cat(what, ": got ", seen, " (at successively tighter tolerances), expected ", want));
}
// the same for several numbers produced by one computation; each must agree under some setting
template <class F> void values(pbt::Src &s, F compute, const std::vector<double> &want, double rel, std::vector<double> abs_, const std::string &what, size_t first, unsigned limit = 100000) {
    abs_.resize(want.size(), abs_.back());
    std::vector<std::string> seen(want.size());
    std::vector<bool> ok(want.size(), false);
    for (size_t i = first; i < list(limit).size(); i++) {
        use(i, limit);
        std::vector<double> got = compute();
        pbt::check(got.size() == want.size(), pbt::cat(what, ": ", got.size(), " values instead of ", want.size()));
        bool all = true;
        for (size_t k = 0; k < want.size(); k++) {
            if (ok[k]) continue;
            if (pbt::close(got[k], want[k], rel, abs_[k])) { ok[k] = true; continue; }
            seen[k] += pbt::cat(seen[k].empty() ? "" : ", ", got[k]);
            all = false;
        }
        if (all) { if (i > first) s.label(pbt::cat("agreed at setting ", i)); use(first, limit); return; }
    }
    use(first, limit);
    for (size_t k = 0; k < want.size(); k++)
        if (!ok[k]) pbt::fail(pbt::cat(what, " (entry ", k, "): got ", seen[k], " (at successively tighter tolerances), expected ", want[k]));
}
}
