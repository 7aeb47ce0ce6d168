// C16: histories of queries, changes, replacements and destruction against freshly built models.
// The definition of everything is kept as a graph of plain values; the oracle builds fresh objects from it.
#include "model.h"
using namespace pbt;
using std::vector; using std::shared_ptr; using std::string;
typedef model::LN MLN;

namespace {
enum Cat { HZ, LOC, SDL };
// functions and loss functions of a user's own, whose values may change
struct Tunable : DeterministicFn {
    shared_ptr<DeterministicFn> in;
    explicit Tunable(shared_ptr<DeterministicFn> f) : in(f) {}
    void tune(shared_ptr<DeterministicFn> f) { in = f; notify_change(); }
    double DerivativeAt(double x) const override { return in->DerivativeAt(x); }
protected:
    double Evaluate(double x) const override { return in->ValueAt(x); }
};
struct TunableLoss : LossFn {
    shared_ptr<LossFn> in;
    explicit TunableLoss(shared_ptr<LossFn> l) : in(l) {}
    void tune(shared_ptr<LossFn> l) { in = l; notify_change(); }
    LND CalculateUnadjustedLoss(vector<double> p, int count) override { return in->CalculateUnadjustedLoss(p, count); }
    size_t n_states() override { return in->n_states(); }
};
struct FnNode { Cat cat; model::Fn def; shared_ptr<DeterministicFn> live; bool held = true; };
struct PrNode { size_t mu, sd; bool mean; shared_ptr<ProbabilisticFn> live; bool held = true; };
struct ImNode { size_t f; bool has_c = false, has_d = false; MLN c, d; shared_ptr<IM> live; bool held = true; };
struct EdNode { size_t im, p1, p2; bool compound; shared_ptr<EDP> live; bool held = true; };
struct FrNode { model::Frag def; shared_ptr<FragilityFn> live; bool held = true; };
struct LoNode { model::Loss def; shared_ptr<LossFn> live; bool held = true; };
struct GrNode { size_t edp, fr, cost, delay; bool has_c, has_t; int count; double ca, ta; shared_ptr<CompGroup> live; bool held = true; };
struct StNode { vector<size_t> g; bool has_r = false, has_d = false; MLN r, d; shared_ptr<Structure> live; bool held = true; };

struct World {
    Src &s;
    int states;
    vector<FnNode> fn; vector<PrNode> pr; vector<ImNode> im; vector<EdNode> ed; vector<FrNode> fr; vector<LoNode> lo; vector<GrNode> gr; vector<StNode> st;
    IntegrationSettings::METHOD_TYPE method = IntegrationSettings::DIRECTED;
    explicit World(Src &s) : s(s) {}

    template <class N> vector<size_t> held(const vector<N> &v) const { vector<size_t> r; for (size_t i = 0; i < v.size(); i++) if (v[i].held) r.push_back(i); return r; }
    vector<size_t> fns(Cat c) const { vector<size_t> r; for (size_t i = 0; i < fn.size(); i++) if (fn[i].held && fn[i].cat == c) r.push_back(i); return r; }

    // ---- creation of live objects
    void add_fn(Cat c) {
        model::Fn f = c == HZ ? model::gen_hazard(s) : c == LOC ? model::gen_location(s, 0.05) : model::gen_sdln(s);
        bool own = s.chance(1, 4);
        fn.push_back({c, f, own ? std::make_shared<Tunable>(f.make()) : f.make()});
        s.desc << " f" << fn.size() - 1 << (own ? "*=" : "=") << f.str();
    }
    void add_pr() {
        auto a = fns(LOC), b = fns(SDL);
        if (a.empty() || b.empty()) return;
        PrNode n{s.pick(a), s.pick(b), s.boolean(), nullptr};
        n.live = std::make_shared<LogNormalFn>(fn[n.mu].live, n.mean ? LogNormalFn::MEAN_X : LogNormalFn::MEDIAN_X, fn[n.sd].live, LogNormalFn::SIGMA_LN_X);
        pr.push_back(n);
        s.desc << " p" << pr.size() - 1 << "=(f" << n.mu << ",f" << n.sd << ")";
    }
    void add_im() {
        auto a = fns(HZ);
        if (a.empty()) return;
        ImNode n{s.pick(a)};
        n.live = std::make_shared<IM>(fn[n.f].live, "im");
        im.push_back(n);
        s.desc << " im" << im.size() - 1 << "=(f" << n.f << ")";
    }
    void add_ed() {
        auto a = held(im), b = held(pr);
        if (a.empty() || b.empty()) return;
        EdNode n{s.pick(a), s.pick(b), s.pick(b), s.chance(1, 3), nullptr};
        n.live = n.compound ? std::make_shared<CompoundEDP>(im[n.im].live, pr[n.p1].live, pr[n.p2].live, "edp") : std::make_shared<EDP>(im[n.im].live, pr[n.p1].live, "edp");
        ed.push_back(n);
        s.desc << " e" << ed.size() - 1 << "=(im" << n.im << ",p" << n.p1; if (n.compound) s.desc << "|p" << n.p2; s.desc << ")";
    }
    void add_fr() { model::Frag f = model::gen_frag(s, 0.05, states); fr.push_back({f, f.make()}); s.desc << " fr" << fr.size() - 1; }
    void add_lo() { model::Loss l = model::gen_loss(s, states, s.logreal(1, 100)); bool own = s.chance(1, 4); lo.push_back({l, own ? std::make_shared<TunableLoss>(l.make()) : l.make()}); s.desc << " l" << lo.size() - 1 << (own ? "*" : ""); }
    void add_gr() {
        auto a = held(ed), b = held(fr), c = held(lo);
        if (a.empty() || b.empty() || c.empty()) return;
        GrNode n{s.pick(a), s.pick(b), s.pick(c), s.pick(c), !s.chance(1, 10), s.chance(2, 3), (int)s.integer(1, 5), s.boolean() ? 1 : s.real(0.3, 2), s.boolean() ? 1 : s.real(0.3, 2), nullptr};
        n.live = std::make_shared<CompGroup>(ed[n.edp].live, fr[n.fr].live, n.has_c ? lo[n.cost].live : nullptr, n.has_t ? lo[n.delay].live : nullptr, n.count, n.ca, n.ta, "cg");
        gr.push_back(n);
        s.desc << " g" << gr.size() - 1 << "=(e" << n.edp << ",fr" << n.fr << ",l" << n.cost << ",l" << n.delay << ")";
    }
    void add_st() { st.push_back({}); st.back().live = std::make_shared<Structure>("st"); s.desc << " s" << st.size() - 1; }

    // ---- fresh objects from the definition
    struct Fresh {
        std::map<size_t, shared_ptr<DeterministicFn>> fn; std::map<size_t, shared_ptr<ProbabilisticFn>> pr; std::map<size_t, shared_ptr<IM>> im;
        std::map<size_t, shared_ptr<EDP>> ed; std::map<size_t, shared_ptr<CompGroup>> gr; std::map<size_t, shared_ptr<Structure>> st;
    } fresh;
    shared_ptr<DeterministicFn> ffn(size_t i) { auto &x = fresh.fn[i]; if (!x) x = fn[i].def.make(); return x; }
    shared_ptr<ProbabilisticFn> fpr(size_t i) {
        auto &x = fresh.pr[i];
        if (!x) x = std::make_shared<LogNormalFn>(ffn(pr[i].mu), pr[i].mean ? LogNormalFn::MEAN_X : LogNormalFn::MEDIAN_X, ffn(pr[i].sd), LogNormalFn::SIGMA_LN_X);
        return x;
    }
    shared_ptr<IM> fim(size_t i) {
        auto &x = fresh.im[i];
        if (!x) { x = std::make_shared<IM>(ffn(im[i].f), "im"); if (im[i].has_c) x->SetCollapse(im[i].c.make()); if (im[i].has_d) x->SetDemolition(im[i].d.make()); }
        return x;
    }
    shared_ptr<EDP> fed(size_t i) {
        auto &x = fresh.ed[i];
        auto &n = ed[i];
        if (!x) { if (n.compound) x = std::make_shared<CompoundEDP>(fim(n.im), fpr(n.p1), fpr(n.p2), "edp"); else x = std::make_shared<EDP>(fim(n.im), fpr(n.p1), "edp"); }
        return x;
    }
    shared_ptr<CompGroup> fgr(size_t i) {
        auto &x = fresh.gr[i];
        auto &n = gr[i];
        if (!x) x = std::make_shared<CompGroup>(fed(n.edp), fr[n.fr].def.make(), n.has_c ? lo[n.cost].def.make() : nullptr, n.has_t ? lo[n.delay].def.make() : nullptr, n.count, n.ca, n.ta, "cg");
        return x;
    }
    shared_ptr<Structure> fst(size_t i) {
        auto &x = fresh.st[i];
        if (!x) {
            x = std::make_shared<Structure>("st");
            for (size_t g : st[i].g) x->AddCompGroup(fgr(g));
            if (st[i].has_r) x->setRebuildCost(st[i].r.make());
            if (st[i].has_d) x->setDemolitionCost(st[i].d.make());
        }
        return x;
    }
    size_t im_of(size_t g) const { return ed[gr[g].edp].im; }

    // ---- queries
    struct Q { int kind; size_t i; int what; double x; };
    vector<Q> asked;
    static void put(vector<double> &v, LND d) { v.push_back(d.get_mean_X()); v.push_back(d.get_sigma_lnX()); }
    vector<double> ask(const Q &q, shared_ptr<IM> i, shared_ptr<EDP> e, shared_ptr<CompGroup> g, shared_ptr<Structure> t) {
        vector<double> r;
        double x = q.x;
        switch (q.kind) {
        case 0: switch (q.what) {
            case 0: r = {i->lambda(x), i->DerivativeAt(x)}; break;
            case 1: r = {i->pCollapse(x), i->pDemolition(x), i->pRepair(x)}; break;
            case 2: r = {i->CollapseRate()}; break;
            default: r = {i->DemolitionRate()}; } break;
        case 1: switch (q.what) {
            case 0: r = {e->lambda(x * 0.05)}; break;
            case 1: r = {e->Mean(x), e->SD_ln(x), e->P_exceedence(x, 0.05)}; break;
            default: r = {e->Median(x), e->X_at_exceedence(x, 0.3)}; } break;
        case 2: switch (q.what) {
            case 0: r = {g->E_cost_IM(x)}; break;
            case 1: r = {g->SD_ln_cost_IM(x)}; break;
            case 2: r = {g->E_delay_IM(x)}; break;
            case 3: r = {g->SD_ln_delay_IM(x)}; break;
            case 4: r = g->pDS_IM(x); break;
            case 5: r = g->Rate(); break;
            case 6: r = {g->E_annual_cost()}; break;
            case 7: r = {g->lambda_cost(x * 10)}; break;
            case 8: put(r, g->cost_EDP_dist(x * 0.05)); break;
            case 9: put(r, g->delay_EDP_dist(x * 0.05)); break;
            default: r = {g->E_cost_EDP(x * 0.05), g->SD_ln_cost_EDP(x * 0.05), g->E_delay_EDP(x * 0.05), g->SD_ln_delay_EDP(x * 0.05)}; } break;
        default: switch (q.what) {
            case 0: put(r, t->Cost(x, false)); break;
            case 1: put(r, t->Cost(x, true)); break;
            case 2: put(r, t->TotalCost(x)); break;
            case 3: { auto c = t->CostsByFate(x); put(r, c.repair); put(r, c.demolition); put(r, c.collapse); break; }
            case 4: put(r, t->AnnualCost()); break;
            case 5: r = {t->E_cost(50, 0.05)}; break;
            case 6: r = {t->pdf(x)}; break;
            default: { auto c = t->DeaggregatedCost(x); put(r, c.first); put(r, c.second); break; } } break;
        }
        return r;
    }
    string name(const Q &q) {
        static const char *n[4][11] = {{"lambda", "fates", "CollapseRate", "DemolitionRate"}, {"lambda", "moments", "median"},
            {"E_cost_IM", "SD_ln_cost_IM", "E_delay_IM", "SD_ln_delay_IM", "pDS_IM", "Rate", "E_annual_cost", "lambda_cost", "cost_EDP_dist", "delay_EDP_dist", "per EDP"},
            {"Cost", "Cost(collapse)", "TotalCost", "CostsByFate", "AnnualCost", "E_cost", "pdf", "DeaggregatedCost"}};
        const char *k[] = {"im", "e", "g", "s"};
        return cat(k[q.kind], q.i, ".", n[q.kind][q.what], "(", q.x, ")");
    }
    bool usable(const Q &q) {
        if (q.kind == 0) return im[q.i].held;
        if (q.kind == 1) return ed[q.i].held;
        if (q.kind == 2) return gr[q.i].held;
        return st[q.i].held && (!st[q.i].g.empty() || q.what == 4 || q.what == 5);
    }
    void query(const Q &q) {
        s.desc << " ?" << name(q);
        vector<double> got = ask(q, q.kind == 0 ? im[q.i].live : nullptr, q.kind == 1 ? ed[q.i].live : nullptr, q.kind == 2 ? gr[q.i].live : nullptr, q.kind == 3 ? st[q.i].live : nullptr);
        vector<double> want = ask(q, q.kind == 0 ? fim(q.i) : nullptr, q.kind == 1 ? fed(q.i) : nullptr, q.kind == 2 ? fgr(q.i) : nullptr, q.kind == 3 ? fst(q.i) : nullptr);
        check(got.size() == want.size(), cat(name(q), ": ", got.size(), " numbers instead of ", want.size()));
        for (size_t k = 0; k < got.size(); k++)
            if (!close(got[k], want[k], 1e-9, 0))
                fail(cat(name(q), " entry ", k, ": got ", got[k], ", a fresh model gives ", want[k]));
    }
    int changes = 0, requeried = 0;
    bool queried_before_change = false;
    void step_query(bool again) {
        if (again && !asked.empty()) {
            Q q = s.pick(asked);
            if (usable(q)) { query(q); if (changes) requeried++; return; }
        }
        Q q;
        for (int tries = 0; tries < 5; tries++) {
            q.kind = (int)s.weighted({2, 3, 5, 5});
            vector<size_t> h = q.kind == 0 ? held(im) : q.kind == 1 ? held(ed) : q.kind == 2 ? held(gr) : held(st);
            if (h.empty()) continue;
            q.i = s.pick(h);
            q.what = (int)s.integer(0, q.kind == 0 ? 3 : q.kind == 1 ? 2 : q.kind == 2 ? 10 : 7);
            q.x = s.pick({0.1, 0.3, 0.6, 1.0, 1.7});
            if (!usable(q)) continue;
            query(q);
            asked.push_back(q);
            return;
        }
    }

    vector<std::pair<MLN, std::shared_ptr<LND>>> lent;       // distributions handed over, possibly to several hazards
    // ---- changes
    template <class F> void rewrite(vector<size_t *> refs, size_t a, size_t b, F done) { for (auto p : refs) if (*p == a) *p = b; done(); }
    bool in_structure(size_t g) const { for (auto &t : st) for (size_t k : t.g) if (k == g) return true; return false; }
    bool edp_in_structure(size_t e) const { for (size_t g = 0; g < gr.size(); g++) if (gr[g].edp == e && in_structure(g)) return true; return false; }
    template <class N> bool pick2(vector<N> &v, size_t &a, size_t &b) {
        auto h = held(v);
        if (h.empty()) return false;
        a = s.pick(h); b = s.pick(h);
        return true;
    }
    void change() {
        fresh = Fresh();
        switch (s.weighted({4, 2, 3, 3, 2, 2, 2, 4, 4, 3, 3, 3, 2, 2, 1, 1, 4})) {
        case 0: {        // replace a function by another (new or existing) of its category
            auto h = held(fn);
            if (h.empty()) break;
            size_t a = s.pick(h), b;
            if (s.boolean()) { add_fn(fn[a].cat); b = fn.size() - 1; } else b = s.pick(fns(fn[a].cat));
            s.desc << " f" << a << "->f" << b;
            fn[a].live->replace(fn[b].live);
            for (auto &n : pr) { if (n.mu == a) n.mu = b; if (n.sd == a) n.sd = b; }
            for (auto &n : im) if (n.f == a) n.f = b;
            changes++; break; }
        case 1: {
            size_t a, b;
            if (!pick2(pr, a, b)) break;
            if (s.boolean()) { size_t was = pr.size(); add_pr(); if (pr.size() > was) b = was; }
            s.desc << " p" << a << "->p" << b;
            pr[a].live->replace(pr[b].live);
            for (auto &n : ed) { if (n.p1 == a) n.p1 = b; if (n.compound && n.p2 == a) n.p2 = b; }
            changes++; break; }
        case 2: {
            size_t a, b;
            if (!pick2(im, a, b)) break;
            if (s.boolean()) { size_t was = im.size(); add_im(); if (im.size() > was) b = was; }
            s.desc << " im" << a << "->im" << b;
            im[a].live->replace(im[b].live);
            for (auto &n : ed) if (n.im == a) n.im = b;
            changes++; break; }
        case 3: {        // replacement by a demand on the same hazard, if structures depend on it
            size_t a, b;
            if (!pick2(ed, a, b)) break;
            if (s.boolean()) { size_t was = ed.size(); add_ed(); if (ed.size() > was) b = was; }
            if (ed[a].im != ed[b].im && edp_in_structure(a)) break;
            s.desc << " e" << a << "->e" << b;
            ed[a].live->replace(ed[b].live);
            for (auto &n : gr) if (n.edp == a) n.edp = b;
            changes++; break; }
        case 4: {
            size_t a, b;
            if (!pick2(fr, a, b)) break;
            if (s.boolean()) { size_t was = fr.size(); add_fr(); if (fr.size() > was) b = was; }
            s.desc << " fr" << a << "->fr" << b;
            fr[a].live->replace(fr[b].live);
            for (auto &n : gr) if (n.fr == a) n.fr = b;
            changes++; break; }
        case 5: {
            size_t a, b;
            if (!pick2(lo, a, b)) break;
            if (s.boolean()) { size_t was = lo.size(); add_lo(); if (lo.size() > was) b = was; }
            s.desc << " l" << a << "->l" << b;
            lo[a].live->replace(lo[b].live);
            for (auto &n : gr) { if (n.has_c && n.cost == a) n.cost = b; if (n.has_t && n.delay == a) n.delay = b; }
            changes++; break; }
        case 6: {
            size_t a, b;
            if (!pick2(gr, a, b)) break;
            if (s.boolean()) { size_t was = gr.size(); add_gr(); if (gr.size() > was) b = was; }
            if (im_of(a) != im_of(b) && in_structure(a)) break;
            s.desc << " g" << a << "->g" << b;
            gr[a].live->replace(gr[b].live);
            for (auto &t : st) for (auto &k : t.g) if (k == a) k = b;
            changes++; break; }
        case 7: {        // collapse or demolition distribution
            auto h = held(im);
            if (h.empty()) break;
            auto &n = im[s.pick(h)];
            MLN d = MLN::median_sdln(s.real(0.4, 2.5), s.real(0.2, 0.6));
            bool col = s.boolean(), val = s.boolean(), none = s.chance(1, 8);
            s.desc << (col ? " collapse" : " demolition") << "(im" << &n - &im[0] << (none ? " none)" : ")");
            std::shared_ptr<LND> p;
            if (none) val = false;
            else if (!val && !lent.empty() && s.boolean()) { size_t k = s.integer(0, lent.size() - 1); d = lent[k].first; p = lent[k].second; s.desc << "=d" << k; }     // used before
            else if (!val) { p = std::make_shared<LND>(d.make()); lent.push_back({d, p}); }
            if (col) { n.has_c = !none; n.c = d; if (val) n.live->SetCollapse(d.make()); else n.live->SetCollapse(p); }
            else { n.has_d = !none; n.d = d; if (val) n.live->SetDemolition(d.make()); else n.live->SetDemolition(p); }
            changes++; break; }
        case 8: {
            auto h = held(st);
            if (h.empty()) break;
            auto &n = st[s.pick(h)];
            MLN d = MLN::mean_sdln(s.logreal(10, 1e4), s.real(0.1, 0.7));
            if (s.boolean()) { s.desc << " rebuild(s" << &n - &st[0] << ")"; n.has_r = true; n.r = d; n.live->setRebuildCost(d.make()); }
            else { s.desc << " demolish(s" << &n - &st[0] << ")"; n.has_d = true; n.d = d; n.live->setDemolitionCost(d.make()); }
            changes++; break; }
        case 9: {
            auto h = held(st), k = held(gr);
            if (h.empty() || k.empty()) break;
            auto &n = st[s.pick(h)];
            size_t g = s.pick(k);
            if (!n.g.empty() && im_of(n.g[0]) != im_of(g)) break;
            s.desc << " s" << &n - &st[0] << "+g" << g;
            n.live->AddCompGroup(gr[g].live);
            n.g.push_back(g);
            changes++; break; }
        case 10: {
            auto h = held(st), k = held(gr);
            if (h.empty() || k.empty()) break;
            auto &n = st[s.pick(h)];
            size_t g = s.pick(k);
            s.desc << " s" << &n - &st[0] << "-g" << g;
            n.live->RemoveCompGroup(gr[g].live);
            for (size_t i = 0; i < n.g.size(); i++) if (n.g[i] == g) { n.g.erase(n.g.begin() + i); changes++; break; }
            break; }
        case 11: {       // integration settings
            s.desc << " settings";
            switch (s.integer(0, 3)) {
            case 0: IntegrationSettings::Set_Tolerance(s.pick({0.05, 0.01, 1e-3})); break;
            case 1: IntegrationSettings::Set_Integration_Eval_Limit((unsigned)s.integer(20, 100)); break;
            case 2: IntegrationSettings::Set_Integration_Search_Limit((unsigned)s.integer(16, 128)); break;
            default: IntegrationSettings::Set_Integration_Method(s.pick({IntegrationSettings::BINARY_SUBDIVISION, IntegrationSettings::DIRECTED, IntegrationSettings::REVERSE_BINARY_SUBDIVISION}));
            }
            changes++; break; }
        case 12: s.desc << " clear"; Caching::Clear_Caches(); break;
        case 13: {       // an announcement without a change
            switch (s.integer(0, 2)) {
            case 0: { auto h = held(im); if (!h.empty()) im[s.pick(h)].live->notify_change(); break; }
            case 1: { auto h = held(ed); if (!h.empty()) ed[s.pick(h)].live->notify_change(); break; }
            default: { auto h = held(gr); if (!h.empty()) gr[s.pick(h)].live->notify_change(); }
            }
            s.desc << " notify"; break; }
        case 14: switch (s.integer(0, 7)) {
            case 0: add_fn((Cat)s.integer(0, 2)); break; case 1: add_pr(); break; case 2: add_im(); break; case 3: add_ed(); break;
            case 4: add_fr(); break; case 5: add_lo(); break; case 6: add_gr(); break; default: add_st(); }
            break;
        case 16: {       // one of the user's own functions changes its values
            vector<size_t> a, b;
            for (size_t i : held(fn)) if (dynamic_cast<Tunable *>(fn[i].live.get())) a.push_back(i);
            for (size_t i : held(lo)) if (dynamic_cast<TunableLoss *>(lo[i].live.get())) b.push_back(i);
            if (a.empty() && b.empty()) break;
            if (b.empty() || (!a.empty() && s.chance(2, 3))) {
                auto &n = fn[s.pick(a)];
                n.def = n.cat == HZ ? model::gen_hazard(s) : n.cat == LOC ? model::gen_location(s, 0.05) : model::gen_sdln(s);
                s.desc << " f" << &n - &fn[0] << ":=" << n.def.str();
                static_cast<Tunable &>(*n.live).tune(n.def.make());
            } else {
                auto &n = lo[s.pick(b)];
                n.def = model::gen_loss(s, states, s.logreal(1, 100));
                s.desc << " l" << &n - &lo[0] << ":=";
                static_cast<TunableLoss &>(*n.live).tune(n.def.make());
            }
            changes++; break; }
        default: drop();
        }
    }
    bool dropped = false;
    template <class N> void release(vector<N> &v, const char *nm) {
        auto h = held(v);
        if (h.size() < 1) return;
        size_t i = s.pick(h);
        v[i].live.reset(); v[i].held = false;
        s.desc << " ~" << nm << i;
        dropped = true;
    }
    void drop() {
        switch (s.integer(0, 7)) {
        case 0: release(fn, "f"); break; case 1: release(pr, "p"); break; case 2: release(im, "im"); break; case 3: release(ed, "e"); break;
        case 4: release(fr, "fr"); break; case 5: release(lo, "l"); break; case 6: release(gr, "g"); break; default: release(st, "s");
        }
    }
    void build() {
        states = (int)s.integer(1, 3);
        IntegrationSettings::Set_Tolerance(0.01);
        IntegrationSettings::Set_Integration_Eval_Limit(80);
        IntegrationSettings::Set_Integration_Search_Limit(64);
        add_fn(HZ); add_fn(LOC); add_fn(SDL);
        if (s.boolean()) add_fn(HZ);
        if (s.boolean()) add_fn(LOC);
        add_pr(); if (s.boolean()) add_pr();
        add_im(); if (s.chance(1, 3)) add_im();
        add_ed(); if (s.boolean()) add_ed();
        add_fr(); add_lo(); if (s.boolean()) add_fr(); if (s.boolean()) add_lo();
        int n = (int)s.integer(1, 3);
        for (int i = 0; i < n; i++) add_gr();
        add_st(); if (s.chance(1, 4)) add_st();
        for (size_t g = 0; g < gr.size(); g++) for (auto &t : st)
            if (s.chance(3, 4) && (t.g.empty() || im_of(t.g[0]) == im_of(g))) { t.live->AddCompGroup(gr[g].live); t.g.push_back(g); s.desc << " s" << &t - &st[0] << "+g" << g; }
        s.desc << " |";
    }
};
}

PROP(c16_histories, "a model of 1..3 groups, 1..2 structures and shared functions, then 4..40 steps of queries (often repeating an earlier one), replacements (by new or existing objects), "
     "settings of fates and costs, adding and removing groups, integration settings, clears, announcements, dropping handles: every answer equals that of a freshly built model; "
     "non-trivial: an earlier query was repeated after a change, twice or more") {
    World w(s);
    w.build();
    int n = (int)s.integer(4, 40);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({3, 4, 4})) {
        case 0: w.step_query(false); break;
        case 1: w.step_query(true); break;
        default: w.change(); if (s.boolean()) w.step_query(true); }
    }
    if (w.requeried >= 2) s.nontrivial();
}

PROP(c16_destroy, "the same, with objects destroyed in any order between the steps until none is left; every answer of the remaining ones equals that of a freshly built model; "
     "non-trivial: a query after a change and a destruction") {
    World w(s);
    w.build();
    w.step_query(false); w.step_query(false);
    bool nt = false;
    for (int i = 0; i < 60; i++) {
        switch (s.weighted({2, 3, 5})) {
        case 0: w.change(); break;
        case 1: w.step_query(true); if (w.dropped && w.changes) nt = true; break;
        default: w.fresh = World::Fresh(); w.drop(); }
        if (w.held(w.im).empty() && w.held(w.ed).empty() && w.held(w.gr).empty() && w.held(w.st).empty()) break;
    }
    if (nt) s.nontrivial();
}
