// C19: results and diagnostic context under different numbers of threads and concurrent use
#include "model.h"
#include <atomic>
#include <mutex>
#include <omp.h>
#include <thread>
using namespace pbt;
using model::Building; using std::vector; using std::shared_ptr; using std::string;

namespace {
void settings() {
    IntegrationSettings::Set_Tolerance(0.01);
    IntegrationSettings::Set_Integration_Eval_Limit(60);
    IntegrationSettings::Set_Integration_Search_Limit(48);
}
Building gen(Src &s) {
    Building b = model::gen_building(s, 4, 3);
    for (auto &g : b.g) if (s.chance(1, 4)) { g.d.compound = true; g.d.p2 = model::gen_prob(s, 0.05); }
    return b;
}
struct Q { int what; size_t g; double x; int n; int order = 0; };
Q gen_query(Src &s, const Building &b) {
    return {(int)s.integer(0, 19), (size_t)s.integer(0, b.g.size() - 1), s.pick({0.1, 0.3, 0.6, 1.0, 1.7, 2.2}), s.chance(1, 6) ? (int)s.integer(26, 80) : (int)s.integer(0, 25), s.weighted({3, 1, 1, 1, 1})};
}
const char *NAME[] = {"Cost", "Cost with collapse", "TotalCost", "CostsByFate", "AnnualCost", "E_cost(list)", "pdf", "CostDist_IM", "E_cost_IM", "SD_ln_cost_IM",
    "E_delay_IM", "pDS_IM", "Rate", "E_annual_cost", "lambda_cost", "EDP lists", "EDP rates", "IM lists", "fate rates", "per EDP"};
void put(vector<double> &v, LND d) { v.push_back(d.get_mean_X()); v.push_back(d.get_sigma_lnX()); }
void put(vector<double> &v, const vector<double> &w) { v.insert(v.end(), w.begin(), w.end()); }
vector<double> ask(shared_ptr<Structure> st, const vector<shared_ptr<CompGroup>> &groups, const Q &q) {
    vector<double> r, xs;
    auto g = groups[q.g];
    auto e = g->get_EDP();
    auto im = g->getIM();
    double x = q.x;
    // arguments of a list: ascending, all the same, in pairs, descending, or returning to a few values
    for (int i = 0; i < q.n; i++) { int k = q.order == 0 ? i : q.order == 1 ? 3 : q.order == 2 ? i / 2 : q.order == 3 ? q.n - i : (i * 5) % 7; xs.push_back(x * (1 + k * 0.1)); }
    switch (q.what) {
    case 0: put(r, st->Cost(x, false)); break;
    case 1: put(r, st->Cost(x, true)); break;
    case 2: put(r, st->TotalCost(x)); break;
    case 3: { auto c = st->CostsByFate(x); put(r, c.repair); put(r, c.demolition); put(r, c.collapse); break; }
    case 4: put(r, st->AnnualCost()); break;
    case 5: { vector<int> y; for (int i = 0; i < q.n; i++) y.push_back(i * 3); put(r, st->E_cost(y, 0.06)); break; }
    case 6: r = {st->pdf(x)}; break;
    case 7: put(r, g->CostDist_IM(x)); break;
    case 8: r = {g->E_cost_IM(x)}; break;
    case 9: r = {g->SD_ln_cost_IM(x)}; break;
    case 10: r = {g->E_delay_IM(x)}; break;
    case 11: r = g->pDS_IM(x); break;
    case 12: r = g->Rate(); break;
    case 13: r = {g->E_annual_cost()}; break;
    case 14: r = {g->lambda_cost(x * 5)}; break;
    case 15: put(r, e->Mean(xs)); put(r, e->MeanLn(xs)); put(r, e->Median(xs)); put(r, e->SD_ln(xs)); put(r, e->SD(xs)); break;
    case 16: for (double &v : xs) v *= 0.05; put(r, e->par_lambda(xs)); break;
    case 17: put(r, im->lambda(xs)); put(r, im->pCollapse(xs)); put(r, im->pDemolition(xs)); put(r, im->pRepair(xs)); break;
    case 18: r = {im->CollapseRate(), im->DemolitionRate()}; break;
    default: r = {g->E_cost_EDP(x * 0.05), g->SD_ln_cost_EDP(x * 0.05), g->E_delay_EDP(x * 0.05)}; put(r, g->FragFn()->pHighest(x * 0.05)); put(r, g->FragFn()->pExceeded(x * 0.05)); break;
    }
    return r;
}
string differs(const Q &q, const vector<double> &got, const vector<double> &want) {
    if (got.size() != want.size()) return cat(NAME[q.what], ": ", got.size(), " numbers instead of ", want.size());
    for (size_t i = 0; i < got.size(); i++) if (!close(got[i], want[i], 1e-11, 0)) return cat(NAME[q.what], "(", q.x, ") entry ", i, ": got ", got[i], ", single-threaded ", want[i]);
    return "";
}
struct Threads {       // thread configuration, restored at the end
    int n, levels;
    Threads(int n, int levels, bool dynamic) { omp_set_num_threads(n); omp_set_max_active_levels(levels); omp_set_dynamic(dynamic); }
    ~Threads() { omp_set_num_threads(1); omp_set_max_active_levels(1); omp_set_dynamic(0); }
};
}

PROP(c19_counts, "random structures, 1..12 queries asked with 1..16 threads and 1..3 nested levels, against the same queries of a fresh model on one thread; non-trivial: more than one thread and a query with parallel parts") {
    settings();
    Building b = gen(s);
    int nq = (int)s.integer(1, 12), n = s.chance(1, 3) ? (int)s.integer(1, 16) : (int)s.integer(2, 4), levels = (int)s.integer(1, 3);
    bool dyn = s.chance(1, 8);
    vector<Q> q;
    for (int i = 0; i < nq; i++) q.push_back(gen_query(s, b));
    s.desc << n << " threads " << levels << " levels " << b.str();
    vector<vector<double>> want;
    { Threads one(1, 1, false); auto st = b.make(); auto g = st->Components(); for (auto &x : q) want.push_back(ask(st, g, x)); }
    Threads t(n, levels, dyn);
    auto st = b.make();
    auto g = st->Components();
    for (size_t i = 0; i < q.size(); i++) {
        s.desc << " ?" << NAME[q[i].what];
        string d = differs(q[i], ask(st, g, q[i]), want[i]);
        check(d.empty(), d);
        if (n > 1 && (q[i].what <= 7 || (q[i].what >= 15 && q[i].what <= 17 && q[i].n > 1))) s.nontrivial();
    }
}

PROP(c19_concurrent, "random structures queried by 2..6 callers at once (plain threads or a parallel region, nested or not), each with 1..6 queries (caches cold, sometimes cleared meanwhile), against a fresh model on one thread; "
     "non-trivial: two callers asked the same question, or parallel parts were nested") {
    settings();
    Building b = gen(s);
    int callers = (int)s.integer(2, 6), inner = (int)s.integer(1, 3), per = (int)s.integer(1, 6);
    bool region = s.boolean(), nested = s.boolean(), clear = s.chance(1, 3);
    vector<vector<Q>> q(callers);
    vector<Q> common{gen_query(s, b), gen_query(s, b)};
    for (auto &v : q) for (int i = 0; i < per; i++) v.push_back(s.boolean() ? s.pick(common) : gen_query(s, b));
    s.desc << callers << (region ? " in a region" : " threads") << " inner " << inner << (nested ? " nested " : " ") << b.str();
    vector<vector<vector<double>>> want(callers);
    { Threads one(1, 1, false); auto st = b.make(); auto g = st->Components(); for (int c = 0; c < callers; c++) for (auto &x : q[c]) want[c].push_back(ask(st, g, x)); }
    auto st = b.make();
    auto g = st->Components();
    std::mutex m; string bad;
    auto caller = [&](int c) {
        for (size_t i = 0; i < q[c].size(); i++) {
            if (clear && c == 0) Caching::Clear_Caches();
            string d = differs(q[c][i], ask(st, g, q[c][i]), want[c][i]);
            if (!d.empty()) { std::unique_lock<std::mutex> l(m); bad = d; }
        }
    };
    if (region) {
        Threads t(inner, nested ? 3 : 1, false);
        // an exception must not leave the region
#pragma omp parallel for num_threads(callers) schedule(static, 1)
        for (int c = 0; c < callers; c++) {
            try { caller(c); } catch (std::exception &e) { std::unique_lock<std::mutex> l(m); bad = cat("exception ", e.what()); }
        }
    } else {
        vector<std::thread> th;
        for (int c = 0; c < callers; c++) th.emplace_back([&, c]() {
            Threads t(inner, nested ? 2 : 1, false);
            try { caller(c); } catch (std::exception &e) { std::unique_lock<std::mutex> l(m); bad = cat("exception ", e.what()); }
        });
        for (auto &t : th) t.join();
    }
    check(bad.empty(), bad);
    s.nontrivial();
}

// ---- diagnostic context: a random tree of nested regions; every thread sees exactly the texts on its own path
namespace {
struct Node { int pushes = 1; int width = 0; bool fn = false; vector<Node> kids; int id = 0; };
int counter;
Node gen_node(Src &s, int depth) {
    Node n;
    n.id = counter++;
    n.pushes = (int)s.integer(0, 2);
    n.fn = s.boolean();
    if (depth < 3 && counter < 60) {
        int regions = (int)s.integer(0, 2);
        for (int i = 0; i < regions; i++) {
            Node r;
            r.width = (int)s.integer(1, depth == 0 ? 6 : 3);
            for (int k = 0; k < r.width; k++) r.kids.push_back(gen_node(s, depth + 1));
            n.kids.push_back(r);
        }
    }
    return n;
}
void show(const Node &n, std::ostream &o) {
    o << n.id << "*" << n.pushes;
    for (auto &r : n.kids) { o << "{"; for (auto &k : r.kids) { show(k, o); o << " "; } o << "}"; }
}
std::mutex cm; string cbad; std::atomic<int> looked;
void look(const vector<string> &path) {
    string t = Context::GetText(), squeezed, want;
    for (char c : t) { if (c == '/') { if (!squeezed.empty() && squeezed.back() != '/') squeezed += '/'; } else squeezed += c; }
    for (auto &p : path) want += p + "/";
    looked++;
    if (squeezed != want) { std::unique_lock<std::mutex> l(cm); cbad = "context is '" + squeezed + "', expected '" + want + "'"; }
}
void walk(const Node &n, vector<string> path, int round) {
    vector<shared_ptr<TempContext>> ctx;
    for (int i = 0; i < n.pushes; i++) {
        string t = cat("n", n.id, ".", i);
        if (n.fn) ctx.push_back(std::make_shared<TempContext>(std::function<void (std::ostream &)>([t] (std::ostream &o) { o << t; })));
        else ctx.push_back(std::make_shared<TempContext>(t));
        path.push_back(t);
        if (round == 0) look(path);
    }
    look(path);
    for (auto &r : n.kids) {
        int w = r.width;
#pragma omp parallel num_threads(w)
        {
            int total = omp_get_num_threads();           // fewer where nesting is not allowed
            for (int k = omp_get_thread_num(); k < w; k += total) walk(r.kids[k], path, round);
        }
        look(path);
    }
    while (!ctx.empty()) { ctx.pop_back(); path.pop_back(); look(path); }
}
}
PROP(c19_context, "random trees of nested parallel regions (teams of 1..6, up to 3 levels, nesting allowed or not) pushing 0..2 texts at each node: every thread always sees exactly the texts on its own path; "
     "non-trivial: texts in a region with several threads") {
    counter = 0; cbad.clear(); looked = 0;
    Node root = gen_node(s, 0);
    int levels = (int)s.integer(1, 4);
    s.desc << levels << " levels ";
    show(root, s.desc);
    Threads t((int)s.integer(1, 4), levels, false);
    if (s.boolean()) Context::Initialise();
    walk(root, {}, 0);
    walk(root, {}, 1);
    check(cbad.empty(), cbad);
    for (auto &r : root.kids) if (r.width > 1) for (auto &k : r.kids) if (k.pushes) s.nontrivial();
}
