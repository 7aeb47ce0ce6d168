// C18: subscriptions, announcements and replacements against a model of sets
#include "common.h"
#include <thread>
#include <mutex>
#include <deque>
using namespace pbt;
using std::vector; using std::shared_ptr;

namespace {
struct Thing : Replaceable<Thing> {};
struct World {
    Src &s;
    struct Client { int id = 0; int at = -1; int forward = -1; shared_ptr<Thing> now; int changed = 0, want_changed = 0; vector<Thing *> replaced; vector<Thing *> want_replaced; };
    vector<shared_ptr<Thing>> thing;
    std::map<int, Client> client;       // by serial number
    vector<std::pair<int, int>> spent;   // (object at the time, id) no longer subscribed
    int serial = 0;
    explicit World(Src &s) : s(s) {}
    vector<int> alive() { vector<int> r; for (size_t i = 0; i < thing.size(); i++) if (thing[i]) r.push_back((int)i); return r; }
    int on(int t) { int n = 0; for (auto &c : client) n += c.second.at == t; return n; }
    void subscribe(int t, int forward) {
        int k = serial++;
        Client &c = client[k];
        c.at = t; c.forward = forward; c.now = thing[t];
        c.id = thing[t]->add_callbacks([this, k] () { auto &c = client.at(k); c.changed++; if (c.forward >= 0 && thing[c.forward]) thing[c.forward]->notify_change(); },
                                       [this, k] (shared_ptr<Thing> n) { auto &c = client.at(k); c.now = n; c.replaced.push_back(n.get()); });
        for (auto &o : client) if (o.first != k && o.second.at == t) check(o.second.id != c.id, cat("id ", c.id, " is already used on this object"));
        s.desc << " +" << k << "@" << t;
        if (forward >= 0) s.desc << ">" << forward;
    }
    void notify(int t) {                 // expected effect; forwards go to higher numbered objects only
        for (auto &c : client) if (c.second.at == t) { c.second.want_changed++; if (c.second.forward >= 0 && thing[c.second.forward]) notify(c.second.forward); }
    }
    void verify(const char *what) {
        for (auto &c : client) {
            check(c.second.changed == c.second.want_changed, cat("after ", what, " client ", c.first, " has been told of ", c.second.changed, " changes, expected ", c.second.want_changed));
            check(c.second.replaced == c.second.want_replaced, cat("after ", what, " client ", c.first, " has been told of ", c.second.replaced.size(), " replacements, expected ", c.second.want_replaced.size()));
            check(c.second.now == thing[c.second.at], cat("after ", what, " client ", c.first, " refers to the wrong object"));
        }
        for (size_t t = 0; t < thing.size(); t++) {
            std::set<int> ids;
            for (auto &c : client) if (c.second.at == (int)t) check(ids.insert(c.second.id).second, cat("after ", what, " two clients of an object share the id ", c.second.id));
        }
    }
};
}

PROP(c18_history, "3..7 objects, 5..80 steps of subscribing (some clients forward announcements to another object), unsubscribing (also with spent or made-up ids), announcing, replacing (also by an object with clients, by itself, in chains), "
     "against sets of clients; non-trivial: a replacement by an object that had clients, and an unsubscription after it") {
    World w(s);
    int n = (int)s.integer(3, 7);
    for (int i = 0; i < n; i++) w.thing.push_back(std::make_shared<Thing>());
    int steps = (int)s.integer(5, 80);
    bool merged = false;
    for (int i = 0; i < steps; i++) {
        auto a = w.alive();
        if (a.size() < 2) break;
        switch (s.weighted({6, 4, 6, 4, 1, 1})) {
        case 0: {
            int t = s.pick(a), f = -1;
            if (s.chance(1, 4) && t + 1 < (int)w.thing.size()) f = (int)s.integer(t + 1, (long)w.thing.size() - 1);
            w.subscribe(t, f);
            w.verify("subscribing");
            break; }
        case 1: {
            if (w.client.empty()) break;
            auto it = w.client.begin();
            std::advance(it, s.integer(0, (long)w.client.size() - 1));
            s.desc << " -" << it->first;
            w.thing[it->second.at]->remove_callbacks(it->second.id);
            w.spent.push_back({it->second.at, it->second.id});
            if (merged) s.nontrivial();
            w.client.erase(it);            // a callback from now on is an error (map::at throws)
            w.verify("unsubscribing");
            break; }
        case 2: {
            int t = s.pick(a);
            s.desc << " !" << t;
            w.notify(t);
            w.thing[t]->notify_change();
            w.verify("announcing a change");
            break; }
        case 3: {
            int x = s.pick(a), y = s.pick(a);
            // forwarding must stay acyclic: clients of x move to y
            bool ok = true;
            for (auto &c : w.client) if (c.second.at == x && c.second.forward >= 0 && c.second.forward <= y) ok = false;
            if (!ok) break;
            s.desc << " " << x << "->" << y;
            if (x != y && w.on(x) && w.on(y)) merged = true;
            for (auto &c : w.client) if (c.second.at == x) { c.second.at = y; c.second.want_replaced.push_back(w.thing[y].get()); }
            w.thing[x]->replace(w.thing[y]);
            w.verify("replacing");
            if (s.chance(1, 4) && !w.on(x)) { s.desc << " ~" << x; w.thing[x].reset(); }
            break; }
        case 4:
            if (w.spent.empty()) break;
            { auto p = s.pick(w.spent); int t = p.first;
              if (!w.thing[t]) break;
              s.desc << " -spent" << "@" << t;
              w.thing[t]->remove_callbacks(p.second);          // ids are never reused: no effect
              w.verify("unsubscribing a spent id"); }
            break;
        default: {
            int t = s.pick(a);
            w.thing[t]->remove_callbacks(s.pick({-1, 0, 2000000000}));
            w.verify("unsubscribing an id that was never given out");
            break; }
        }
    }
    // at the end every object announces once: exactly its clients hear
    for (int t : w.alive()) { w.notify(t); w.thing[t]->notify_change(); }
    w.verify("the final announcements");
}

PROP(c18_concurrent, "2..5 threads subscribing, unsubscribing and announcing on shared objects at once: nobody hears after unsubscribing, every subscribed client hears each announcement that falls within its subscription; "
     "non-trivial: announcements overlapped with subscriptions") {
    auto thing = std::make_shared<Thing>();
    int nt = (int)s.integer(1, 4), rounds = (int)s.integer(5, 60), ann = (int)s.integer(5, 60);
    s.desc << nt << " threads, " << rounds << " rounds, " << ann << " announcements";
    std::atomic<int> announced(0), started(0), bad(0), dup(0);
    std::mutex m; std::set<int> live_ids;
    vector<std::thread> th;
    for (int k = 0; k < nt; k++) th.emplace_back([&]() {
        for (int r = 0; r < rounds; r++) {
            auto heard = std::make_shared<std::atomic<int>>(0);
            int b0 = started;
            int id = thing->add_callbacks([heard] () { (*heard)++; }, [] (shared_ptr<Thing>) {});
            { std::unique_lock<std::mutex> l(m); if (!live_ids.insert(id).second) dup++; }
            int a0 = started;                        // those begun before this may be missed
            for (volatile int z = 0; z < 300; z = z + 1);
            int a1 = announced;
            { std::unique_lock<std::mutex> l(m); live_ids.erase(id); }
            thing->remove_callbacks(id);
            int end = *heard, b1 = started;
            if (end < a1 - a0 || end > b1 - b0 + 1) bad++;
            for (volatile int z = 0; z < 50; z = z + 1);
            if (*heard != end) bad++;
        }
    });
    for (int i = 0; i < ann; i++) { started++; thing->notify_change(); announced++; }
    for (auto &x : th) x.join();
    check(!dup, "two subscriptions to one object share an id");
    check(!bad, "a client missed an announcement or heard one outside its subscription");
    if (nt > 1) s.nontrivial();
}

PROP(c18_many, "one object with up to 70000 clients (subscribed over its life, most of them leaving again), then announcements, a replacement by an object with clients of its own, and unsubscriptions: exactly the subscribed clients hear, once; "
     "non-trivial: at least 200 subscriptions") {
    long n = s.boolean() ? s.pick({127L, 128L, 255L, 256L, 257L, 1000L, 32768L, 65536L, 65537L}) + s.integer(-1, 1) : (long)s.logreal(1, 70000);
    long keep = s.pick({1L, 2L, 7L, 100L, 1000000L});        // of so many clients, one stays
    uint64_t r = s.draw(1000000);
    s.desc << n << " clients, one in " << keep << " stays";
    auto a = std::make_shared<Thing>(), b = std::make_shared<Thing>();
    struct C { shared_ptr<Thing> at; int id, heard = 0, moved = 0; Thing *to = nullptr; bool in = true; };
    std::deque<C> c;
    auto sub = [&](shared_ptr<Thing> t) {
        c.emplace_back();
        C *x = &c.back();
        x->at = t;
        x->id = t->add_callbacks([x] () { x->heard++; }, [x] (shared_ptr<Thing> n) { x->moved++; x->at = n; x->to = n.get(); });
    };
    for (int i = 0; i < 3; i++) sub(a);
    for (int i = 0; i < 3; i++) sub(b);
    for (long i = 0; i < n; i++) {
        sub(a);
        if (splitmix(r) % keep) { a->remove_callbacks(c.back().id); c.back().in = false; }
    }
    auto told = [&](const char *what, Thing *who, int by) {
        for (size_t i = 0; i < c.size(); i++) {
            C &x = c[i];
            int want = x.in && x.at.get() == who ? by : 0;
            if (x.heard != want) fail(cat("client ", i, " of ", c.size(), " heard ", what, " ", x.heard, " times instead of ", want));
            x.heard = 0;
        }
    };
    a->notify_change(); told("the first object", a.get(), 1);
    b->notify_change(); told("the second object", b.get(), 1);
    vector<char> was;
    for (auto &x : c) was.push_back(x.in && x.at == a);
    a->replace(b);
    for (size_t i = 0; i < c.size(); i++) check(c[i].moved == was[i] && (!was[i] || c[i].to == b.get()), cat("client ", i, " of ", c.size(), " was told of ", c[i].moved, " replacements instead of ", (int)was[i]));
    b->notify_change(); told("the replacement", b.get(), 1);
    a->notify_change(); told("the replaced object", nullptr, 0);
    for (auto &x : c) if (x.in && splitmix(r) % 2) { x.at->remove_callbacks(x.id); x.in = false; }
    b->notify_change(); told("the replacement at the end", b.get(), 1);
    if (n >= 200) s.nontrivial();
}
