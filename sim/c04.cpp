// C04: event dispatcher contract under concurrency and re-entrancy. Random programs on the real
// dispatchers; the recorded history is checked against the contract.
#include "scn.h"
using namespace sim;
using namespace L::events;

namespace {
struct TestEvent : Event { int id; TestEvent(int i) : Event("TestEvent"), id(i) {} };
struct EvRec { uint64_t inv = 0, ret = 0; int thread = -1; bool nested = false; };
struct Proc { uint64_t inv, ret; int thread; bool threw; };
struct Del { int ev, lis; uint64_t t; int thread; };
struct Interval { uint64_t ainv, aret, rinv, rret; };        // 0 = not (yet)
struct World;
struct TL : EventListenerInterface {
    World *w; int id; int seen = 0; int act_at = -1, act = 0, arg = 0, lag = 0;
    void on_event(std::shared_ptr<Event> e) override;
};
struct Boom { int n; };
struct World {
    std::shared_ptr<EventDispatcherInterface> d; int kind; int owner = 0;      // 0 plain 1 thread-safe 2 same-thread
    uint64_t seq = 0; std::vector<EvRec> evs; std::vector<Proc> procs; std::vector<Del> dels;
    std::vector<std::shared_ptr<TL>> ls; std::vector<std::vector<Interval>> iv; std::vector<bool> busy, on;
    std::vector<int> depth; bool nested_proc = false; int nested_budget = 0; int throws = 0;
    uint64_t tick() { return ++seq; }
    void toggle(int l, int want) {      // want: 0 remove 1 add 2 flip
        { Oracle o; if (busy[l] || (want != 2 && on[l] == (want == 1))) return; busy[l] = true; }
        bool adding = !on[l];
        { Oracle o; uint64_t t = tick(); if (adding) iv[l].push_back({t, 0, 0, 0}); else iv[l].back().rinv = t; }
        size_t at = iv[l].size() - 1;
        { Sut s; if (adding) d->add_listener(ls[l]); else d->remove_listener(ls[l]); }
        Oracle o; uint64_t t = tick(); if (adding) iv[l][at].aret = t; else iv[l][at].rret = t; on[l] = adding; busy[l] = false;
    }
    bool delivers_here() { return kind == 0 || (kind == 2 && self() == owner); }
    void enter() { Oracle o; size_t t = (size_t)self(); if (depth.size() <= t) depth.resize(t + 1, 0); if (depth[t]++) nested_proc = true; }
    void leave() { Oracle o; depth[self()]--; }
    void dispatch(bool nested) {
        int id; size_t pr = 0; bool here = delivers_here(), threw = false;
        { Oracle o; id = (int)evs.size(); EvRec r; r.inv = tick(); r.thread = self(); r.nested = nested; evs.push_back(r); if (here) { pr = procs.size(); procs.push_back({r.inv, 0, self(), false}); } }
        if (here) enter();
        try { Sut s; if (id % 2) d->dispatch(std::make_shared<TestEvent>(id)); else d->template dispatch<TestEvent>(id); } catch (Boom &) { threw = true; }
        if (here) leave();
        Oracle o; evs[id].ret = tick(); if (here) { procs[pr].ret = evs[id].ret; procs[pr].threw = threw; }
        if (threw && !here) fail("dispatcher:exception", "an exception of a listener left dispatch() on a thread that does not process events");
    }
    void process() {
        if (kind == 0) return;
        size_t pr; bool threw = false;
        { Oracle o; pr = procs.size(); procs.push_back({tick(), 0, self(), false}); }
        enter();
        try { Sut s; std::static_pointer_cast<ThreadSafeEventDispatcher>(d)->process_events(); } catch (Boom &) { threw = true; }
        leave();
        Oracle o; procs[pr].ret = tick(); procs[pr].threw = threw;
    }
};
void TL::on_event(std::shared_ptr<Event> e) {
    int n;
    {
        Oracle o; int ev = std::static_pointer_cast<TestEvent>(e)->id; size_t t = (size_t)self();
        if (e->id() != "TestEvent") fail("dispatcher:foreign", "an event was delivered that nobody dispatched");
        if (t >= w->depth.size() || w->depth[t] == 0) fail("dispatcher:thread", "listener %d was called on thread t%d, which does not process events", id, (int)t);
        w->dels.push_back({ev, id, w->tick(), (int)t}); n = seen++;
    }
    Quiet q;
    for (int i = 0; i < lag; i++) yield_point();
    if (n != act_at) return;
    switch (act) {
        case 1: w->toggle(id, 2); break;                                   // itself
        case 2: w->toggle(arg % (int)w->ls.size(), 2); break;              // another
        case 3: if (w->nested_budget-- > 0) w->dispatch(true); break;
        case 4: if (w->nested_budget-- > 0) { if (w->kind == 1 || self() == w->owner) w->process(); } break;
        case 5: { { Oracle o; w->throws++; } throw Boom{n}; }
        case 6: w->toggle(id, 0); w->toggle(id, 1); break;                 // remove and add again
    }
}
void check(World &w, bool single_processor) {
    int N = (int)w.evs.size(), Ln = (int)w.ls.size();
    std::vector<std::vector<std::vector<uint64_t>>> by(N, std::vector<std::vector<uint64_t>>(Ln));
    for (auto &x : w.dels) { if (x.ev < 0 || x.ev >= N) fail("dispatcher:foreign", "unknown event"); by[x.ev][x.lis].push_back(x.t); }
    for (auto &x : w.dels) if (x.t < w.evs[x.ev].inv) fail("dispatcher:early", "event %d was delivered before it was dispatched", x.ev);
    for (int e = 0; e < N; e++) {
        // by when it has to be delivered
        uint64_t h = 0; const Proc *pp = nullptr;
        for (auto &p : w.procs) if (p.inv > w.evs[e].ret || (p.inv == w.evs[e].inv)) { if (!pp || p.ret < pp->ret) pp = &p; }
        bool exempt = false;
        if (pp) { h = pp->ret; bool more = true; while (more) { more = false; for (auto &q : w.procs) if (q.inv < h && q.ret > h && q.inv < pp->ret) { h = q.ret; more = true; } } }
        for (auto &q : w.procs) if (q.threw && q.ret > w.evs[e].inv && (!pp || q.inv < h)) exempt = true;
        for (int l = 0; l < Ln; l++) {
            auto &d = by[e][l];
            if (d.size() > 1) fail("dispatcher:twice", "event %d was delivered %d times to listener %d", e, (int)d.size(), l);
            if (d.size() == 1) {
                bool ok = false; for (auto &i : w.iv[l]) if (i.ainv <= d[0] && (i.rret == 0 || i.rret >= w.evs[e].inv)) ok = true;
                if (!ok) fail("dispatcher:removed", "event %d was delivered to listener %d although its removal had completed before the dispatch (or it was never added)", e, l);
            }
            bool must = false;
            for (auto &i : w.iv[l]) if (i.aret && i.aret < w.evs[e].inv && (i.rinv == 0 || i.rinv > h)) must = true;
            if (must && pp && !exempt) {
                if (d.empty()) fail("dispatcher:lost", "event %d was not delivered to listener %d, which was registered throughout", e, l);
                if (d[0] > h) fail("dispatcher:late", "event %d reached listener %d only after the processing that had to deliver it had returned", e, l);
                probe(0);
            }
        }
    }
    if (single_processor && !w.nested_proc) for (int l = 0; l < Ln; l++) {
        std::map<int, std::pair<int, uint64_t>> last;
        for (int e = 0; e < N; e++) if (by[e][l].size() == 1 && !w.evs[e].nested) {
            auto it = last.find(w.evs[e].thread);
            if (it != last.end() && by[e][l][0] < it->second.second) fail("dispatcher:order", "listener %d got event %d before event %d of the same thread", l, e, it->second.first);
            last[w.evs[e].thread] = {e, by[e][l][0]}; probe(1);
        }
    }
    for (auto &x : w.dels) note("d %d %d", x.ev, x.lis);
}
void program(int kind) {
    World w; w.kind = kind; w.owner = self();
    if (kind == 0) w.d = std::make_shared<EventDispatcher>(); else if (kind == 1) w.d = std::make_shared<ThreadSafeEventDispatcher>(); else w.d = std::make_shared<SameThreadEventDispatcher>();
    int nl = (int)pick("listeners", 1, 5), nt = kind == 0 ? 0 : (int)pick("threads", 0, 4), procs = kind == 1 ? (int)pick("processors", 1, 2) : 1, nops = (int)(pick_p("long", 0.04) ? pick("ops", 15, 90) : pick("ops", 1, 14));
    int nesting = (int)pick_w("nesting", {3, 4});
    w.nested_budget = nesting ? 4 : 0;
    Rng r(derive("prog"));
    w.iv.resize(nl); w.busy.assign(nl, false); w.on.assign(nl, false);
    for (int i = 0; i < nl; i++) {
        auto l = std::make_shared<TL>(); l->w = &w; l->id = i; l->lag = r.p(0.3) ? r.below(4) : 0;
        int a = (int)pick_w(("act" + std::to_string(i)).c_str(), {5, 2, 3, nesting ? 2 : 0, nesting ? 1 : 0, 1, 2});
        l->act = a; l->act_at = a ? (int)pick(("at" + std::to_string(i)).c_str(), 0, 3) : -1; l->arg = r.below(nl); w.ls.push_back(l);
    }
    for (int i = 0; i < nl; i++) if (r.p(0.6)) w.toggle(i, 1);
    default_schedule();
    auto body = [&](uint64_t seed, bool may_process) {
        Quiet q; Rng g(seed);
        for (int i = 0; i < nops; i++) {
            int x = g.below(10);
            if (x < 5) w.dispatch(false); else if (x < 7) w.toggle(g.below(nl), 2); else if (x < 9 && may_process) w.process(); else { int l = g.below(nl); w.toggle(l, 0); w.toggle(l, 1); }
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) { uint64_t s = r.next(); bool mp = kind == 1 && t < procs - 1; ts.emplace_back([&, s, mp]() { body(s, mp); }); }
    body(r.next(), true);
    for (auto &t : ts) t.join();
    for (auto &l : w.ls) l->act_at = -1;
    w.process();
    { Oracle o; if (kind == 1 && w.dels.size()) { } }
    sequential_schedule();
    // registrations are intact: one more event reaches exactly the registered listeners
    size_t before; { Oracle o; before = w.dels.size(); }
    w.dispatch(false); w.process();
    Oracle o;
    std::vector<int> got(nl, 0); for (size_t i = before; i < w.dels.size(); i++) if (w.dels[i].ev == (int)w.evs.size() - 1) got[w.dels[i].lis]++;
    for (int i = 0; i < nl; i++) if (got[i] != (w.on[i] ? 1 : 0)) fail("dispatcher:registration", "after the program listener %d is %sregistered but got %d of the next event", i, w.on[i] ? "" : "not ", got[i]);
    bool single = procs == 1 || nt == 0;
    check(w, single);
}
}
SCENARIO("C04", c04_threadsafe, 4) { program(1); }
SCENARIO("C04", c04_samethread, 4) { program(2); }
SCENARIO("C04", c04_plain, 1) { program(0); }
