// C06: no data races. The happens-before detector of the core watches every access of the code
// under test; the scenarios only have to drive it. The reported values are not judged here.
#include "apps.h"
#include "ldaplusplus/utils.hpp"
using namespace sim;

static const char *ONLINE_RACE = "online training: FastOnlineSupervisedMStep writes beta/eta on the calling thread while workers read them in FastSupervisedEStep (history: variant online, minibatch completed before the last document of the epoch was inferred)";
namespace {
// the buffers of the model in online training: the recorded finding is limited to the calling
// thread's writes against the workers of its own pool
L::parameters::Parameters *online_model; int online_size; uintptr_t (*online_hit)(uintptr_t); int caller_tid;
template <typename S> uintptr_t hit(uintptr_t a) {      // the model object with its matrices, wherever their buffers are now
    auto *m = static_cast<SModel<S> *>(online_model);
    auto in = [&](const void *p, size_t n) { return a >= (uintptr_t)p && a < (uintptr_t)p + n; };
    return in(m, sizeof *m) || in(m->beta.data(), sizeof(S) * m->beta.size()) || in(m->eta.data(), sizeof(S) * m->eta.size());
}
int online_filter(uintptr_t a, int now, int prev) {
    if ((now != caller_tid && prev != caller_tid) || !online_hit(a)) return 0;
    known_finding(ONLINE_RACE); return 1;
}
template <typename S> void allow_online(const Conf &c, L::LDA<S> &l) {
    const char *k = getenv("SIM_KNOWN"); if (c.variant != ref::ONLINE || !k || !strstr(k, "online-race")) return;   // only what known_findings.txt lists
    online_model = model_of(l).get(); online_hit = hit<S>; caller_tid = self();
    set_race_filter(online_filter);
}
// what an application's listener reads
template <typename S> struct Watch : L::events::EventListenerInterface {
    double sum = 0; int n = 0, calls = 0, fail_at = -1; std::shared_ptr<L::parameters::Parameters> last;
    void on_event(EventP e) override {
        if (calls++ == fail_at) throw std::runtime_error("listener");
        if (e->id() == "ExpectationProgressEvent") { sum += (double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood(); n++; }
        else if (e->id() == "MaximizationProgressEvent") sum += (double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood();
        else if (e->id() == "EpochProgressEvent") { last = std::static_pointer_cast<L::events::EpochProgressEvent<S>>(e)->model_parameters(); sum += (double)std::static_pointer_cast<SModel<S>>(last)->beta.sum() + (double)std::static_pointer_cast<SModel<S>>(last)->eta.sum(); }
    }
};
}
// calls that end with an exception, and the calls after them
template <typename S> struct FailE : L::em::EStepInterface<S> {
    EStepP<S> in; int at; int seen = 0; FailE(EStepP<S> i, int a) : in(i), at(a) {}
    ParamP doc_e_step(const std::shared_ptr<L::corpus::Document> d, const ParamP p) override { bool f; { Quiet q; f = seen++ == at; } if (f) throw std::runtime_error("step"); return in->doc_e_step(d, p); }
    void e_step() override { in->e_step(); }
};
template <typename S> static void c06_failing() {
    ConfLimits lim; lim.docs_large = 30; lim.workers = 5; lim.iters = 2; Conf c = pick_conf(ALL_BATCH, lim); if (c.workers == 1) c.workers = 2;
    auto model = gen_model<S>("m", c); int n = (int)pick("ops", 1, 3); std::vector<Data> data; for (int i = 0; i < n; i++) { std::string t = std::to_string(i); data.push_back(gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 8), c.V, c.C, c.data_flags())); }
    bool in_step = pick_p("in_step", 0.5); int at = (int)pick("at", 0, c.D * (int)c.iters); set_race_detection(true); default_schedule();
    {
        Sut s; auto e = std::make_shared<FailE<S>>(make_e<S>(c), in_step ? at : -1); LdaP<S> lda = make_lda<S>(c, *model, EStepP<S>(e), make_m<S>(c)); e->in->set_event_dispatcher(lda->get_event_dispatcher());
        auto w = std::make_shared<Watch<S>>(); w->fail_at = in_step ? -1 : at; lda->get_event_dispatcher()->add_listener(w);
        for (int i = 0; i < n; i++) try { if (i % 2) train_epoch(*lda, data[i], c); else train(*lda, data[i], c); } catch (const std::runtime_error &) { Quiet q; probe(5); }
    }
    sequential_schedule();
}
SCENARIO("C06", c06_failing_double, 2) { c06_failing<double>(); }
template <typename S> static void session(const Conf &c, const SModel<S> &model, const std::vector<Data> &data, const std::vector<int> &op, bool listen, bool filter) {
    LdaP<S> lda = make_lda<S>(c, model);
    if (filter) allow_online(c, *lda);
    std::shared_ptr<Watch<S>> w; if (listen) { w = std::make_shared<Watch<S>>(); lda->get_event_dispatcher()->add_listener(w); }
    for (size_t i = 0; i < data.size(); i++) {
        if (op[i] == 0) train(*lda, data[i], c); else if (op[i] == 1) train_epoch(*lda, data[i], c);
        else if (op[i] == 2) lda->transform(data[i].X); else lda->transform_predict(data[i].X);
        if (listen && i == 0) { auto m = model_of(*lda); volatile double s = (double)m->beta.sum(); (void)s; }
    }
}
template <typename S> static void c06_train() {
    ConfLimits lim; lim.docs_large = 40; lim.workers = 5; Conf c = pick_conf(ALL_VARIANTS, lim);
    if (c.workers == 1 && pick_p("atleast2", 0.8)) c.workers = 2;
    auto model = gen_model<S>("m", c); int n = (int)pick("ops", 1, 3); std::vector<Data> data; std::vector<int> op;
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); data.push_back(gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 8), c.V, c.C, c.data_flags())); op.push_back((int)pick_w(("op" + t).c_str(), {2, 3, c.variant == ref::UNSUP ? 2 : 0, c.variant == ref::UNSUP ? 1 : 0})); }
    bool listen = pick_p("listen", 0.6);
    set_race_detection(true); default_schedule();
    { Sut s; session<S>(c, *model, data, op, listen, true); }
    sequential_schedule(); probe(c.variant == ref::ONLINE ? 1 : 0);
}
SCENARIO("C06", c06_train_double, 4) { c06_train<double>(); }
SCENARIO("C06", c06_train_float, 2) { c06_train<float>(); }

// several models, each used from a thread of its own, sharing only constant input data
template <typename S> static void c06_independent() {
    int nt = (int)pick("models", 2, 4); std::vector<Conf> cs; std::vector<SModelP<S>> ms; std::vector<std::vector<Data>> ds(nt); std::vector<std::vector<int>> ops(nt);
    ConfLimits lim; lim.docs_small = 5; lim.docs_mid = 8; lim.docs_large = 12; lim.vocab = 8; lim.workers = 3; lim.topics = 3; lim.iters = 2;
    Conf first = pick_conf(ALL_BATCH, lim); Data shared = gen_data("shared", first.D, first.V, first.C, first.data_flags());
    for (int i = 0; i < nt; i++) {
        Conf c = first; c.workers = (size_t)pick(("w" + std::to_string(i)).c_str(), 1, 3); if (i > 0 && pick_p(("other" + std::to_string(i)).c_str(), 0.5)) { c.variant = (int)pick(("variant" + std::to_string(i)).c_str(), 0, ref::SEMI); if (c.variant == ref::UNSUP) c.C = 1; else { c.C = first.C; if (first.variant == ref::SEMI && c.variant != ref::UNSUP) c.variant = ref::SEMI; } c.Cw = std::min(c.Cw, 0.9); }
        cs.push_back(c); ms.push_back(gen_model<S>("m" + std::to_string(i), c)); ds[i].push_back(shared); ops[i].push_back(c.variant == ref::UNSUP ? (int)pick(("op" + std::to_string(i)).c_str(), 0, 3) : (int)pick(("op" + std::to_string(i)).c_str(), 0, 1));
    }
    bool listen = pick_p("listen", 0.5);
    set_race_detection(true); default_schedule();
    { Sut s; std::vector<std::thread> ts; for (int i = 0; i < nt; i++) ts.emplace_back([&, i]() { session<S>(cs[i], *ms[i], ds[i], ops[i], listen, false); }); for (auto &t : ts) t.join(); }
    sequential_schedule(); probe(2);
}
SCENARIO("C06", c06_independent_double, 2) { c06_independent<double>(); }
SCENARIO("C06", c06_independent_float, 1) { c06_independent<float>(); }

SCENARIO("C06", c06_prng, 1) {
    int nt = (int)pick("threads", 2, 5), per = (int)pick("draws", 1, 12); bool copies = pick_p("copies", 0.5), dist = pick_p("dist", 0.5);
    set_race_detection(true); default_schedule();
    Sut s; L::math_utils::ThreadSafePRNG<std::default_random_engine> g((int)pick("seed", 0, 5));
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++) {
        if (copies) { auto mine = g; ts.emplace_back([mine, per, dist]() mutable { uint64_t x = 0; std::uniform_real_distribution<double> u; for (int i = 0; i < per; i++) x += dist ? (uint64_t)(u(mine) * 100) : mine(); }); }
        else ts.emplace_back([&g, per, dist]() { uint64_t x = 0; std::uniform_real_distribution<double> u; for (int i = 0; i < per; i++) x += dist ? (uint64_t)(u(g) * 100) : g(); });
    }
    for (auto &t : ts) t.join();
    probe(3);
}
namespace {
struct NopEvent : L::events::Event { int v; NopEvent(int x) : Event("NopEvent"), v(x) {} };
struct CountL : L::events::EventListenerInterface { std::atomic<int> n{0}; void on_event(EventP e) override { n += std::static_pointer_cast<NopEvent>(e)->v; } };
}
SCENARIO("C06", c06_dispatch, 1) {
    using namespace L::events;
    int nt = (int)pick("threads", 1, 4), nops = (int)pick("ops", 1, 10); bool same = pick_p("same", 0.5);
    set_race_detection(true); default_schedule();
    Sut s; std::shared_ptr<ThreadSafeEventDispatcher> d; if (same) d = std::make_shared<SameThreadEventDispatcher>(); else d = std::make_shared<ThreadSafeEventDispatcher>();
    auto body = [&](uint64_t seed, bool proc) {
        Rng r(seed); std::vector<std::shared_ptr<EventListenerInterface>> mine;
        for (int i = 0; i < nops; i++) {
            int x = r.below(8);
            if (x < 4) d->dispatch(std::make_shared<NopEvent>(1)); else if (x < 6) { auto l = std::make_shared<CountL>(); d->add_listener(l); mine.push_back(l); } else if (!mine.empty()) { d->remove_listener(mine.back()); mine.pop_back(); }
            if (proc && r.p(0.4)) d->process_events();
        }
    };
    std::vector<std::thread> ts; uint64_t sd = derive("prog");
    for (int t = 0; t < nt; t++) ts.emplace_back([&, t]() { body(sd + t + 1, !same && t == 0); });
    body(sd, true);
    for (auto &t : ts) t.join();
    d->process_events(); probe(4);
}
// the console applications with their snapshots and progress output (online training has the library's finding and is left to the scenarios above)
namespace {
apps::Opts g; std::vector<std::string> av; int st;
void app(void *) { set_terminate_exits(true); io_track(true); set_race_detection(true); default_schedule(); sh->scratch[63] = apps::call(g, av); sequential_schedule(); }
}
COORDINATOR("C06", c06_apps, 1) {
    g = apps::Opts(); g.app = (int)pick("app", 0, 2); g.cmd = pick_p("transform", 0.2) ? apps::TRANSFORM : apps::TRAIN; apps::pick_opts(g);
    auto set = [&](const char *n, long v) { auto &x = g.o[n]; x.given = true; x.v = (double)v; x.text = std::to_string(v); };
    set("workers", pick("workers", 2, 4)); Conf c; c.K = 2; if (g.cmd == apps::TRAIN) { set("topics", 2); set("iterations", pick("epochs", 1, 5)); if (pick_p("snap", 0.8)) set("snapshot_every", pick("every", 1, 2)); }
    c.D = (int)pick("docs", 1, 10); c.V = (int)pick("vocab", 2, 6); c.C = g.app == apps::A_LDA ? 1 : (int)pick("classes", 1, std::min(3, c.D)); c.variant = g.app == apps::A_LDA ? ref::UNSUP : ref::SLDA;
    Data d = gen_data("d", c.D, c.V, c.C); if (g.app != apps::A_LDA) for (int q = 0; q < c.C; q++) d.y[q] = q; npy::spill("data", npy::encode_data(d.X, g.app != apps::A_LDA ? &d.y : nullptr));
    if (g.cmd == apps::TRANSFORM) npy::spill("model", npy::encode_model(*gen_model<double>("m", c)));
    av = apps::args(g); run_incarnation(app, nullptr, &st); probe(6);
}
