// C16: independent models do not interfere; inference changes nothing; moving preserves behaviour.
#include "spy.h"
using namespace sim;

namespace {
enum { FIT, PARTIAL, TRANSFORM, PREDICT, MOVE, NOPS };
struct Op { int kind; Data d; };
// the trace of one model: everything a caller can see
template <typename S> struct Trace { std::vector<Mat<S>> outs; std::vector<VectorXi> cls; std::vector<SModelP<S>> models; std::vector<double> events; };
template <typename S> struct Unit {
    Conf c; SModelP<S> init, given; std::vector<Op> ops; bool listen = false;
    LdaP<S> lda; Trace<S> tr; size_t next = 0; bool frozen_ok = true;
    void start() {
        L::LDABuilder<S> b; b.set_iterations(c.iters); b.set_workers(c.workers); given = copy_model(*init); b.initialize_topics_from_model(given); b.initialize_eta_from_model(given); set_steps(b, c);
        lda = finish_builder(b); hook();
    }
    void hook() { if (listen) lda->get_event_dispatcher()->add_listener([this](EventP e) { Oracle o; tr.events.push_back(e->id() == "ExpectationProgressEvent" ? (double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood() : e->id() == "MaximizationProgressEvent" ? (double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood() : -1.5); }); }
    bool step() {
        if (next >= ops.size()) return false;
        Op &o = ops[next++]; Data copy; SModelP<S> before; { Oracle q; copy = o.d; before = copy_model(*model_of(*lda)); }
        bool infer = false; Mat<S> out; VectorXi cls; auto ptr = model_of(*lda).get();
        {
            Sut s;
            switch (o.kind) {
                case FIT: train(*lda, o.d, c); break;
                case PARTIAL: train_epoch(*lda, o.d, c); break;
                case TRANSFORM: out = lda->transform(o.d.X); infer = true; break;
                case PREDICT: std::tie(out, cls) = lda->transform_predict(o.d.X); infer = true; break;
                case MOVE: { LdaP<S> l2(new L::LDA<S>(std::move(*lda))); lda.reset(); lda = std::move(l2); infer = true; break; }
            }
        }
        Oracle q;
        if (!bits_equal(copy.X, o.d.X) || !bits_equal(copy.y, o.d.y)) fail("interfere:data", "a call changed the caller's data");
        if (model_of(*lda).get() != ptr) fail("interfere:model", "a call replaced the model object");
        if (infer && !model_bits_equal(*before, *model_of(*lda))) fail("interfere:inference", "inference (or moving the object) changed the model");
        if (!model_bits_equal(*given, *init)) fail("interfere:given", "training changed the model object the builder was initialised from");
        if (o.kind == TRANSFORM || o.kind == PREDICT) { tr.outs.push_back(out); tr.cls.push_back(cls); }
        if (o.kind != MOVE) tr.models.push_back(copy_model(*model_of(*lda)));
        return next < ops.size();
    }
};
template <typename S> Unit<S> pick_unit(const std::string &t, bool one_worker) {
    Unit<S> u; ConfLimits lim; lim.docs_small = 6; lim.docs_mid = 10; lim.docs_large = 20; lim.vocab = 9; lim.topics = 4; lim.iters = 2; lim.workers = 4;
    // the names of the picks must differ between the units
    u.c.variant = (int)pick((t + "variant").c_str(), 0, one_worker ? ref::ONLINE : ref::SEMI); Conf &c = u.c; Rng r(derive((t + "conf").c_str()));
    c.D = (int)pick((t + "docs").c_str(), 1, 10); c.V = (int)pick((t + "vocab").c_str(), 2, 9); c.K = (int)pick((t + "topics").c_str(), 1, 4); c.C = c.supervised() ? (int)pick((t + "classes").c_str(), 1, 3) : 1;
    c.workers = one_worker ? 1 : (size_t)pick((t + "workers").c_str(), 1, 4); c.iters = (size_t)pick((t + "iters").c_str(), 1, pick_p((t + "more_iters").c_str(), 0.1) ? 14 : 2); c.e_it = (int)pick((t + "e_it").c_str(), 1, 6); c.e_tol = r.p(0.5) ? 0 : 1e-2; c.fp_it = 1 + r.below(3);
    c.decay = c.variant == ref::SEMI && r.p(0.5); c.Cw = c.variant == ref::FSLDA_DECAY || c.decay ? r.range(0.3, 0.95) : r.range(0, 2); c.mu = 1 + r.range(0.05, 2); c.etaw = r.range(0.2, 3); c.like = r.p(0.5) ? 0.5 : r.p(0.5) ? 1 : 0; c.like_seed = r.below(5); c.m_it = 1 + r.below(6); c.m_tol = 1e-3; c.L = r.range(0.01, 0.5);
    bool online = c.variant == ref::ONLINE;     // whole passes, so that the update comes when the worker is done
    if (online) { c.batch = c.D * (1 + r.below(2)); c.mom = r.range(0, 0.95); c.lr = r.range(0.001, 0.1); c.bw = r.range(0.1, 0.95); }
    u.init = gen_model<S>(t + "m", c); u.listen = pick_p((t + "listen").c_str(), 0.5);
    int n = (int)pick((t + "ops").c_str(), 1, 4);
    for (int i = 0; i < n; i++) { std::string q = t + std::to_string(i); Op o; o.kind = (int)pick_w((q + "op").c_str(), {2, 3, c.variant == ref::UNSUP ? 3 : 0, c.variant == ref::UNSUP ? 2 : 0, 1}); o.d = gen_data(q + "d", i == 0 || online ? c.D : (int)pick((q + "docs").c_str(), 1, 8), c.V, c.C, c.data_flags()); u.ops.push_back(o); }
    return u;
}
template <typename S> void compare(const Trace<S> &a, const Trace<S> &b, const char *how, int i, bool events) {
    if (a.outs.size() != b.outs.size() || a.models.size() != b.models.size()) fail("interfere:trace", "model %d did not do all its work %s", i, how);
    for (size_t k = 0; k < a.outs.size(); k++) if (!bits_equal(a.outs[k], b.outs[k]) || !bits_equal(a.cls[k], b.cls[k])) fail("interfere:inference", "model %d infers something else %s than alone", i, how);
    for (size_t k = 0; k < a.models.size(); k++) if (!model_bits_equal(*a.models[k], *b.models[k])) fail("interfere:training", "model %d trains to something else %s than alone (difference %g)", i, how, model_diff(*a.models[k], *b.models[k]));
    if (events && (a.events.size() != b.events.size() || memcmp(a.events.data(), b.events.data(), 8 * a.events.size()))) fail("interfere:events", "model %d reports other events %s than alone", i, how);
}
}
template <typename S> static void c16(bool concurrent) {
    int n = (int)pick("models", 2, 4); std::vector<Unit<S>> us, solo;
    for (int i = 0; i < n; i++) {
        std::string t = "u" + std::to_string(i) + "."; us.push_back(pick_unit<S>(t, true));
        if (i > 0 && pick_p((t + "twin").c_str(), 0.3)) { us[i].c = us[0].c; us[i].ops = us[0].ops; us[i].listen = us[0].listen; us[i].init = copy_model(*us[0].init); }     // same configuration, still separate
    }
    { Oracle o; for (auto &u : us) { Unit<S> c; c.c = u.c; c.init = copy_model(*u.init); for (auto &x : u.ops) if (x.kind != MOVE) c.ops.push_back(x); c.listen = u.listen; solo.push_back(std::move(c)); } }
    default_schedule();
    if (concurrent) {
        std::vector<std::thread> ts;
        for (int i = 0; i < n; i++) ts.emplace_back([&, i]() { Quiet q; us[i].start(); while (us[i].step()) {} { Sut s; us[i].lda.reset(); } });
        for (auto &t : ts) t.join();
    } else {
        Rng r(derive("order")); std::vector<int> live; bool late = pick_p("late", 0.5), destroy = pick_p("destroy", 0.5);
        for (int i = 0; i < n; i++) { if (!late) us[i].start(); live.push_back(i); }
        while (!live.empty()) { int k = r.below((int)live.size()), i = live[k]; if (!us[i].lda) us[i].start(); if (!us[i].step()) { if (destroy) { Sut s; us[i].lda.reset(); } live.erase(live.begin() + k); } }
    }
    check_threads("models"); sequential_schedule();
    Oracle o;
    for (int i = 0; i < n; i++) { solo[i].start(); while (solo[i].step()) {} compare(us[i].tr, solo[i].tr, concurrent ? "next to other threads" : "between other models", i, true); note("unit %d models %d", i, (int)us[i].tr.models.size()); }
    probe(concurrent ? 1 : 0);
}
SCENARIO("C16", c16_concurrent_double, 3) { c16<double>(true); }
SCENARIO("C16", c16_concurrent_float, 1) { c16<float>(true); }
SCENARIO("C16", c16_interleaved_double, 2) { c16<double>(false); }
SCENARIO("C16", c16_interleaved_float, 1) { c16<float>(false); }
// inference and moves (any number of workers) between training calls (one worker) change nothing
template <typename S> static void c16_pure() {
    Unit<S> a = pick_unit<S>("u.", true); a.c.variant = ref::UNSUP; a.c.C = 1; a.init = gen_model<S>("m2", a.c);
    Unit<S> b; Rng r(derive("ins")); a.ops.clear(); int n = (int)pick("n", 1, 4);
    for (int i = 0; i < n; i++) { Op o; o.kind = r.p(0.5) ? FIT : PARTIAL; o.d = gen_data("t" + std::to_string(i), (int)pick(("td" + std::to_string(i)).c_str(), 1, 10), a.c.V, 1); a.ops.push_back(o); }
    b.c = a.c; b.init = copy_model(*a.init); b.listen = a.listen;
    for (int i = 0; i <= n; i++) {
        int k = (int)pick(("ins" + std::to_string(i)).c_str(), 0, 2);
        for (int j = 0; j < k; j++) { Op o; o.kind = r.p(0.2) ? MOVE : r.p(0.5) ? TRANSFORM : PREDICT; o.d = gen_data("i" + std::to_string(i) + std::to_string(j), (int)pick(("id" + std::to_string(i) + std::to_string(j)).c_str(), 0, 9), a.c.V, 1); b.ops.push_back(o); }
        if (i < n) b.ops.push_back(a.ops[i]);
    }
    default_schedule(); b.start(); while (b.step()) {}
    check_threads("run"); sequential_schedule(); Oracle o; a.start(); while (a.step()) {}
    if (!model_bits_equal(*a.tr.models.back(), *model_of(*b.lda))) fail("interfere:inference", "training with inference in between gives another model (difference %g)", model_diff(*a.tr.models.back(), *model_of(*b.lda)));
    probe(2);
}
// a long life: thousands of inferences on one object, every round gives what the first gave
SCENARIO("C16", c16_long_life, 1) {
    if (!pick_p("long", 0.12)) { c16_pure<double>(); return; }
    Conf c; c.variant = ref::UNSUP; c.K = (int)pick("topics", 1, 2); c.V = (int)pick("vocab", 1, 2); c.D = (int)pick("docs", 50, 300); c.workers = (size_t)pick("workers", 1, 3); c.e_it = 1; c.e_tol = 0; c.like = pick_p("like", 0.3) ? 0.5 : 0; int rounds = (int)pick("rounds", 5, 24);
    auto m = gen_model<double>("m", c); Data d = gen_data("d", c.D, c.V, 1); auto l = make_lda<double>(c, *m); Mat<double> first; default_schedule();
    for (int i = 0; i < rounds; i++) { Mat<double> g; { Sut s; g = l->transform(d.X); } Oracle o; if (!i) first = g; else if (!bits_equal(first, g)) fail("interfere:inference", "round %d of the same inference gives another result than the first", i); if (!model_bits_equal(*m, *model_of(*l))) fail("interfere:inference", "inference changed the model in round %d", i); }
    check_threads("inference"); sequential_schedule(); Oracle o; auto fresh = make_lda<double>(c, *m); if (!bits_equal(first, Mat<double>(fresh->transform(d.X)))) fail("interfere:inference", "a fresh object infers something else"); note_mat("g", first); probe(4);
}
SCENARIO("C16", c16_pure_double, 2) { c16_pure<double>(); }
SCENARIO("C16", c16_pure_float, 1) { c16_pure<float>(); }
// several models with several workers each, at the same time
SCENARIO("C16", c16_many_workers, 2) {
    int n = (int)pick("models", 2, 3); std::vector<Unit<double>> us;
    for (int i = 0; i < n; i++) {
        Unit<double> u = pick_unit<double>("u" + std::to_string(i) + ".", false); static const int vs[] = {ref::UNSUP, ref::MULTI, ref::CORR}; u.c.variant = vs[u.c.variant % 3]; u.c.e_tol = 0; u.c.iters = 1; u.listen = false; if (u.c.variant == ref::UNSUP) u.c.C = 1;
        u.init = gen_model<double>("mm" + std::to_string(i), u.c); for (size_t k = 0; k < u.ops.size(); k++) { auto &o = u.ops[k]; if (u.c.variant != ref::UNSUP && (o.kind == TRANSFORM || o.kind == PREDICT)) o.kind = PARTIAL; o.d = gen_data("mw" + std::to_string(i) + "." + std::to_string(k), o.d.docs(), u.c.V, u.c.C); } us.push_back(std::move(u));
    }
    std::vector<Unit<double>> solo; { Oracle o; for (auto &u : us) { Unit<double> c; c.c = u.c; c.c.workers = 1; c.init = copy_model(*u.init); for (auto &x : u.ops) if (x.kind != MOVE) c.ops.push_back(x); solo.push_back(std::move(c)); } }
    default_schedule(); std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i]() { Quiet q; us[i].start(); while (us[i].step()) {} });
    for (auto &t : ts) t.join();
    check_threads("models"); sequential_schedule(); Oracle o;
    for (int i = 0; i < n; i++) {
        solo[i].start(); while (solo[i].step()) {}
        for (size_t k = 0; k < us[i].tr.models.size(); k++) { double d = model_diff(*us[i].tr.models[k], *solo[i].tr.models[k]); if (!(d < 1e-7)) fail("interfere:training", "model %d with %zu workers next to others differs from the model trained alone by %g", i, us[i].c.workers, d); }
        for (size_t k = 0; k < us[i].tr.outs.size(); k++) if (!(rel_diff(us[i].tr.outs[k], solo[i].tr.outs[k]) < 1e-7)) fail("interfere:inference", "model %d infers something else next to others", i);
    }
    probe(3);
}
