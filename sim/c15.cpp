// C15: monitoring never changes the result.
#include "spy.h"
using namespace sim;

namespace {
// a listener that does what monitoring code does: reads, stores, prints to memory
template <typename S> struct Nosy : L::events::EventListenerInterface {
    std::vector<double> v; std::vector<SModelP<S>> keep; int lag; std::string text; Nosy(int l) : lag(l) {}
    void on_event(EventP e) override {
        if (e->id() == "ExpectationProgressEvent") v.push_back((double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood());
        else if (e->id() == "MaximizationProgressEvent") v.push_back((double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood());
        else { auto m = std::static_pointer_cast<SModel<S>>(std::static_pointer_cast<L::events::EpochProgressEvent<S>>(e)->model_parameters()); keep.push_back(copy_model(*m)); text += std::to_string(m->beta.sum()); }
        for (int i = 0; i < lag; i++) yield_point();
    }
};
struct Mon { double like; int like_seed, listeners, lag; bool churn; };
Mon pick_mon(const std::string &t) {
    static const double l[] = {0, 1, 0.5, 0.1, 1e-3, 1e-9, 0.99};
    Mon m; m.like = l[pick_w((t + ".like").c_str(), {3, 3, 3, 1, 1, 1, 1})]; m.like_seed = (int)pick((t + ".seed").c_str(), 0, 1000); m.listeners = (int)pick((t + ".lis").c_str(), 0, 3); m.lag = (int)pick((t + ".lag").c_str(), 0, 2); m.churn = pick_p((t + ".churn").c_str(), 0.2); return m;
}
}
// One worker: the whole run, bit for bit.
template <typename S> static void c15_run() {
    ConfLimits lim; lim.long_fits = true; lim.no_iteration = true; lim.docs_large = 40; Conf c = pick_conf(ALL_BATCH, lim); c.workers = 1;
    auto model = gen_model<S>("m", c); int n = (int)pick("ops", 1, 3); std::vector<Data> data; std::vector<int> op;
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); data.push_back(gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 10), c.V, c.C, c.data_flags())); op.push_back((int)pick_w(("op" + t).c_str(), {2, 3, c.variant == ref::UNSUP ? 2 : 0})); }
    SModelP<S> fin[2]; std::vector<Mat<S>> outs[2];
    for (int v = 0; v < 2; v++) {
        Mon m = pick_mon("mon" + std::to_string(v)); Conf cv = c; cv.like = m.like; cv.like_seed = m.like_seed;
        auto lda = make_lda<S>(cv, *model); std::vector<std::shared_ptr<Nosy<S>>> ls;
        for (int i = 0; i < m.listeners; i++) { ls.push_back(std::make_shared<Nosy<S>>(m.lag)); lda->get_event_dispatcher()->add_listener(ls.back()); }
        if (v == 0) default_schedule(); else reseed_schedule(derive("second"));
        for (int i = 0; i < n; i++) {
            Sut s; if (op[i] == 0) train(*lda, data[i], cv); else if (op[i] == 1) train_epoch(*lda, data[i], cv); else { auto r = lda->transform(data[i].X); Oracle o; outs[v].push_back(r); }
            if (m.churn && !ls.empty()) { lda->get_event_dispatcher()->remove_listener(ls.back()); ls.pop_back(); }
        }
        check_threads("run"); Oracle o; fin[v] = copy_model(*model_of(*lda));
    }
    sequential_schedule(); Oracle o;
    if (!model_bits_equal(*fin[0], *fin[1])) fail("monitoring:model", "%s: the trained model depends on monitoring (difference %g)", ref::variant_names[c.variant], model_diff(*fin[0], *fin[1]));
    for (size_t i = 0; i < outs[0].size(); i++) if (!bits_equal(outs[0][i], outs[1][i])) fail("monitoring:inference", "inference depends on monitoring");
    note_mat("beta", fin[0]->beta); probe(0);
}
SCENARIO("C15", c15_run_double, 2) { c15_run<double>(); }
SCENARIO("C15", c15_run_float, 1) { c15_run<float>(); }
// Several workers, every variant: each document's variational parameters are those a fresh,
// unmonitored step computes from the same model, bit for bit.
template <typename S> static void c15_docs() {
    ConfLimits lim; lim.no_iteration = true; lim.docs_large = 40; Conf c = pick_conf(ALL_BATCH, lim); Mon m = pick_mon("mon"); c.like = m.like; c.like_seed = m.like_seed;
    auto model = gen_model<S>("m", c); Data d = gen_data("d", c.D, c.V, c.C, c.data_flags()); Spied<S> sp(c, *model); std::vector<std::shared_ptr<Nosy<S>>> ls;
    for (int i = 0; i < m.listeners; i++) { ls.push_back(std::make_shared<Nosy<S>>(m.lag)); sp.lda->get_event_dispatcher()->add_listener(ls.back()); }
    default_schedule();
    { Sut s; train(*sp.lda, d, c); }
    check_threads("training"); sequential_schedule();
    Oracle o; Conf other = c; other.like = m.like == 0 ? 1 : 0; other.like_seed = c.like_seed + 1;
    auto corpus = std::make_shared<L::corpus::EigenClassificationCorpus>(d.X, d.y);
    std::map<DocKey, std::shared_ptr<L::corpus::Document>> docs;
    for (int i = 0; i < d.docs(); i++) { auto doc = corpus->at(i); docs[key_of(doc->get_words(), c.supervised() ? class_of(doc, true) : 0)] = doc; }
    auto fe = make_e<S>(other);
    for (size_t k = 0; k + 1 < sp.led.epochs.size(); k++) {
        for (auto &x : sp.led.epochs[k].e) {
            auto it = docs.find(x.key); if (it == docs.end()) continue;
            auto v = copy_vp<S>(fe->doc_e_step(it->second, sp.led.epochs[k].start), c.variant == ref::CORR);
            if (!vp_bits_equal(v, x.v)) fail("monitoring:document", "%s epoch %zu: a document's inference depends on monitoring (gamma differs by %g)", ref::variant_names[c.variant], k, rel_diff(v.gamma, x.v.gamma));
        }
        fe->e_step();
    }
    probe(1);
}
SCENARIO("C15", c15_docs_double, 2) { c15_docs<double>(); }
SCENARIO("C15", c15_docs_float, 1) { c15_docs<float>(); }
// Inference with any number of workers
template <typename S> static void c15_infer() {
    ConfLimits lim; lim.no_iteration = true; Conf c = pick_conf(1u << ref::UNSUP, lim); auto model = gen_model<S>("m", c); Data d = gen_data("d", c.D, c.V, 1); Mat<S> out[2]; std::vector<int> cls[2];
    for (int v = 0; v < 2; v++) {
        Mon m = pick_mon("mon" + std::to_string(v)); Conf cv = c; cv.like = m.like; cv.like_seed = m.like_seed; cv.workers = (size_t)pick(("w" + std::to_string(v)).c_str(), 1, 8);
        auto lda = make_lda<S>(cv, *model); std::vector<std::shared_ptr<Nosy<S>>> ls; for (int i = 0; i < m.listeners; i++) { ls.push_back(std::make_shared<Nosy<S>>(m.lag)); lda->get_event_dispatcher()->add_listener(ls.back()); }
        if (v == 0) default_schedule(); else reseed_schedule(derive("second"));
        Sut s; out[v] = lda->transform(d.X);
    }
    sequential_schedule(); Oracle o; if (!bits_equal(out[0], out[1])) fail("monitoring:inference", "inference depends on monitoring"); probe(2);
}
SCENARIO("C15", c15_infer_double, 1) { c15_infer<double>(); }
SCENARIO("C15", c15_infer_float, 1) { c15_infer<float>(); }
