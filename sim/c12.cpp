// C12: same inputs and seed, same model: the same program twice under different schedules, heap
// contents, clocks, entropy, machine sizes and process histories.
#include "scn.h"
#include "ldaplusplus/utils.hpp"
using namespace sim;

namespace {
struct Init { int kind, seed, n; };            // 0 given model 1 seeded 2 random
template <typename S> struct Out { std::vector<double> events; std::vector<char> ids; std::vector<SModelP<S>> models; std::vector<Mat<S>> outs; std::vector<VectorXi> cls; SModelP<S> init; std::vector<SModelP<S>> epochs; std::vector<int> epoch_op; };
struct Op { int kind; Data d; };
template <typename S> void add_topics(L::LDABuilder<S> &b, const Conf &c, const Init &in, const Data &d, const SModelP<S> &given) {
    if (in.kind == 0) b.initialize_topics_from_model(copy_model(*given)); else if (in.kind == 1) b.initialize_topics_seeded(d.X, (size_t)c.K, (size_t)in.n, in.seed); else b.initialize_topics_random((size_t)c.V, (size_t)c.K, in.seed);
    if (in.kind == 0) b.initialize_eta_from_model(copy_model(*given)); else if (c.positive_eta()) b.initialize_eta_uniform((size_t)c.C); else b.initialize_eta_zeros((size_t)c.C);
}
template <typename S> Out<S> program(const Conf &c, const Init &in, const SModelP<S> &given, const std::vector<Op> &ops, int corpus_seed) {
    Out<S> r; LdaP<S> lda;
    {
        Sut s; L::LDABuilder<S> b; b.set_iterations(c.iters); b.set_workers(c.workers); set_steps(b, c); add_topics(b, c, in, ops[0].d, given); lda = finish_builder(b);
        lda->get_event_dispatcher()->add_listener([&](EventP e) { Oracle o; double v = 0; if (e->id() == "ExpectationProgressEvent") v = (double)std::static_pointer_cast<L::events::ExpectationProgressEvent<S>>(e)->likelihood(); else if (e->id() == "MaximizationProgressEvent") v = (double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood(); else r.epochs.push_back(copy_model(*model_of(*lda))); r.ids.push_back(e->id()[1]); r.events.push_back(v); });
    }
    { Oracle o; r.init = copy_model(*model_of(*lda)); }
    for (auto &op : ops) {
        { Oracle o; int n = op.kind == 0 ? (int)c.iters : op.kind == 1 ? 1 : op.kind == 4 ? 2 : 0; for (int i = 0; i < n; i++) r.epoch_op.push_back((int)(&op - ops.data())); }
        Mat<S> g; VectorXi y; bool has = false;
        {
            Sut s;
            switch (op.kind) {
                case 0: train(*lda, op.d, c); break;
                case 1: train_epoch(*lda, op.d, c); break;
                case 2: g = lda->transform(op.d.X); has = true; break;
                case 3: std::tie(g, y) = lda->transform_predict(op.d.X); has = true; break;
                case 4: { std::shared_ptr<L::corpus::Corpus> cp; if (c.variant == ref::UNSUP) cp = std::make_shared<L::corpus::EigenCorpus>(op.d.X, corpus_seed); else cp = std::make_shared<L::corpus::EigenClassificationCorpus>(op.d.X, op.d.y, corpus_seed); lda->partial_fit(cp); lda->partial_fit(cp); break; }
            }
        }
        Oracle o; if (has) { r.outs.push_back(g); r.cls.push_back(y); } r.models.push_back(copy_model(*model_of(*lda)));
    }
    return r;
}
void environment(const std::string &t) {
    set_heap_fill((int)pick((t + "heap").c_str(), 0, 3)); set_clock_base(derive((t + "clock").c_str()) >> 3); set_entropy(derive((t + "entropy").c_str())); static const int np[] = {0, 1, 3, 64}; set_nprocs(np[pick((t + "nprocs").c_str(), 0, 3)]); reseed_schedule(derive((t + "sched").c_str()));
}
// other use of the library in the same process
template <typename S> void history(const std::string &t, const Conf &like = Conf()) {
    int n = (int)pick((t + "hist").c_str(), 0, 2); Rng r(derive((t + "hist.x").c_str()));
    for (int i = 0; i < n; i++) {
        Conf c; c.variant = r.below(ref::NVARIANTS); c.K = 1 + r.below(4); c.V = 2 + r.below(6); c.C = c.supervised() ? 1 + r.below(3) : 1; c.workers = 1 + r.below(3); c.iters = 1; c.e_it = 2; c.m_it = 2; c.batch = 2; c.Cw = 0.5; c.like = 0.5; c.like_seed = r.below(4);
        if (r.p(0.5)) { c = like; c.iters = 1 + r.below(2); c.workers = 1 + r.below(3); c.e_it = std::min(c.e_it, 4); c.fp_it = std::min(c.fp_it, 4); c.e_tol = 0.1 * r.below(2); c.m_it = 1 + r.below(12); c.m_tol = 1e-6; c.L = r.range(0.001, 2); }      // something much like it
        auto m = gen_model<S>(t + "hm" + std::to_string(i), c); Data d; d.X = MatrixXi::Zero(c.V, 3 + r.below(4)); d.y = VectorXi::Zero(d.X.cols()); for (int k = 0; k < d.X.size(); k++) d.X.data()[k] = 1 + r.below(3); for (int k = 0; k < d.y.size(); k++) d.y[k] = r.below(c.C);
        Sut s; auto l = make_lda<S>(c, *m); train(*l, d, c);
    }
    { Sut s; L::math_utils::ThreadSafePRNG<std::default_random_engine> g(r.below(9)); for (int i = 0; i < r.below(5); i++) g(); rand(); }
}
// a discrete decision of this training is so close that rounding may take it the other way
template <typename S> bool ambiguous(const Conf &c, const Out<S> &r, const std::vector<Op> &ops) {
    if (r.epochs.size() != r.epoch_op.size()) fail("repeat:epochs", "%d epochs asked for, %d reported", (int)r.epoch_op.size(), (int)r.epochs.size());
    bool amb = false;
    for (size_t e = 0; e < r.epochs.size() && !amb; e++) {
        const Data &d = ops[r.epoch_op[e]].d; ref::Model rm = to_ref(e ? *r.epochs[e - 1] : *r.init); std::vector<ref::Doc> docs; std::vector<ref::VP> vps;
        for (int i = 0; i < d.docs(); i++) { docs.push_back(to_ref(col(d.X, i), c.supervised() ? d.y[i] : 0)); vps.push_back(ref::e_step(c, rm, docs.back(), (int)e, d.docs(), 1)); amb |= vps.back().ambiguous; }
        ref::m_step(c, docs, vps, rm, nullptr, &amb);
    }
    for (size_t k = 0; k < ops.size(); k++) {     // inference in between
        if (ops[k].kind == 2 || ops[k].kind == 3) { ref::Model rm = to_ref(*r.models[k]); for (int i = 0; i < ops[k].d.docs(); i++) amb |= ref::e_step(c, rm, to_ref(col(ops[k].d.X, i), 0), 0, 1, 1).ambiguous; }
       
    }
    return amb;
}
std::vector<Op> pick_ops(const Conf &c, int n) {
    std::vector<Op> ops; for (int i = 0; i < n; i++) { std::string t = std::to_string(i); Op o; o.kind = (int)pick_w(("op" + t).c_str(), {3, 2, c.variant == ref::UNSUP ? 2 : 0, c.variant == ref::UNSUP ? 1 : 0, 2}); o.d = gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 10), c.V, c.C, c.data_flags()); ops.push_back(o); }
    return ops;
}
}
template <typename S> static void c12(bool one) {
    ConfLimits lim; lim.no_iteration = true; lim.long_fits = one; lim.docs_large = 40; Conf c = pick_conf(ALL_BATCH, lim); if (one) c.workers = 1;
    else c.iters = std::min<size_t>(c.iters, 2);
    Init in{(int)pick("init", 0, 2), (int)pick("seed", 0, 30), (int)pick("initn", 1, 30)};
    auto given = gen_model<S>("m", c); auto ops = pick_ops(c, (int)pick("ops", 1, 3)); int cs = (int)pick("cseed", 0, 20);
    default_schedule();
    Out<S> r[2];
    for (int v = 0; v < 2; v++) { std::string t = v ? "b." : "a."; environment(t); history<S>(t, c); r[v] = program<S>(c, in, given, ops, cs); check_threads("program"); }
    sequential_schedule(); Oracle o;
    const char *vn = ref::variant_names[c.variant];
    if (!model_bits_equal(*r[0].init, *r[1].init)) fail("repeat:init", "the initial model of seed %d differs from run to run", in.seed);
    if (!one && ambiguous(c, r[0], ops)) { probe(4); return; }
    for (size_t i = 0; i < r[0].models.size(); i++) {
        if (one ? !model_bits_equal(*r[0].models[i], *r[1].models[i]) : !(model_diff(*r[0].models[i], *r[1].models[i]) < 1e-6)) fail("repeat:model", "%s, %zu workers: the same training gave another model (difference %g)", vn, c.workers, model_diff(*r[0].models[i], *r[1].models[i]));
        if (one) note_mat("beta", r[0].models[i]->beta);
    }
    for (size_t i = 0; i < r[0].outs.size(); i++) {
        bool same = bits_equal(r[0].outs[i], r[1].outs[i]) && bits_equal(r[0].cls[i], r[1].cls[i]);
        if (one ? !same : !(rel_diff(r[0].outs[i], r[1].outs[i]) < 1e-6)) fail("repeat:inference", "%s: the same inference gave another result", vn);
    }
    if (one && (r[0].ids != r[1].ids || memcmp(r[0].events.data(), r[1].events.data(), 8 * r[0].events.size()))) fail("repeat:events", "%s: the same program reported other events (%d and %d)", vn, (int)r[0].events.size(), (int)r[1].events.size());
    if (!one && r[0].events.size() != r[1].events.size()) fail("repeat:events", "%s: the same program reported %d and %d events", vn, (int)r[0].events.size(), (int)r[1].events.size());
    probe(one ? 0 : 1);
}
SCENARIO("C12", c12_one_double, 3) { c12<double>(true); }
SCENARIO("C12", c12_one_float, 2) { c12<float>(true); }
SCENARIO("C12", c12_many_double, 2) { c12<double>(false); }
// inference: any worker count, byte for byte
template <typename S> static void c12_infer() {
    ConfLimits lim; lim.no_iteration = true; Conf c = pick_conf(1u << ref::UNSUP, lim); Init in{(int)pick("init", 0, 2), (int)pick("seed", 0, 30), (int)pick("initn", 1, 30)}; auto given = gen_model<S>("m", c);
    std::vector<Op> ops(2); ops[0].kind = 2; ops[0].d = gen_data("d0", c.D, c.V, 1); ops[1].kind = 3; ops[1].d = gen_data("d1", (int)pick("docs1", 0, 12), c.V, 1);
    default_schedule(); Out<S> r[2];
    for (int v = 0; v < 2; v++) { std::string t = v ? "b." : "a."; environment(t); history<S>(t, c); Conf cv = c; cv.workers = (size_t)pick((t + "w").c_str(), 1, 10); r[v] = program<S>(cv, in, given, ops, 0); check_threads("program"); }
    sequential_schedule(); Oracle o;
    for (size_t i = 0; i < r[0].outs.size(); i++) if (!bits_equal(r[0].outs[i], r[1].outs[i]) || !bits_equal(r[0].cls[i], r[1].cls[i])) fail("repeat:inference", "the same inference gave another result");
    probe(2);
}
SCENARIO("C12", c12_infer_double, 1) { c12_infer<double>(); }
SCENARIO("C12", c12_infer_float, 1) { c12_infer<float>(); }
// the order of the documents depends on the seed of the corpus only
SCENARIO("C12", c12_shuffle, 1) {
    int n = sized_pick("docs", 1, 10, 60, 300), seed = (int)pick("seed", 0, 100), reps = (int)pick("reps", 1, 4); std::vector<int> order[2]; bool labelled = pick_p("labelled", 0.5);
    MatrixXi X(1, n); VectorXi y(n); for (int i = 0; i < n; i++) { X(0, i) = i; y[i] = i % 3; }
    default_schedule();
    for (int v = 0; v < 2; v++) {
        std::string t = v ? "b." : "a."; environment(t); history<double>(t);
        Sut s; std::shared_ptr<L::corpus::Corpus> cp; if (labelled) cp = std::make_shared<L::corpus::EigenClassificationCorpus>(X, y, seed); else cp = std::make_shared<L::corpus::EigenCorpus>(X, seed);
        for (int k = 0; k < reps; k++) { cp->shuffle(); std::vector<int> seen(n, 0); for (int i = 0; i < n; i++) { auto d = cp->at(i); int w = d->get_words()[0]; Oracle o; order[v].push_back(w); if (w < 0 || w >= n || seen[w]++) fail("repeat:shuffle", "shuffling repeated or dropped a document"); if (labelled && std::static_pointer_cast<L::corpus::ClassificationDocument>(d)->get_class() != w % 3) fail("repeat:shuffle", "shuffling separated a document from its class"); } }
    }
    Oracle o; if (order[0] != order[1]) fail("repeat:shuffle", "the order of the documents for seed %d differs from run to run", seed); probe(3);
}
