// C02: every epoch uses every document exactly once and equals sequential EM.
#include "spy.h"
using namespace sim;

// one epoch recorded by the ledger against its corpus and start model
template <typename S> static void check_epoch(const Conf &c, typename Ledger<S>::Epoch &ep, const Data &d, int epoch_no, int caller) {
    auto want = doc_count(d, c.supervised());
    auto left = want;
    for (auto &x : ep.e) { auto it = left.find(x.key); if (it == left.end() || it->second == 0) fail("ledger:inference", "epoch %d ran inference on a document too often or on one that is not in the corpus", epoch_no); it->second--; }
    for (auto &x : left) if (x.second) fail("ledger:inference", "epoch %d left out %d copies of a document", epoch_no, x.second);
    if (ep.m.size() != ep.e.size()) fail("ledger:maximisation", "epoch %d fed %d of %d documents to the maximisation", epoch_no, (int)ep.m.size(), (int)ep.e.size());
    if (ep.m_steps != 1) fail("ledger:finish", "epoch %d was finished %d times", epoch_no, ep.m_steps);
    if (ep.e_steps != 1) fail("ledger:finish", "epoch %d finished the expectation %d times", epoch_no, ep.e_steps);
    if (ep.m_thread != caller) fail("ledger:thread", "epoch %d was finished on thread t%d, not on the caller's", epoch_no, ep.m_thread);
    // inference from the model the epoch started with, on a fresh real step
    auto fe = make_e<S>(c); for (int i = 0; i < epoch_no; i++) fe->e_step();
    auto corpus = std::make_shared<L::corpus::EigenClassificationCorpus>(d.X, d.y);
    auto fm = make_m<S>(c); auto mod = copy_model(*ep.start);
    std::map<DocKey, std::shared_ptr<L::corpus::Document>> docs;
    for (int i = 0; i < d.docs(); i++) { auto doc = corpus->at(i); docs[key_of(doc->get_words(), c.supervised() ? class_of(doc, true) : 0)] = doc; }
    for (auto &x : ep.e) {
        auto v = copy_vp<S>(fe->doc_e_step(docs[x.key], ep.start), c.variant == ref::CORR);
        if (!vp_bits_equal(v, x.v)) fail("inference", "epoch %d: a document's variational parameters are not those of the model the epoch started with", epoch_no);
        auto p = std::make_shared<L::parameters::SupervisedCorrespondenceVariationalParameters<S>>(); (void)p;
    }
    for (auto &mcall : ep.m) {
        auto &x = ep.e[mcall.ecall]; ParamP vp;
        if (c.variant == ref::CORR) vp = std::make_shared<L::parameters::SupervisedCorrespondenceVariationalParameters<S>>(x.v.gamma, x.v.phi, x.v.tau);
        else vp = std::make_shared<L::parameters::VariationalParameters<S>>(x.v.gamma, x.v.phi);
        fm->doc_m_step(docs[x.key], vp, mod);
    }
    fm->m_step(mod);
    if (!model_bits_equal(*mod, *ep.end)) fail("epoch-model", "epoch %d: the model is not what one maximisation over its documents gives (difference %g)", epoch_no, model_diff(*mod, *ep.end));
}
static void check_ref(const Conf &c, const SModel<double> &start, const SModel<double> &end, const Data &d, int epoch_no) {
    ref::Model rm = to_ref(start); std::vector<ref::Doc> docs; std::vector<ref::VP> vps; bool amb = false;
    for (int i = 0; i < d.docs(); i++) { docs.push_back(to_ref(col(d.X, i), c.supervised() ? d.y[i] : 0)); vps.push_back(ref::e_step(c, rm, docs.back(), epoch_no, d.docs(), 1)); amb |= vps.back().ambiguous; }
    ref::m_step(c, docs, vps, rm, nullptr, &amb);
    if (amb) { probe(1); return; }
    double df = ref_model_diff(end, rm);
    if (!(df < 1e-6)) fail("reference", "%s epoch %d differs from the sequential reference by %g", ref::variant_names[c.variant], epoch_no, df);
    probe(0);
}
template <typename S> static void c02_spied() {
    ConfLimits lim; lim.long_fits = true; lim.no_iteration = true; Conf c = pick_conf(ALL_BATCH, lim);
    auto model = gen_model<S>("m", c);
    Spied<S> sp(c, *model);
    int nops = (int)pick("ops", 1, 3);
    std::vector<Data> data; std::vector<int> op;
    for (int i = 0; i < nops; i++) {
        std::string t = "d" + std::to_string(i); int D = i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 12);
        data.push_back(gen_data(t, D, c.V, c.C, c.data_flags())); op.push_back((int)pick_w(("op" + t).c_str(), {3, 3, c.variant == ref::UNSUP ? 2 : 0, 1}));
    }
    default_schedule();
    std::vector<int> epoch_data;
    for (int i = 0; i < nops; i++) {
        if (op[i] == 2) { sp.led.infer = true; { Sut s; sp.lda->transform(data[i].X); } sp.led.infer = false; continue; }
        if (op[i] == 0) { for (size_t k = 0; k < c.iters; k++) epoch_data.push_back(i); Sut s; train(*sp.lda, data[i], c); }
        else if (op[i] == 1) { epoch_data.push_back(i); Sut s; train_epoch(*sp.lda, data[i], c); }
        else {   // one corpus object for several epochs
            std::shared_ptr<L::corpus::Corpus> cp; if (c.variant == ref::UNSUP) cp = std::make_shared<L::corpus::EigenCorpus>(data[i].X, 3); else cp = std::make_shared<L::corpus::EigenClassificationCorpus>(data[i].X, data[i].y, 3);
            for (int k = 0; k < 2; k++) { epoch_data.push_back(i); Sut s; sp.lda->partial_fit(cp); }
        }
        check_threads("training");
    }
    sequential_schedule();
    Oracle o;
    auto &eps = sp.led.epochs;
    if (eps.size() != epoch_data.size() + 1 || !eps.back().e.empty() || !eps.back().m.empty()) fail("ledger:epochs", "%d epochs were asked for, %d were finished%s", (int)epoch_data.size(), (int)eps.size() - 1, eps.back().e.empty() ? "" : " and another begun");
    if (!model_bits_equal(*model_of(*sp.lda), *sp.led.cur)) fail("epoch-model", "the model changed outside the epochs");
    for (size_t i = 0; i < epoch_data.size(); i++) { check_epoch<S>(c, eps[i], data[epoch_data[i]], (int)i, 0); note_mat("beta", eps[i].end->beta); }
}
SCENARIO("C02", c02_spied_double, 4) { c02_spied<double>(); }
SCENARIO("C02", c02_spied_float, 2) { c02_spied<float>(); }

// nothing wrapped: the epochs' models as a listener sees them against the sequential reference
SCENARIO("C02", c02_reference, 4) {
    ConfLimits lim; lim.long_fits = true; lim.no_iteration = true; Conf c = pick_conf(ALL_BATCH, lim);
    auto model = gen_model<double>("m", c);
    auto lda = make_lda<double>(c, *model);
    std::vector<SModelP<double>> seen; 
    { Oracle o; seen.push_back(copy_model(*model)); }
    lda->get_event_dispatcher()->add_listener([&](EventP ev) { Oracle o; if (ev->id() == "EpochProgressEvent") seen.push_back(copy_model(*std::static_pointer_cast<SModel<double>>(std::static_pointer_cast<L::events::EpochProgressEvent<double>>(ev)->model_parameters()))); });
    int nops = (int)pick("ops", 1, 3); std::vector<Data> data; std::vector<int> epoch_data;
    for (int i = 0; i < nops; i++) { std::string t = "d" + std::to_string(i); int D = i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 12); data.push_back(gen_data(t, D, c.V, c.C, c.data_flags())); }
    default_schedule();
    for (int i = 0; i < nops; i++) {
        bool fit = pick_p(("fit" + std::to_string(i)).c_str(), 0.5);
        if (c.variant == ref::UNSUP && pick_p(("tr" + std::to_string(i)).c_str(), 0.3)) { Sut s; lda->transform(data[i].X); }
        for (size_t k = 0; k < (fit ? c.iters : 1); k++) epoch_data.push_back(i);
        Sut s; if (fit) train(*lda, data[i], c); else train_epoch(*lda, data[i], c);
    }
    check_threads("training");
    sequential_schedule();
    Oracle o;
    if (seen.size() != epoch_data.size() + 1) fail("epochs", "%d epochs asked for, %d reported", (int)epoch_data.size(), (int)seen.size() - 1);
    if (!model_bits_equal(*seen.back(), *model_of(*lda))) fail("epoch-model", "the final model is not that of the last epoch");
    for (size_t i = 0; i < epoch_data.size(); i++) check_ref(c, *seen[i], *seen[i + 1], data[epoch_data[i]], (int)i);
}
// custom steps and corpus: documents carry identities
struct TagDoc : L::corpus::Document { int id; VectorXi x; const std::shared_ptr<const L::corpus::Corpus> get_corpus() const override { return nullptr; } const VectorXi &get_words() const override { return x; } };
struct TagCorpus : L::corpus::Corpus {
    std::vector<int> order; int base; mutable int shuffles = 0; uint64_t s;
    TagCorpus(int n, int b, uint64_t seed) : base(b), s(seed) { for (int i = 0; i < n; i++) order.push_back(i); }
    size_t size() const override { return order.size(); }
    const std::shared_ptr<L::corpus::Document> at(size_t i) const override { if (i >= order.size()) fail("ledger:index", "document %zu of a corpus of %zu was asked for", i, order.size()); auto d = std::make_shared<TagDoc>(); d->id = base + order[i]; d->x = VectorXi::Constant(1, 1); return d; }
    void shuffle() override { Quiet q; Rng r(s++); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below((int)i)]); shuffles++; }
};
struct TagVp : L::parameters::VariationalParameters<double> { int id; int serial; };
struct TagE : L::em::EStepInterface<double> {
    std::vector<int> seen; int fin = 0, delay; std::vector<uint64_t> when; TagE(int d) : delay(d) {}
    ParamP doc_e_step(const std::shared_ptr<L::corpus::Document> d, const ParamP) override {
        auto v = std::make_shared<TagVp>(); v->id = std::static_pointer_cast<TagDoc>(d)->id; v->gamma = Vec<double>::Constant(2, v->id);
        for (int i = 0; i < delay; i++) yield_point();
        Quiet q; v->serial = (int)seen.size(); seen.push_back(v->id); return v;
    }
    void e_step() override { fin++; }
};
struct TagM : L::em::MStepInterface<double> {
    std::vector<std::pair<int, int>> fed; int fin = 0; int fin_thread = -1; size_t at_fin = 0;
    void doc_m_step(const std::shared_ptr<L::corpus::Document> d, const ParamP v, ParamP) override {
        auto t = std::static_pointer_cast<TagVp>(v); int id = std::static_pointer_cast<TagDoc>(d)->id;
        Quiet q; if (t->id != id) fail("ledger:mixed", "document %d was fed with the parameters of document %d", id, t->id); fed.push_back({id, t->serial});
    }
    void m_step(ParamP) override { Quiet q; fin++; fin_thread = self(); at_fin = fed.size(); }
};
SCENARIO("C02", c02_tagged, 3) {
    int n = sized_pick("docs", 0, 12, 80, 400), reps = (int)pick("reps", 1, 4); size_t w = (size_t)pick("workers", 1, 16);
    auto e = std::make_shared<TagE>((int)pick("delay", 0, 4)); auto m = std::make_shared<TagM>();
    Conf c; c.K = 2; c.V = 1; c.workers = w; auto model = gen_model<double>("m", c); auto lda = make_lda<double>(c, *model, e, m);
    default_schedule();
    for (int i = 0; i < reps; i++) {
        auto cp = std::make_shared<TagCorpus>(i % 2 ? (n + 3) / 2 : n, i * 1000, derive("shuf"));
        { Oracle o; e->seen.clear(); m->fed.clear(); m->fin = e->fin = 0; m->fin_thread = -1; }
        { Sut s; lda->partial_fit(cp); }
        check_threads("training");
        Oracle o; size_t N = cp->size();
        std::vector<int> es = e->seen, ms; std::vector<int> ser; for (auto &x : m->fed) { ms.push_back(x.first); ser.push_back(x.second); }
        std::sort(es.begin(), es.end()); std::sort(ms.begin(), ms.end()); std::sort(ser.begin(), ser.end());
        for (size_t k = 0; k < std::max(N, std::max(es.size(), ms.size())); k++) {
            if (es.size() != N || es[k] != i * 1000 + (int)k) fail("ledger:inference", "pass %d over %zu documents ran inference %zu times; first mismatch at %zu", i, N, es.size(), k);
            if (ms.size() != N || ms[k] != i * 1000 + (int)k) fail("ledger:maximisation", "pass %d over %zu documents fed the maximisation %zu times; first mismatch at %zu", i, N, ms.size(), k);
            if (ser[k] != (int)k) fail("ledger:twice", "a result was used twice");
        }
        if (m->fin != 1 || e->fin != 1 || m->at_fin != N) fail("ledger:finish", "pass %d finished the maximisation %d times and the expectation %d times, after %zu of %zu documents", i, m->fin, e->fin, m->at_fin, N);
        if (m->fin_thread != 0) fail("ledger:thread", "the epoch was finished on thread t%d", m->fin_thread);
    }
}
