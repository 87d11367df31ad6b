// C18: online training updates once per minibatch, from that minibatch.
#include "spy.h"
using namespace sim;

namespace {
template <typename S> struct OnlineSpy : L::em::MStepInterface<S> {
    MStepP<S> in; Conf c; ref::Online on; int consumed = 0, updates = 0, events = 0, thread; double last_event = 0; bool cmp;
    std::vector<int> update_at;      // consumed documents at each update
    OnlineSpy(MStepP<S> i, const Conf &cc, const std::vector<double> &w, bool compare) : in(i), c(cc), thread(self()), cmp(compare) { on.c = cc; on.weights = w; }
    void doc_m_step(const std::shared_ptr<L::corpus::Document> d, const ParamP v, ParamP m) override {
        SModelP<S> before; VpCopy<S> vp; int ev0; double rep = 0; bool up; ref::Model rm; auto mod = std::static_pointer_cast<SModel<S>>(m);
        { Oracle o; before = copy_model(*mod); vp = copy_vp<S>(v, false); ev0 = events; rm = to_ref(*before); }
        in->doc_m_step(d, v, m);
        Oracle o; consumed++;
        up = on.consume(to_ref(d->get_words(), class_of(d, true)), to_ref(vp), rm, &rep);
        bool due = consumed % c.batch == 0; if (up != due) fail("error:reference", "reference out of step");
        if (!due) {
            if (!model_bits_equal(*before, *mod)) fail("online:early", "the model changed after %d documents with minibatches of %d", consumed, c.batch);
            if (events != ev0) fail("online:event", "a maximisation event was reported after %d documents with minibatches of %d", consumed, c.batch);
            return;
        }
        updates++; update_at.push_back(consumed);
        if (!bits_equal(before->alpha, mod->alpha)) fail("online:prior", "an update changed the prior");
        if (events != ev0 + 1) fail("online:event", "update %d reported %d maximisation events", updates, events - ev0);
        ref::Model got = to_ref(*mod); double df = 0, lim = cmp ? 1e-8 : 2e-3;
        for (size_t i = 0; i < got.beta.size(); i++) df = std::max(df, std::fabs(got.beta[i] - rm.beta[i]));
        if (!(df < lim)) fail("online:beta", "update %d (after %d documents, minibatches of %d): the topics differ from the documented step by %g", updates, consumed, c.batch, df);
        df = 0; for (size_t i = 0; i < got.eta.size(); i++) { double e = std::fabs(got.eta[i] - rm.eta[i]) / (1 + std::fabs(rm.eta[i])); if (!(e <= df)) df = e; }
        if (!(df < lim)) fail("online:eta", "update %d (after %d documents, minibatches of %d): the class parameters differ from the documented step by %g", updates, consumed, c.batch, df);
        if (cmp && !(std::fabs(last_event - rep) <= 1e-8 * (1 + std::fabs(rep)))) fail("online:event", "update %d reported %.12g instead of %.12g", updates, last_event, rep);
        probe(0);
    }
    void m_step(ParamP m) override {
        SModelP<S> before; int ev0; { Oracle o; before = copy_model(*std::static_pointer_cast<SModel<S>>(m)); ev0 = events; }
        in->m_step(m);
        Oracle o; if (!model_bits_equal(*before, *std::static_pointer_cast<SModel<S>>(m)) || events != ev0) fail("online:epoch-end", "the end of an epoch updated the model between minibatches (%d documents consumed, minibatches of %d)", consumed, c.batch);
    }
};
}
template <typename S> static void c18() {
    ConfLimits lim; lim.long_fits = true; lim.docs_large = 70; Conf c = pick_conf(1u << ref::ONLINE, lim);
    c.batch = (int)pick_w("bkind", {3, 1, 1}) == 1 ? 1 : (int)pick("bsize", 1, 2 * c.D + 3);
    static const double bws[] = {0, 1, 0.5}; int bk = (int)pick_w("bwkind", {5, 1}); if (bk) c.bw = bws[pick("bw", 0, 2)];
    if (pick_p("nomom", 0.15)) c.mom = 0;
    auto model = gen_model<S>("m", c); Rng r(derive("w")); int wk = (int)pick_w("weights", {1, 1, 1}); std::vector<double> w(c.C, 1.0); std::vector<S> ws; Vec<S> wv(c.C);
    if (wk) for (auto &x : w) x = (double)(S)r.range(0.2, 3);
    for (int i = 0; i < c.C; i++) { ws.push_back((S)w[i]); wv[i] = (S)w[i]; }
    // the reference works with the values the step is given
    c.L = (double)(S)c.L; c.mom = (double)(S)c.mom; c.lr = (double)(S)c.lr; c.bw = (double)(S)c.bw;
    L::LDABuilder<S> b; auto im = wk == 0 ? b.get_fast_supervised_online_m_step((size_t)c.C, (S)c.L, c.batch, (S)c.mom, (S)c.lr, (S)c.bw) : wk == 1 ? b.get_fast_supervised_online_m_step(ws, (S)c.L, c.batch, (S)c.mom, (S)c.lr, (S)c.bw) : b.get_fast_supervised_online_m_step(wv, (S)c.L, c.batch, (S)c.mom, (S)c.lr, (S)c.bw);
    Ledger<S> led(c, *model); auto ie = make_e<S>(c);
    auto se = std::make_shared<SpyE<S>>(ie, &led); auto on = std::make_shared<OnlineSpy<S>>(im, c, w, std::is_same<S, double>::value);
    auto sm = std::make_shared<SpyM<S>>(on, &led);
    auto lda = make_lda<S>(c, *model, EStepP<S>(se), MStepP<S>(sm)); ie->set_event_dispatcher(lda->get_event_dispatcher()); im->set_event_dispatcher(lda->get_event_dispatcher());
    int epochs = 0;
    lda->get_event_dispatcher()->add_listener([&](EventP e) { Quiet q; if (e->id() == "MaximizationProgressEvent") { on->events++; on->last_event = (double)std::static_pointer_cast<L::events::MaximizationProgressEvent<S>>(e)->likelihood(); } else if (e->id() == "EpochProgressEvent") epochs++; });
    int n = (int)pick("ops", 1, 4); std::vector<Data> data; std::vector<int> op, ep_docs, ep_data; int total = 0;
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); data.push_back(gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 16), c.V, c.C)); op.push_back((int)pick(("op" + t).c_str(), 0, 1)); }
    default_schedule();
    for (int i = 0; i < n; i++) { int k = op[i] ? 1 : (int)c.iters; for (int j = 0; j < k; j++) { ep_docs.push_back(data[i].docs()); ep_data.push_back(i); total += data[i].docs(); } Sut s; if (op[i]) train_epoch(*lda, data[i], c); else train(*lda, data[i], c); }
    check_threads("training"); sequential_schedule(); Oracle o;
    if (on->consumed != total) fail("online:documents", "%d of %d documents were consumed", on->consumed, total);
    if (on->updates != total / c.batch) fail("online:count", "%d documents with minibatches of %d gave %d updates", total, c.batch, on->updates);
    if (on->events != on->updates) fail("online:event", "%d updates, %d maximisation events", on->updates, on->events);
    if (epochs != (int)ep_docs.size() || led.epochs.size() != ep_docs.size() + 1) fail("online:epochs", "%d epochs asked for, %d reported", (int)ep_docs.size(), epochs);
    int seen = 0;
    for (size_t k = 0; k < ep_docs.size(); k++) {
        auto want = doc_count(data[ep_data[k]], true); std::map<DocKey, int> m; for (auto &x : led.epochs[k].m) m[x.key]++;
        if (m != want) fail("online:documents", "epoch %zu consumed other documents than the corpus has", k);
        // no update while documents of this epoch were still being inferred: then inference used the model the epoch started with
        bool moved = false; for (int u : on->update_at) if (u > seen && u < seen + ep_docs[k]) moved = true;
        seen += ep_docs[k];
        if (moved) continue;
        auto &d = data[ep_data[k]]; auto corpus = std::make_shared<L::corpus::EigenClassificationCorpus>(d.X, d.y); std::map<DocKey, std::shared_ptr<L::corpus::Document>> docs; for (int i = 0; i < d.docs(); i++) { auto doc = corpus->at(i); docs[key_of(doc->get_words(), class_of(doc, true))] = doc; }
        auto fe = make_e<S>(c); for (size_t i = 0; i < k; i++) fe->e_step();
        for (auto &x : led.epochs[k].e) { auto v = copy_vp<S>(fe->doc_e_step(docs[x.key], led.epochs[k].start), false); if (!vp_bits_equal(v, x.v)) fail("online:inference", "a document was not inferred from the current model"); }
        probe(1);
    }
    note_mat("beta", model_of(*lda)->beta);
}
SCENARIO("C18", c18_double, 3) { c18<double>(); }
SCENARIO("C18", c18_float, 1) { c18<float>(); }
