// C05: every call terminates and leaves no thread behind.
#include "scn.h"
using namespace sim;

namespace {
// steps that only take (simulated) time
struct SlowE : L::em::EStepInterface<double> {
    int lag, slow_every; int n = 0, K; SlowE(int l, int s, int k) : lag(l), slow_every(s), K(k) {}
    ParamP doc_e_step(const std::shared_ptr<L::corpus::Document> d, const ParamP) override {
        int me; { Quiet q; me = n++; }
        int l = slow_every && me % slow_every == 0 ? lag * 20 : lag; for (int i = 0; i < l; i++) yield_point();
        Quiet q; auto v = std::make_shared<L::parameters::VariationalParameters<double>>(); v->gamma = Vec<double>::Constant(K, 1 + d->get_words().sum()); return v;
    }
    void e_step() override {}
};
struct SlowM : L::em::MStepInterface<double> {
    int lag, docs = 0, fin = 0; SlowM(int l) : lag(l) {}
    void doc_m_step(const std::shared_ptr<L::corpus::Document>, const ParamP, ParamP) override { for (int i = 0; i < lag; i++) yield_point(); docs++; }
    void m_step(ParamP) override { fin++; }
};
}
// listeners that use the dispatcher themselves while they handle an event
struct Reentrant {
    std::shared_ptr<L::events::EventDispatcherInterface> d; std::shared_ptr<L::events::EventListenerInterface> h, extra; int mode, every, n = 0, depth = 0;
    void on(EventP e) {
        int me; { Quiet q; me = n++; } if (me % every || depth) return;
        depth++;
        switch (mode == 3 ? me / every % 3 : mode) {
            case 0: if (extra) { d->remove_listener(extra); extra.reset(); } else extra = d->add_listener([](EventP) {}); break;
            case 1: d->remove_listener(h); d->add_listener(h); break;
            case 2: d->dispatch(std::make_shared<L::events::Event>("note")); break;
        }
        depth--; (void)e;
    }
};
template <typename S> static void attach(L::LDA<S> &lda, std::vector<std::shared_ptr<Reentrant>> &keep) {
    int n = (int)pick_w("reentrant", {3, 1, 1}); auto d = lda.get_event_dispatcher();
    for (int i = 0; i < n; i++) {
        std::string t = "re" + std::to_string(i); auto r = std::make_shared<Reentrant>(); r->d = d; r->mode = (int)pick((t + ".mode").c_str(), 0, 3); r->every = (int)pick((t + ".every").c_str(), 1, 7);
        Reentrant *p = r.get(); r->h = d->add_listener([p](EventP e) { p->on(e); }); keep.push_back(r); probe(2);
    }
}
static void detach(std::vector<std::shared_ptr<Reentrant>> &keep) { for (auto &r : keep) { r->d->remove_listener(r->h); if (r->extra) r->d->remove_listener(r->extra); r->h.reset(); r->extra.reset(); r->d.reset(); } }
static void set_machine() { static const int n[] = {0, 1, 2, 4, 16}; set_nprocs(n[pick("nprocs", 0, 4)]); }
// how the worker count is asked for: a number, none at all, or whatever the machine reports
template <typename S> static void ask_workers(L::LDABuilder<S> &b, const char *tag) {
    std::string t = tag;
    switch (pick_w((t + ".how").c_str(), {6, 2, 2})) { case 0: b.set_workers((size_t)pick((t + ".n").c_str(), 1, 24)); break; case 1: b.set_workers(0); break; default: break; }
}
SCENARIO("C05", c05_stub, 3) {
    cfg.step_budget = 60000000;
    set_machine();
    Conf c; c.K = 2; c.V = 3; auto model = gen_model<double>("m", c);
    auto e = std::make_shared<SlowE>((int)pick("lag", 0, 6), (int)pick("slow_every", 0, 5), c.K); auto m = std::make_shared<SlowM>((int)pick("mlag", 0, 4));
    L::LDABuilder<double> b; start_builder(b, c, *model); b.set_iterations((size_t)pick("iters", 0, 3));
    L::LDABuilder<double> b2; b2.initialize_topics_from_model(copy_model(*model)); b2.initialize_eta_from_model(copy_model(*model)); b2.set_iterations((size_t)pick("iters", 0, 3)); ask_workers(b2, "w");
    b2.set_e(e); b2.set_m(m);
    auto lda = finish_builder(b2);
    std::vector<std::shared_ptr<Reentrant>> re; attach(*lda, re);
    int calls = (int)pick("calls", 1, pick_p("many", 0.1) ? 30 : 5);
    std::vector<int> docs, op; for (int i = 0; i < calls; i++) { std::string t = std::to_string(i); docs.push_back(sized_pick(("docs" + t).c_str(), 0, 6, 30, 120)); op.push_back((int)pick(("op" + t).c_str(), 0, 4)); if (op.back() == 1 || op.back() == 3) docs.back() = std::max(docs.back(), 1); }   // labelled corpora have a document
    default_schedule();
    for (int i = 0; i < calls; i++) {
        MatrixXi X = MatrixXi::Constant(c.V, docs[i], 1); VectorXi y = VectorXi::Zero(docs[i]); int before; { Quiet q; before = m->docs; }
        Sut s;
        switch (op[i]) {
            case 0: lda->fit(X); break;
            case 1: lda->partial_fit(X, y); break;
            case 2: lda->transform(X); break;
            case 3: lda->fit(X, y); break;
            case 4: lda->partial_fit(std::make_shared<L::corpus::EigenCorpus>(X)); break;
        }
        Quiet q; check_threads("call");
        if (op[i] == 1 || op[i] == 4) if (m->docs != before + docs[i]) fail("incomplete", "a pass over %d documents returned after %d of them", docs[i], m->docs - before);
    }
    detach(re);
    { Sut s; lda.reset(); }
    check_threads("destruction"); sequential_schedule(); probe(0);
}
template <typename S> static void c05_real() {
    cfg.step_budget = 150000000;
    set_machine();
    ConfLimits lim; lim.long_fits = true; lim.iters = 2; lim.docs_large = 50; Conf c = pick_conf(ALL_VARIANTS, lim);
    if (c.D < 10 && pick_p("long_m", 0.04)) { c.m_it = (int)pick("m_it.many", 200, 400); c.m_tol = -1; }   // never done before the last iteration
    auto model = gen_model<S>("m", c);
    L::LDABuilder<S> b; b.set_iterations(c.iters); ask_workers(b, "w"); { auto p = copy_model(*model); b.initialize_topics_from_model(p); b.initialize_eta_from_model(p); } set_steps(b, c);
    LdaP<S> lda; { Sut s; lda = finish_builder(b); }
    std::vector<std::shared_ptr<Reentrant>> re; attach(*lda, re);
    int calls = (int)pick("calls", 1, 5); std::vector<int> op; std::vector<Data> data;
    for (int i = 0; i < calls; i++) {
        std::string t = std::to_string(i); op.push_back((int)pick_w(("op" + t).c_str(), {2, 3, c.variant == ref::UNSUP ? 4 : 0}));
        int D = (int)pick(("docs" + t).c_str(), c.variant == ref::UNSUP ? 0 : 1, i == 0 ? std::max(c.D, 1) : 10); data.push_back(gen_data("d" + t, D, c.V, c.C, c.data_flags()));
    }
    default_schedule();
    for (int i = 0; i < calls; i++) {
        { Sut s; if (op[i] == 0) train(*lda, data[i], c); else if (op[i] == 1) train_epoch(*lda, data[i], c); else if (i % 2) lda->transform(data[i].X); else lda->transform_predict(data[i].X); }
        check_threads("call");
    }
    detach(re);
    { Sut s; lda.reset(); }
    check_threads("destruction"); sequential_schedule(); probe(1);
}
SCENARIO("C05", c05_real_double, 2) { c05_real<double>(); }
SCENARIO("C05", c05_real_float, 1) { c05_real<float>(); }
