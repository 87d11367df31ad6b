// Decorators around real EM steps that record what the facade (LDA) does with them. The wrapped
// steps are the repository's own; only the recording is harness code.
#pragma once
#include "scn.h"
#include <map>

template <typename S> struct VpCopy { Vec<S> gamma; Mat<S> phi; Vec<S> tau; bool has_tau = false; };
template <typename S> VpCopy<S> copy_vp(const ParamP &p, bool corr) {
    VpCopy<S> v; auto q = std::static_pointer_cast<L::parameters::VariationalParameters<S>>(p); v.gamma = q->gamma; v.phi = q->phi;
    if (corr) { v.tau = std::static_pointer_cast<L::parameters::SupervisedCorrespondenceVariationalParameters<S>>(p)->tau; v.has_tau = true; }
    return v;
}
template <typename S> bool vp_bits_equal(const VpCopy<S> &a, const VpCopy<S> &b) { return bits_equal(a.gamma, b.gamma) && bits_equal(a.phi, b.phi) && (!a.has_tau || bits_equal(a.tau, b.tau)); }
template <typename S> ref::VP to_ref(const VpCopy<S> &v) {
    ref::VP r; int K = (int)v.phi.rows(), V = (int)v.phi.cols(); r.gamma.resize(K); r.phi.resize((size_t)K * V);
    for (int k = 0; k < K; k++) { r.gamma[k] = v.gamma[k]; for (int w = 0; w < V; w++) r.phi[k * V + w] = v.phi(k, w); }
    if (v.has_tau) { r.tau.resize(V); for (int w = 0; w < V; w++) r.tau[w] = v.tau[w]; }
    return r;
}
inline int class_of(const std::shared_ptr<L::corpus::Document> &d, bool sup) { return sup ? std::static_pointer_cast<L::corpus::ClassificationDocument>(d)->get_class() : 0; }
typedef std::vector<int> DocKey;      // words and class
inline DocKey key_of(const VectorXi &x, int y) { DocKey k(x.data(), x.data() + x.size()); k.push_back(y); return k; }

template <typename S> struct Ledger {
    Conf c; int caller = 0;
    struct ECall { DocKey key; const void *vp; VpCopy<S> v; int thread; bool used; };
    struct MCall { DocKey key; int ecall; int thread; };
    struct Epoch { std::vector<ECall> e; std::vector<MCall> m; int e_steps = 0, m_steps = 0; int m_thread = -1; bool m_before_end = false; SModelP<S> start, end; std::vector<ParamP> keep; };
    std::vector<Epoch> epochs; SModelP<S> cur;
    bool infer = false;      // inference: not part of an epoch
    int infer_calls = 0;
    Ledger(const Conf &cc, const SModel<S> &m) : c(cc) { cur = copy_model(m); open(); }
    void open() { epochs.emplace_back(); epochs.back().start = copy_model(*cur); }
};
template <typename S> struct SpyE : L::em::EStepInterface<S> {
    EStepP<S> in; Ledger<S> *l; SpyE(EStepP<S> i, Ledger<S> *ll) : in(i), l(ll) {}
    ParamP doc_e_step(const std::shared_ptr<L::corpus::Document> d, const ParamP p) override {
        ParamP r = in->doc_e_step(d, p);
        sim::Oracle o;
        if (l->infer) { l->infer_calls++; return r; }
        auto &ep = l->epochs.back();
        ep.e.push_back({key_of(d->get_words(), class_of(d, l->c.supervised())), r.get(), copy_vp<S>(r, l->c.variant == ref::CORR), sim::self(), false});
        ep.keep.push_back(r);
        return r;
    }
    void e_step() override { in->e_step(); sim::Quiet q; l->epochs.back().e_steps++; }
};
template <typename S> struct SpyM : L::em::MStepInterface<S> {
    MStepP<S> in; Ledger<S> *l; SpyM(MStepP<S> i, Ledger<S> *ll) : in(i), l(ll) {}
    void doc_m_step(const std::shared_ptr<L::corpus::Document> d, const ParamP v, ParamP m) override {
        {
            sim::Oracle o; auto &ep = l->epochs.back(); int found = -1;
            for (size_t i = 0; i < ep.e.size(); i++) if (ep.e[i].vp == v.get()) found = (int)i;
            DocKey k = key_of(d->get_words(), class_of(d, l->c.supervised()));
            if (found < 0) sim::fail("ledger:foreign", "maximisation was given variational parameters no document of this epoch produced");
            if (ep.e[found].used) sim::fail("ledger:twice", "variational parameters of one document were used twice");
            if (ep.e[found].key != k) sim::fail("ledger:mixed", "maximisation paired a document with another document's variational parameters");
            ep.e[found].used = true; ep.m.push_back({k, found, sim::self()});
            if (ep.m_steps) sim::fail("ledger:order", "a document was fed to the maximisation after the epoch was finished");
            if (!vp_bits_equal(ep.e[found].v, copy_vp<S>(v, l->c.variant == ref::CORR))) sim::fail("ledger:changed", "variational parameters changed between inference and maximisation");
        }
        in->doc_m_step(d, v, m);
    }
    void m_step(ParamP m) override {
        { sim::Quiet q; auto &ep = l->epochs.back(); ep.m_steps++; ep.m_thread = sim::self(); }
        in->m_step(m);
        sim::Oracle o; l->cur = copy_model(*std::static_pointer_cast<SModel<S>>(m)); l->epochs.back().end = copy_model(*l->cur);
        l->epochs.back().keep.clear();
        l->open();
    }
};
// A training object whose real steps are observed. The inner steps dispatch on the model's own dispatcher.
template <typename S> struct Spied {
    Ledger<S> led; std::shared_ptr<SpyE<S>> e; std::shared_ptr<SpyM<S>> m; LdaP<S> lda;
    Spied(const Conf &c, const SModel<S> &mod) : led(c, mod) {
        e = std::make_shared<SpyE<S>>(make_e<S>(c), &led); m = std::make_shared<SpyM<S>>(make_m<S>(c), &led);
        lda = make_lda<S>(c, mod, e, m);
        e->in->set_event_dispatcher(lda->get_event_dispatcher()); m->in->set_event_dispatcher(lda->get_event_dispatcher());
    }
};
inline std::map<DocKey, int> doc_count(const Data &d, bool sup) { std::map<DocKey, int> r; for (int i = 0; i < d.docs(); i++) r[key_of(col(d.X, i), sup ? d.y[i] : 0)]++; return r; }
