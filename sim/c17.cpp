// C17: the model stays valid after every epoch, and inferred proportions account for the words.
#include "spy.h"
using namespace sim;

template <typename S> static double tol() { return std::is_same<S, double>::value ? 1e-9 : 2e-5; }
template <typename S> static void check_rows(const Mat<S> &m, const char *what, const Conf &c, int epoch) {
    for (int k = 0; k < m.rows(); k++) {
        double s = 0;
        for (int j = 0; j < m.cols(); j++) { double v = (double)m(k, j); if (!(v >= 0)) fail("model:distribution", "%s epoch %d: %s(%d,%d) = %g", ref::variant_names[c.variant], epoch, what, k, j, v); s += v; }
        if (!(std::fabs(s - 1) <= tol<S>() * m.cols())) fail("model:distribution", "%s epoch %d: row %d of %s sums to %.12g", ref::variant_names[c.variant], epoch, k, what, s);
    }
}
template <typename S> static void check_model(const SModel<S> &m, const SModel<S> &start, const Conf &c, int epoch) {
    if (!bits_equal(m.alpha, start.alpha)) fail("model:prior", "%s epoch %d changed the prior", ref::variant_names[c.variant], epoch);
    if (m.beta.rows() != c.K || m.beta.cols() != c.V) fail("model:shape", "%s epoch %d: the topics are %dx%d", ref::variant_names[c.variant], epoch, (int)m.beta.rows(), (int)m.beta.cols());
    if (m.eta.rows() != c.K || m.eta.cols() != c.C) fail("model:shape", "%s epoch %d: the class parameters are %dx%d", ref::variant_names[c.variant], epoch, (int)m.eta.rows(), (int)m.eta.cols());
    check_rows<S>(m.beta, "beta", c, epoch);
    if (c.positive_eta()) check_rows<S>(m.eta, "eta", c, epoch);
    for (int i = 0; i < m.eta.size(); i++) if (!std::isfinite((double)m.eta.data()[i])) fail("model:finite", "%s epoch %d: a class parameter is %g", ref::variant_names[c.variant], epoch, (double)m.eta.data()[i]);
}
template <typename S> static void check_vp(const VpCopy<S> &v, const DocKey &key, const SModel<S> &m, const Conf &c, int epoch) {
    double n = 0, gen = 0, sum = 0, rt = std::is_same<S, double>::value ? 1e-9 : 1e-4;
    for (int w = 0; w < c.V; w++) { n += key[w]; bool can = false; for (int k = 0; k < c.K; k++) can |= m.beta(k, w) > 0; if (can) gen += key[w]; }
    for (int k = 0; k < c.K; k++) {
        double g = v.gamma[k], a = m.alpha[k];
        if (!(g >= a - (std::is_same<S, double>::value ? 1e-11 : 2e-5) * (1 + n)))   // the supervised variant updates gamma incrementally: rounding grows with the words
            fail("proportions:prior", "%s epoch %d: gamma[%d] = %.12g is below the prior %.12g", ref::variant_names[c.variant], epoch, k, g, a);
        sum += g - a;
    }
    auto close = [&](double x) { return std::fabs(sum - x) <= rt * (1 + x + c.K); };
    if (!close(gen) && !close(n)) fail("proportions:words", "%s epoch %d: the proportions account for %.12g of %g words", ref::variant_names[c.variant], epoch, sum, n);
}
template <typename S> static void c17() {
    ConfLimits lim; lim.iters = 6; lim.docs_large = 50; Conf c = pick_conf(ALL_VARIANTS, lim); if (c.D > 20) c.iters = std::min<size_t>(c.iters, 3);
    auto model = gen_model<S>("m", c); int n = (int)pick("ops", 1, 3); std::vector<Data> data; std::vector<int> op;
    if (pick_p("sparse", 0.2)) { Rng r(derive("sparse")); for (int k = 0; k < c.K; k++) { S s = 0; for (int w = 0; w < c.V; w++) { if (r.p(0.5)) model->beta(k, w) = 0; s += model->beta(k, w); } if (s > 0) model->beta.row(k) /= s; else model->beta.row(k).setConstant((S)1 / c.V); } }
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); data.push_back(gen_data("d" + t, i == 0 ? c.D : (int)pick(("docs" + t).c_str(), 1, 12), c.V, c.C, c.data_flags())); op.push_back((int)pick_w(("op" + t).c_str(), {3, 2, c.variant == ref::UNSUP ? 2 : 0})); }
    Spied<S> sp(c, *model); int epochs = 0;
    sp.lda->get_event_dispatcher()->add_listener([&](EventP e) { if (e->id() != "EpochProgressEvent") return; Oracle o; check_model<S>(*std::static_pointer_cast<SModel<S>>(std::static_pointer_cast<L::events::EpochProgressEvent<S>>(e)->model_parameters()), *model, c, epochs++); });
    default_schedule(); std::vector<int> ep_data;
    for (int i = 0; i < n; i++) {
        if (op[i] == 2) {
            sp.led.infer = true; Mat<S> g; { Sut s; g = sp.lda->transform(data[i].X); } sp.led.infer = false;
            Oracle o; for (int k = 0; k < data[i].docs(); k++) { VpCopy<S> v; v.gamma = g.col(k); check_vp<S>(v, key_of(col(data[i].X, k), 0), *model_of(*sp.lda), c, epochs); } continue;
        }
        Sut s; if (op[i] == 0) train(*sp.lda, data[i], c); else train_epoch(*sp.lda, data[i], c);
    }
    check_threads("training"); sequential_schedule(); Oracle o;
    check_model<S>(*model_of(*sp.lda), *model, c, epochs);
    // for the online variant the model moves during the epoch: only the bound by all words is checked
    for (size_t k = 0; k + 1 < sp.led.epochs.size(); k++) for (auto &x : sp.led.epochs[k].e) check_vp<S>(x.v, x.key, *sp.led.epochs[k].start, c, (int)k);
    note("epochs %d", epochs); probe(0, epochs); probe(1);
}
// a long training of a small model
SCENARIO("C17", c17_long, 1) {
    if (!pick_p("long", 0.12)) { c17<double>(); return; }
    Conf c; c.variant = (int)pick("variant", 0, ref::NVARIANTS - 1); c.K = (int)pick("topics", 1, 2); c.V = (int)pick("vocab", 2, 3); c.C = c.supervised() ? (int)pick("classes", 1, 2) : 1; c.D = (int)pick("docs", 1, 4); c.workers = (size_t)pick("workers", 1, 2); c.iters = (size_t)pick("iters", 50, 700); c.e_it = 1; c.e_tol = 0; c.fp_it = 1; c.m_it = 2; c.m_tol = 1e-3; Rng r(derive("conf")); c.Cw = c.variant == ref::FSLDA_DECAY ? 0.9 : r.range(0, 2); c.mu = 1 + r.range(0.05, 2); c.etaw = 1; c.L = r.range(0.01, 0.5); c.batch = 1 + r.below(5); c.mom = r.range(0, 0.9); c.lr = 0.01; c.bw = r.range(0.1, 0.95); c.like = 0;
    auto m = gen_model<double>("m", c); Data d = gen_data("d", c.D, c.V, c.C, c.data_flags()); auto l = make_lda<double>(c, *m); int epochs = 0;
    l->get_event_dispatcher()->add_listener([&](EventP e) { if (e->id() != "EpochProgressEvent") return; Oracle o; check_model<double>(*std::static_pointer_cast<SModel<double>>(std::static_pointer_cast<L::events::EpochProgressEvent<double>>(e)->model_parameters()), *m, c, epochs++); });
    default_schedule(); { Sut s; train(*l, d, c); } check_threads("training"); sequential_schedule(); Oracle o;
    if (epochs != (int)c.iters) fail("model:epochs", "%d of %d epochs were trained", epochs, (int)c.iters);
    note("epochs %d", epochs); probe(0, epochs); probe(2);
}
// many documents at once: the steps of the class parameters are large, and start anywhere
template <typename S> static void c17_many() {
    Conf c; c.variant = pick_p("slda", 0.7) ? ref::SLDA : ref::FSLDA; c.K = (int)pick("topics", 1, 3); c.V = (int)pick("vocab", 2, 4); c.C = (int)pick("classes", 1, 3); c.D = sizeof(S) == 4 ? (int)pick("docs", 120, 500) : (int)pick("docs", 600, 2000); c.workers = (size_t)pick("workers", 1, 3); c.iters = (size_t)pick("iters", 1, 3); c.e_it = 1; c.e_tol = 0; c.fp_it = 1; c.m_it = (int)pick("m_it", 1, 4); c.m_tol = 1e-3; Rng r(derive("conf")); c.Cw = r.range(0, 1); c.L = r.range(0.001, 0.5); c.like = 0;
    auto m = gen_model<S>("m", c); if (c.variant == ref::SLDA) { double off = r.range(-3, 3); for (int k = 0; k < c.K; k++) for (int q = 0; q < c.C; q++) m->eta(k, q) += (S)off; }
    Data d = gen_data("d", c.D, c.V, c.C, c.data_flags() | NO_EMPTY); auto l = make_lda<S>(c, *m); int epochs = 0;
    l->get_event_dispatcher()->add_listener([&](EventP e) { if (e->id() != "EpochProgressEvent") return; Oracle o; check_model<S>(*std::static_pointer_cast<SModel<S>>(std::static_pointer_cast<L::events::EpochProgressEvent<S>>(e)->model_parameters()), *m, c, epochs++); });
    default_schedule(); { Sut s; train(*l, d, c); } check_threads("training"); sequential_schedule(); Oracle o;
    note("epochs %d", epochs); probe(0, epochs); probe(3);
}
SCENARIO("C17", c17_many, 1) { if (!pick_p("many", 0.2)) { c17<float>(); return; } if (pick_p("float", 0.6)) c17_many<float>(); else c17_many<double>(); }
SCENARIO("C17", c17_double, 3) { c17<double>(); }
SCENARIO("C17", c17_float, 2) { c17<float>(); }
