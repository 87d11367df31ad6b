// C01: parallel inference equals document-by-document inference.
#include "scn.h"
using namespace sim;

template <typename S> static void c01(bool large) {
    ConfLimits lim; lim.no_iteration = true; lim.min_docs = 0; if (large) { lim.docs_small = 60; lim.docs_mid = 150; lim.docs_large = 260; lim.vocab = 5; lim.topics = 3; }
    Conf c = pick_conf(1 << ref::UNSUP, lim); c.C = (int)pick("classes", 1, 5);
    Data d = gen_data("x", c.D, c.V, c.C, pick_p("allow_empty", 0.3) ? 0 : NO_EMPTY);
    if (c.like > 0) c.like = 1;
    auto model = gen_model<S>("m", c);
    // inference does not use the class parameters: any will do (all scores negative, far apart, equal classes)
    if (int ek = (int)pick_w("etakind", {2, 2, 1, 1})) { Rng r(derive("eta")); double off = r.range(-4, 4), scale = ek == 2 ? std::pow(10, r.range(-3, 5)) : 1; for (int q = 0; q < c.C; q++) { for (int k = 0; k < c.K; k++) model->eta(k, q) = (S)((model->eta(k, q) + off) * scale); if (ek == 3 && q && r.p(0.5)) model->eta.col(q) = model->eta.col(r.below(q)); } }
    auto lda = make_lda<S>(c, *model);
    int op = (int)pick_w("op", {4, 2, 2, 2});
    bool twice = pick_p("twice", 0.3);
    default_schedule();
    // the object, and the very matrix, may have been used before
    int used = (int)pick_w("used", {5, 2, 1, 1});
    if (used == 1 && c.D) { MatrixXi now = d.X; Data old = gen_data("old", c.D, c.V, c.C); d.X = old.X; { Sut s; lda->transform(d.X); } d.X = now; }
    if (used == 2) { Data old = gen_data("old", (int)pick("old.docs", 1, 12), c.V, c.C); Sut s; lda->predict(old.X); }
    if (used == 3) { if (c.D == 0 || d.X.sum() == 0) used = 0; else { { Sut s; lda->transform(d.X); std::shared_ptr<L::corpus::Corpus> cp = std::make_shared<L::corpus::EigenCorpus>(d.X); lda->partial_fit(cp); } Oracle o; model = copy_model(*model_of(*lda)); } }
    Mat<S> g, sc; VectorXi pr; bool has_g = false, has_s = false, has_p = false;
    for (int rep = 0; rep < (twice ? 2 : 1); rep++) {
        Sut sut;
        if (op == 0) { g = lda->transform(d.X); has_g = true; }
        else if (op == 1) { sc = lda->decision_function(d.X); has_s = true; }
        else if (op == 2) { pr = lda->predict(d.X); has_p = true; }
        else { auto t = lda->transform_predict(d.X); g = std::get<0>(t); pr = std::get<1>(t); has_g = has_p = true; }
    }
    check_threads("inference");
    sequential_schedule();
    Oracle o;
    Mat<S> G(c.K, c.D);
    Conf c1 = c; c1.workers = 1;
    for (int i = 0; i < c.D; i++) {
        auto solo = make_lda<S>(c1, *model);
        MatrixXi one = d.X.col(i);
        Mat<S> r = solo->transform(one);
        if (r.rows() != c.K || r.cols() != 1) fail("shape", "inference on one document returned a %dx%d matrix", (int)r.rows(), (int)r.cols());
        G.col(i) = r.col(0);
    }
    if (has_g) {
        if (g.rows() != c.K || g.cols() != c.D) fail("shape", "transform returned %dx%d for %d topics and %d documents", (int)g.rows(), (int)g.cols(), c.K, c.D);
        for (int i = 0; i < c.D; i++) { Vec<S> a = g.col(i), b = G.col(i); if (!bits_equal(a, b)) fail("column", "column %d of transform differs from inference on that document alone (%g vs %g)", i, (double)a[0], (double)b[0]); }
    }
    if (has_s && (sc.rows() != c.C || sc.cols() != c.D)) fail("shape", "decision_function returned %dx%d", (int)sc.rows(), (int)sc.cols());
    if (has_p && pr.size() != c.D) fail("shape", "%d predictions for %d documents", (int)pr.size(), c.D);
    // scores and predictions follow from the proportions
    for (int i = 0; i < c.D; i++) {
        double N = 0; std::vector<double> z(c.K); for (int k = 0; k < c.K; k++) { z[k] = (double)G(k, i) - (double)model->alpha[k]; N += z[k]; }
        if (d.X.col(i).sum() == 0) continue;      // the score of an empty document is undefined
        std::vector<double> s(c.C, 0.0); double best = -INFINITY, big = 0, tolr = sizeof(S) == 4 ? 2e-3 : 1e-9; for (int k = 0; k < c.K; k++) for (int q = 0; q < c.C; q++) big = std::max(big, std::fabs((double)model->eta(k, q)));
        for (int q = 0; q < c.C; q++) { for (int k = 0; k < c.K; k++) s[q] += (double)model->eta(k, q) * z[k] / N; best = std::max(best, s[q]); }
        if (has_s) {
            for (int q = 0; q < c.C; q++) if (!(std::fabs((double)sc(q, i) - s[q]) <= tolr * (1 + big))) fail("score", "score of class %d of document %d is %g, expected %g", q, i, (double)sc(q, i), s[q]);
        }
        if (has_p) {
            if (pr[i] < 0 || pr[i] >= c.C || !(s[pr[i]] >= best - tolr * (1 + big))) fail("prediction", "document %d predicted as class %d which is not the arg-max", i, pr[i]);
        }
    }
    // and the proportions are the ones variational inference defines (independent reference)
    if (sizeof(S) == 8) {
        ref::Model rm = to_ref(*model);
        for (int i = 0; i < c.D; i++) {
            ref::VP v = ref::e_step(c, rm, to_ref(col(d.X, i), 0), 0, c.D, 1); if (v.ambiguous) { probe(1); continue; }
            Vec<S> b = G.col(i); double df = rel_diff(b, ref_mat(v.gamma, c.K, 1));
            if (!(df < 1e-8)) fail("reference", "proportions of document %d differ from the reference by %g", i, df);
            probe(0);
        }
    }
    note_mat("gammas", G);
}
SCENARIO("C01", c01_double, 5) { c01<double>(false); }
SCENARIO("C01", c01_float, 2) { c01<float>(false); }
SCENARIO("C01", c01_large, 1) { c01<double>(true); }
