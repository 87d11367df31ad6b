// Toolkit shared by the scenarios: seeded data, models, configurations of every EM variant, builders,
// bitwise and tolerant comparison, conversions to the reference model.
#pragma once
#include "scenario.h"
#include "ref.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <thread>
#include <vector>
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"

namespace L = ldaplusplus;
using Eigen::MatrixXi;
using Eigen::VectorXi;
template <typename S> using Mat = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
template <typename S> using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
template <typename S> using SModel = L::parameters::SupervisedModelParameters<S>;
template <typename S> using SModelP = std::shared_ptr<SModel<S>>;
template <typename S> using EStepP = std::shared_ptr<L::em::EStepInterface<S>>;
template <typename S> using MStepP = std::shared_ptr<L::em::MStepInterface<S>>;
template <typename S> using LdaP = std::unique_ptr<L::LDA<S>>;
typedef std::shared_ptr<L::parameters::Parameters> ParamP;
typedef std::shared_ptr<L::events::Event> EventP;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
    bool p(double q) { return u() < q; }
    double range(double a, double b) { return a + (b - a) * u(); }
    double normal() { double a = u(), b = u(); return std::sqrt(-2 * std::log(1 - a)) * std::cos(6.283185307179586 * b); }
};

// ------------------------------------------------------------------ data
struct Data { MatrixXi X; VectorXi y; int classes = 1; int docs() const { return (int)X.cols(); } };
enum DataFlags { NO_EMPTY = 1, UNLABELLED = 2, ALL_TOPIC_MASS = 4 };
inline int sized_pick(const char *name, int lo, int small, int mid, int large) {
    // mostly small, sometimes medium, rarely large: cheap runs first, large shapes still reached
    std::string n = name;
    int band = (int)sim::pick_w((n + ".band").c_str(), {8, 4, 1});
    return (int)sim::pick(name, lo, band == 0 ? small : band == 1 ? mid : large);
}
inline Data gen_data(const std::string &tag, int D, int V, int C, int flags = 0) {
    Data d; d.classes = C; d.X = MatrixXi::Zero(V, D); d.y = VectorXi::Zero(D);
    Rng r(sim::derive(("data." + tag).c_str()));
    int profile = (int)sim::pick_w(("prof." + tag).c_str(), {6, 2, 2, 1, 1, 1});
    int top = r.p(0.7) ? 30000 : 100000;   // of the words of long documents
    double density = profile == 1 ? 0.9 : 0.1 + 0.4 * r.u();
    for (int i = 0; i < D; i++) {
        if (profile == 5 && i > 0 && r.p(0.4)) { d.X.col(i) = d.X.col(r.below(i)); }        // duplicates
        else if (profile == 2 && !(flags & NO_EMPTY) && r.p(0.25)) { }                        // empty document
        else if (profile == 3) { d.X(r.below(V), i) = 1 + r.below(3); }                       // one distinct word
        else for (int w = 0; w < V; w++) if (r.p(density)) d.X(w, i) = 1 + (profile == 4 ? r.below(top) : r.below(4));
        if ((flags & NO_EMPTY) && d.X.col(i).sum() == 0) d.X(r.below(V), i) = 1;
        d.y[i] = r.below(C);
    }
    if (D && d.X.sum() == 0) d.X(0, 0) = 1;
    if (profile == 2 && V > 2) { int w = r.below(V); d.X.row(w).setZero(); for (int i = 0; i < D; i++) if ((flags & NO_EMPTY) && d.X.col(i).sum() == 0) d.X((w + 1) % V, i) = 1; if (D && d.X.sum() == 0) d.X((w + 1) % V, 0) = 1; }   // unused word
    if (D > 0 && r.p(0.8)) d.y[r.below(D)] = C - 1;
    if (flags & UNLABELLED) { bool lab = false; for (int i = 0; i < D; i++) { if (r.p(0.4)) d.y[i] = -1 - (r.p(0.3) ? r.below(6) : 0); else lab = true; }   // any negative label means none
        if (!lab && D) d.y[0] = C - 1; }
    return d;
}
inline VectorXi col(const MatrixXi &X, int i) { return X.col(i); }

// ------------------------------------------------------------------ configurations
struct Conf : ref::Conf {
    int K = 2, V = 5, C = 2, D = 3; size_t workers = 1, iters = 1;
    bool supervised() const { return variant != ref::UNSUP; }
    bool positive_eta() const { return variant == ref::MULTI || variant == ref::CORR; }
    int data_flags() const { int f = 0; if (variant == ref::SEMI) f |= UNLABELLED; return f; }
};
struct ConfLimits { int docs_small = 8, docs_mid = 24, docs_large = 90; int vocab = 14, topics = 5, classes = 4, workers = 8; int min_docs = 1; int iters = 3; bool no_iteration = false, shapes = true, long_fits = false; };
// mask: bit per variant
inline Conf pick_conf(unsigned mask, const ConfLimits &lim = ConfLimits()) {
    Conf c; int n = 0, l[ref::NVARIANTS]; for (int i = 0; i < ref::NVARIANTS; i++) if (mask >> i & 1) l[n++] = i;
    c.variant = l[sim::pick("variant", 0, n - 1)];
    c.D = sized_pick("docs", lim.min_docs, lim.docs_small, lim.docs_mid, lim.docs_large);
    // a few runs are far larger in one direction than the rest: many documents, a wide vocabulary, many topics and classes, many iterations
    int shape = lim.shapes ? (int)sim::pick_w("shape", {30, 1, 1, 1, 1}) : 0;
    if (shape == 1) c.D = (int)sim::pick("docs.many", 100, 300); else if (shape && c.D > 6) c.D = (int)sim::pick("docs.few", std::max(1, lim.min_docs), 6);
    c.V = (int)sim::pick("vocab", 2, shape == 1 ? 4 : c.D > 40 ? 8 : lim.vocab); if (shape == 2) c.V = (int)sim::pick("vocab.wide", 30, 280);
    c.K = (int)sim::pick("topics", 1, shape == 1 ? 2 : c.D > 40 ? 3 : lim.topics); if (shape == 3) c.K = (int)sim::pick("topics.many", 8, 24);
    c.C = c.supervised() ? (int)sim::pick("classes", 1, lim.classes) : 1; if (shape == 3 && c.supervised()) c.C = (int)sim::pick("classes.many", 8, 20);
    c.workers = (size_t)(sim::pick_p("manyw", 0.1) ? sim::pick("workers", 1, 24) : sim::pick("workers", 1, lim.workers));
    c.iters = (size_t)sim::pick("iters", 1, lim.iters);
    static const double tols[] = {0, 1e-3, 1e-2, 0.3, 4};   // the last one ends most inferences before the first iteration
    c.e_it = (int)sim::pick("e_it", 1, c.D > 30 || shape ? 3 : 8); c.e_tol = tols[sim::pick_w("e_tol", {4, 2, 2, 1, lim.no_iteration ? 1 : 0})];
    c.fp_it = (int)sim::pick("fp_it", 1, 4);
    if (shape == 4) { c.D = std::min(c.D, 3); c.V = std::min(c.V, 4); c.K = std::min(c.K, 3); if (sim::pick_p("long_fp", 0.3)) c.fp_it = (int)sim::pick("fp_it.many", 200, 300); else { c.e_it = (int)sim::pick("e_it.many", 200, 400); c.e_tol = 0; } }
    if (lim.long_fits && !shape && sim::pick_p("long_fit", 0.02)) { c.D = std::min(c.D, 4); c.V = std::min(c.V, 5); c.e_it = std::min(c.e_it, 3); c.iters = (size_t)sim::pick("iters.many", 8, 24); }
    Rng r(sim::derive("conf"));
    c.decay = c.variant == ref::SEMI && r.p(0.5); c.Cw = c.variant == ref::FSLDA_DECAY || c.decay ? r.range(0.3, 0.95) : r.range(0, 3); c.mu = 1 + r.range(0.05, 2); c.etaw = r.range(0.2, 3);
    static const double likes[] = {0, 1, 0.5, 0.05, 1e-6}; c.like = likes[sim::pick_w("like", {6, 4, 2, 1, 1})]; c.like_seed = (int)sim::pick("like_seed", 0, 9);
    static const double mtols[] = {1e-4, 1e-3, 1e-2}; c.m_it = (int)sim::pick("m_it", 1, 8); c.m_tol = mtols[sim::pick("m_tol", 0, 2)]; c.L = r.range(0.001, 0.5);
    c.batch = (int)sim::pick("batch", 1, c.D + 3); c.mom = r.range(0, 0.95); c.lr = r.range(0.001, 0.1); c.bw = r.range(0.1, 0.95);
    return c;
}

// ------------------------------------------------------------------ models
template <typename S> SModelP<S> gen_model(const std::string &tag, const Conf &c) {
    Rng r(sim::derive(("model." + tag).c_str()));
    auto m = std::make_shared<SModel<S>>();
    m->alpha = Vec<S>(c.K); m->beta = Mat<S>(c.K, c.V); m->eta = Mat<S>(c.K, c.C);
    double small = sizeof(S) == 8 && r.p(0.15) ? std::pow(10, -r.range(1.3, 4.5)) : 0;      // sparse priors; in single precision the rounding of long documents exceeds them
    for (int k = 0; k < c.K; k++) {
        m->alpha[k] = (S)(small && r.p(0.7) ? small * r.range(1, 4) : r.range(0.05, 2));
        S s = 0; for (int w = 0; w < c.V; w++) { m->beta(k, w) = (S)(0.02 + r.u() * r.u()); s += m->beta(k, w); }
        for (int w = 0; w < c.V; w++) m->beta(k, w) /= s;
        s = 0; for (int q = 0; q < c.C; q++) { m->eta(k, q) = c.positive_eta() ? (S)(0.1 + r.u()) : (S)(0.7 * r.normal()); s += m->eta(k, q); }
        if (c.positive_eta()) for (int q = 0; q < c.C; q++) m->eta(k, q) /= s;
        // regression weights as training from zero reaches them (gradients of one topic sum to zero over the classes):
        // the variants that divide by the largest weight overflow on anything else
        else if (c.C > 1) for (int q = 0; q < c.C; q++) m->eta(k, q) -= s / c.C;
        else m->eta(k, 0) = std::fabs(m->eta(k, 0));
    }
    return m;
}
template <typename S> SModelP<S> copy_model(const SModel<S> &m) { auto p = std::make_shared<SModel<S>>(); p->alpha = m.alpha; p->beta = m.beta; p->eta = m.eta; return p; }

// the supervised half of the semi-supervised variant
template <typename S> EStepP<S> semi_part(const Conf &c, double like, int seed) {
    L::LDABuilder<S> b; if (!c.decay) return b.get_fast_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.Cw, (S)like, seed);
    return std::make_shared<L::em::FastSupervisedEStep<S>>(c.e_it, (S)c.e_tol, (S)c.Cw, L::em::FastSupervisedEStep<S>::ExponentialDecay, (S)like, seed);
}
template <typename S> void set_steps(L::LDABuilder<S> &b, const Conf &c) {
    switch (c.variant) {
        case ref::UNSUP: b.set_classic_e_step(c.e_it, (S)c.e_tol, (S)c.like, c.like_seed); b.set_classic_m_step(); break;
        case ref::SLDA: b.set_supervised_e_step(c.e_it, (S)c.e_tol, c.fp_it, (S)c.like, c.like_seed); b.set_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L); break;
        case ref::FSLDA: b.set_fast_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.Cw, (S)c.like, c.like_seed); b.set_fast_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L); break;
        case ref::FSLDA_DECAY: b.set_e(std::make_shared<L::em::FastSupervisedEStep<S>>(c.e_it, (S)c.e_tol, (S)c.Cw, L::em::FastSupervisedEStep<S>::ExponentialDecay, (S)c.like, c.like_seed)); b.set_fast_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L); break;
        case ref::MULTI: b.set_multinomial_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.mu, (S)c.etaw, (S)c.like, c.like_seed); b.set_multinomial_supervised_m_step((S)c.mu); break;
        case ref::CORR: b.set_correspondence_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.mu, (S)c.like, c.like_seed); b.set_correspondence_supervised_m_step((S)c.mu); break;
        case ref::SEMI: b.set_semi_supervised_e_step(semi_part<S>(c, c.like, c.like_seed), b.get_classic_e_step(c.e_it, (S)c.e_tol, (S)c.like, c.like_seed)); b.set_semi_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L); break;
        case ref::ONLINE: {
            b.set_fast_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.Cw, (S)c.like, c.like_seed);
            Vec<S> w = Vec<S>::Constant(c.C, 1); b.set_fast_supervised_online_m_step(w, (S)c.L, c.batch, (S)c.mom, (S)c.lr, (S)c.bw); break;
        }
    }
}
// E and M step objects as the builder makes them
template <typename S> EStepP<S> make_e(const Conf &c) {
    L::LDABuilder<S> b;
    switch (c.variant) {
        case ref::UNSUP: return b.get_classic_e_step(c.e_it, (S)c.e_tol, (S)c.like, c.like_seed);
        case ref::SLDA: return b.get_supervised_e_step(c.e_it, (S)c.e_tol, c.fp_it, (S)c.like, c.like_seed);
        case ref::FSLDA: case ref::ONLINE: return b.get_fast_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.Cw, (S)c.like, c.like_seed);
        case ref::FSLDA_DECAY: return std::make_shared<L::em::FastSupervisedEStep<S>>(c.e_it, (S)c.e_tol, (S)c.Cw, L::em::FastSupervisedEStep<S>::ExponentialDecay, (S)c.like, c.like_seed);
        case ref::MULTI: return b.get_multinomial_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.mu, (S)c.etaw, (S)c.like, c.like_seed);
        case ref::CORR: return b.get_correspondence_supervised_e_step(c.e_it, (S)c.e_tol, (S)c.mu, (S)c.like, c.like_seed);
        default: return b.get_semi_supervised_e_step(semi_part<S>(c, c.like, c.like_seed), b.get_classic_e_step(c.e_it, (S)c.e_tol, (S)c.like, c.like_seed));
    }
}
template <typename S> MStepP<S> make_m(const Conf &c) {
    L::LDABuilder<S> b;
    switch (c.variant) {
        case ref::UNSUP: return b.get_classic_m_step();
        case ref::SLDA: return b.get_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L);
        case ref::FSLDA: case ref::FSLDA_DECAY: return b.get_fast_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L);
        case ref::MULTI: return b.get_multinomial_supervised_m_step((S)c.mu);
        case ref::CORR: return b.get_correspondence_supervised_m_step((S)c.mu);
        case ref::SEMI: return b.get_semi_supervised_m_step(c.m_it, (S)c.m_tol, (S)c.L);
        default: { Vec<S> w = Vec<S>::Constant(c.C, 1); return b.get_fast_supervised_online_m_step(w, (S)c.L, c.batch, (S)c.mom, (S)c.lr, (S)c.bw); }
    }
}
template <typename S> LdaP<S> finish_builder(L::LDABuilder<S> &b) { return LdaP<S>(new L::LDA<S>(static_cast<const L::LDABuilderInterface<S> &>(b).operator L::LDA<S>())); }
template <typename S> void start_builder(L::LDABuilder<S> &b, const Conf &c, const SModel<S> &m) {
    b.set_iterations(c.iters); b.set_workers(c.workers);
    auto p = copy_model(m);
    b.initialize_topics_from_model(p); b.initialize_eta_from_model(p);
}
template <typename S> LdaP<S> make_lda(const Conf &c, const SModel<S> &m) { L::LDABuilder<S> b; start_builder(b, c, m); set_steps(b, c); return finish_builder(b); }
// custom steps
template <typename S> LdaP<S> make_lda(const Conf &c, const SModel<S> &m, EStepP<S> e, MStepP<S> mm) { L::LDABuilder<S> b; start_builder(b, c, m); b.set_e(e); b.set_m(mm); return finish_builder(b); }
template <typename S> SModelP<S> model_of(L::LDA<S> &l) { return l.template model_parameters<SModel<S>>(); }
template <typename S> void train(L::LDA<S> &l, const Data &d, const Conf &c) { if (c.variant == ref::UNSUP) l.fit(d.X); else l.fit(d.X, d.y); }
template <typename S> void train_epoch(L::LDA<S> &l, const Data &d, const Conf &c) {
    if (c.variant == ref::UNSUP) l.partial_fit(std::make_shared<L::corpus::EigenCorpus>(d.X)); else l.partial_fit(d.X, d.y);
}

// ------------------------------------------------------------------ comparison
template <typename A> bool bits_equal(const A &a, const A &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    return a.size() == 0 || !memcmp(a.data(), b.data(), sizeof(typename A::Scalar) * (size_t)a.size());
}
template <typename S> bool model_bits_equal(const SModel<S> &a, const SModel<S> &b) { return bits_equal(a.alpha, b.alpha) && bits_equal(a.beta, b.beta) && bits_equal(a.eta, b.eta); }
// largest |a-b|/(1+|b|); NaN vs NaN is equal; infinity on shape or NaN mismatch
template <typename A, typename B> double rel_diff(const A &a, const B &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
    double w = 0;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) {
        double x = (double)a(i, j), y = (double)b(i, j);
        if (std::isnan(x) != std::isnan(y)) return INFINITY;
        if (std::isnan(x) || x == y) continue;
        double d = std::fabs(x - y) / (1 + std::fabs(y)); if (!(d <= w)) w = d;
    }
    return w;
}
template <typename S> double model_diff(const SModel<S> &a, const SModel<S> &b) { return std::max(rel_diff(a.alpha, b.alpha), std::max(rel_diff(a.beta, b.beta), rel_diff(a.eta, b.eta))); }

// ------------------------------------------------------------------ reference conversions
template <typename S> ref::Model to_ref(const SModel<S> &m) {
    ref::Model r; r.K = (int)m.beta.rows(); r.V = (int)m.beta.cols(); r.C = (int)m.eta.cols();
    r.alpha.resize(r.K); r.beta.resize((size_t)r.K * r.V); r.eta.resize((size_t)r.K * r.C);
    for (int k = 0; k < r.K; k++) { r.alpha[k] = m.alpha[k]; for (int w = 0; w < r.V; w++) r.beta[k * r.V + w] = m.beta(k, w); for (int q = 0; q < r.C; q++) r.eta[k * r.C + q] = m.eta(k, q); }
    return r;
}
inline ref::Doc to_ref(const VectorXi &x, int y) { ref::Doc d; d.X.assign(x.data(), x.data() + x.size()); d.y = y; return d; }
inline Mat<double> ref_mat(const std::vector<double> &v, int R, int C) { Mat<double> m(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = v[(size_t)i * C + j]; return m; }
inline double ref_model_diff(const SModel<double> &a, const ref::Model &r) {
    return std::max(rel_diff(a.alpha, ref_mat(r.alpha, r.K, 1)), std::max(rel_diff(a.beta, ref_mat(r.beta, r.K, r.V)), rel_diff(a.eta, ref_mat(r.eta, r.K, r.C))));
}
inline double prior_of(const Data &d, int y) { int n = 0, t = 0; for (int i = 0; i < d.docs(); i++) if (d.y[i] >= 0) { t++; n += d.y[i] == y; } return (double)((float)n / (float)t); }

// ------------------------------------------------------------------ checks
inline void check_threads(const char *what) {
    if (sim::live_threads() != 1) sim::fail("thread-left", "%s: %d threads are still running", what, sim::live_threads() - 1);
    int un = sim::unjoined_threads(); if (un != 1) sim::fail("thread-left", "%s: %d threads were never joined", what, un - 1);
}
inline uint64_t bytes_hash(const void *p, size_t n) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ULL; return h; }
template <typename A> void note_mat(const char *n, const A &a) { sim::note("%s %dx%d %016lx", n, (int)a.rows(), (int)a.cols(), (unsigned long)bytes_hash(a.data(), sizeof(typename A::Scalar) * a.size())); }
enum { ALL_BATCH = 0x7f, ALL_VARIANTS = 0xff };
