// C11: training killed after a snapshot and continued from it ends where uninterrupted training ends.
#include "apps.h"
using namespace sim; using namespace apps;

namespace {
Opts g; std::vector<std::string> av; int st; int64_t crash_at_, torn_; Data d; int T; bool last_crashed;
[[noreturn]] void bad(const char *cls, const std::string &m) { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "%s", (joined(av) + ": " + m).c_str()); _exit(1); }
void app(void *) {
    set_terminate_exits(true); io_track(true); set_crash_at(crash_at_, torn_); set_heap_fill((int)(sh->inc % 3));
    if (sh->scratch[0]) sequential_schedule(); else default_schedule();
    int r = call(g, av); sequential_schedule(); sh->scratch[63] = r; sh->scratch[1] = (int64_t)mutations();
}
void set(const char *n, long v) { auto &x = g.o[n]; x.given = true; x.v = (double)v; x.text = std::to_string(v); }
bool load(const std::string &p, SModel<double> &m) {
    npy::ModelFile f; if (!npy::decode_model(npy::slurp(p), f).empty()) return false;
    auto get = [](const npy::Array &a) { Mat<double> q((int)a.shape[0], a.shape.size() > 1 ? (int)a.shape[1] : 1); for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) q(i, j) = npy::item<double>(a, i, j); return q; };
    m.alpha = get(f.alpha); m.beta = get(f.beta); m.eta = get(f.eta); return true;
}
std::string snap(int k) { char b[32]; snprintf(b, sizeof b, "_%03d", k); return b; }
// the rest of the training in the reference: is any decision in it so close that rounding may take it the other way?
bool ambiguous(const SModel<double> &from, int epochs) {
    ref::Conf c; c.variant = g.app == A_LDA ? ref::UNSUP : g.app == SLDA ? ref::SLDA : ref::FSLDA; c.e_it = (int)g.integer("e_step_iterations"); c.e_tol = g.num("e_step_tolerance"); c.like = 0;
    if (g.app == SLDA) c.fp_it = (int)g.integer("fixed_point_iterations"); if (g.app == FSLDA) c.Cw = g.num("supervised_weight"); if (g.app != A_LDA) { c.m_it = (int)g.integer("m_step_iterations"); c.m_tol = g.num("m_step_tolerance"); c.L = g.num("regularization_penalty"); }
    ref::Model m = to_ref(from); bool amb = false; std::vector<ref::Doc> docs; for (int i = 0; i < d.docs(); i++) docs.push_back(to_ref(col(d.X, i), g.app != A_LDA ? d.y[i] : 0));
    for (int e = 0; e < epochs && !amb; e++) { std::vector<ref::VP> v; for (auto &x : docs) { v.push_back(ref::e_step(c, m, x, e, d.docs(), 1)); amb |= v.back().ambiguous; } ref::m_step(c, docs, v, m, nullptr, &amb); for (double x : m.beta) if (!std::isfinite(x)) amb = true; }
    return amb;
}
apps::Input in_;
void save_init(void *) { sequential_schedule(); Sut s; auto l = configure(g, in_); Oracle o; npy::spill("init.model", npy::encode_model(*model_of(*l))); }
void make_data(int maxd) {
    int D = (int)pick("docs", 1, maxd), V = (int)pick("vocab", 2, 9), C = g.app != A_LDA ? (int)pick("classes", 1, 3) : 1; if (C > D) C = D; d = gen_data("d", D, V, C); if (g.app != A_LDA) for (int c = 0; c < C; c++) d.y[c] = c;
    npy::spill("data", npy::encode_data(d.X, g.app != A_LDA ? &d.y : nullptr));
}
void run(int64_t crash, int64_t torn, bool expect_crash) { crash_at_ = crash; torn_ = torn; av = args(g); sh->scratch_str[0] = 0; int r = run_incarnation(app, nullptr, &st); if (r == INC_CRASHED) { if (!expect_crash) bad("error:crash", "unexpected crash"); last_crashed = true; return; } last_crashed = false; if (st != 0) bad("status", "failed with status " + std::to_string(st) + ": " + npy::slurp("stderr").substr(0, 300)); }
}
COORDINATOR("C11", c11_resume, 3) {
    g = Opts(); g.app = (int)pick("app", 0, 2); g.cmd = TRAIN; pick_opts(g); T = (int)pick("epochs", 2, 6); int n = (int)pick("every", 1, 3); set("iterations", T); set("snapshot_every", n); if (!g.o["topics"].given) set("topics", 3); make_data(12); sh->scratch[0] = pick_p("seq", 0.3); long w0 = g.integer("workers");
    g.model = "whole"; run(-1, 0, false); int64_t muts = sh->scratch[1]; SModel<double> fin; if (!load("whole", fin)) bad("resume:whole", "uninterrupted training left no model");
    // interrupted, possibly again and again
    int done = 0, hops = 0; std::string from; SModel<double> first; int first_k = -1;
    g.model = "cut";
    for (; done < T;) {
        g.model = "cut" + std::to_string(hops); set("iterations", T - done); if (hops) { set("workers", pick(("workers" + std::to_string(hops)).c_str(), 1, 5)); if (!from.empty() && pick_p("noinit", 0.5)) g.init = 0; } if (!from.empty()) g.cont = from;
        bool crash = hops < 3 && pick_p(("crash" + std::to_string(hops)).c_str(), hops ? 0.4 : 0.95); if (!crash && hops == 0) crash = true;
        int64_t lo = pick_p(("late" + std::to_string(hops)).c_str(), 0.8) ? muts / 3 : 0; run(crash ? lo + pick(("at" + std::to_string(hops)).c_str(), 0, 99999) % (muts + 1 - lo) : -1, crash ? pick(("torn" + std::to_string(hops)).c_str(), 0, 900) : 0, crash);
        if (!last_crashed) { done = T; from = g.model; break; }
        // the last snapshot that is whole
        int k = 0; std::string log = std::string("\n") + sh->scratch_str; for (int i = 1; i <= T - done; i++) if (log.find("\n" + g.model + snap(i) + "\n") != std::string::npos) k = i;
        if (k) { SModel<double> m; if (!load(g.model + snap(k), m)) bad("resume:snapshot", "a completed snapshot cannot be read"); if (first_k < 0) { first = m; first_k = done + k; } from = g.model + snap(k); done += k; }
        if (++hops > 8) break;
    }
    if (done < T) return; if (first_k < 0) { probe(3); return; }
    SModel<double> got; if (!load(from, got)) bad("resume:result", "the continued training left no model");
    // any part of it may have run under another schedule than the uninterrupted training: all of it has to be unambiguous
    in_ = Input(); in_.X = d.X; in_.y = d.y; g.cont.clear(); run_incarnation(save_init, nullptr, nullptr); SModel<double> init; if (!load("init.model", init)) bad("error:init", "no initial model");
    if (ambiguous(init, T) || ambiguous(first, T - first_k)) { probe(1); return; }
    double df = model_diff(got, fin); if (!(df < 1e-6)) bad("resume:model", "interrupted after epoch " + std::to_string(first_k) + " of " + std::to_string(T) + " and continued, the model differs from uninterrupted training by " + std::to_string(df));
    probe(0); if (hops > 1) probe(2); (void)w0;
}
// from an unsupervised model to a supervised one
namespace { void judge(void *) {
    sequential_schedule(); SModel<double> m; if (!load(g.model, m)) fail("resume:result", "no model was written"); long it = g.integer("iterations");
    if (it == 0) { if (!bits_equal(m.alpha, in_.start->alpha) || !bits_equal(m.beta, in_.start->beta)) fail("resume:topics", "the topics of the unsupervised model were not kept"); if (m.eta.rows() != m.beta.rows() || m.eta.cols() != in_.y.maxCoeff() + 1) fail("resume:eta", "the classification parameters have the wrong shape"); probe(4); return; }
    bool ok = false; for (int i = 0; i < 2 && !ok; i++) { g.exact_defaults = i; auto e = expect(g, in_); Oracle o; ok = model_bits_equal(*e.model, m); } if (!ok) fail("resume:topics", "training continued from an unsupervised model is not training from its topics"); probe(5);
} }
COORDINATOR("C11", c11_unsupervised, 2) {
    g = Opts(); g.app = A_LDA; g.cmd = TRAIN; pick_opts(g); set("iterations", pick("uepochs", 1, 3)); set("topics", pick("utopics", 1, 6)); make_data(8); g.model = "unsup"; sh->scratch[0] = pick_p("seq", 0.3); run(-1, 0, false);
    SModel<double> u; if (!load("unsup", u)) bad("resume:whole", "unsupervised training left no model");
    Opts s; s.app = pick_p("fast", 0.5) ? FSLDA : SLDA; s.cmd = TRAIN; g = s; pick_opts(g); set("iterations", pick("sepochs", 0, 2)); set("workers", 1); if (pick_p("topicsdefault", 0.5)) g.o["topics"].given = false; int C = (int)pick("sclasses", 1, 3); if (C > d.docs()) C = d.docs(); Rng r(derive("sy")); for (int i = 0; i < d.docs(); i++) d.y[i] = i < C ? i : r.below(C); npy::spill("sdata", npy::encode_data(d.X, &d.y)); g.data = "sdata"; g.model = "sup"; g.cont_unsup = "unsup";
    run(-1, 0, false); in_ = Input(); in_.X = d.X; in_.y = d.y; in_.start = copy_model(u); run_incarnation(judge, nullptr, nullptr);
}
// the library itself: training from any model, snapshots by the listener, a builder that starts from one of them
#include "applications/SnapshotEvery.hpp"
#include "applications/lda_io.hpp"
SCENARIO("C11", c11_library, 2) {
    ConfLimits lim; lim.docs_mid = 12; lim.docs_large = 20; Conf c = pick_conf(ALL_BATCH & ~(1u << ref::FSLDA_DECAY), lim); c.decay = false; if (c.variant == ref::SEMI && c.Cw < 0.05) c.Cw = 0.5;
    int T = (int)pick("epochs", 2, 6), n = (int)pick("every", 1, 3), k = (int)pick("cut", 1, 5) * n; auto model = gen_model<double>("m", c); Data d = gen_data("d", c.D, c.V, c.C, c.data_flags());
    if (k >= T) k = n; if (k >= T) return;
    auto start = copy_model(*model); auto whole = copy_model(*model);
    default_schedule();
    { L::LDA<double> l(whole, make_e<double>(c), make_m<double>(c), (size_t)T, c.workers); l.get_event_dispatcher()->add_listener<SnapshotEvery>(std::string("snap"), n); Sut s; train(l, d, c); }
    SModelP<double> from; { Sut s; from = io::load_lda("snap" + snap(k)); }
    SModelP<double> first; { Oracle o; first = copy_model(*from); }
    c.iters = (size_t)(T - k); c.workers = (size_t)pick("workers2", 1, 5);
    LdaP<double> l; { Sut s; L::LDABuilder<double> b; b.set_iterations(c.iters); b.set_workers(c.workers); set_steps(b, c); b.initialize_topics_from_model(from); b.initialize_eta_from_model(from); l = finish_builder(b); }
    { Oracle o; if (!model_bits_equal(*model_of(*l), *first)) fail("resume:start", "a model continued from a snapshot does not start as the snapshot"); }
    { Sut s; train(*l, d, c); }
    sequential_schedule(); Oracle o; note_mat("beta", model_of(*l)->beta);
    if (!model_bits_equal(*from, *first)) fail("resume:snapshot", "continuing changed the model it was given");
    ref::Model m = to_ref(*first); bool amb = false; std::vector<ref::Doc> docs; for (int i = 0; i < d.docs(); i++) docs.push_back(to_ref(col(d.X, i), c.supervised() ? d.y[i] : 0));
    for (int e = 0; e < T - k && !amb; e++) { std::vector<ref::VP> v; for (auto &x : docs) { v.push_back(ref::e_step(c, m, x, e, d.docs(), 1)); amb |= v.back().ambiguous; } ref::m_step(c, docs, v, m, nullptr, &amb); for (double x : m.beta) if (!std::isfinite(x)) amb = true; for (double x : m.eta) if (!std::isfinite(x)) amb = true; }
    if (amb) { probe(1); return; }
    double df = model_diff(*model_of(*l), *whole); if (!(df < 1e-6)) fail("resume:model", "%s: continued from the snapshot of epoch %d of %d, the model differs from uninterrupted training by %g", ref::variant_names[c.variant], k, T, df);
    probe(6);
}
