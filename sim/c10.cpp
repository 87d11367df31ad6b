// C10: snapshots at the right epochs, under the right names, with the right content.
#include "apps.h"
#include "applications/SnapshotEvery.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include <set>
using namespace sim;

namespace {
std::string snap_name(const std::string &path, long k) { std::string n = std::to_string(k); while (n.size() < 3) n = "0" + n; return path + "_" + n; }
// epoch numbers of the snapshots of path that exist, whatever the padding
std::map<std::string, long> present(const std::string &path) {
    std::map<std::string, long> r; size_t sl = path.rfind('/'); std::string dir = sl == std::string::npos ? "." : path.substr(0, sl), base = sl == std::string::npos ? path : path.substr(sl + 1);
    for (auto &f : npy::files(dir)) if (f.compare(0, base.size() + 1, base + "_") == 0 && f.find_first_not_of("0123456789", base.size() + 1) == std::string::npos && f.size() > base.size() + 1) r[(sl == std::string::npos ? "" : dir + "/") + f] = atol(f.c_str() + base.size() + 1);
    return r;
}
struct Expect { SModelP<double> model; bool maybe; };      // maybe: the disk failed while it was written
void check_snapshots(const std::string &path, const std::map<long, Expect> &want) {
    auto have = present(path);
    for (auto &h : have) { auto it = want.find(h.second); if (it == want.end() || h.first != snap_name(path, h.second)) fail("snapshot:unexpected", "there is a snapshot %s that should not exist", h.first.c_str()); }
    for (auto &w : want) {
        std::string n = snap_name(path, w.first); bool there; std::string b = npy::slurp(n, &there); npy::ModelFile f; std::string e = npy::decode_model(b, f);
        if (w.second.maybe) { if (there && e.empty() && !npy::same_model(f, *w.second.model)) fail("snapshot:content", "the snapshot %s, whose writing met faults, holds another model", n.c_str()); probe(1); continue; }
        if (!there) fail("snapshot:missing", "the snapshot %s does not exist", n.c_str());
        if (!e.empty()) fail("snapshot:malformed", "the snapshot %s is malformed: %s", n.c_str(), e.c_str());
        if (!npy::same_model(f, *w.second.model)) fail("snapshot:content", "the snapshot %s does not hold the model of that epoch", n.c_str());
        probe(0);
    }
}
std::string pick_path() { static const char *p[] = {"model", "m_001", "dir/model.npy", "a b", "x", "./run_7", "model_"}; int i = (int)pick("path", 0, 6); if (i == 2) mkdir("dir", 0755); return p[i]; }
struct Fn : L::events::EventListenerInterface { std::function<void(EventP)> f; Fn(std::function<void(EventP)> x) : f(x) {} void on_event(EventP e) override { f(e); } };
}
// the listener alone, through long histories
SCENARIO("C10", c10_listener, 3) {
    std::string path = pick_path(); int n = (int)(pick_p("dense", 0.6) ? pick("every", 1, 7) : pick("every", 8, 400)); long total = n > 40 && pick_p("years", 0.1) ? pick("epochs.many", 3000, 12000) : sized_pick("epochs", 0, 30, 300, 1300); Conf c; c.K = (int)pick("topics", 1, 3); c.V = (int)pick("vocab", 1, 5); c.C = (int)pick("classes", 1, 3); auto m = gen_model<double>("m", c);
    bool other = pick_p("others", 0.5); io_track(true); default_schedule(); std::map<long, Expect> want; Rng r(derive("drive")); bool faults = pick_p("faults", 0.4);
    std::shared_ptr<SnapshotEvery> s; { Sut q; s = std::make_shared<SnapshotEvery>(path, n); }
    for (long k = 1; k <= total; k++) {
        while (other && r.p(0.3)) { Sut q; if (r.p(0.5)) s->on_event(std::make_shared<L::events::ExpectationProgressEvent<double>>(1.0)); else s->on_event(std::make_shared<L::events::MaximizationProgressEvent<double>>(2.0)); }
        m->beta(0, 0) = (double)k; m->alpha[0] = (double)-k; m->eta(0, 0) = k * 0.5; uint64_t f0 = npy::io_faults();
        if (faults && k % n == 0 && r.p(0.3)) { double p = r.p(0.5) ? 0.1 : 0.5; for (int kd : {K_OPEN, K_WRITE, K_CLOSE, K_META}) set_fault_prob(kd, p); }
        SModelP<double> keep; { Oracle o; keep = copy_model(*m); }
        try { Sut q; s->on_event(std::make_shared<L::events::EpochProgressEvent<double>>(m)); } catch (...) { fail("snapshot:throws", "a snapshot that cannot be written is reported as an exception to training"); }
        npy::no_io_faults(); Oracle o; if (!model_bits_equal(*m, *keep)) fail("snapshot:model", "taking a snapshot changed the model");
        if (k % n == 0) want[k] = Expect{keep, npy::io_faults() != f0};
        if (k % n == 0 && r.p(0.05)) check_snapshots(path, want);
    }
    Oracle o; check_snapshots(path, want); note("snapshots %zu", want.size()); probe(2);
}
// during training: every variant, any number of workers
static void c10_training() {
    ConfLimits lim; lim.docs_mid = 16; lim.docs_large = 30; lim.iters = 6; Conf c = pick_conf(ALL_VARIANTS, lim); auto m = gen_model<double>("m", c); Data d = gen_data("d", c.D, c.V, c.C, c.data_flags()); std::string path = pick_path(); int n = (int)pick("every", 1, 4); int calls = (int)pick("calls", 1, 3);
    SModelP<double> plain; bool batch1 = c.variant != ref::ONLINE && c.workers <= 1; default_schedule();
    if (batch1) { auto l = make_lda<double>(c, *m); { Sut s; for (int i = 0; i < calls; i++) { if (i == 1) train_epoch(*l, d, c); else train(*l, d, c); } } Oracle o; plain = copy_model(*model_of(*l)); }
    io_track(true); std::map<long, Expect> want; long k = 0; uint64_t f0 = 0; SModelP<double> before; auto l = make_lda<double>(c, *m); auto disp = l->get_event_dispatcher();
    auto first = std::make_shared<Fn>([&](EventP e) { Oracle o; if (e->id() != "EpochProgressEvent") return; before = copy_model(*std::static_pointer_cast<SModel<double>>(std::static_pointer_cast<L::events::EpochProgressEvent<double>>(e)->model_parameters())); });
    auto last = std::make_shared<Fn>([&](EventP e) { Oracle o; if (e->id() != "EpochProgressEvent") return; k++; auto now = std::static_pointer_cast<SModel<double>>(std::static_pointer_cast<L::events::EpochProgressEvent<double>>(e)->model_parameters()); if (!before || !model_bits_equal(*before, *now)) fail("snapshot:model", "taking a snapshot changed the model"); if (k % n == 0) want[k] = Expect{before, npy::io_faults() != f0}; f0 = npy::io_faults(); });
    { Sut s; disp->add_listener(first); disp->add_listener<SnapshotEvery>(path, n); disp->add_listener(last); }
    npy::pick_io_faults("io", false, true, 2);
    long asked = 0;
    for (int i = 0; i < calls; i++) { try { Sut s; if (i == 1) { asked++; train_epoch(*l, d, c); } else { asked += (long)c.iters; train(*l, d, c); } } catch (const std::exception &e) { fail("snapshot:stops", "a snapshot that could not be written stopped training: %s", e.what()); } }
    npy::no_io_faults(); check_threads("training"); sequential_schedule(); Oracle o;
    if (k != asked) fail("snapshot:epochs", "%ld epochs were asked for, %ld were completed", asked, k);
    if (batch1 && !model_bits_equal(*plain, *model_of(*l))) fail("snapshot:result", "training with snapshots gave another model than without");
    check_snapshots(path, want); note("snapshots %zu", want.size()); probe(3);
}
SCENARIO("C10", c10_training, 3) { c10_training(); }
// several listeners, each with its own model, path and cadence, on threads of their own
SCENARIO("C10", c10_concurrent, 1) {
    int n = (int)pick("listeners", 2, 3); struct One { std::string path; int every, total; SModelP<double> m; std::map<long, Expect> want; }; std::vector<One> v(n); io_track(true); default_schedule();
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); Conf c; c.K = 1 + i; c.V = 2 + i; c.C = 1; v[i].path = "run" + t; v[i].every = (int)pick(("every" + t).c_str(), 1, 3); v[i].total = (int)pick(("epochs" + t).c_str(), 1, 12); v[i].m = gen_model<double>("m" + t, c); }
    auto body = [&](One &o) {
        Quiet q; std::shared_ptr<SnapshotEvery> s; { Sut x; s = std::make_shared<SnapshotEvery>(o.path, o.every); }
        for (long k = 1; k <= o.total; k++) { { Oracle w; o.m->beta(0, 0) = (double)k; if (k % o.every == 0) o.want[k] = Expect{copy_model(*o.m), false}; } EventP e = std::make_shared<L::events::EpochProgressEvent<double>>(o.m); Sut x; s->on_event(e); }
    };
    std::vector<std::thread> ts; for (int i = 1; i < n; i++) ts.emplace_back([&, i]() { body(v[i]); });
    body(v[0]); for (auto &t : ts) t.join();
    check_threads("snapshots"); sequential_schedule(); Oracle o; for (auto &x : v) check_snapshots(x.path, x.want); probe(6);
}
// the console applications
namespace {
apps::Opts g; apps::Input in; std::vector<std::string> av; int st; std::map<long, bool> dummy;
void app(void *) { set_terminate_exits(true); io_track(true); if (sh->scratch[0]) sequential_schedule(); else default_schedule(); if (sh->scratch[1]) npy::pick_io_faults("io", false, true, 0); sh->scratch[63] = apps::call(g, av); npy::no_io_faults(); sequential_schedule(); note("status %d", (int)sh->scratch[63]); }
void judge(void *) {
    // the library's models after every epoch, under the same (sequential) schedule
    sequential_schedule(); int n = (int)g.integer("snapshot_every"); std::map<long, Expect> want; long k = 0; std::vector<SModelP<double>> ms; bool faulty = npy::io_faults() != 0; bool exact = sh->scratch[0] || g.deterministic();
    for (int tries = 0; tries < 2; tries++) {
        g.exact_defaults = tries; k = 0; want.clear(); auto l = apps::configure(g, in); l->get_event_dispatcher()->add_listener([&](EventP e) { Oracle o; if (e->id() != "EpochProgressEvent") return; k++; if (k % n == 0) want[k] = Expect{copy_model(*std::static_pointer_cast<SModel<double>>(std::static_pointer_cast<L::events::EpochProgressEvent<double>>(e)->model_parameters())), faulty}; });
        { Sut s; if (g.app == apps::A_LDA) l->fit(in.X); else l->fit(in.X, in.y); }
        Oracle o; if (tries == 0 && !want.empty()) { npy::ModelFile f; std::string b = npy::slurp(snap_name(g.model, want.begin()->first)); if (npy::decode_model(b, f).empty() && !npy::same_model(f, *want.begin()->second.model)) continue; }
        break;
    }
    Oracle o; auto have = present(g.model); if (sh->sliced && !g.deterministic()) exact = false;      // the fair scheduler cut in: the orders need not be the same
    if (exact) check_snapshots(g.model, want);
    else { for (auto &h : have) if (!want.count(h.second) || h.first != snap_name(g.model, h.second)) fail("snapshot:unexpected", "there is a snapshot %s that should not exist", h.first.c_str()); if (!faulty) for (auto &w : want) { npy::ModelFile f; bool there; std::string b = npy::slurp(snap_name(g.model, w.first), &there); std::string e = there ? npy::decode_model(b, f) : "missing"; if (!e.empty()) fail("snapshot:missing", "the snapshot of epoch %ld is not there: %s", w.first, e.c_str()); } }
    // the last snapshot and the model written at the end are one model if the last epoch was snapshotted
    long T = g.integer("iterations"); if (!faulty && T % n == 0 && npy::slurp(snap_name(g.model, T)) != npy::slurp(g.model)) fail("snapshot:last", "the snapshot of the last epoch is not the trained model");
    probe(4);
}
}
COORDINATOR("C10", c10_apps, 3) {
    g = apps::Opts(); g.app = (int)pick("app", 0, 2); g.cmd = g.app == apps::FSLDA && pick_p("online", 0.4) ? apps::ONLINE : apps::TRAIN; apps::pick_opts(g); in = apps::Input();
    { auto &v = g.o["snapshot_every"]; v.given = true; v.v = (double)pick("every", 1, 4); v.text = std::to_string((long)v.v); auto &w = g.o["iterations"]; w.given = true; w.v = (double)pick("epochs", 1, 6); w.text = std::to_string((long)w.v); auto &t = g.o["topics"]; if (!t.given) { t.given = true; t.v = 2; t.text = "2"; } }
    int D = (int)pick("docs", 1, 10), V = (int)pick("vocab", 2, 8), C = g.app != apps::A_LDA ? (int)pick("classes", 1, 3) : 1; if (C > D) C = D; Data d = gen_data("d", D, V, C); if (g.app != apps::A_LDA) for (int c = 0; c < C; c++) d.y[c] = c;
    in.X = d.X; in.y = d.y; npy::spill("data", npy::encode_data(d.X, g.app != apps::A_LDA ? &d.y : nullptr)); g.model = pick_path(); sh->scratch[0] = pick_p("seq", 0.4) || (g.cmd == apps::ONLINE && pick_p("seqo", 0.6)); sh->scratch[1] = pick_p("faults", 0.4); av = apps::args(g);
    run_incarnation(app, nullptr, &st); bool faulty = npy::io_faults() != 0;
    if (st != 0) { if (!faulty) { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "status"); snprintf(sh->msg, 400, "%s failed with status %d: %s", apps::joined(av).c_str(), st, npy::slurp("stderr").substr(0, 200).c_str()); _exit(1); } probe(5); }
    // a status of failure is allowed only for the input and the final model, never because of a snapshot: the epochs before it are still checked
    run_incarnation(judge, nullptr, nullptr);
}
