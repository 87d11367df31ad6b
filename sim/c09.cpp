// C09: a crash at any instant leaves no readable but wrong model and damages nothing that was complete.
#include "apps.h"
#include "applications/lda_io.hpp"
using namespace sim; using namespace apps;

namespace {
Opts g; Input in; std::vector<std::string> av; int st; std::string data_bytes;
std::map<std::string, std::string> whole, old_;       // what the uninterrupted run leaves; what was there before
int64_t crash_at_, torn_;
[[noreturn]] void bad(const char *cls, const std::string &m) { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "%s", (joined(av) + ": " + m).c_str()); _exit(1); }
void app(void *) {
    set_terminate_exits(true); io_track(true); set_crash_at(crash_at_, torn_);
    if (sh->scratch[0]) sequential_schedule(); else default_schedule();
    int r = call(g, av); sequential_schedule(); sh->scratch[63] = r; sh->scratch[1] = (int64_t)mutations();
}
std::map<std::string, std::string> listing() { std::map<std::string, std::string> r; for (auto &f : npy::files()) if (f != "stdout" && f != "stderr") r[f] = npy::slurp(f); return r; }
void clear_dir() { for (auto &f : npy::files()) unlink(f.c_str()); for (auto &x : old_) npy::spill(x.first, x.second); }
// the model and its snapshots; a save may use other names on its way (a temporary file that is renamed)
bool ours(const std::string &f) { return f == "model" || (f.size() > 6 && f.compare(0, 6, "model_") == 0 && f.find_first_not_of("0123456789", 6) == std::string::npos); }
std::map<std::string, std::string> left; std::string done;
void judge(void *) {
    sequential_schedule(); int loaded = 0, refused = 0;
    for (auto &f : left) if (ours(f.first)) {
        std::shared_ptr<SModel<double>> m; bool ok = true; try { Sut s; m = io::load_lda(f.first); } catch (const std::exception &) { ok = false; }
        Oracle o; ok ? loaded++ : refused++; note("%s %d", f.first.c_str(), ok);
        bool complete = done.find("\n" + f.first + "\n") != std::string::npos; auto w = whole.find(f.first); auto was = old_.find(f.first);
        if (!ok) { if (complete) fail("crash:lost", "%s had been saved before the crash but cannot be read", f.first.c_str()); if (was != old_.end() && f.second == was->second) fail("crash:old", "the older model %s cannot be read", f.first.c_str()); continue; }
        bool is_old = was != old_.end() && f.second == was->second && !complete;
        if (is_old) continue;
        if (w == whole.end()) fail("crash:extra", "%s can be read although the program never writes a model of that name", f.first.c_str());
        npy::ModelFile x; if (!npy::decode_model(w->second, x).empty()) fail("crash:reference", "the uninterrupted run leaves a malformed %s", f.first.c_str());
        if (!npy::same_model(x, *m)) fail("crash:wrong", "after a crash %s loads as a model the program never had at that epoch", f.first.c_str());
    }
    probe(0, loaded); probe(1, refused);
}
}
COORDINATOR("C09", c09_apps, 1) {
    g = Opts(); g.app = (int)pick("app", 0, 2); g.cmd = g.app == FSLDA && pick_p("online", 0.4) ? ONLINE : TRAIN; pick_opts(g); in = Input(); int T = (int)pick("epochs", 1, 6);
    auto set = [&](const char *n, long v) { auto &x = g.o[n]; x.given = true; x.v = (double)v; x.text = std::to_string(v); }; set("iterations", T); set("snapshot_every", pick_p("nosnap", 0.1) ? -1 : pick("every", 1, 3)); if (!g.o["topics"].given) set("topics", 2);
    bool wide = pick_p("wide", 0.25); int D = (int)pick("docs", 1, wide ? 3 : 8), V = wide ? (int)pick("vocabw", 100, 600) : (int)pick("vocab", 2, 8), C = g.app != A_LDA ? (int)pick("classes", 1, 3) : 1; if (C > D) C = D;
    Data d; if (wide) { d.X = MatrixXi::Zero(V, D); d.y = VectorXi::Zero(D); Rng r(derive("wide")); for (int i = 0; i < D; i++) { for (int k = 0; k < 5; k++) d.X(r.below(V), i) = 1 + r.below(3); d.y[i] = r.below(C); } } else d = gen_data("d", D, V, C); if (g.app != A_LDA) for (int c = 0; c < C; c++) d.y[c] = c;
    data_bytes = npy::encode_data(d.X, g.app != A_LDA ? &d.y : nullptr); old_.clear(); old_["data"] = data_bytes;
    // files of earlier runs: elsewhere, and under the names about to be written
    Conf c; c.K = (int)g.integer("topics"); c.V = V; c.C = C; c.variant = g.app == A_LDA ? ref::UNSUP : ref::SLDA;
    if (pick_p("older", 0.5)) { old_["earlier_002"] = npy::encode_model(*gen_model<double>("o1", c)); old_["model_900"] = npy::encode_model(*gen_model<double>("o2", c)); }
    if (pick_p("stale", 0.5)) { Conf b = c; if (pick_p("bigger", 0.5)) { b.K += 1; b.V += 3; } old_["model"] = npy::encode_model(*gen_model<double>("s1", b)); old_["model_001"] = npy::encode_model(*gen_model<double>("s2", b)); old_["model_002"] = npy::encode_model(*gen_model<double>("s3", b)); }
    if (pick_p("continue", 0.2)) { old_["start"] = npy::encode_model(*gen_model<double>("m", c)); g.cont = "start"; }
    sh->scratch[0] = pick_p("seq", 0.3); av = args(g); crash_at_ = -1; torn_ = 0;
    // the whole run first: what it leaves is what a crashed run may leave (the schedule is the same up to the crash)
    clear_dir(); run_incarnation(app, nullptr, &st); if (st != 0) bad("status", "failed with status " + std::to_string(st) + ": " + npy::slurp("stderr").substr(0, 200));
    whole = listing(); int64_t n = sh->scratch[1]; if (n <= 0) bad("error:count", "no mutating operations seen");
    int crashes = (int)pick("crashes", 1, 4);
    for (int i = 0; i < crashes; i++) {
        std::string t = std::to_string(i); crash_at_ = (int64_t)(pick(("crash" + t).c_str(), 0, 99999) % n); int tm = (int)pick_w(("tmode" + t).c_str(), {1, 3, 1, 1}); torn_ = tm == 0 ? 0 : tm == 1 ? (int64_t)pick(("torn" + t).c_str(), 1, 900) : tm == 2 ? (int64_t)pick(("torn" + t).c_str(), 1, 20000) : 1 << 30;
        clear_dir(); sh->scratch_str[0] = 0; sh->inc = 0; int r = run_incarnation(app, nullptr, &st);
        if (r != INC_CRASHED) bad("error:nocrash", "the crash point was not reached");
        left = listing(); done = std::string("\n") + sh->scratch_str; int had = sh->inc;
        for (auto &o : old_) { if (ours(o.first) && whole.count(o.first) && whole[o.first] != o.second) continue; if (!left.count(o.first) || left[o.first] != o.second) bad(o.first == "data" ? "crash:input" : "crash:other", "a crash damaged " + o.first + ", which the program only reads or does not know"); }
        for (auto &f : whole) if (ours(f.first) && done.find("\n" + f.first + "\n") != std::string::npos && !left.count(f.first)) bad("crash:lost", f.first + " had been saved before the crash but is gone");
        sh->inc = 20 + i; run_incarnation(judge, nullptr, nullptr); probe(2);
    }
    sh->inc = crashes;
}
