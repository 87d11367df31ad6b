// C13: console applications do what their options say, or fail visibly.
#include "apps.h"
using namespace sim; using namespace apps;

namespace {
Opts g; Input in; Data d; std::vector<std::string> argv_; std::string data_bytes, model_bytes; int status_; bool seq_, faults_;
std::string bad_;      // what is wrong with the invocation, if anything
void app(void *) {
    set_terminate_exits(true); io_track(true);
    if (seq_) { sequential_schedule(); } else default_schedule();
    if (faults_) npy::pick_io_faults("io", true, true, 0);
    sh->scratch[63] = call(g, argv_); npy::no_io_faults(); sequential_schedule();
    note("status %d", (int)sh->scratch[63]); check_threads("the program");
}
// the library's answer, and the comparison
void judge(void *) {
    sequential_schedule(); std::string r = npy::slurp(g.cmd == TRANSFORM ? g.output : g.model); bool exact = g.deterministic(); std::string line = joined(argv_); bool faulted = npy::io_faults() != 0; Expected e; std::string why; int tries = 0;
    for (tries = 0; tries < 2; tries++) {
        g.exact_defaults = tries; e = expect(g, in); Oracle o; if (seq_ && !sh->sliced) exact = true; why = "";
        if (g.cmd == TRANSFORM) {
            npy::Array a; size_t pos = 0; std::string x = npy::decode(r, pos, a); if (!x.empty() || pos != r.size()) { fail(faulted ? "silent:partial" : "output:malformed", "%s: ended with success but the output is malformed: %s", line.c_str(), x.c_str()); }
            if (a.descr != "<f8" || a.shape.size() != 2 || a.shape[0] != (size_t)e.out.rows() || a.shape[1] != (size_t)e.out.cols()) fail("output:shape", "%s: the output does not have a row per topic and a column per document", line.c_str());
            if (npy::same(a, e.out)) break; why = "topic proportions differ from the library's";
        } else {
            npy::ModelFile f; std::string x = npy::decode_model(r, f); if (!x.empty()) fail(faulted ? "silent:partial" : "output:malformed", "%s: ended with success but the model is malformed: %s", line.c_str(), x.c_str());
            if (exact ? npy::same_model(f, *e.model) : true) {
                if (!exact) {
                    SModel<double> m; auto get = [](const npy::Array &a) { Mat<double> q(a.shape[0], a.shape.size() > 1 ? a.shape[1] : 1); for (int i = 0; i < q.rows(); i++) for (int j = 0; j < q.cols(); j++) q(i, j) = npy::item<double>(a, i, j); return q; };
                    if (f.beta.shape != std::vector<size_t>{(size_t)e.model->beta.rows(), (size_t)e.model->beta.cols()} || f.eta.shape != std::vector<size_t>{(size_t)e.model->eta.rows(), (size_t)e.model->eta.cols()} || f.alpha.count() != (size_t)e.model->alpha.size()) fail("output:shape", "%s: the model has the wrong shape", line.c_str());
                    bool smooth = g.app == A_LDA && g.num("e_step_tolerance") == 0 && g.integer("iterations") <= 2; Mat<double> b = get(f.beta);
                    if (smooth && !(rel_diff(b, e.model->beta) < 1e-7)) { why = "the model differs from the library's"; continue; }
                    probe(1);
                }
                break;
            }
            why = "the model differs from the library's";
        }
    }
    if (tries == 2) fail("result", "%s: %s", line.c_str(), why.c_str());
    if (g.cmd != TRANSFORM && !faulted) {      // the snapshots asked for, and only those (their content is judged by C10)
        Oracle o; long n = g.o["snapshot_every"].given ? g.integer("snapshot_every") : -1, T = g.integer("iterations"); std::vector<std::string> fs = npy::files();
        for (long k = 1; k <= T + 3; k++) { char b[32]; snprintf(b, sizeof b, "_%03ld", k); bool there = std::find(fs.begin(), fs.end(), g.model + b) != fs.end(), want = n > 0 && k <= T && k % n == 0; if (there != want) fail("snapshots", "%s: the snapshot of epoch %ld is %s", line.c_str(), k, there ? "there although not asked for" : "missing"); }
    }
    probe(exact ? 0 : 1); if (g.cmd == TRANSFORM) probe(2);
}
void setup(int app, int cmd) {
    g = Opts(); g.app = app; g.cmd = cmd; in = Input(); bad_.clear();
    pick_opts(g, true); bool labels = app != A_LDA; bool heavy = cmd != TRANSFORM && (!g.o["topics"].given || !g.o["iterations"].given || !g.large.empty()); bool wide = !heavy && pick_p("wide", 0.06); int D = heavy || wide ? (int)pick("docs", 1, 3) : cmd == TRANSFORM && pick_p("manydocs", 0.06) ? (int)pick("docs.many", 60, 260) : sized_pick("docs", 1, 8, 20, 60), V = wide ? (int)pick("vocab", 100, 500) : (int)pick("vocab", 2, heavy ? 5 : 10), C = labels ? (int)pick("classes", 1, 4) : 1;
    d = gen_data("d", D, V, C, g.cmd == TRANSFORM ? 0 : 0); if (labels) for (int c = 0; c < C && c < D; c++) d.y[c] = c; if (labels && D < C) { C = D; for (int i = 0; i < D; i++) d.y[i] = i; }
    in.X = d.X; in.y = d.y;
    data_bytes = npy::encode_data(d.X, labels ? &d.y : nullptr, pick_p("big", 0.2), pick_p("fortran", 0.7), (int)pick("style", 0, 1)); npy::spill("data", data_bytes);
    model_bytes.clear(); Conf c; c.V = V; c.C = C; c.K = (int)pick("mtopics", 1, 5); c.variant = labels ? ref::SLDA : ref::UNSUP;
    if (cmd == TRANSFORM) { in.start = gen_model<double>("m", c); model_bytes = npy::encode_model(*in.start); npy::spill("model", model_bytes); }
    else if (int k = (int)pick_w("continue", {4, 1, labels ? 1 : 0})) {
        if (k == 1 && cmd == TRAIN && labels) c.C += (int)pick_w("more_classes", {3, 1, 1}); in.start = gen_model<double>("m", c); if (k == 2) in.start->eta = Mat<double>::Zero(c.K, 1); (k == 1 ? g.cont : g.cont_unsup) = "start"; npy::spill("start", npy::encode_model(*in.start));
    }
    seq_ = pick_p("seq", 0.4) || (cmd == ONLINE && pick_p("online_seq", 0.7)); faults_ = false;
}
void finish(int res) {
    if (npy::slurp("data") != data_bytes) { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "input:modified"); snprintf(sh->msg, 400, "%s modified its input", joined(argv_).c_str()); _exit(1); }
    auto bad = [&](const char *cls, const std::string &m) { sh->status = ST_VIOLATION; snprintf(sh->cls, 64, "%s", cls); snprintf(sh->msg, sizeof sh->msg, "%s", (joined(argv_) + ": " + m).c_str()); _exit(1); };
    if (g.cmd == TRANSFORM && bad_.empty() && npy::slurp("model") != model_bytes) bad("input:modified", "transform modified the model");
    if (!bad_.empty()) { if (status_ == 0) bad("status:success", "ended with success although " + bad_); probe(4); return; }
    if (status_ != 0) { if (!npy::io_faults()) bad("status:failure", "failed with status " + std::to_string(status_) + " although nothing was wrong: " + npy::slurp("stderr").substr(0, 300)); probe(3); return; }
    if (g.quiet && !npy::slurp("stdout").empty()) bad("quiet", "printed to the terminal although it was asked to be quiet");
    run_incarnation(judge, nullptr, nullptr);
}
void go(int app_, int cmd) {
    setup(app_, cmd); faults_ = pick_p("faults", 0.5); argv_ = args(g);
    int r = run_incarnation(app, nullptr, &status_); finish(r);
}
}
COORDINATOR("C13", c13_lda_train, 3) { go(A_LDA, TRAIN); }
COORDINATOR("C13", c13_slda_train, 3) { go(SLDA, TRAIN); }
COORDINATOR("C13", c13_fslda_train, 3) { go(FSLDA, TRAIN); }
COORDINATOR("C13", c13_fslda_online, 3) { go(FSLDA, ONLINE); }
COORDINATOR("C13", c13_transform, 3) { go((int)pick("app", 0, 2), TRANSFORM); }
// something is wrong with the invocation or the files it names
COORDINATOR("C13", c13_invalid, 2) {
    int a = (int)pick("app", 0, 2), cmd = (int)pick_w("cmd", {2, a == FSLDA ? 2 : 0, 2}); setup(a, cmd); g.o["workers"].text = "1"; Rng r(derive("bad")); 
    std::string other = cmd == TRANSFORM ? "model" : in.start ? "start" : "";
    switch (pick("bad", 0, 7)) {
        case 0: unlink("data"); data_bytes.clear(); bad_ = "the data file is missing"; break;
        case 1: data_bytes.resize((size_t)(r.next() % data_bytes.size())); npy::spill("data", data_bytes); bad_ = "the data file is cut off"; break;
        case 2: { Mat<double> x = d.X.cast<double>(); data_bytes = npy::encode(npy::make(x, false, true)); npy::spill("data", data_bytes); bad_ = "the data are not integers"; break; }
        case 3: if (other.empty()) { unlink("data"); data_bytes.clear(); bad_ = "the data file is missing"; } else { unlink(other.c_str()); bad_ = "the model to start from is missing"; } break;
        case 4: if (other.empty()) { data_bytes = "no numbers here, only text that goes on for a while"; npy::spill("data", data_bytes); bad_ = "the data file is text"; } else { std::string b = npy::slurp(other); b.resize((size_t)(r.next() % b.size())); npy::spill(other, b); bad_ = "the model to start from is cut off"; } break;
        case 5: (cmd == TRANSFORM ? g.output : g.model) = "no/such/place"; bad_ = "the output cannot be created"; break;
        case 6: mkdir("adir", 0755); (cmd == TRANSFORM ? g.output : g.model) = "adir"; bad_ = "the output is a directory"; break;
        case 7: { Value &v = g.o["workers"]; v.given = true; v.text = "many"; bad_ = "an option is not a number"; break; }
    }
    argv_ = args(g); int r2 = run_incarnation(app, nullptr, &status_); finish(r2);
}
