// The console applications as simulated processes, and the library configured with the same values.
#pragma once
#include "npy.h"
#include "ldaplusplus/NumpyFormat.hpp"
extern "C" { int lda_main(int, char **); int slda_main(int, char **); int fslda_main(int, char **); }
namespace apps {
enum { A_LDA, SLDA, FSLDA }; enum { TRAIN, ONLINE, TRANSFORM };
static const char *const app_names[] = {"lda", "slda", "fslda"};
static const char *const cmd_names[] = {"train", "online_train", "transform"};
struct Value { bool given = true; std::string text; double v = 0; };
struct Opts {
    int app = A_LDA, cmd = TRAIN; std::map<std::string, Value> o; bool quiet = true; int init = 0;   // init: 0 nothing said 1 seeded 2 random
    std::string cont, cont_unsup, data = "data", model = "model", output = "out";
    bool labels() const { return app != A_LDA; }
    std::string large; bool exact_defaults = false;                // default values as doubles instead of floats
    double num(const char *n) const { auto it = o.find(n); if (it == o.end()) sim::fail("error:opts", "no option %s", n); const Value &x = it->second; return x.given || exact_defaults ? x.v : (double)(float)x.v; }
    long integer(const char *n) const { return (long)num(n); }
    bool deterministic() const { return cmd == TRANSFORM || (cmd == TRAIN && integer("workers") <= 1); }
};
inline void put(Opts &x, const char *name, double def, const std::string &text, double v, double p_given = 0.85) { Value e; e.given = p_given >= 1 || sim::pick_p((std::string("give.") + name).c_str(), p_given); e.text = text; e.v = e.given ? v : def; x.o[name] = e; }
inline std::string itoa(long v) { return std::to_string(v); }
// option values exact in binary, so that it does not matter how the text is converted
inline void pick_opts(Opts &x, bool large_too = false) {
    static const char *const fr[] = {"0", "0.5", "0.25", "0.125", "0.0625", "0.03125", "1.5", "2", "0.0078125", "5e-1", ".75", "0.875"}; auto num = [&](const char *n, std::initializer_list<int> l) { std::vector<int> v(l); std::string s = fr[v[sim::pick(n, 0, (int64_t)v.size() - 1)]]; return std::make_pair(s, atof(s.c_str())); };
    // at most one number is far from the usual: caps and narrow types show only there
    static const char *const ints[] = {"", "e_step_iterations", "fixed_point_iterations", "iterations", "m_step_iterations", "batch_size", "random_state", "workers", "topics", "snapshot_every"};
    std::string large = large_too ? ints[sim::pick_w("large", {20, 1, 1, 1, 1, 1, 1, 1, 1, 1})] : ""; x.large = large;
    auto integer = [&](const char *n, double def, int lo, int hi, double pg = 0.85) { long v = sim::pick(n, lo, hi); if (n == large) v = sim::pick((large + ".large").c_str(), hi, def > hi ? (int)def * 2 : hi * 12); put(x, n, def, itoa(v), (double)v, pg); };
    auto real = [&](const char *n, double def, std::initializer_list<int> l) { auto q = num(n, l); put(x, n, def, q.first, q.second); };
    integer("workers", 1, 1, 5, 0.7); integer("e_step_iterations", x.app == A_LDA ? 30 : 10, 1, 5, 0.9); real("e_step_tolerance", x.app == A_LDA ? 1e-3 : 1e-4, {0, 1, 3, 5, 8});
    if (x.cmd != TRANSFORM) {
        integer("topics", 100, 1, 5, 0.97); integer("iterations", 20, 1, sim::pick_p("longer", 0.15) ? 12 : 4, 0.97); integer("random_state", 0, 0, 50, 0.7); real("compute_likelihood", 0, {0, 1, 2, 10}); integer("snapshot_every", -1, 1, sim::pick_p("rarely", 0.3) ? 12 : 3, 0.3);
        x.init = (int)sim::pick_w("init", {2, 1, 2});
        if (x.app == SLDA) integer("fixed_point_iterations", 20, 1, 4, 0.9);
        if (x.app != A_LDA) real("regularization_penalty", 0.05, {1, 4, 5, 8, 9});
        if (x.app == FSLDA) real("supervised_weight", 1, {0, 1, 6, 7, 9, 10});
        if (x.app != A_LDA && x.cmd == TRAIN) { integer("m_step_iterations", 200, 1, 6, 0.9); real("m_step_tolerance", 1e-4, {1, 3, 5, 8}); }
        if (x.cmd == ONLINE) { integer("batch_size", 128, 1, 9, 0.85); real("momentum", 0.9, {0, 1, 2, 9, 11}); real("learning_rate", 0.01, {4, 5, 8}); real("beta_weight", 0.9, {1, 2, 3, 11}); }
    }
    x.quiet = sim::pick_p("quiet", 0.6);
}
inline std::vector<std::string> args(const Opts &x) {
    std::vector<std::string> a = {app_names[x.app], cmd_names[x.cmd]}; Rng r(sim::derive("argstyle"));
    for (auto &k : x.o) if (k.second.given) {
        if (k.first == "regularization_penalty" && r.p(0.3)) { a.push_back("-L"); a.push_back(k.second.text); }
        else if (k.first == "supervised_weight" && r.p(0.3)) { a.push_back("-C"); a.push_back(k.second.text); }
        else if (r.p(0.3)) { a.push_back("--" + k.first); a.push_back(k.second.text); }
        else a.push_back("--" + k.first + "=" + k.second.text);
    }
    if (x.quiet) a.push_back(r.p(0.5) ? "-q" : "--quiet");
    if (x.init == 1) a.push_back("--initialize_seeded"); if (x.init == 2) a.push_back("--initialize_random");
    if (!x.cont.empty()) a.push_back("--continue=" + x.cont); if (!x.cont_unsup.empty()) a.push_back("--continue_from_unsupervised=" + x.cont_unsup);
    if (x.cmd == TRANSFORM) { a.push_back(x.model); a.push_back(x.data); a.push_back(x.output); } else { a.push_back(x.data); a.push_back(x.model); }
    return a;
}
// in a simulated process: run the program, status into the shared slot, output into files
inline int call(const Opts &x, const std::vector<std::string> &a) {
    std::vector<std::vector<char>> st; std::vector<char *> p; for (auto &s : a) { st.emplace_back(s.begin(), s.end()); st.back().push_back(0); } for (auto &s : st) p.push_back(s.data()); p.push_back(nullptr);
    int fo = ::open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0644), fe = ::open("stderr", O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fo, 1); dup2(fe, 2); ::close(fo); ::close(fe);
    int argc = (int)a.size(); int r;
    { sim::Sut s; r = x.app == A_LDA ? lda_main(argc, p.data()) : x.app == SLDA ? slda_main(argc, p.data()) : fslda_main(argc, p.data()); }
    fflush(stdout); return r;
}
inline std::string joined(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s; }
// ------------------------------------------------------------------ the library with the same values
struct Input { MatrixXi X; VectorXi y; SModelP<double> start; };     // start: model of --continue(_from_unsupervised) or of transform
inline LdaP<double> configure(const Opts &x, const Input &in) {
    L::LDABuilder<double> b; b.set_workers((size_t)x.integer("workers"));
    // a model to start from is put in place by the harness itself
    auto place = [&](LdaP<double> l, bool eta) { auto m = model_of(*l); m->alpha = in.start->alpha; m->beta = in.start->beta; if (eta) m->eta = in.start->eta; return l; };
    if (x.cmd == TRANSFORM) { b.set_classic_e_step((size_t)x.integer("e_step_iterations"), x.num("e_step_tolerance"), 0.0); auto m = copy_model(*in.start); b.initialize_topics_from_model(m); b.initialize_eta_from_model(m); return place(finish_builder(b), true); }
    b.set_iterations((size_t)x.integer("iterations")); size_t ei = (size_t)x.integer("e_step_iterations"); double et = x.num("e_step_tolerance"), cl = x.num("compute_likelihood"); int rs = (int)x.integer("random_state");
    if (x.app == A_LDA) { b.set_classic_e_step(ei, et, cl, rs); b.set_classic_m_step(); }
    else if (x.app == SLDA) { b.set_supervised_e_step(ei, et, (size_t)x.integer("fixed_point_iterations"), cl, rs); b.set_supervised_m_step((size_t)x.integer("m_step_iterations"), x.num("m_step_tolerance"), x.num("regularization_penalty")); }
    else {
        b.set_fast_supervised_e_step(ei, et, x.num("supervised_weight"), cl, rs);
        if (x.cmd == TRAIN) b.set_fast_supervised_m_step((size_t)x.integer("m_step_iterations"), x.num("m_step_tolerance"), x.num("regularization_penalty"));
        else {
            int C = in.y.maxCoeff() + 1; Vec<double> w = Vec<double>::Zero(C); for (int i = 0; i < in.y.size(); i++) w[in.y[i]] += 1; for (int c = 0; c < C; c++) w[c] = (double)in.y.size() / (w[c] * C);
            b.set_fast_supervised_online_m_step(w, x.num("regularization_penalty"), (size_t)x.integer("batch_size"), x.num("momentum"), x.num("learning_rate"), x.num("beta_weight"));
        }
    }
    int C = x.app == A_LDA ? 1 : in.y.maxCoeff() + 1; size_t K = (size_t)x.integer("topics");
    if (in.start) { auto m = copy_model(*in.start); b.initialize_topics_from_model(m); if (x.app != A_LDA && !x.cont.empty()) b.initialize_eta_from_model(m); else b.initialize_eta_zeros((size_t)C); }
    else { if (x.init == 2) b.initialize_topics_random((size_t)in.X.rows(), K, rs); else b.initialize_topics_seeded(in.X, K, 30, rs); b.initialize_eta_zeros((size_t)C); }
    return in.start ? place(finish_builder(b), x.app != A_LDA && !x.cont.empty()) : finish_builder(b);
}
struct Expected { SModelP<double> model; Mat<double> out; };
inline Expected expect(const Opts &x, const Input &in) {
    Expected e; sim::Sut s; auto l = configure(x, in);
    if (x.cmd == TRANSFORM) { Mat<double> g = l->transform(in.X); sim::Oracle o; e.out = g; }
    else { if (x.app == A_LDA) l->fit(in.X); else l->fit(in.X, in.y); sim::Oracle o; e.model = copy_model(*model_of(*l)); }
    return e;
}
}
