// C08: arrays and models read back exactly or fail loudly, whatever the storage does.
#include "npy.h"
#include "ldaplusplus/NumpyFormat.hpp"
#include "applications/lda_io.hpp"
#include <sstream>
using namespace sim;

namespace {
template <typename S, int O> Eigen::Matrix<S, -1, -1, O> bits_matrix(const char *t, int R, int C) {
    Eigen::Matrix<S, -1, -1, O> m(R, C); Rng r(derive(t));
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { uint64_t v = r.next(); S s; memcpy(&s, &v, sizeof s); m(i, j) = s; }
    // signalling patterns may be quietened by a plain copy in floating point registers: keep to what every copy preserves
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (!(m(i, j) == m(i, j))) m(i, j) = (S)r.below(100);
    return m;
}
// the previous content of the file about to be written
void previous(const std::string &p, size_t about) {
    int k = (int)pick_w("previous", {3, 1, 1, 1}); Rng r(derive("previous.x")); if (!k) return;
    std::string s(k == 1 ? 1 + r.below(64) : k == 2 ? about + 1 + r.below(500) : about, 'x'); for (auto &c : s) c = (char)r.next(); npy::spill(p, s);
}
int dim(const char *n) { return sized_pick(n, 0, 5, 12, 70); }
// mostly small; a few with a byte count that is a power of two, a few very long or very wide
void dims(size_t item, int &R, int &C) {
    R = dim("rows"); C = dim("cols"); int k = (int)pick_w("extent", {40, 1, 1, 1});
    if (k == 1) { int lg = (int)pick("log_bytes", 6, 17); size_t n = ((size_t)1 << lg) / item; int cl = (int)pick("log_cols", 0, 5); C = 1 << cl; if (n < (size_t)C) C = 1; R = (int)(n / C); }
    else if (k) { int n = (int)pick("long", 1, 5) == 1 ? (int)pick("length", 65530, 70000) : (int)pick("length", 100, 20000); R = k == 2 ? n : 1 + R % 3; C = k == 3 ? n : 1 + C % 3; }
}
template <typename F> bool attempt(F f, std::string &what) {   // true if it returned
    try { Sut s; f(); return true; } catch (const std::exception &e) { Oracle o; what = e.what(); return false; } catch (...) { fail("exception-type", "something that is not a std::exception was thrown"); }
}
template <typename S, int O> void array() {
    int R, C; dims(sizeof(S), R, C); auto m = bits_matrix<S, O>("bits", R, C);
    std::string p = "a.npy"; previous(p, (size_t)R * C * sizeof(S) + 80);
    bool stream = pick_p("stream", 0.2); std::string what; io_track(true); default_schedule();
    uint64_t f0 = npy::io_faults(); npy::pick_io_faults("save", false, true); 
    bool ok = attempt([&] { if (stream) { std::fstream o(p, std::ios::out | std::ios::binary); L::numpy_format::save(o, m); o.close(); if (!o) throw std::runtime_error("stream"); } else L::numpy_format::save(p, m); }, what);
    npy::no_io_faults(); bool faulty = npy::io_faults() != f0;
    std::string bytes;
    {
        Oracle o; bytes = npy::slurp(p); note("save %d %zu", ok, bytes.size());
        if (!ok && !faulty) fail("save:refused", "saving a %dx%d array of %s failed on a healthy disk: %s", R, C, npy::Descr<S>::name(), what.c_str());
        if (ok) {
            npy::Array a; size_t pos = 0; std::string e = npy::decode(bytes, pos, a);
            if (!e.empty()) fail(faulty ? "save:silent" : "save:malformed", "saving returned normally but the file is malformed: %s", e.c_str());
            if (pos != bytes.size()) fail("save:trailing", "the file has %zu bytes more than the array", bytes.size() - pos);
            if (a.descr != std::string(sizeof(S) == 1 ? a.descr.substr(0, 1) : "<") + npy::Descr<S>::name()) fail("save:descr", "saved with descr %s", a.descr.c_str());
            if (a.shape.size() != 2 || !npy::same(a, m)) fail("save:content", "saving returned normally but the file holds another array");
        }
        if (!ok) { probe(1); npy::spill(p, npy::encode(npy::make(m, false, O == 0))); } else probe(0);
    }
    f0 = npy::io_faults(); npy::pick_io_faults("load", true, false);
    Eigen::Matrix<S, -1, -1> b; bool as_row = pick_p("as_row", 0.3); Eigen::Matrix<S, -1, -1, Eigen::RowMajor> br;
    ok = attempt([&] { if (as_row) { L::numpy_format::NumpyInput<S> ni; std::ifstream i(p, std::ios::binary); i >> ni; br = ni; } else b = L::numpy_format::load<S>(p); }, what);
    npy::no_io_faults(); Oracle o; faulty = npy::io_faults() != f0; note("load %d", ok);
    if (!ok && !faulty) fail("load:refused", "loading a %dx%d array of %s failed on a healthy disk: %s", R, C, npy::Descr<S>::name(), what.c_str());
    if (ok) { Eigen::Matrix<S, -1, -1> mm = m; if (as_row) b = br; if (!bits_equal(b, mm)) fail(faulty ? "load:silent" : "load:content", "loading a %dx%d array of %s returned a different %dx%d array%s", R, C, npy::Descr<S>::name(), (int)b.rows(), (int)b.cols(), faulty ? " after a fault" : ""); }
    probe(ok ? 2 : 3);
}
template <int O> void array_of(int dt) {
    switch (dt) { case 0: array<double, O>(); break; case 1: array<int32_t, O>(); break; case 2: array<float, O>(); break; case 3: array<int64_t, O>(); break; case 4: array<int16_t, O>(); break; case 5: array<int8_t, O>(); break; case 6: array<uint8_t, O>(); break; case 7: array<uint16_t, O>(); break; case 8: array<uint32_t, O>(); break; default: array<uint64_t, O>(); }
}
// files written by others, whole and damaged
template <typename S> void foreign() {
    int R, C; dims(sizeof(S), R, C); auto m = bits_matrix<S, 0>("bits", R, C); int nd = (int)pick_w("ndim", {4, 2, 1, 1}); bool big = pick_p("big", 0.5), fo = pick_p("fortran", 0.5); int style = (int)pick("style", 0, 3);
    if (nd == 1) m = bits_matrix<S, 0>("bits", R, 1); if (nd == 2) m = bits_matrix<S, 0>("bits", 1, 1);
    npy::Array a = npy::make(m, big, fo, nd == 1); if (nd == 2) a.shape.clear();
    if (nd == 3) { int at = (int)pick("unit_axis", 1, 2); a.shape.insert(a.shape.begin() + at, 1); if (pick_p("unit_axis2", 0.3)) a.shape.push_back(1); }      // axes of length one leave no doubt about the matrix
    std::string f = npy::encode(a, style), good = f, p = "f.npy", what; int dmg = (int)pick_w("damage", {6, 4, 1, 1, 1, 1, 1}); Rng r(derive("damage.x")); bool must_fail = dmg != 0; bool write = true;
    switch (dmg) {
        case 1: f.resize((size_t)(r.next() % f.size())); break;                                             // cut off anywhere
        case 2: f[r.below(6)] ^= (char)(1 + r.below(255)); break;                                            // not an npy file
        case 3: f = npy::encode(a, style, 2 + r.below(2)); break;                                            // later version of the format
        case 4: { const char *o[] = {"f8", "i4", "f4", "u1", "c8", "i8", "b1"}; std::string d = o[r.below(7)]; if (d == npy::Descr<S>::name()) must_fail = false; else { npy::Array x = a; x.descr = "<" + d; f = npy::encode(x, style); } break; }   // other element type
        case 5: write = false; break;                                                                        // missing
        case 6: f.clear(); break;
    }
    if (write) npy::spill(p, f);
    io_track(true); default_schedule(); uint64_t f0 = npy::io_faults(); npy::pick_io_faults("load", true, false, 3);
    Eigen::Matrix<S, -1, -1> b; bool ok = attempt([&] { b = L::numpy_format::load<S>(p); }, what);
    npy::no_io_faults(); Oracle o; bool faulty = npy::io_faults() != f0; note("load %d damage %d", ok, dmg);
    if (ok && must_fail) fail("load:damaged", "loading returned an array from a file that is %s", dmg == 1 ? "cut off" : dmg == 2 ? "not in the format" : dmg == 3 ? "of another version" : dmg == 4 ? "of another element type" : dmg == 5 ? "missing" : "empty");
    if (!ok && !must_fail && !faulty) fail("load:refused", "loading a valid %s array (%d dimensions, style %d) failed: %s", a.descr.c_str(), (int)a.shape.size(), style, what.c_str());
    if (ok && !bits_equal(b, m)) fail(faulty ? "load:silent" : "load:content", "loading a %s array, fortran %d, returned other elements", a.descr.c_str(), fo);
    probe(must_fail ? 5 : 4);
}
void foreign_of(int dt) { switch (dt) { case 0: foreign<double>(); break; case 1: foreign<int32_t>(); break; case 2: foreign<float>(); break; case 3: foreign<int64_t>(); break; case 4: foreign<int16_t>(); break; case 5: foreign<int8_t>(); break; case 6: foreign<uint8_t>(); break; case 7: foreign<uint16_t>(); break; case 8: foreign<uint32_t>(); break; default: foreign<uint64_t>(); } }
}
SCENARIO("C08", c08_array, 4) { int dt = (int)pick("dtype", 0, 9); if (pick_p("row_major", 0.4)) array_of<Eigen::RowMajor>(dt); else array_of<0>(dt); }
SCENARIO("C08", c08_foreign, 4) { foreign_of((int)pick("dtype", 0, 9)); }
// several arrays of different types one after the other in one stream
SCENARIO("C08", c08_stream, 1) {
    int n = (int)pick("arrays", 1, 5); std::vector<int> type; std::vector<Eigen::MatrixXd> md; std::vector<MatrixXi> mi; std::vector<Eigen::MatrixXf> mf;
    for (int i = 0; i < n; i++) { std::string t = std::to_string(i); type.push_back((int)pick(("type" + t).c_str(), 0, 2)); int R = (int)pick(("r" + t).c_str(), 0, 6), C = (int)pick(("c" + t).c_str(), 0, 6); md.push_back(bits_matrix<double, 0>(("x" + t).c_str(), R, C)); mi.push_back(bits_matrix<int, 0>(("x" + t).c_str(), R, C)); mf.push_back(bits_matrix<float, 0>(("x" + t).c_str(), R, C)); }
    bool file = pick_p("file", 0.5); std::string what, bytes; io_track(true); default_schedule(); uint64_t f0 = npy::io_faults(); npy::pick_io_faults("save", false, true);
    auto put = [&](std::ostream &o) { for (int i = 0; i < n; i++) { if (type[i] == 0) o << L::numpy_format::NumpyOutput<double>(md[i]); else if (type[i] == 1) o << L::numpy_format::NumpyOutput<int>(mi[i]); else L::numpy_format::save(o, mf[i]); } };
    bool ok = attempt([&] { if (file) { std::ofstream o("s", std::ios::binary); put(o); o.close(); if (!o) throw std::runtime_error("stream"); } else { std::ostringstream o; put(o); Oracle q; npy::spill("s", o.str()); } }, what);
    npy::no_io_faults(); if (!ok) { Oracle o; if (npy::io_faults() == f0) fail("save:refused", "writing to a healthy stream failed: %s", what.c_str()); return; }
    f0 = npy::io_faults(); npy::pick_io_faults("load", true, false); std::vector<Eigen::MatrixXd> gd(n); std::vector<MatrixXi> gi(n); std::vector<Eigen::MatrixXf> gf(n);
    auto get = [&](std::istream &in) { for (int i = 0; i < n; i++) { if (type[i] == 0) gd[i] = L::numpy_format::load<double>(in); else if (type[i] == 1) { L::numpy_format::NumpyInput<int> ni; in >> ni; gi[i] = ni; } else gf[i] = L::numpy_format::load<float>(in); } };
    ok = attempt([&] { if (file) { std::ifstream in("s", std::ios::binary); get(in); } else { std::string b; { Oracle q; b = npy::slurp("s"); } std::istringstream in(b); get(in); } }, what);
    npy::no_io_faults(); Oracle o; bool faulty = npy::io_faults() != f0; note("stream %d", ok);
    if (!ok && !faulty) fail("load:refused", "reading arrays in sequence failed: %s", what.c_str());
    if (ok) for (int i = 0; i < n; i++) if (type[i] == 0 ? !bits_equal(gd[i], md[i]) : type[i] == 1 ? !bits_equal(gi[i], mi[i]) : !bits_equal(gf[i], mf[i])) fail(faulty ? "load:silent" : "load:content", "array %d of %d in one stream came back different", i, n);
    probe(6);
}
// model files
SCENARIO("C08", c08_model, 4) {
    Conf c; c.K = (int)pick("topics", 1, 6); c.V = sized_pick("vocab", 1, 8, 60, 700); c.C = (int)pick("classes", 1, 5); auto m = gen_model<double>("m", c); std::string p = "model", what;
    size_t about = 8 * (size_t)(c.K + c.K * c.V + c.K * c.C) + 240; int prev = (int)pick_w("was", {2, 1}); if (prev) { Conf o = c; o.K += 2; npy::spill(p, npy::encode_model(*gen_model<double>("old", o))); } else previous(p, about);
    io_track(true); default_schedule(); uint64_t f0 = npy::io_faults(); npy::pick_io_faults("save", false, true);
    auto keep = copy_model(*m); bool ok = attempt([&] { io::save_lda(p, m); }, what); npy::no_io_faults(); bool faulty = npy::io_faults() != f0; std::string bytes;
    {
        Oracle o; bytes = npy::slurp(p); note("save %d %zu", ok, bytes.size()); if (!model_bits_equal(*m, *keep)) fail("save:changed", "saving changed the model");
        if (!ok && !faulty) fail("save:refused", "saving a model failed on a healthy disk: %s", what.c_str());
        if (ok) { npy::ModelFile f; std::string e = npy::decode_model(bytes, f); if (!e.empty()) fail(faulty ? "save:silent" : "save:malformed", "saving a model returned normally but the file is malformed: %s", e.c_str()); if (!npy::same_model(f, *m)) fail("save:content", "saving a model returned normally but the file holds another model"); }
    }
    // what a reader makes of it: whole, as left by the failure, or cut off later
    int cut = (int)pick_w("cut", {3, 2}); bool whole = ok, was_whole = false;
    { Oracle o; if (!ok && pick_p("rewrite", 0.7)) { bytes = npy::encode_model(*m, (int)pick("style", 0, 1)); npy::spill(p, bytes); whole = true; } if (whole && cut && bytes.size()) { bytes.resize((size_t)(derive("cut.x") % bytes.size())); npy::spill(p, bytes); whole = false; was_whole = true; } }
    f0 = npy::io_faults(); npy::pick_io_faults("load", true, false); std::shared_ptr<SModel<double>> g; ok = attempt([&] { g = io::load_lda(p); }, what); npy::no_io_faults(); Oracle o; faulty = npy::io_faults() != f0; note("load %d", ok);
    if (!ok && whole && !faulty) fail("load:refused", "loading a model failed on a healthy disk: %s", what.c_str());
    if (ok) {
        if (!g) fail("load:null", "loading returned no model");
        if (!whole) {   // cut short anywhere, or as the failed save left it (which may be anything, but a beginning of the model is not the model)
            npy::ModelFile f; bool sound = npy::decode_model(bytes, f).empty(), begun = cut && was_whole;
            if (!begun && !sound) { std::string all; if (attempt([&] { io::save_lda("complete", m); }, what)) all = npy::slurp("complete"); begun = all.size() > bytes.size() && all.compare(0, bytes.size(), bytes) == 0; }
            if (begun ? true : sound && !npy::same_model(f, *g)) fail("load:damaged", "loading returned a model from an incomplete file");
        }
        else if (!model_bits_equal(*g, *m)) fail(faulty ? "load:silent" : "load:content", "loading returned another model");
    }
    probe(ok ? 7 : 8);
}
// training data
SCENARIO("C08", c08_data, 2) {
    int V = sized_pick("vocab", 1, 8, 60, 300), D = sized_pick("docs", 1, 8, 30, 200), C = (int)pick("classes", 1, 4); Data d = gen_data("d", D, V, C); int ny = (int)pick_w("label_count", {8, 1, 1}); if (ny) { VectorXi y2 = VectorXi::Zero(ny == 1 ? D + (int)pick("more_labels", 1, 9) : std::max(1, D / 2)); for (int i = 0; i < y2.size(); i++) y2[i] = i % C; d.y = y2; } bool lab = pick_p("labels", 0.6), big = pick_p("big", 0.3), fo = pick_p("fortran", 0.6), one_d = pick_p("y1d", 0.6); int style = (int)pick("style", 0, 3);
    std::string f = npy::encode(npy::make(d.X, big, fo), style); size_t xlen = f.size(); MatrixXi ym = d.y; if (lab) f += npy::encode(npy::make(ym, big, fo, one_d), style);
    int dmg = (int)pick_w("damage", {3, 2, 1}); bool bad = false; if (dmg == 1) { f.resize((size_t)(derive("cut") % f.size())); bad = true; } if (dmg == 2 && lab) { f.resize(xlen); bad = true; } npy::spill("data", f);
    io_track(true); default_schedule(); uint64_t f0 = npy::io_faults(); npy::pick_io_faults("load", true, false, 2); MatrixXi X, y; std::string what;
    bool ok = attempt([&] { if (lab) io::parse_input_data("data", X, y); else io::parse_input_data("data", X); }, what); npy::no_io_faults(); Oracle o; bool faulty = npy::io_faults() != f0; note("data %d", ok);
    if (ok && bad) fail("load:damaged", "training data was read from a file that is cut off");
    bool odd = lab && d.y.size() != D;      // may be refused, may not be altered
    if (!ok && !bad && !faulty && !odd) fail("load:refused", "valid training data was refused: %s", what.c_str());
    if (ok && (!bits_equal(X, d.X) || (lab && !bits_equal(y, ym)))) fail(faulty ? "load:silent" : "load:content", "the training data read differs from the file");
    if (npy::slurp("data") != f) fail("load:wrote", "reading the data modified its file");
    probe(9);
}
