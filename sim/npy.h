// An independent codec of the npy format (version 1) and raw file helpers; no code of the repository.
#pragma once
#include "scn.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
namespace npy {
struct Array { std::string descr; bool fortran = true; std::vector<size_t> shape; std::string bytes; size_t count() const { size_t n = 1; for (auto d : shape) n *= d; return n; } };
inline int item_size(const std::string &descr) { return descr.size() == 3 ? descr[2] - '0' : 0; }
// style: 0 as numpy 1.x writes it, 1 as newer numpy (64 byte alignment), 2 without trailing comma, 3 large header
inline std::string encode(const Array &a, int style = 0, int major = 1) {
    std::string sh; for (size_t i = 0; i < a.shape.size(); i++) sh += std::to_string(a.shape[i]) + (i + 1 < a.shape.size() ? ", " : a.shape.size() == 1 ? "," : "");
    std::string h = "{'descr': '" + a.descr + "', 'fortran_order': " + (a.fortran ? "True" : "False") + ", 'shape': (" + sh + ")" + (style == 2 ? "" : ", ") + "}";
    size_t al = style == 0 ? 16 : 64, pre = major == 1 ? 10 : 12; if (style == 3) h += std::string(3000, ' ');
    while ((pre + h.size() + 1) % al) h += ' ';
    h += '\n';
    std::string r("\x93NUMPY", 6); r += (char)major; r += (char)0; r += (char)(h.size() & 255); r += (char)(h.size() >> 8 & 255); if (major > 1) { r += (char)0; r += (char)0; }
    return r + h + a.bytes;
}
// strict reader of one array starting at pos; "" or what is wrong
inline std::string decode(const std::string &f, size_t &pos, Array &a) {
    if (f.size() < pos + 10) return "no room for the magic string";
    if (f.compare(pos, 6, std::string("\x93NUMPY", 6))) return "no magic string";
    if (f[pos + 6] != 1 || f[pos + 7] != 0) return "not version 1.0";
    size_t hl = (uint8_t)f[pos + 8] | (size_t)(uint8_t)f[pos + 9] << 8; if (f.size() < pos + 10 + hl) return "header cut off";
    std::string h = f.substr(pos + 10, hl); if (h.empty() || h.back() != '\n') return "header without a final newline"; if ((10 + hl) % 16) return "header not aligned to 16 bytes";
    size_t i = 0; auto ws = [&] { while (i < h.size() && h[i] == ' ') i++; }; auto eat = [&](const char *s) { ws(); size_t n = strlen(s); if (h.compare(i, n, s)) return false; i += n; return true; };
    bool got[3] = {false, false, false}; if (!eat("{")) return "header is not a dictionary";
    for (;;) {
        if (eat("}")) break;
        if (eat("'descr'")) { if (!eat(":") || !eat("'")) return "bad descr"; size_t e = h.find('\'', i); if (e == std::string::npos) return "bad descr"; a.descr = h.substr(i, e - i); i = e + 1; got[0] = true; }
        else if (eat("'fortran_order'")) { if (!eat(":")) return "bad order"; if (eat("True")) a.fortran = true; else if (eat("False")) a.fortran = false; else return "bad order"; got[1] = true; }
        else if (eat("'shape'")) {
            if (!eat(":") || !eat("(")) return "bad shape"; a.shape.clear();
            for (;;) { if (eat(")")) break; ws(); size_t n = 0, st = i; while (i < h.size() && isdigit(h[i])) n = n * 10 + (size_t)(h[i++] - '0'); if (i == st) return "bad shape"; a.shape.push_back(n); if (!eat(",")) { if (!eat(")")) return "bad shape"; break; } }
            got[2] = true;
        } else return "unknown key in the header";
        if (!eat(",")) { if (!eat("}")) return "header dictionary not closed"; break; }
    }
    if (!got[0] || !got[1] || !got[2]) return "header misses a key";
    for (; i + 1 < h.size(); i++) if (h[i] != ' ') return "header with trailing text";
    int is = item_size(a.descr); if (is < 1 || is > 8) return "unknown descr " + a.descr;
    size_t nb = a.count() * (size_t)is; pos += 10 + hl; if (f.size() < pos + nb) return "data cut off"; a.bytes = f.substr(pos, nb); pos += nb; return "";
}
template <typename S> struct Descr; 
#define D_(T, n) template <> struct Descr<T> { static const char *name() { return n; } };
D_(int8_t, "i1") D_(int16_t, "i2") D_(int32_t, "i4") D_(int64_t, "i8") D_(uint8_t, "u1") D_(uint16_t, "u2") D_(uint32_t, "u4") D_(uint64_t, "u8") D_(float, "f4") D_(double, "f8")
#undef D_
// element (i, j) of a two dimensional array in native order
template <typename S> S item(const Array &a, size_t i, size_t j) {
    size_t R = a.shape.empty() ? 1 : a.shape[0], C = 1; for (size_t k = 1; k < a.shape.size(); k++) C *= a.shape[k];
    char b[sizeof(S)]; memcpy(b, a.bytes.data() + sizeof(S) * (a.fortran ? j * R + i : i * C + j), sizeof(S)); if (a.descr[0] == '>') std::reverse(b, b + sizeof(S)); S v; memcpy(&v, b, sizeof(S)); return v;
}
// the array a matrix should be stored as, in any of the representations
template <typename M> Array make(const M &m, bool big, bool fortran, bool one_d = false) {
    typedef typename M::Scalar S; Array a; a.descr = std::string(sizeof(S) == 1 ? "|" : big ? ">" : "<") + Descr<S>::name(); a.fortran = fortran; a.shape = {(size_t)m.rows()}; if (!one_d) a.shape.push_back((size_t)m.cols());
    auto put = [&](S v) { char b[sizeof(S)]; memcpy(b, &v, sizeof(S)); if (big) std::reverse(b, b + sizeof(S)); a.bytes.append(b, sizeof(S)); };
    if (fortran) for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) put(m(i, j)); else for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) put(m(i, j));
    return a;
}
template <typename M> bool same(const Array &a, const M &m) {
    typedef typename M::Scalar S; if (a.descr.substr(1) != Descr<S>::name()) return false;
    size_t R = a.shape.empty() ? 1 : a.shape[0], C = 1; for (size_t k = 1; k < a.shape.size(); k++) C *= a.shape[k]; if ((size_t)m.rows() != R || (size_t)m.cols() != C) return false;
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) { S x = item<S>(a, i, j), y = m(i, j); if (memcmp(&x, &y, sizeof(S))) return false; }
    return true;
}
// ------------------------------------------------------------------ files, below the simulation
inline std::string slurp(const std::string &p, bool *ok = nullptr) {
    std::string r; int fd = ::open(p.c_str(), O_RDONLY); if (ok) *ok = fd >= 0; if (fd < 0) return r;
    char b[4096]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); ::close(fd); return r;
}
inline void spill(const std::string &p, const std::string &s) { int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0) sim::fail("error:scratch", "cannot create %s", p.c_str()); for (size_t o = 0; o < s.size();) { ssize_t n = ::write(fd, s.data() + o, s.size() - o); if (n <= 0) sim::fail("error:scratch", "cannot write %s", p.c_str()); o += (size_t)n; } ::close(fd); }
inline std::vector<std::string> files(const std::string &d = ".") { std::vector<std::string> v; DIR *D = opendir(d.c_str()); if (!D) return v; while (struct dirent *e = readdir(D)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(D); std::sort(v.begin(), v.end()); return v; }
// a model file: alpha, beta, eta one after the other and nothing else
struct ModelFile { Array alpha, beta, eta; };
inline std::string decode_model(const std::string &f, ModelFile &m) { size_t p = 0; std::string e; if (!(e = decode(f, p, m.alpha)).empty()) return "alpha: " + e; if (!(e = decode(f, p, m.beta)).empty()) return "beta: " + e; if (!(e = decode(f, p, m.eta)).empty()) return "eta: " + e; return p == f.size() ? "" : "text after the model"; }
inline bool same_model(const ModelFile &f, const SModel<double> &m) { return same(f.alpha, m.alpha) && same(f.beta, m.beta) && same(f.eta, m.eta); }
inline std::string encode_model(const SModel<double> &m, int style = 0) { return encode(make(m.alpha, false, true), style) + encode(make(m.beta, false, true), style) + encode(make(m.eta, false, true), style); }
inline std::string encode_data(const MatrixXi &X, const VectorXi *y, bool big = false, bool fortran = true, int style = 0) { std::string s = encode(make(X, big, fortran), style); if (y) s += encode(make(*y, big, fortran, true), style); return s; }
inline uint64_t io_faults() { return sim::sh->fault_fired[sim::K_OPEN] + sim::sh->fault_fired[sim::K_READ] + sim::sh->fault_fired[sim::K_WRITE] + sim::sh->fault_fired[sim::K_CLOSE] + sim::sh->fault_fired[sim::K_META]; }
// one planned fault, or a rate of faults, or none
inline void pick_io_faults(const std::string &t, bool reads, bool writes, int none = 1) {
    int mode = (int)sim::pick_w((t + ".mode").c_str(), {none, 3, 2});
    static const int kinds[] = {sim::K_OPEN, sim::K_READ, sim::K_WRITE, sim::K_CLOSE, sim::K_META};
    if (mode == 1) { int k = (int)sim::pick_w((t + ".kind").c_str(), {2, reads ? 4 : 0, writes ? 5 : 0, writes ? 2 : 1, 1}); sim::set_fault_at(kinds[k], sim::fault_index(kinds[k]) + (uint32_t)sim::pick((t + ".at").c_str(), 0, 5), (uint32_t)sim::pick((t + ".how").c_str(), 1, 5)); }
    if (mode == 2) { static const double p[] = {0.02, 0.1, 0.4}; double r = p[sim::pick((t + ".rate").c_str(), 0, 2)]; for (int k : kinds) sim::set_fault_prob(k, r); }
}
inline void no_io_faults() { sim::clear_planned_faults(); for (int k : {sim::K_OPEN, sim::K_READ, sim::K_WRITE, sim::K_CLOSE, sim::K_META}) sim::set_fault_prob(k, 0); }
}
