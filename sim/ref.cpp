#include "ref.h"
#include <cmath>
#include <algorithm>
namespace ref {
const char *variant_names[NVARIANTS] = {"unsupervised", "supervised", "fast", "fast-decay", "multinomial", "correspondence", "semi", "online"};
double fast_exp(double x, bool &amb) {
    if (x < 0) return 1 / fast_exp(-x, amb);
    if (x > 100) return std::exp(x);
    if (std::fabs(x - 100) < 1e-9) amb = true;
    int n = 0; while (x >= 1) { x /= 2; n++; }
    double f = x * 1024, r = std::floor(f + 0.5);
    if (std::fabs(f - r) < 1e-9 && r != 0) amb = true;
    double v = std::exp((int)f / 1023.0);
    while (n-- > 0) v *= v;
    return v;
}
double digamma(double x) {
    double r = 0; for (; x < 7; x += 1) r -= 1 / x;
    x -= 0.5; double i2 = 1 / (x * x);
    return r + std::log(x) + i2 * (1. / 24 + i2 * (-7. / 960 + i2 * (31. / 8064 - i2 * 127. / 30720)));
}
static bool stop(const Vec &a, const Vec &b, double tol, bool &amb) {
    double s = 0; for (size_t i = 0; i < a.size(); i++) s += std::fabs(a[i] - b[i]);
    s /= b.size(); if (std::fabs(s - tol) < 1e-8 * (1 + std::fabs(tol)) && tol > 0) amb = true;
    if (tol == 0 && s == 0) return false;
    return s < tol;
}
static void norm_cols(Vec &p, int K, int V) { for (int w = 0; w < V; w++) { double s = 0; for (int k = 0; k < K; k++) s += p[k * V + w]; if (s != 0) for (int k = 0; k < K; k++) p[k * V + w] /= s; } }
static void set_gamma(const Model &m, const Doc &d, VP &v) { v.gamma = m.alpha; for (int w = 0; w < m.V; w++) if (d.X[w]) for (int k = 0; k < m.K; k++) v.gamma[k] += d.X[w] * v.phi[k * m.V + w]; }
static double lik_unsup(const Model &m, const Doc &d, const VP &v) {
    int K = m.K, V = m.V; double sg = 0, sa = 0; for (int k = 0; k < K; k++) { sg += v.gamma[k]; sa += m.alpha[k]; }
    double dg = digamma(sg), L = std::lgamma(sa) - std::lgamma(sg);
    for (int k = 0; k < K; k++) {
        double t = digamma(v.gamma[k]) - dg;
        L += (m.alpha[k] - 1) * t - std::lgamma(m.alpha[k]) - (v.gamma[k] - 1) * t + std::lgamma(v.gamma[k]);
        for (int w = 0; w < V; w++) if (d.X[w]) { double p = v.phi[k * V + w]; L += p * t + p * d.X[w] * std::log(m.beta[k * V + w] + 1e-44) - p * std::log(p + 1e-44); }
    }
    return L;
}
static int total(const Doc &d) { int s = 0; for (int x : d.X) s += x; return s; }
static double ratio(const Doc &d, int w, int N) { return (double)d.X[w] / N; }

static void unsup_phi(const Model &m, VP &v) {
    for (int k = 0; k < m.K; k++) { double e = fast_exp(digamma(v.gamma[k]), v.ambiguous); for (int w = 0; w < m.V; w++) v.phi[k * m.V + w] = m.beta[k * m.V + w] * e; }
    norm_cols(v.phi, m.K, m.V);
}
VP e_step(const Conf &c, const Model &m, const Doc &d, int epochs, int D, double prior) {
    int K = m.K, V = m.V, C = m.C, N = total(d), var = c.variant;
    if (var == SEMI) var = d.y < 0 ? UNSUP : c.decay ? FSLDA_DECAY : FSLDA;
    if (var == ONLINE) var = FSLDA;
    VP v; v.phi.assign((size_t)K * V, 1.0 / K); v.gamma = m.alpha; for (auto &g : v.gamma) g += (double)N / K;
    if (var == CORR) v.tau.assign(V, 1.0 / V);
    Vec old(K, 0.0), h(K, 0.0);
    auto E = [&](int k, int cc) { return m.eta[k * C + cc]; };
    bool ran = false;
    for (int it = 0; it < c.e_it; it++) {
        if (stop(old, v.gamma, c.e_tol, v.ambiguous)) break;
        old = v.gamma; ran = true;
        if (var == UNSUP) { unsup_phi(m, v); set_gamma(m, d, v); }
        else if (var == FSLDA || var == FSLDA_DECAY) {
            double wgt = var == FSLDA ? c.Cw : std::pow(c.Cw, epochs);
            if (N) {
                Vec z(K, 0.0), s(C); for (int w = 0; w < V; w++) if (d.X[w]) for (int k = 0; k < K; k++) z[k] += ratio(d, w, N) * v.phi[k * V + w];
                double tot = 0; for (int q = 0; q < C; q++) { double t = 0; for (int k = 0; k < K; k++) t += E(k, q) * z[k]; s[q] = fast_exp(t, v.ambiguous); tot += s[q]; }
                for (auto &x : s) x /= tot;
                double mx = *std::max_element(m.eta.begin(), m.eta.end()), sc = mx > 0 ? mx : 1;
                // weights that are nothing but rounding noise are scaled up to the size of real ones
                if (mx < 1e-8) for (double x : m.eta) if (x != 0) v.ambiguous = true;
                for (int k = 0; k < K; k++) {
                    double t = E(k, d.y) / sc; for (int q = 0; q < C; q++) t -= E(k, q) / sc * s[q];
                    double e = fast_exp(digamma(v.gamma[k]) + wgt * t, v.ambiguous);
                    for (int w = 0; w < V; w++) v.phi[k * V + w] = m.beta[k * V + w] * e;
                }
                norm_cols(v.phi, K, V);
            }
            set_gamma(m, d, v);
        } else if (var == MULTI) {
            double sg = 0; for (double g : v.gamma) sg += g; double t2 = digamma(sg) + 1;
            for (int k = 0; k < K; k++) { double e = fast_exp(c.etaw * std::log(E(k, d.y)) + digamma(v.gamma[k]) - t2, v.ambiguous); for (int w = 0; w < V; w++) v.phi[k * V + w] = m.beta[k * V + w] * e; }
            norm_cols(v.phi, K, V); set_gamma(m, d, v);
        } else if (var == CORR) {
            for (int k = 0; k < K; k++) { double e = fast_exp(digamma(v.gamma[k]), v.ambiguous); for (int w = 0; w < V; w++) v.phi[k * V + w] = m.beta[k * V + w] * e * fast_exp(std::log(E(k, d.y)) * v.tau[w], v.ambiguous); }
            norm_cols(v.phi, K, V);
            double s = 0; for (int w = 0; w < V; w++) { double t = 0; for (int k = 0; k < K; k++) t += v.phi[k * V + w] * std::log(E(k, d.y)); v.tau[w] = fast_exp(t, v.ambiguous); s += v.tau[w]; }
            if (s != 0) for (auto &t : v.tau) t /= s;
            set_gamma(m, d, v);
        } else {  // SLDA
            Vec prod(C, 1.0);
            auto ex = [&](int w, int k, int q) { return fast_exp(E(k, q) * ratio(d, w, N), v.ambiguous); };
            for (int w = 0; w < V; w++) if (d.X[w]) for (int q = 0; q < C; q++) { double t = 0; for (int k = 0; k < K; k++) t += ex(w, k, q) * v.phi[k * V + w]; prod[q] *= t; }
            Vec psi(K); for (int k = 0; k < K; k++) psi[k] = digamma(v.gamma[k]);
            for (int w = 0; w < V; w++) if (d.X[w]) {
                Vec x((size_t)K * C); for (int k = 0; k < K; k++) for (int q = 0; q < C; q++) x[k * C + q] = ex(w, k, q);
                for (int q = 0; q < C; q++) { double t = 0; for (int k = 0; k < K; k++) t += x[k * C + q] * v.phi[k * V + w]; prod[q] /= t; }
                for (int k = 0; k < K; k++) { h[k] = 0; for (int q = 0; q < C; q++) h[k] += x[k * C + q] * prod[q]; }
                Vec was(K); for (int k = 0; k < K; k++) was[k] = v.phi[k * V + w];
                for (int i = 0; i < c.fp_it; i++) {
                    double hp = 0; for (int k = 0; k < K; k++) hp += h[k] * v.phi[k * V + w];
                    double t = 1. / hp / d.X[w], s = 0;
                    for (int k = 0; k < K; k++) { double p = m.beta[k * V + w] * fast_exp(psi[k] + ratio(d, w, N) * E(k, d.y) - h[k] * t, v.ambiguous); v.phi[k * V + w] = p; s += p; }
                    if (!(s > 0)) { for (int k = 0; k < K; k++) v.phi[k * V + w] = was[k]; break; }
                    if (s < 1e-290) v.ambiguous = true;
                    for (int k = 0; k < K; k++) v.phi[k * V + w] /= s;
                }
                for (int q = 0; q < C; q++) { double t = 0; for (int k = 0; k < K; k++) t += x[k * C + q] * v.phi[k * V + w]; prod[q] *= t; }
                for (int k = 0; k < K; k++) { v.gamma[k] += d.X[w] * (v.phi[k * V + w] - was[k]); psi[k] = digamma(v.gamma[k]); }
            }
        }
    }
    // likelihood
    double L = lik_unsup(m, d, v);
    bool dummy = false;
    if (var == SLDA || var == FSLDA || var == FSLDA_DECAY) {
        int last = -1; for (int w = 0; w < V; w++) if (d.X[w]) last = w;
        if (last < 0) { }
        else {
            if (var != SLDA || !ran) {
                Vec prod(C, 1.0); for (int w = 0; w < V; w++) if (d.X[w] && w != last) for (int q = 0; q < C; q++) { double t = 0; for (int k = 0; k < K; k++) t += fast_exp(E(k, q) * ratio(d, w, N), v.ambiguous) * v.phi[k * V + w]; prod[q] *= t; }
                for (int k = 0; k < K; k++) { h[k] = 0; for (int q = 0; q < C; q++) h[k] += fast_exp(E(k, q) * ratio(d, last, N), v.ambiguous) * prod[q]; }
            }
            double a = 0, hp = 0; for (int k = 0; k < K; k++) { for (int w = 0; w < V; w++) a += E(k, d.y) * v.phi[k * V + w] * d.X[w]; hp += h[k] * v.phi[k * V + last]; }
            L += a / N - std::log(hp);
        }
    } else if (var == MULTI || var == CORR) {
        double p = 1.0 / D;
        for (int k = 0; k < K; k++) for (int w = 0; w < V; w++) L += v.phi[k * V + w] * d.X[w] * (var == CORR ? v.tau[w] : 1.0) * std::log(E(k, d.y));
        if (var == MULTI) L -= (N - 1) * std::log(prior);
        else { for (int w = 0; w < V; w++) L -= v.tau[w] * d.X[w] * std::log(v.tau[w] + 1e-44); L -= std::log((double)N); }
        for (double e : m.eta) L += p * (c.mu - 1) * std::log(e);
        L += p * (std::lgamma(C * c.mu) - C * std::lgamma(c.mu));
    }
    (void)dummy; v.lik = L; return v;
}

// ---- objectives: second order (with variance) or plain multinomial logistic regression
struct Obj { int K, C; double L; const std::vector<Vec> *z; const std::vector<Vec> *var; const std::vector<int> *y; Vec Cy; };
static double top_score(const Obj &o, const Vec &eta, size_t d) { double m = -INFINITY; for (int q = 0; q < o.C; q++) { double t = 0; for (int k = 0; k < o.K; k++) t += eta[k * o.C + q] * (*o.z)[d][k]; m = std::max(m, t); } return m; }
static double value(const Obj &o, const Vec &eta) {
    double s = 0;
    for (size_t d = 0; d < o.y->size(); d++) {
        double den = 0, ty = 0, m = top_score(o, eta, d);
        for (int q = 0; q < o.C; q++) {
            double t = 0; for (int k = 0; k < o.K; k++) t += eta[k * o.C + q] * (*o.z)[d][k];
            double f = 1; if (o.var) { double e = 0; for (int i = 0; i < o.K; i++) for (int j = 0; j < o.K; j++) e += eta[i * o.C + q] * (*o.var)[d][i * o.K + j] * eta[j * o.C + q]; f += 0.5 * e; }
            den += std::exp(t - m) * f; if (q == (*o.y)[d]) ty = t;
        }
        s += o.Cy[(*o.y)[d]] * (ty - m - std::log(den));
    }
    double n = 0; for (double e : eta) n += e * e;
    return -s + o.L * n / 2;
}
static Vec gradient(const Obj &o, const Vec &eta) {
    Vec g((size_t)o.K * o.C, 0.0);
    for (size_t d = 0; d < o.y->size(); d++) {
        const Vec &z = (*o.z)[d]; int y = (*o.y)[d]; double cy = o.Cy[y], den = 0, m = top_score(o, eta, d); Vec e(o.C), f(o.C, 1.0), ve((size_t)o.K * o.C, 0.0);
        for (int q = 0; q < o.C; q++) {
            double t = 0; for (int k = 0; k < o.K; k++) t += eta[k * o.C + q] * z[k];
            e[q] = std::exp(t - m);
            if (o.var) { double s = 0; for (int i = 0; i < o.K; i++) { double a = 0; for (int j = 0; j < o.K; j++) a += 0.5 * ((*o.var)[d][i * o.K + j] + (*o.var)[d][j * o.K + i]) * eta[j * o.C + q]; ve[i * o.C + q] = a; s += a * eta[i * o.C + q]; } f[q] += 0.5 * s; }
            den += e[q] * f[q];
        }
        for (int k = 0; k < o.K; k++) { g[k * o.C + y] -= cy * z[k]; for (int q = 0; q < o.C; q++) g[k * o.C + q] += cy / den * (z[k] * e[q] * f[q] + ve[k * o.C + q] * e[q]); }
    }
    for (size_t i = 0; i < g.size(); i++) g[i] += o.L * eta[i];
    return g;
}
static void class_weights(Obj &o) {
    int C = 0; for (int y : *o.y) C = std::max(C, y + 1);
    o.Cy.assign(C, 0.0); for (int y : *o.y) o.Cy[y] += 1;
    for (auto &x : o.Cy) x = (double)o.y->size() / (x * C);
}
static void minimise(const Obj &o, const Conf &c, Vec &eta, Vec *rep, bool *amb) {
    double v = value(o, eta), init = INFINITY; int it = 0;
    for (;;) {
        if (rep) rep->push_back(-v);
        double imp = (init - v) / v; init = v;
        if (it < c.m_it && std::fabs(imp - c.m_tol) < 1e-7) *amb = true;
        if (!(it++ < c.m_it && imp > c.m_tol)) break;
        Vec g = gradient(o, eta); double v0 = value(o, eta), dec = 0; for (double x : g) dec += x * x; dec *= 0.001;
        double a = 2, x = v0; Vec t = eta; int guard = 0;
        if (dec < 1e-13 * (1 + std::fabs(v0))) *amb = true;
        while (x > v0 - a * dec) { a *= 0.5; for (size_t i = 0; i < t.size(); i++) t[i] = eta[i] - a * g[i]; x = value(o, t); if (std::fabs(x - (v0 - a * dec)) < 1e-10 * (1 + std::fabs(v0))) *amb = true; if (++guard > 200) break; }
        for (size_t i = 0; i < t.size(); i++) eta[i] -= a * g[i];
        v = x;
    }
}
void m_step(const Conf &c, const std::vector<Doc> &docs, const std::vector<VP> &vps, Model &m, Vec *rep, bool *amb) {
    int K = m.K, V = m.V, C = m.C; Vec b((size_t)K * V, 0.0), h((size_t)K * C, 0.0); double log_py = 0;
    for (size_t i = 0; i < docs.size(); i++) {
        for (int k = 0; k < K; k++) {
            double s = 0;
            for (int w = 0; w < V; w++) { double x = vps[i].phi[k * V + w] * docs[i].X[w] * (c.variant == CORR ? vps[i].tau[w] : 1.0); b[k * V + w] += x; s += x; }
            if (c.variant == MULTI || c.variant == CORR) { h[k * C + docs[i].y] += s; log_py += s * std::log(m.eta[k * C + docs[i].y]); }
        }
    }
    for (int k = 0; k < K; k++) { double s = 0; for (int w = 0; w < V; w++) s += b[k * V + w]; if (s > 0 && s < 1e-290) *amb = true; if (s > 0) for (int w = 0; w < V; w++) m.beta[k * V + w] = b[k * V + w] / s; }
    if (c.variant == UNSUP) return;
    if (c.variant == MULTI || c.variant == CORR) {
        for (int k = 0; k < K; k++) { double s = 0; for (int q = 0; q < C; q++) { m.eta[k * C + q] = h[k * C + q] + c.mu - 1; s += m.eta[k * C + q]; } if (s != 0) for (int q = 0; q < C; q++) m.eta[k * C + q] /= s; }
        if (rep) rep->push_back(log_py);
        return;
    }
    std::vector<Vec> z, var; std::vector<int> y;
    for (size_t i = 0; i < docs.size(); i++) {
        if (c.variant == SEMI && docs[i].y < 0) continue;
        Vec t(K); double s = 0; for (int k = 0; k < K; k++) { t[k] = vps[i].gamma[k] - m.alpha[k]; s += t[k]; }
        int N = total(docs[i]);
        if (c.variant == SLDA) s = N;
        if (s != 0) for (auto &x : t) x /= s; else for (auto &x : t) x = 0;
        z.push_back(t); y.push_back(docs[i].y);
        if (c.variant == SLDA) {
            Vec M((size_t)K * K, 0.0);
            if (N) for (int a = 0; a < K; a++) for (int e = 0; e < K; e++) { double q = 0; for (int w = 0; w < V; w++) q += vps[i].phi[a * V + w] * docs[i].X[w] * vps[i].phi[e * V + w] * docs[i].X[w]; M[a * K + e] = q / ((double)N * N); }
            var.push_back(M);
        }
    }
    Obj o{K, C, c.L, &z, c.variant == SLDA ? &var : nullptr, &y, Vec()}; class_weights(o);
    minimise(o, c, m.eta, rep, amb);
}
bool Online::consume(const Doc &d, const VP &vp, Model &m, double *rep) {
    int K = m.K, V = m.V, C = m.C;
    if (b.empty()) { b.assign((size_t)K * V, 0.0); vel.assign((size_t)K * C, 0.0); }
    for (int k = 0; k < K; k++) for (int w = 0; w < V; w++) b[k * V + w] += vp.phi[k * V + w] * d.X[w];
    Vec t(K); double s = 0; for (int k = 0; k < K; k++) { t[k] = vp.gamma[k] - m.alpha[k]; s += t[k]; }
    if (s != 0) for (auto &x : t) x /= s; else for (auto &x : t) x = 0;
    z.push_back(t); y.push_back(d.y);
    if ((int)z.size() < c.batch) return false;
    for (int k = 0; k < K; k++) { double r = 0; for (int w = 0; w < V; w++) r += b[k * V + w]; if (r > 0) for (int w = 0; w < V; w++) m.beta[k * V + w] = c.bw * m.beta[k * V + w] + (1 - c.bw) * b[k * V + w] / r; }
    Obj o{K, C, c.L, &z, nullptr, &y, weights};
    Vec g = gradient(o, m.eta);
    for (size_t i = 0; i < g.size(); i++) { vel[i] = c.mom * vel[i] - c.lr * g[i]; m.eta[i] += vel[i]; }
    if (rep) *rep = -value(o, m.eta);
    z.clear(); y.clear();
    return true;
}
}
