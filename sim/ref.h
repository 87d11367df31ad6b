// Small executable reference model of the EM variants: plain loops over doubles, no Eigen, no code
// of the repository. `ambiguous` is set when a discrete decision (convergence test, line search,
// table look-up) is so close that rounding may take it the other way; such results are not compared.
#pragma once
#include <vector>
namespace ref {
typedef std::vector<double> Vec;
enum Variant { UNSUP, SLDA, FSLDA, FSLDA_DECAY, MULTI, CORR, SEMI, ONLINE, NVARIANTS };
extern const char *variant_names[NVARIANTS];
struct Model { int K = 0, V = 0, C = 0; Vec alpha, beta, eta; };   // beta[k*V+w], eta[k*C+c]
struct Conf {
    int variant = UNSUP; int e_it = 10; double e_tol = 1e-2; int fp_it = 10; double Cw = 1; double mu = 2, etaw = 1; double like = 1; int like_seed = 0;
    int m_it = 10; double m_tol = 1e-2; double L = 1e-2; bool decay = false; int batch = 8; double mom = 0.9, lr = 0.01, bw = 0.9;
};
struct Doc { std::vector<int> X; int y = 0; };
struct VP { Vec gamma, phi, tau; double lik = 0; bool ambiguous = false; };
double fast_exp(double x, bool &amb);
double digamma(double x);
// epochs: number of completed epochs of the E-step object; corpus_size/prior_y only matter for likelihoods
VP e_step(const Conf &c, const Model &m, const Doc &d, int epochs, int corpus_size, double prior_y);
// Batch maximisation over all documents of an epoch; reported = values of the maximisation events.
void m_step(const Conf &c, const std::vector<Doc> &docs, const std::vector<VP> &vps, Model &m, Vec *reported, bool *ambiguous);
struct Online {
    Conf c; Vec weights; Vec b, vel; std::vector<Vec> z; std::vector<int> y;
    // returns true if the model was updated; then *reported is the event's value
    bool consume(const Doc &d, const VP &vp, Model &m, double *reported);
};
}
