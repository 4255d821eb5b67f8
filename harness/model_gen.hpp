// Generators and reference mathematics shared by the model harnesses.
#ifndef MODEL_GEN_HPP
#define MODEL_GEN_HPP
#include "pbt.hpp"
#include <memory>
#include <Eigen/Core>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/Parameters.hpp"
#include "ldaplusplus/events/Events.hpp"
#include "ldaplusplus/events/ProgressEvents.hpp"
#include "ldaplusplus/em/UnsupervisedEStep.hpp"
#include "ldaplusplus/em/SupervisedEStep.hpp"
#include "ldaplusplus/em/FastSupervisedEStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedEStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedEStep.hpp"
#include "ldaplusplus/em/SemiSupervisedEStep.hpp"

using namespace Eigen;
using namespace ldaplusplus;
using pbt::Case;
typedef long double LD;
typedef Matrix<LD, Dynamic, Dynamic> ML;
typedef Matrix<LD, Dynamic, 1> VL;
template <typename S> using MX = Matrix<S, Dynamic, Dynamic>;
template <typename S> using VX = Matrix<S, Dynamic, 1>;

// reference digamma: recurrence up to 20, then the asymptotic series
inline LD ref_digamma(LD x) {
    LD r = 0;
    while (x < 20) { r -= 1 / x; x += 1; }
    LD i2 = 1 / (x * x);
    return r + std::log(x) - 0.5L / x - i2 * (1.0L / 12 - i2 * (1.0L / 120 - i2 * (1.0L / 252 - i2 * (1.0L / 240 - i2 * (1.0L / 132)))));
}

template <typename M> bool all_finite(const M &m) {
    for (int j = 0; j < m.cols(); j++) for (int i = 0; i < m.rows(); i++) if (!std::isfinite((double) m(i, j))) return false;
    return true;
}
template <typename M> bool same_bits(const M &a, const M &b) {
    return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(*a.data()) * a.size()) == 0);
}

enum Method { UNSUP = 0, SUP, FAST, MULTI, CORR, NMETHODS };
inline const char *method_name(int m) { static const char *n[] = {"unsupervised", "supervised", "fast", "multinomial", "correspondence"}; return n[m]; }

struct Settings {
    int iters = 10;
    double tol = 0;
    int fixed_point = 3;
    double C = 1;
    bool decay = false;
    double mu = 2, eta_weight = 1;
    double cl = 0;
    int rs = 0;
};

template <typename S>
std::shared_ptr<em::EStepInterface<S> > make_estep(int method, const Settings &o) {
    switch (method) {
        case UNSUP: return std::make_shared<em::UnsupervisedEStep<S> >(o.iters, o.tol, o.cl, o.rs);
        case SUP: return std::make_shared<em::SupervisedEStep<S> >(o.iters, o.tol, o.fixed_point, o.cl, o.rs);
        case FAST: return std::make_shared<em::FastSupervisedEStep<S> >(o.iters, o.tol, o.C,
                       o.decay ? em::FastSupervisedEStep<S>::ExponentialDecay : em::FastSupervisedEStep<S>::Constant, o.cl, o.rs);
        case MULTI: return std::make_shared<em::MultinomialSupervisedEStep<S> >(o.iters, o.tol, o.mu, o.eta_weight, o.cl, o.rs);
        default: return std::make_shared<em::CorrespondenceSupervisedEStep<S> >(o.iters, o.tol, o.mu, o.cl, o.rs);
    }
}

template <typename S>
struct Model {
    VX<S> alpha;
    MX<S> beta, eta;
    std::shared_ptr<parameters::SupervisedModelParameters<S> > params() const {
        return std::make_shared<parameters::SupervisedModelParameters<S> >(alpha, beta, eta);
    }
};

// How extreme the generated model is: 0 comfortable, 1 wide (still inside the range of the number type)
template <typename S>
Model<S> gen_model(Case &c, int method, int K, int V, int C, int wide, double zero_beta) {
    const bool f = sizeof(S) == 4;
    Model<S> m;
    m.alpha.resize(K);
    double alo = wide ? (f ? 0.05 : 0.004) : 0.1, ahi = wide ? 100 : 3;
    bool same = c.chance(1, 3);
    double a0 = c.logu(alo, ahi);
    for (int k = 0; k < K; k++) m.alpha[k] = same ? a0 : c.logu(alo, ahi);
    m.beta.resize(K, V);
    int bstyle = (int) c.draw(3);
    for (int k = 0; k < K; k++) {
        for (int v = 0; v < V; v++) {
            double b = bstyle == 0 ? 1 + c.unit() : bstyle == 1 ? c.logu(1e-2, 1) : c.logu(wide ? 1e-6 : 1e-3, 1);
            if (zero_beta > 0 && c.unit() < zero_beta) b = 0;
            m.beta(k, v) = b;
        }
        S s = m.beta.row(k).sum();
        if (s > 0) m.beta.row(k) /= s;
        else m.beta(k, (int) c.draw(V)) = 1;
    }
    m.eta.resize(K, C);
    if (method == MULTI || method == CORR) {
        for (int k = 0; k < K; k++) {
            for (int j = 0; j < C; j++) m.eta(k, j) = c.logu(wide ? 3e-3 : 0.05, 1);
            m.eta.row(k) /= m.eta.row(k).sum();
        }
    } else {
        double scale = c.pick({0.0, 0.3, 1.0, 3.0});
        if (wide) scale = c.pick({0.0, 1e-3, 1.0, 10.0, 30.0});
        for (int k = 0; k < K; k++) for (int j = 0; j < C; j++) {
            double x = scale * c.normal() / (wide ? 2 : 1), lim = f ? 40 : 100;
            m.eta(k, j) = std::max(-lim, std::min(lim, x));
        }
        if (C > 1 && c.chance(1, 8)) m.eta = -m.eta.cwiseAbs();      // no positive coefficient at all
    }
    return m;
}

// document: sparse/dense, empty, huge counts
inline VectorXi gen_doc(Case &c, int V, int wide) {
    VectorXi X = VectorXi::Zero(V);
    int style = (int) c.draw(wide ? 7 : 4);
    for (int v = 0; v < V; v++) switch (style) {
        case 0: X[v] = (int) c.draw(4); break;
        case 1: X[v] = c.chance(1, 3) ? 1 + (int) c.draw(3) : 0; break;
        case 2: X[v] = 1 + (int) c.draw(20); break;
        case 3: X[v] = c.chance(1, 2) ? (int) c.draw(60) : 0; break;
        case 4: X[v] = 0; break;
        case 5: X[v] = c.chance(1, 2) ? (int) c.logu(1, 1e6) : 0; break;
        case 6: X[v] = 0; break;
    }
    if (style == 6) X[(int) c.draw(V)] = (int) c.draw(1000);
    return X;
}

template <typename S>
struct Result {
    VX<S> gamma, tau;
    MX<S> phi;
    std::vector<double> reports;
    int events = 0;
};

// one document as a labelled document of a small corpus
struct Corp {
    MatrixXi X;
    VectorXi y;
    std::shared_ptr<corpus::EigenClassificationCorpus> c;
    Corp(const MatrixXi &x, const VectorXi &l, int rs = 0) : X(x), y(l) { c = std::make_shared<corpus::EigenClassificationCorpus>(X, y, rs); }
    Corp(const Corp &) = delete;
};

template <typename S>
Result<S> unpack(const std::shared_ptr<parameters::Parameters> &p, int method) {
    Result<S> r;
    if (method == CORR) {
        auto v = std::static_pointer_cast<parameters::SupervisedCorrespondenceVariationalParameters<S> >(p);
        r.gamma = v->gamma; r.phi = v->phi; r.tau = v->tau;
    } else {
        auto v = std::static_pointer_cast<parameters::VariationalParameters<S> >(p);
        r.gamma = v->gamma; r.phi = v->phi;
    }
    return r;
}

template <typename S>
Result<S> infer(em::EStepInterface<S> &step, int method, const std::shared_ptr<corpus::Document> &doc, const Model<S> &m) {
    Result<S> tmp;
    auto l = step.get_event_dispatcher()->add_listener([&tmp](std::shared_ptr<events::Event> e) {
        tmp.events++;
        if (e->id() == "ExpectationProgressEvent")
            tmp.reports.push_back(std::static_pointer_cast<events::ExpectationProgressEvent<S> >(e)->likelihood());
    });
    auto mp = m.params();
    Result<S> r = unpack<S>(step.doc_e_step(doc, mp), method);
    step.get_event_dispatcher()->remove_listener(l);
    r.reports = tmp.reports;
    r.events = tmp.events;
    REQUIRE(same_bits(mp->alpha, m.alpha) && same_bits(mp->beta, m.beta) && same_bits(mp->eta, m.eta), "inference changed the model");
    return r;
}

// ------------------------------------------------------- reference updates
// exponential with an adversarial but admissible error: the fast exponential truncates
// its argument's mantissa to 10 bits, i.e. moves it towards zero by up to max(1, 2|x|)/1024
struct PExp {
    uint64_t salt;          // 0: exact
    LD shift;               // extra magnitude admitted (terms that cancel in a normalisation)
    mutable uint64_t ctr;
    PExp(uint64_t s, LD sh = 0) : salt(s), shift(sh), ctr(0) {}
    LD operator()(LD x) const {
        if (!salt) return std::exp(x);
        uint64_t h = pbt::mix(salt * 1000003 + ctr++);
        LD u = (h & 3) == 0 ? (LD) (h >> 11) / (LD) (1ULL << 53) : (LD) ((h >> 2) & 1);
        LD e = std::max((LD) 1, 2 * (std::fabs(x) + shift)) / 1024;
        return std::exp(x - (x >= 0 ? u : -u) * e);
    }
};

inline void ref_normalize(ML &phi, int n) {
    LD s = phi.col(n).sum();
    if (s > 0) phi.col(n) /= s;
}

struct RefM {           // long double copy of a model and a document
    VL alpha;
    ML beta, eta;
    VectorXi X;
    int y;
    template <typename S> RefM(const Model<S> &m, const VectorXi &x, int l)
        : alpha(m.alpha.template cast<LD>()), beta(m.beta.template cast<LD>()), eta(m.eta.template cast<LD>()), X(x), y(l) {}
    LD N() const { LD n = 0; for (int i = 0; i < X.size(); i++) n += X[i]; return n; }
    VL psi(const VL &g) const { VL r(g.size()); for (int i = 0; i < g.size(); i++) r[i] = ref_digamma(g[i]); return r; }

    ML phi_common(const ML &phi0, const VL &expo, const PExp &E) const {
        VL e(expo.size());
        for (int k = 0; k < expo.size(); k++) e[k] = E(expo[k]);
        ML phi(phi0.rows(), phi0.cols());
        for (int n = 0; n < phi.cols(); n++) { phi.col(n) = beta.col(n).cwiseProduct(e); ref_normalize(phi, n); }
        return phi;
    }
    ML unsup(const ML &phi0, const VL &g, const PExp &E) const { return phi_common(phi0, psi(g), E); }
    ML fast(const ML &phi0, const VL &g, LD C, const PExp &E) const {
        LD n = N();
        if (n == 0) return phi0;
        VL zb = VL::Zero(g.size());
        for (int i = 0; i < X.size(); i++) if (X[i]) zb += phi0.col(i) * (X[i] / n);
        VL a = eta.transpose() * zb, s(a.size());
        for (int i = 0; i < a.size(); i++) s[i] = E(a[i]);
        s /= s.sum();
        ML es = eta;
        LD mx = eta.maxCoeff();
        if (mx > 0) es /= mx;
        VL ex = psi(g) + C * (es.col(y) - es * s);
        return phi_common(phi0, ex, E);
    }
    ML multi(const ML &phi0, const VL &g, LD w, const PExp &E) const {
        VL ex = psi(g);
        LD t = ref_digamma(g.sum()) + 1;
        for (int k = 0; k < ex.size(); k++) ex[k] += w * std::log(eta(k, y)) - t;
        return phi_common(phi0, ex, E);
    }
    ML corr(const ML &phi0, const VL &g, const VL &tau, const PExp &E) const {
        VL ps = psi(g);
        ML phi(phi0.rows(), phi0.cols());
        for (int n = 0; n < phi.cols(); n++) {
            for (int k = 0; k < phi.rows(); k++) phi(k, n) = beta(k, n) * E(ps[k]) * E(std::log(eta(k, y)) * tau[n]);
            ref_normalize(phi, n);
        }
        return phi;
    }
    VL corr_tau(const ML &phi, const PExp &E) const {
        VL t(phi.cols());
        for (int n = 0; n < phi.cols(); n++) {
            LD a = 0;
            for (int k = 0; k < phi.rows(); k++) a += phi(k, n) * std::log(eta(k, y));
            t[n] = E(a);
        }
        return t / t.sum();
    }
    VL gamma_of(const ML &phi) const {
        VL g = alpha;
        for (int n = 0; n < X.size(); n++) if (X[n]) g += phi.col(n) * (LD) X[n];
        return g;
    }
    // sequential update of the exact logistic method (Wang, Blei, Li 2009)
    void sup(ML &phi, VL &g, int fp, const PExp &E) const {
        LD n = N();
        if (n == 0) return;
        int C = eta.cols(), K = eta.rows();
        std::vector<ML> ex(X.size());
        for (int i = 0; i < X.size(); i++) if (X[i]) {
            ex[i].resize(K, C);
            for (int k = 0; k < K; k++) for (int j = 0; j < C; j++) ex[i](k, j) = E(eta(k, j) * X[i] / n);
        }
        VL ps = psi(g);
        // the other words' product: those before i already updated, those after it not yet
        std::vector<VL> after(X.size() + 1, VL::Ones(C));
        for (int l = (int) X.size() - 1; l >= 0; l--) after[l] = X[l] ? VL(after[l + 1].cwiseProduct(ex[l].transpose() * phi.col(l))) : after[l + 1];
        VL before = VL::Ones(C);
        for (int i = 0; i < X.size(); i++) {
            if (!X[i]) continue;
            if (beta.col(i).maxCoeff() == 0) { before = before.cwiseProduct(ex[i].transpose() * phi.col(i)); continue; }
            VL h = ex[i] * before.cwiseProduct(after[i + 1]);
            VL old = phi.col(i);
            for (int t = 0; t < fp; t++) {
                LD d = h.dot(phi.col(i));
                VL nw(K);
                for (int k = 0; k < K; k++) nw[k] = beta(k, i) * E(ps[k] + eta(k, y) * X[i] / n - h[k] / d / X[i]);
                phi.col(i) = nw / nw.sum();
            }
            before = before.cwiseProduct(ex[i].transpose() * phi.col(i));
            g += (LD) X[i] * (phi.col(i) - old);
            ps = psi(g);
        }
    }
};
#endif
