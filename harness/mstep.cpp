// C08 (topics of a pass), C09 (class parameters), C15 (semi-supervised routing), C20 (online updates)
#include "model_gen.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"

enum MMethod { M_UNSUP = 0, M_SUP, M_FAST, M_SEMI, M_MULTI, M_CORR, NM };
static const char *mname(int m) { static const char *n[] = {"unsupervised", "supervised", "fast", "semi", "multinomial", "correspondence"}; return n[m]; }

struct MSettings { int iters = 3; double tol = 1e-3, L = 0.01, mu = 2; };

template <typename S>
std::shared_ptr<em::MStepInterface<S> > make_mstep(int m, const MSettings &o) {
    switch (m) {
        case M_UNSUP: return std::make_shared<em::UnsupervisedMStep<S> >();
        case M_SUP: return std::make_shared<em::SupervisedMStep<S> >(o.iters, o.tol, o.L);
        case M_FAST: return std::make_shared<em::FastSupervisedMStep<S> >(o.iters, o.tol, o.L);
        case M_SEMI: return std::make_shared<em::SemiSupervisedMStep<S> >(o.iters, o.tol, o.L);
        case M_MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S> >(o.mu);
        default: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >(o.mu);
    }
}

// a document with variational parameters as an expectation step could have produced them
template <typename S> struct VDoc {
    VectorXi X;
    int y;
    MX<S> phi;
    VX<S> gamma, tau;
    std::shared_ptr<corpus::Document> doc() const {
        return std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X), y);
    }
    std::shared_ptr<parameters::Parameters> vp(bool corr) const {
        if (corr) return std::make_shared<parameters::SupervisedCorrespondenceVariationalParameters<S> >(gamma, phi, tau);
        return std::make_shared<parameters::VariationalParameters<S> >(gamma, phi);
    }
};

template <typename S>
VDoc<S> gen_vdoc(Case &c, int K, int V, int C, const VX<S> &alpha, const std::vector<int> &dead, bool wide, bool labels) {
    VDoc<S> d;
    d.X = gen_doc(c, V, wide);
    d.y = (int) c.draw(C);
    if (labels && c.chance(1, 2)) d.y = -1 - (int) c.draw(2);
    d.phi.resize(K, V);
    bool peaked = c.chance(1, 3);
    for (int v = 0; v < V; v++) {
        for (int k = 0; k < K; k++) {
            double p = peaked ? c.logu(1e-4, 1) : 0.05 + c.unit();
            if (dead[k] == 1) p = 0;
            if (dead[k] > 1) p *= std::pow(10, -dead[k]);      // hardly any mass
            d.phi(k, v) = p;
        }
        S s = d.phi.col(v).sum();
        if (s > 0) d.phi.col(v) /= s;
    }
    VL g = alpha.template cast<LD>();
    for (int v = 0; v < V; v++) if (d.X[v]) g += d.phi.col(v).template cast<LD>() * (LD) d.X[v];
    d.gamma = g.template cast<S>();
    for (int k = 0; k < K; k++) if (dead[k] == 1 || d.X.sum() == 0) d.gamma[k] = alpha[k];
    d.tau.resize(V);
    for (int v = 0; v < V; v++) d.tau[v] = 0.05 + c.unit();
    d.tau /= d.tau.sum();
    return d;
}

template <typename S> std::vector<double> listen(em::MStepInterface<S> &m, std::function<void()> f) {
    std::vector<double> r;
    auto l = m.get_event_dispatcher()->add_listener([&r](std::shared_ptr<events::Event> e) {
        if (e->id() == "MaximizationProgressEvent") r.push_back(std::static_pointer_cast<events::MaximizationProgressEvent<S> >(e)->likelihood());
    });
    f();
    m.get_event_dispatcher()->remove_listener(l);
    return r;
}

// ------------------------------------------------------------------- C08
template <typename S> void c08(Case &c, int method) {
    int K = c.size(5, 30), V = c.size(7, c.chance(1, 10) ? 1500 : 150), C = c.size(4, 30);
    int em = method == M_MULTI ? MULTI : method == M_CORR ? CORR : FAST;
    Model<S> m = gen_model<S>(c, em, K, V, C, 0, c.pick({0.0, 0.3}));
    MSettings o;
    o.iters = (int) c.draw(3);
    o.mu = c.pick({2.0, 1.5, 5.0});
    auto step = make_mstep<S>(method, o);
    auto mp = m.params();
    int passes = c.size(4, 15);
    bool empty_last = false, some_dead = false;
    c << mname(method) << (sizeof(S) == 4 ? " float" : " double") << " K=" << K << " V=" << V << " C=" << C;
    const double eps = sizeof(S) == 4 ? 2e-5 : 1e-11;
    int total = 0;
    for (int p = 0; p < passes; p++) {
        int D = c.chance(1, 8) ? 0 : 1 + (int) c.draw(c.chance(1, 10) ? (c.chance(1, 10) ? 400 : 40) : 6);
        std::vector<int> dead(K, 0);
        if (c.chance(1, 3)) for (int k = 0; k < K; k++) { dead[k] = c.chance(1, 3); some_dead |= dead[k]; if (dead[k] && c.chance(1, 2)) dead[k] = 2 + (int) c.draw(24); }
        ML b = ML::Zero(K, V);
        MX<S> before = mp->beta;
        c << " pass:" << D;
        for (int d = 0; d < D; d++) {
            VDoc<S> v = gen_vdoc<S>(c, K, V, C, m.alpha, dead, c.chance(1, 6), method == M_SEMI);
            MX<S> b0 = mp->beta;
            step->doc_m_step(v.doc(), v.vp(method == M_CORR), mp);
            REQUIRE(same_bits(b0, mp->beta), "a document changed the topics before the maximization step");
            for (int w = 0; w < V; w++) for (int k = 0; k < K; k++)
                b(k, w) += (LD) v.phi(k, w) * v.X[w] * (method == M_CORR ? (LD) v.tau[w] : 1);
            total++;
        }
        step->m_step(mp);
        REQUIRE(mp->beta.rows() == K && mp->beta.cols() == V, "topics changed their size to " << mp->beta.rows() << "x" << mp->beta.cols());
        REQUIRE(mp->eta.rows() == K && mp->eta.cols() == C, "class parameters changed their size");
        REQUIRE(same_bits(mp->alpha, m.alpha), "the prior changed");
        REQUIRE(all_finite(mp->beta), "pass " << p << ": topics not finite\n" << mp->beta);
        for (int k = 0; k < K; k++) {
            LD mass = b.row(k).sum();
            if (mass > 0) {
                for (int w = 0; w < V; w++) REQUIRE(std::fabs((LD) mp->beta(k, w) - b(k, w) / mass) <= eps * std::max((LD) 1e-3, b(k, w) / mass) + eps * 1e-3,
                    "pass " << p << ": topic " << k << " word " << w << " has probability " << mp->beta(k, w) << " instead of " << (double) (b(k, w) / mass));
            } else {
                LD s = mp->beta.row(k).template cast<LD>().sum();
                REQUIRE(mp->beta.row(k).minCoeff() >= 0 && std::fabs(s - 1) < 1e-4, "pass " << p << ": topic " << k << " received no mass and became " << mp->beta.row(k));
            }
        }
        if (D == 0) { empty_last = true; REQUIRE((mp->beta - before).cwiseAbs().maxCoeff() <= eps, "a pass without documents changed the topics"); }
    }
    c.nontrivial(total > 1 && K > 1 && V > 1);
    c.label(mname(method));
    if (passes > 1) c.label("several passes");
    if (empty_last) c.label("empty pass");
    if (some_dead) c.label("topic without mass");
}
// a vocabulary beyond the range of 16 bit numbers, a pass of many documents
PROP(c08_vast) {
    int method = (int) c.draw(6), K = 1 + (int) c.draw(3), C = 2;
    bool many = c.chance(1, 2);
    int V = many ? 3 : (1 << 16) + (int) c.draw(6000), D = many ? (1 << 16) + (int) c.draw(3000) : 1 + (int) c.draw(4), P = many ? 17 : D;
    if (many && method != M_UNSUP && method != M_MULTI && method != M_CORR) method = M_UNSUP;
    c << mname(method) << " K=" << K << " V=" << V << " documents=" << D;
    std::mt19937 rng((unsigned) c.draw(1u << 30));
    std::uniform_real_distribution<> u(0.05, 1);
    Model<double> m = gen_model<double>(c, method == M_MULTI ? MULTI : method == M_CORR ? CORR : FAST, K, 3, C, 0, 0);
    m.beta = MatrixXd::Constant(K, V, 1.0 / V);
    MSettings o;
    o.iters = 1;
    o.mu = 2;
    auto step = make_mstep<double>(method, o);
    auto mp = m.params();
    std::vector<VDoc<double> > docs(P);
    for (auto &d : docs) {
        d.X.resize(V);
        d.phi.resize(K, V);
        d.tau.resize(V);
        for (int v = 0; v < V; v++) {
            d.X[v] = rng() % 3;
            for (int k = 0; k < K; k++) d.phi(k, v) = u(rng);
            d.phi.col(v) /= d.phi.col(v).sum();
            d.tau[v] = u(rng);
        }
        d.tau /= d.tau.sum();
        d.y = rng() % C;
        d.gamma = m.alpha + d.phi * d.X.cast<double>();
    }
    ML b = ML::Zero(K, V);
    for (int i = 0; i < D; i++) {
        auto &d = docs[i % P];
        step->doc_m_step(d.doc(), d.vp(method == M_CORR), mp);
        for (int w = 0; w < V; w++) for (int k = 0; k < K; k++) b(k, w) += (LD) d.phi(k, w) * d.X[w] * (method == M_CORR ? (LD) d.tau[w] : 1);
    }
    step->m_step(mp);
    REQUIRE(mp->beta.rows() == K && mp->beta.cols() == V, "topics changed their size");
    for (int k = 0; k < K; k++) {
        LD mass = b.row(k).sum();
        if (mass > 0) for (int w = 0; w < V; w++) REQUIRE(std::fabs((LD) mp->beta(k, w) - b(k, w) / mass) <= 1e-9L * b(k, w) / mass + 1e-15L, "topic " << k << " word " << w << " has probability " << mp->beta(k, w) << " instead of " << (double) (b(k, w) / mass));
    }
    c.label(many ? "many documents" : "vast vocabulary");
    c.nontrivial(K > 1);
}
PROP(c08_topics) {
    int method = (int) c.draw(NM);
    if (c.chance(1, 2)) c08<float>(c, method); else c08<double>(c, method);
}

// ------------------------------------------------------------------- C09
struct Obj {            // documented objective of the logistic methods
    std::vector<VL> z;
    std::vector<ML> var;
    std::vector<int> y;
    std::vector<LD> w;      // class weights; empty: inversely proportional to the class frequency
    LD L;
    bool second;
    void finish() {
        int C = 0;
        for (int l : y) C = std::max(C, l + 1);
        std::vector<int> n(C, 0);
        for (int l : y) n[l]++;
        w.assign(C, 0);
        for (int k = 0; k < C; k++) if (n[k]) w[k] = (LD) y.size() / ((LD) n[k] * C);
    }
    LD value(const ML &eta) const {
        LD v = 0;
        for (size_t d = 0; d < z.size(); d++) {
            VL t = eta.transpose() * z[d];
            LD a = t.maxCoeff(), s = 0;
            for (int k = 0; k < t.size(); k++) {
                LD q = 1;
                if (second) q += 0.5L * (eta.col(k).transpose() * var[d] * eta.col(k)).value();
                s += std::exp(t[k] - a) * q;
            }
            v -= w[y[d]] * (t[y[d]] - a - std::log(s));
        }
        return v + L * eta.squaredNorm() / 2;
    }
    ML gradient(const ML &eta) const {
        ML g = eta * L;
        for (size_t d = 0; d < z.size(); d++) {
            VL t = eta.transpose() * z[d];
            LD a = t.maxCoeff(), s = 0;
            VL e(t.size()), q = VL::Ones(t.size());
            for (int k = 0; k < t.size(); k++) {
                if (second) q[k] += 0.5L * (eta.col(k).transpose() * var[d] * eta.col(k)).value();
                e[k] = std::exp(t[k] - a);
                s += e[k] * q[k];
            }
            for (int k = 0; k < t.size(); k++) {
                VL dz = z[d] * q[k];
                if (second) dz += var[d] * eta.col(k);
                g.col(k) += w[y[d]] * (e[k] / s) * dz;
            }
            g.col(y[d]) -= w[y[d]] * z[d];
        }
        return g;
    }
};

template <typename S> void add_doc(Obj &ob, const VDoc<S> &v) {
    int K = v.phi.rows();
    LD N = 0;
    for (int i = 0; i < v.X.size(); i++) N += v.X[i];
    VL z = VL::Zero(K);
    ML var = ML::Zero(K, K);
    if (N > 0) {
        ML ps(K, v.X.size());
        for (int i = 0; i < v.X.size(); i++) ps.col(i) = v.phi.col(i).template cast<LD>() * (v.X[i] / N);
        for (int i = 0; i < v.X.size(); i++) z += ps.col(i);
        var = ps * ps.transpose();
    }
    ob.z.push_back(z);
    ob.var.push_back(var);
    ob.y.push_back(v.y);
}

template <typename S> void c09(Case &c, int method) {
    int K = c.size(5, c.chance(1, 10) ? 100 : 20), V = c.size(6, c.chance(1, 10) ? 1000 : 60), C = c.size(4, c.chance(1, 10) ? 100 : 20);
    Model<S> m = gen_model<S>(c, FAST, K, V, C, c.chance(1, 6), 0);
    for (int i = 0; i < m.eta.size(); i++) m.eta.data()[i] = std::max((S) -10, std::min((S) 10, m.eta.data()[i]));
    MSettings o;
    o.iters = (int) c.draw(c.chance(1, 5) ? (c.chance(1, 20) ? 400 : 60) : 6);
    o.tol = c.chance(1, 3) ? 0 : c.logu(1e-5, 0.5);
    o.L = c.chance(1, 3) ? 0 : c.logu(1e-4, 10);
    auto step = make_mstep<S>(method, o);
    auto mp = m.params();
    int passes = c.size(3, 10), total = 0;
    bool stopped_tol = false, empties = false;
    c << mname(method) << (sizeof(S) == 4 ? " float" : " double") << " K=" << K << " V=" << V << " C=" << C << " iters=" << o.iters << " tol=" << o.tol << " L=" << o.L;
    for (int p = 0; p < passes; p++) {
        int D = c.chance(1, 8) ? 0 : 1 + (int) c.draw(c.chance(1, 10) ? (c.chance(1, 10) ? (c.chance(1, 5) ? (K * V * C < 200 && c.chance(1, 4) ? 4000 : 700) : 150) : 30) : 6);
        std::vector<int> dead(K, 0);
        Obj ob;
        ob.L = (S) o.L;
        ob.second = method == M_SUP;
        c << " pass:" << D;
        for (int d = 0; d < D; d++) {
            VDoc<S> v = gen_vdoc<S>(c, K, V, C, m.alpha, dead, c.chance(1, 5), method == M_SEMI);
            MX<S> e0 = mp->eta;
            step->doc_m_step(v.doc(), v.vp(false), mp);
            REQUIRE(same_bits(e0, mp->eta), "a document changed the class parameters before the maximization step");
            if (v.y >= 0) { add_doc(ob, v); total++; if (v.X.sum() == 0) empties = true; }
        }
        MX<S> e0 = mp->eta;
        std::vector<double> ev = listen<S>(*step, [&]() { step->m_step(mp); });
        REQUIRE(mp->eta.rows() == K && mp->eta.cols() == C && all_finite(mp->eta), "pass " << p << ": class parameters invalid\n" << mp->eta);
        if (ob.y.empty()) {
            REQUIRE(same_bits(e0, mp->eta), "a pass without labelled documents changed the class parameters");
            REQUIRE(ev.empty(), "a pass without labelled documents reported an objective");
            c.label("no labelled document");
            continue;
        }
        ob.finish();
        ML a = e0.template cast<LD>(), b = mp->eta.template cast<LD>();
        LD va = ob.value(a), vb = ob.value(b);
        const LD eps = sizeof(S) == 4 ? 3e-5L : 1e-9L;
        LD mag = 1 + va + (LD) D * (1 + a.cwiseAbs().maxCoeff());
        REQUIRE(vb <= va + eps * mag, "pass " << p << ": objective went up from " << (double) va << " to " << (double) vb);
        REQUIRE(!ev.empty(), "nothing reported");
        REQUIRE(std::fabs((LD) ev[0] + va) <= eps * mag, "pass " << p << ": first report " << ev[0] << " is not minus the objective " << (double) va << " of the starting point");
        REQUIRE(std::fabs((LD) ev.back() + vb) <= eps * mag, "pass " << p << ": last report " << ev.back() << " is not minus the objective " << (double) vb << " of the result");
        int updates = (int) ev.size() - 1;
        REQUIRE(updates <= o.iters, updates << " updates although limited to " << o.iters);
        if (updates == 0) REQUIRE(same_bits(e0, mp->eta), "no update reported but class parameters changed");
        for (size_t i = 1; i < ev.size(); i++) {
            REQUIRE(ev[i] >= ev[i - 1] - (double) (eps * mag), "reported objective went up");
            // all updates before the last one must have improved enough, and the last one must be a reason to stop
            double r = (-ev[i - 1] + ev[i]) / -ev[i], noise = (sizeof(S) == 4 ? 3e-5 : 1e-12) * (double) mag / std::max(1e-12, std::fabs(ev[i]));
            if (i + 1 < ev.size()) REQUIRE(r >= o.tol - noise - 1e-5 * o.tol, "went on after a relative improvement of " << r << " with tolerance " << o.tol);
            else if (updates < o.iters) { REQUIRE(r <= o.tol + noise + 1e-5 * o.tol || std::isnan(r), "stopped after " << updates << " of " << o.iters << " updates although the relative improvement was " << r << ", tolerance " << o.tol); stopped_tol = true; }
        }
        // follow the descent in long double, also from slightly perturbed starts to know how far rounding can carry;
        // stop comparing where a comparison is too close to call
        if (sizeof(S) == 8) {
            bool tie = false;
            std::vector<ML> end;
            std::vector<std::vector<LD> > vals;
            for (int run = 0; run < 4 && !tie; run++) {
                ML x = a;
                if (run) for (int i = 0; i < x.size(); i++) x.data()[i] += 1e-11L * (1 + std::fabs(x.data()[i])) * ((pbt::mix(run * 1000 + i) & 1) ? 1 : -1);
                LD v = ob.value(x);
                std::vector<LD> vs;
                for (int it = 0; it < updates && !tie; it++) {
                    ML g = ob.gradient(x);
                    LD dec = 0.001L * g.squaredNorm(), s = 1;
                    ML y;
                    LD w;
                    for (;;) {
                        y = x - s * g;
                        w = ob.value(y);
                        if (std::fabs(w - (v - s * dec)) < 1e-10L * (1 + std::fabs(v)) || s < 1e-12L) { tie = true; break; }
                        if (w <= v - s * dec) break;
                        s *= 0.5L;
                    }
                    x = y;
                    v = w;
                    vs.push_back(v);
                }
                end.push_back(x);
                vals.push_back(vs);
            }
            if (!tie) {
                LD tol = 1e-8L * (1 + end[0].cwiseAbs().maxCoeff());
                for (int r = 1; r < 4; r++) tol = std::max(tol, 10 * (end[r] - end[0]).cwiseAbs().maxCoeff());
                if (tol < 1e-2L) {
                    REQUIRE((end[0] - b).cwiseAbs().maxCoeff() <= tol, "pass " << p << ": class parameters differ from gradient descent on this pass's documents:\n"
                        << mp->eta << "\nexpected\n" << end[0].cast<double>());
                    for (int it = 0; it < updates; it++) {
                        LD vt = 1e-8L * mag;
                        for (int r = 1; r < 4; r++) vt = std::max(vt, 10 * std::fabs(vals[r][it] - vals[0][it]));
                        REQUIRE(std::fabs((LD) ev[it + 1] + vals[0][it]) <= vt, "pass " << p << " update " << it + 1 << ": reported " << ev[it + 1] << ", gradient descent gives " << (double) -vals[0][it]);
                    }
                    if (updates) c.label("followed");
                } else c.label("too sensitive to follow");
            }
        }
    }
    c.nontrivial(total > 1 && K > 1 && C > 1 && o.iters > 0);
    c.label(mname(method));
    if (stopped_tol) c.label("stopped by tolerance");
    if (empties) c.label("empty document");
}
PROP(c09_logistic) {
    int method = c.pick({(int) M_SUP, (int) M_FAST, (int) M_FAST, (int) M_SEMI});
    if (c.chance(1, 2)) c09<float>(c, method); else c09<double>(c, method);
}

template <typename S> void c09c(Case &c, int method) {
    int K = c.size(5, c.chance(1, 10) ? 100 : 20), V = c.size(6, c.chance(1, 10) ? 1000 : 60), C = c.size(4, c.chance(1, 10) ? 100 : 20);
    Model<S> m = gen_model<S>(c, MULTI, K, V, C, c.chance(1, 4), 0);
    MSettings o;
    o.mu = 1 + c.logu(sizeof(S) == 4 ? 1e-2 : 1e-6, 20);
    auto step = make_mstep<S>(method, o);
    auto mp = m.params();
    int passes = c.size(4, 15), total = 0;
    c << mname(method) << (sizeof(S) == 4 ? " float" : " double") << " K=" << K << " V=" << V << " C=" << C << " mu=" << o.mu;
    bool first = true;
    for (int p = 0; p < passes; p++) {
        int D = c.chance(1, 8) ? 0 : c.size(6, c.chance(1, 10) ? (c.chance(1, 10) ? 2500 : 600) : 60);
        std::vector<int> dead(K, 0);
        if (c.chance(1, 4)) for (int k = 0; k < K; k++) dead[k] = c.chance(1, 3);
        ML h = ML::Zero(K, C);
        LD lp = 0, mag = 1;
        ML le = mp->eta.template cast<LD>().array().log().matrix();
        c << " pass:" << D;
        for (int d = 0; d < D; d++) {
            VDoc<S> v = gen_vdoc<S>(c, K, V, C, m.alpha, dead, c.chance(1, 6), false);
            MX<S> e0 = mp->eta;
            step->doc_m_step(v.doc(), v.vp(method == M_CORR), mp);
            REQUIRE(same_bits(e0, mp->eta), "a document changed the class parameters before the maximization step");
            for (int w = 0; w < V; w++) for (int k = 0; k < K; k++) {
                LD x = (LD) v.phi(k, w) * v.X[w] * (method == M_CORR ? (LD) v.tau[w] : 1);
                h(k, v.y) += x;
                lp += x * le(k, v.y);
                mag += std::fabs(x * le(k, v.y));
            }
            total++;
        }
        MX<S> e0 = mp->eta;
        std::vector<double> ev = listen<S>(*step, [&]() { step->m_step(mp); });
        REQUIRE(mp->eta.rows() == K && mp->eta.cols() == C && all_finite(mp->eta), "class parameters invalid\n" << mp->eta);
        const LD eps = sizeof(S) == 4 ? 2e-5L : 1e-10L;
        if (first && D == 0) {
            // nothing was ever seen: unchanged or purely smoothed are both finite and sensible
            for (int k = 0; k < K; k++) REQUIRE(std::fabs((LD) mp->eta.row(k).sum() - 1) < 1e-4L, "invalid class distribution");
            continue;
        }
        first = false;
        for (int k = 0; k < K; k++) {
            LD s = 0;
            for (int j = 0; j < C; j++) s += h(k, j) + (LD) (S) o.mu - 1;
            for (int j = 0; j < C; j++) {
                LD want = (h(k, j) + (LD) (S) o.mu - 1) / s;
                REQUIRE(std::fabs((LD) mp->eta(k, j) - want) <= (sizeof(S) == 4 ? 2e-4L : 1e-9L), "pass " << p << ": class " << j << " of topic " << k << " has probability " << mp->eta(k, j) << " instead of " << (double) want);
            }
        }
        REQUIRE(ev.size() == 1, ev.size() << " reports instead of one");
        REQUIRE(std::fabs((LD) ev[0] - lp) <= eps * mag * 10, "pass " << p << ": reported " << ev[0] << " instead of the expected log probability of the labels " << (double) lp);
    }
    c.nontrivial(total > 1 && K > 1 && C > 1);
    c.label(mname(method));
}
PROP(c09_counts) {
    int method = c.pick({(int) M_MULTI, (int) M_CORR});
    if (c.chance(1, 2)) c09c<float>(c, method); else c09c<double>(c, method);
}

// ------------------------------------------------------------------- C20
template <typename S> void c20(Case &c) {
    int K = c.size(4, c.chance(1, 10) ? 100 : 20), V = c.size(6, c.chance(1, 10) ? 1000 : 60), C = c.size(4, c.chance(1, 10) ? 100 : 20);
    Model<S> m = gen_model<S>(c, FAST, K, V, C, 0, c.pick({0.0, 0.3}));
    int B = c.size(5, c.chance(1, 5) ? (c.chance(1, 10) ? 700 : 200) : 30);
    double L = c.chance(1, 4) ? 0 : c.logu(1e-3, 1), mom = c.pick({0.9, 0.0, 0.5}), lr = c.logu(1e-3, 0.3), bw = c.pick({0.9, 0.0, 0.5, 0.99});
    bool uniform = c.chance(1, 3);
    VX<S> w(C);
    for (int k = 0; k < C; k++) w[k] = uniform ? 1 : c.logu(0.1, 10);
    std::shared_ptr<em::MStepInterface<S> > step;
    if (uniform) step = std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t) C, L, B, mom, lr, bw);
    else step = std::make_shared<em::FastOnlineSupervisedMStep<S> >(w, L, B, mom, lr, bw);
    auto mp = m.params();
    c << (sizeof(S) == 4 ? "float" : "double") << " K=" << K << " V=" << V << " C=" << C << " batch=" << B << " L=" << L << " momentum=" << mom << " rate=" << lr << " beta_weight=" << bw
      << " weights=" << w.transpose() << " ops:";
    ML beta = mp->beta.template cast<LD>(), eta = mp->eta.template cast<LD>(), vel = ML::Zero(K, C), b = ML::Zero(K, V);
    std::vector<VDoc<S> > batch;
    const LD eps = sizeof(S) == 4 ? 1e-4L : 1e-9L;
    int ops = 1 + (int) c.draw(c.chance(1, 5) ? (c.chance(1, 10) ? 200 : 40) : 14) + (B > 30 ? 2 * B : 0), updates = 0, passes = 0;
    bool dead_seen = false, empty_seen = false;
    for (int i = 0; i < ops; i++) {
        MX<S> b0 = mp->beta, e0 = mp->eta;
        std::vector<double> ev;
        bool update = false;
        if (c.chance(1, 6)) {
            c << " end";
            passes++;
            ev = listen<S>(*step, [&]() { step->m_step(mp); });
        } else {
            std::vector<int> dead(K, 0);
            if (c.chance(1, 4)) for (int k = 0; k < K; k++) { dead[k] = c.chance(1, 3); dead_seen |= dead[k]; if (dead[k] && c.chance(1, 2)) dead[k] = 2 + (int) c.draw(24); }
            VDoc<S> v = gen_vdoc<S>(c, K, V, C, m.alpha, dead, c.chance(1, 6), false);
            c << " doc(y=" << v.y << ",N=" << v.X.sum() << ")";
            empty_seen |= v.X.sum() == 0;
            batch.push_back(v);
            ev = listen<S>(*step, [&]() { step->doc_m_step(v.doc(), v.vp(false), mp); });
            update = (int) batch.size() == B;
        }
        if (!update) {
            REQUIRE(same_bits(b0, mp->beta) && same_bits(e0, mp->eta), "op " << i << ": the model changed although the minibatch is not full");
            REQUIRE(ev.empty(), "op " << i << ": report without an update");
            continue;
        }
        updates++;
        Obj ob;
        ob.L = (S) L;
        ob.second = false;
        b.setZero();
        for (auto &v : batch) {
            add_doc(ob, v);
            for (int x = 0; x < V; x++) b.col(x) += v.phi.col(x).template cast<LD>() * (LD) v.X[x];
        }
        batch.clear();
        for (int k = 0; k < C; k++) ob.w.push_back(w[k]);
        for (int k = 0; k < K; k++) {
            LD mass = b.row(k).sum();
            if (mass > 0) beta.row(k) = (LD) (S) bw * beta.row(k) + (1 - (LD) (S) bw) * b.row(k) / mass;
        }
        vel = (LD) (S) mom * vel - (LD) (S) lr * ob.gradient(eta);
        eta += vel;
        REQUIRE(all_finite(mp->beta) && all_finite(mp->eta), "op " << i << ": model not finite\n" << mp->beta << "\n" << mp->eta);
        for (int k = 0; k < K; k++) REQUIRE(mp->beta.row(k).minCoeff() >= 0 && std::fabs((LD) mp->beta.row(k).sum() - 1) < 1e-3L, "op " << i << ": topic " << k << " is no distribution " << mp->beta.row(k));
        REQUIRE((mp->beta.template cast<LD>() - beta).cwiseAbs().maxCoeff() <= eps, "op " << i << ": topics\n" << mp->beta << "\ninstead of\n" << beta.template cast<double>());
        REQUIRE((mp->eta.template cast<LD>() - eta).cwiseAbs().maxCoeff() <= eps * (1 + eta.cwiseAbs().maxCoeff()) * (1 + updates), "op " << i << ": class parameters\n" << mp->eta << "\ninstead of\n" << eta.template cast<double>());
        LD val = ob.value(eta);
        REQUIRE(ev.size() == 1 && std::fabs((LD) ev[0] + val) <= eps * (1 + std::fabs(val)) * 20, "op " << i << ": reported " << (ev.empty() ? NAN : ev[0]) << " in " << ev.size() << " reports, minus the objective is " << (double) -val);
        // go on from the code's own rounding
        beta = mp->beta.template cast<LD>();
    }
    REQUIRE(same_bits(mp->alpha, m.alpha), "the prior changed");
    c.nontrivial(updates > 1);
    if (passes) c.label("pass boundary");
    if (dead_seen) c.label("topic without mass");
    if (empty_seen) c.label("empty document");
    c.label(uniform ? "uniform weights" : "class weights");
}
PROP(c20_online) {
    if (c.chance(1, 2)) c20<float>(c); else c20<double>(c);
}

// ------------------------------------------------------------------- C15
template <typename S> struct CountedUnsup : public em::UnsupervisedEStep<S> {
    int epochs = 0, docs = 0;
    explicit CountedUnsup(const Settings &o) : em::UnsupervisedEStep<S>(o.iters, o.tol, o.cl, o.rs) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> p) override {
        docs++;
        return em::UnsupervisedEStep<S>::doc_e_step(d, p);
    }
    void e_step() override { epochs++; em::UnsupervisedEStep<S>::e_step(); }
};
template <typename S> void c15e(Case &c) {
    int K = c.size(4, 20), V = c.size(6, 60), C = c.size(3, 20);
    int sm = c.pick({(int) FAST, (int) FAST, (int) SUP});
    Model<S> m = gen_model<S>(c, sm, K, V, C, 0, 0);
    Settings so, uo;
    so.iters = (int) c.draw(6); so.tol = c.pick({0.0, 1e-2}); so.C = c.pick({1.0, 0.3, 2.0}); so.decay = c.chance(1, 2); so.cl = c.pick({0.0, 1.0});
    double es = m.eta.cwiseAbs().maxCoeff(), mx = m.eta.maxCoeff();
    if (mx > 0) es /= mx;
    if (es > 10) { so.C = std::min(so.C, 10 / es); so.decay = false; }
    uo.iters = (int) c.draw(6); uo.tol = c.pick({0.0, 1e-2}); uo.cl = c.pick({0.0, 1.0});
    auto s1 = make_estep<S>(sm, so), s2 = make_estep<S>(sm, so), u2 = make_estep<S>(UNSUP, uo);
    // a step of the user's own for the unlabelled documents: it is told of the documents and of the end of an epoch
    auto u1 = std::make_shared<CountedUnsup<S> >(uo);
    auto semi = std::make_shared<em::SemiSupervisedEStep<S> >(s1, u1);
    int epochs = 0;
    int D = 1 + (int) c.draw(8), lab = 0;
    c << method_name(sm) << (sizeof(S) == 4 ? " float" : " double") << " K=" << K << " V=" << V << " C=" << C << " its=" << so.iters << "/" << uo.iters << " ops:";
    for (int d = 0; d < D; d++) {
        if (c.chance(1, 5)) { semi->e_step(); s2->e_step(); u2->e_step(); epochs++; c << " epoch"; }
        VectorXi X = gen_doc(c, V, 0);
        int y = c.chance(1, 2) ? -1 - (int) c.draw(3) * (int) c.draw(100) : (int) c.draw(C);
        lab += y >= 0;
        c << " doc(" << y << ")";
        auto doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(X), y);
        Result<S> a = infer<S>(*semi, sm, doc, m), b = y < 0 ? infer<S>(*u2, UNSUP, doc, m) : infer<S>(*s2, sm, doc, m);
        REQUIRE(same_bits(a.phi, b.phi) && same_bits(a.gamma, b.gamma), "document with label " << y << ": result differs from the " << (y < 0 ? "unsupervised" : "supervised") << " step: " << a.gamma.transpose()
                << " instead of " << b.gamma.transpose());
        REQUIRE(u1->docs == d + 1 - lab && u1->epochs == epochs, "the unsupervised step saw " << u1->docs << " documents and " << u1->epochs << " epochs instead of " << d + 1 - lab << " and " << epochs);
        REQUIRE(a.events == 1 && a.reports.size() == 1, a.events << " reports for one document");
        REQUIRE(a.reports[0] == b.reports[0] || (std::isnan(a.reports[0]) && std::isnan(b.reports[0])), "report " << a.reports[0] << " instead of " << b.reports[0]);
    }
    c.nontrivial(lab > 0 && lab < D);
}
PROP(c15_inference) {
    if (c.chance(1, 2)) c15e<float>(c); else c15e<double>(c);
}

template <typename S> void c15m(Case &c) {
    int K = c.size(4, c.chance(1, 10) ? 100 : 20), V = c.size(6, c.chance(1, 10) ? 1000 : 60), C = c.size(4, c.chance(1, 10) ? 100 : 20);
    Model<S> m = gen_model<S>(c, FAST, K, V, C, 0, 0);
    MSettings o;
    o.iters = (int) c.draw(6); o.tol = c.pick({0.0, 1e-3}); o.L = c.pick({0.0, 0.1});
    auto semi = make_mstep<S>(M_SEMI, o), fast = make_mstep<S>(M_FAST, o), un = make_mstep<S>(M_UNSUP, o);
    auto pa = m.params(), pf = m.params(), pu = m.params();
    int passes = 1 + (int) c.draw(4);
    bool none = false, mixed = false;
    c << (sizeof(S) == 4 ? "float" : "double") << " K=" << K << " V=" << V << " C=" << C;
    for (int p = 0; p < passes; p++) {
        int D = (int) c.draw(7), style = (int) c.draw(4), lab = 0;
        std::vector<int> dead(K, 0);
        c << " pass:";
        for (int d = 0; d < D; d++) {
            VDoc<S> v = gen_vdoc<S>(c, K, V, C, m.alpha, dead, false, false);
            if (style == 0 || (style == 1 && c.chance(1, 2))) v.y = -1 - (int) c.draw(3);
            c << v.y << ",";
            semi->doc_m_step(v.doc(), v.vp(false), pa);
            un->doc_m_step(v.doc(), v.vp(false), pu);
            if (v.y >= 0) { fast->doc_m_step(v.doc(), v.vp(false), pf); lab++; }
        }
        MX<S> e0 = pa->eta;
        std::vector<double> ea = listen<S>(*semi, [&]() { semi->m_step(pa); }), ef;
        un->m_step(pu);
        if (lab) ef = listen<S>(*fast, [&]() { fast->m_step(pf); });
        else { none = true; REQUIRE(same_bits(e0, pa->eta), "a pass without labelled documents changed the class parameters"); }
        mixed |= lab > 0 && lab < D;
        // the same numbers up to rounding
        const double be = sizeof(S) == 4 ? 1e-4 : 1e-10, ee = sizeof(S) == 4 ? 1e-2 : 1e-7;
        auto off = [](const MX<S> &x, const MX<S> &y) {
            double r = x.rows() == y.rows() && x.cols() == y.cols() ? 0 : 1e300;
            for (int i = 0; r < 1e300 && i < x.size(); i++) {
                double d = std::fabs((double) x.data()[i] - (double) y.data()[i]) / (1 + std::fabs((double) y.data()[i]));
                if (!(d <= r)) r = std::isnan(d) ? 1e300 : d;
            }
            return r;
        };
        REQUIRE(off(pa->beta, pu->beta) <= be, "topics differ from those of all documents:\n" << pa->beta << "\ninstead of\n" << pu->beta);
        REQUIRE(off(pa->eta, pf->eta) <= ee, "class parameters differ from those of the labelled documents:\n" << pa->eta << "\ninstead of\n" << pf->eta);
        REQUIRE(ea.size() == ef.size(), ea.size() << " reports instead of " << ef.size());
        for (size_t i = 0; i < ea.size(); i++) REQUIRE(std::fabs(ea[i] - ef[i]) <= ee * (1 + std::fabs(ef[i])), "report " << ea[i] << " instead of " << ef[i]);
    }
    c.nontrivial(mixed);
    if (none) c.label("no labelled document");
}
PROP(c15_maximization) {
    if (c.chance(1, 2)) c15m<float>(c); else c15m<double>(c);
}

PBT_MAIN
