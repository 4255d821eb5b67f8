// C05 (valid results), C06 (documented updates and stopping), C07 (variational bound)
#include "model_gen.hpp"
#include <set>

template <typename S> struct Inst {
    int method, K, V, C;
    Model<S> m;
    Settings o;
    std::unique_ptr<Corp> corp;
    std::shared_ptr<corpus::Document> doc;
    VectorXi X;
    int y;
};

// keep the exponents of the approximate update inside the range of the number type
template <typename S> void limit_weight(const Model<S> &m, Settings &o) {
    double lim = sizeof(S) == 4 ? 20 : 100, es = m.eta.cwiseAbs().maxCoeff(), mx = m.eta.maxCoeff();
    if (mx > 0) es /= mx;
    if (es > 0) o.C = std::min(o.C, lim / es);
    if (es > lim) o.decay = false;                   // a decaying weight starts at one
}
template <typename S> void limit_weight(Inst<S> &r) { limit_weight(r.m, r.o); }

template <typename S> Inst<S> gen_inst(Case &c, int method, int wide, double zero_beta) {
    Inst<S> r;
    r.method = method;
    r.K = c.size(6, c.chance(1, 10) ? 200 : 40);
    r.V = c.size(8, c.chance(1, 8) ? (c.chance(1, 4) ? 3000 : 400) : 60);
    r.C = c.size(4, 40);
    if ((long) r.K * r.V * r.C > 400000) r.C = 1 + r.C % 4;
    if ((long) r.K * r.V > 100000) r.K = 1 + r.K % 30;
    if (method == SUP && (long) r.K * r.V * r.C * r.V > 2000000) { r.K = 1 + r.K % 3; r.C = 1 + r.C % 3; }      // quadratic in the words
    r.m = gen_model<S>(c, method, r.K, r.V, r.C, wide, zero_beta);
    int D = c.size(3, 20), at = (int) c.draw(D);
    MatrixXi X(r.V, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) { X.col(d) = gen_doc(c, r.V, wide); y[d] = (int) c.draw(r.C); }
    if (wide && c.chance(1, 6)) r.m.beta.col((int) c.draw(r.V)).setZero();       // a word no topic has seen
    // now and then a vocabulary beyond the range of 16 bit numbers
    if (sizeof(S) == 8 && r.V <= 60 && r.K <= 2 + (method != SUP) && r.C <= 2 && method != CORR && c.chance(1, 600)) {
        int T = 66000 / r.V + 1;
        r.m.beta = (r.m.beta / T).replicate(1, T).eval();
        X = X.cwiseMin(3).leftCols(at + 1).replicate(T, 1).eval();
        y.conservativeResize(at + 1);
        r.V *= T;
        c.label("vast vocabulary");
    }
    r.corp.reset(new Corp(X, y));
    r.doc = r.corp->c->at(at);
    r.X = X.col(at);
    r.y = y[at];
    if (method < MULTI && c.chance(1, 3))
        r.doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(r.X), r.y);
    r.o.fixed_point = 1 + (int) c.draw(4);
    if ((long) r.K * r.V * r.C <= 400 && c.chance(1, 6)) r.o.fixed_point = c.pick({10, 20, 35});
    r.o.mu = c.pick({1.0, 2.0, 5.0});
    r.o.eta_weight = c.pick({1.0, 0.0, 0.5, 2.0});
    if (method == FAST) {
        r.o.C = c.pick({1.0, 0.5, 0.0, 3.0, 10.0, 0.9, 0.99});
        r.o.decay = c.chance(1, 2);
        limit_weight(r);
    }
    c << method_name(method) << (sizeof(S) == 4 ? " float" : " double") << " K=" << r.K << " V=" << r.V << " C=" << r.C << " X=[" << r.X.transpose() << "] y=" << r.y
      << " alpha=[" << r.m.alpha.transpose() << "] C_=" << r.o.C << " etaw=" << r.o.eta_weight << " fp=" << r.o.fixed_point;
    return r;
}

// work of one iteration
template <typename S> long cost(const Inst<S> &in) { return (long) in.K * in.V * in.C * (in.method == SUP ? (long) in.V * in.o.fixed_point : 1); }

// ------------------------------------------------------------------- C05
template <typename S> void c05(Case &c, int method) {
    int wide = c.chance(3, 4);
    Inst<S> in = gen_inst<S>(c, method, wide, c.pick({0.0, 0.2, 0.6}));
    in.o.iters = (int) c.draw(cost(in) > 3000000 ? 3 : c.chance(1, 10) ? (cost(in) <= 10000 && c.chance(1, 8) ? 400 : 60) : 8);
    in.o.tol = c.chance(1, 2) ? 0 : c.logu(1e-6, 10);
    in.o.cl = c.chance(1, 2);
    if (method == CORR && in.X.sum() == 0) in.o.cl = 0;
    c << " iters=" << in.o.iters << " tol=" << in.o.tol << " beta=\n" << in.m.beta << "\neta=\n" << in.m.eta;
    auto step = make_estep<S>(method, in.o);
    int ep = in.o.C <= 1 ? (int) c.draw(4) : 0;
    for (int i = 0; i < ep; i++) step->e_step();
    Result<S> r = infer<S>(*step, method, in.doc, in.m);
    const double eps = sizeof(S) == 4 ? 2e-5 : 1e-9;
    REQUIRE(r.phi.rows() == in.K && r.phi.cols() == in.V && r.gamma.size() == in.K, "wrong sizes");
    REQUIRE(all_finite(r.phi), "topic assignments not finite\n" << r.phi);
    REQUIRE(all_finite(r.gamma), "topic weights not finite " << r.gamma.transpose());
    REQUIRE(r.phi.minCoeff() >= 0, "negative topic probability " << r.phi.minCoeff());
    RefM ref(in.m, in.X, in.y);
    LD N = ref.N();
    for (int v = 0; v < in.V; v++) {
        LD s = r.phi.col(v).template cast<LD>().sum();
        bool known = in.m.beta.col(v).maxCoeff() > 0;
        if (known) REQUIRE(std::abs((double) s - 1) < eps * in.K + eps, "word " << v << ": topic probabilities sum to " << (double) s);
        else REQUIRE((std::abs((double) s - 1) < eps * in.K + eps) || s == 0, "unknown word " << v << ": topic probabilities sum to " << (double) s);
    }
    VL g = ref.gamma_of(r.phi.template cast<LD>());
    for (int k = 0; k < in.K; k++) {
        REQUIRE(r.gamma[k] >= in.m.alpha[k] - eps * (1 + in.m.alpha[k] + (double) (method == SUP ? N : 0)), "weight " << r.gamma[k] << " of topic " << k << " below its prior " << in.m.alpha[k]);
        REQUIRE(std::abs((double) (r.gamma[k] - g[k])) <= eps * (1 + (double) (N + in.m.alpha[k])) * (1 + (method == SUP ? in.o.iters : 0)),
                "weight " << r.gamma[k] << " of topic " << k << " is not prior plus expected count " << (double) g[k]);
    }
    if (method == CORR) {
        REQUIRE(r.tau.size() == in.V && all_finite(r.tau) && r.tau.minCoeff() >= 0, "participation weights invalid " << r.tau.transpose());
        REQUIRE(std::abs(r.tau.template cast<double>().sum() - 1) < eps * (in.V + 1) , "participation weights sum to " << r.tau.sum());
    }
    REQUIRE(r.events == 1, "not exactly one report but " << r.events);
    c.nontrivial(in.K > 1 && in.V > 1 && in.o.iters > 0);
    c.label(method_name(method));
    if (N == 0) c.label("empty document");
    if (in.o.iters == 0) c.label("no iterations");
    if (in.m.beta.colwise().maxCoeff().minCoeff() == 0) c.label("unknown word");
}
PROP(c05_valid) {
    int method = (int) c.draw(NMETHODS);
    if (c.chance(1, 2)) c05<float>(c, method); else c05<double>(c, method);
}

// ------------------------------------------------------------------- C06
template <typename S> struct Next { ML phi; VL gamma, tau; };

// admissible interval of the next iterate: exact update plus the spread over admissible errors of the exponential
template <typename S>
void check_update(Case &c, const Inst<S> &in, LD weight, const Result<S> &a, const Result<S> &b, int t) {
    RefM ref(in.m, in.X, in.y);
    ML phi0 = a.phi.template cast<LD>(), phi1 = b.phi.template cast<LD>();
    VL g0 = a.gamma.template cast<LD>(), t0 = a.tau.template cast<LD>();
    LD N = ref.N();
    LD shift = std::fabs(ref_digamma(g0.sum())) + 1;
    const int R = 14;
    std::vector<ML> P;
    std::vector<VL> T;
    for (int i = 0; i < R; i++) {
        PExp E(i, shift);
        ML p;
        VL g = g0;
        switch (in.method) {
            case UNSUP: p = ref.unsup(phi0, g0, E); break;
            case FAST: p = ref.fast(phi0, g0, weight, E); break;
            case MULTI: p = ref.multi(phi0, g0, in.o.eta_weight, E); break;
            case CORR: p = ref.corr(phi0, g0, t0, E); break;
            default: p = phi0; ref.sup(p, g, in.o.fixed_point, E); break;
        }
        P.push_back(p);
        if (in.method == CORR) T.push_back(ref.corr_tau(phi1, E));
    }
    const double base = sizeof(S) == 4 ? 2e-4 : 1e-5;
    LD gtol = base * (1 + N);
    bool skipped = false;
    for (int v = 0; v < in.V; v++) {
        if (in.X[v] == 0 && in.method != CORR) continue;
        if (in.m.beta.col(v).maxCoeff() == 0) continue;
        LD spread = 0;
        for (int i = 1; i < R; i++) spread = std::max(spread, (P[i].col(v) - P[0].col(v)).cwiseAbs().maxCoeff());
        LD tol = 3 * spread + base;
        gtol += in.X[v] * tol;
        if (tol > 0.5) { skipped = true; continue; }
        for (int k = 0; k < in.K; k++)
            REQUIRE(std::fabs(phi1(k, v) - P[0](k, v)) <= tol, "iteration " << t + 1 << ": probability of topic " << k << " for word " << v << " is " << (double) phi1(k, v)
                    << ", the update gives " << (double) P[0](k, v) << " (tolerance " << (double) tol << ")");
    }
    if (in.method == CORR) {
        LD spread = 0;
        for (int i = 1; i < R; i++) spread = std::max(spread, (T[i] - T[0]).cwiseAbs().maxCoeff());
        for (int v = 0; v < in.V; v++)
            REQUIRE(std::fabs((LD) b.tau[v] - T[0][v]) <= 3 * spread + base, "iteration " << t + 1 << ": participation of word " << v << " is " << b.tau[v] << ", the update gives "
                    << (double) T[0][v]);
    }
    if (!skipped) {
        VL g1 = ref.gamma_of(phi1);
        for (int k = 0; k < in.K; k++) {
            REQUIRE(std::fabs((LD) b.gamma[k] - g1[k]) <= base * (1 + N) * (t + 1), "iteration " << t + 1 << ": weight of topic " << k << " is " << b.gamma[k] << ", expected counts give "
                    << (double) g1[k]);
        }
    } else c.label("some words too ill-conditioned to compare");
}

template <typename S> void c06_up(Case &c, int method) {
    int wide = c.chance(1, 4);
    Inst<S> in = gen_inst<S>(c, method, wide, c.pick({0.0, 0.3}));
    int ep = (int) c.draw(c.chance(1, 8) ? (c.chance(1, 5) ? 400 : 30) : 4);
    LD weight = in.o.C;
    if (in.o.decay) { for (int i = 1; i < ep; i++) weight *= in.o.C; if (ep == 0) weight = 1; }
    if (method == FAST && in.o.decay && in.o.C > 1) { ep = std::min(ep, 1); weight = ep ? (LD) in.o.C : 1; }
    int t = (int) c.draw(cost(in) > 3000000 ? 2 : c.chance(1, 8) ? (cost(in) <= 10000 && c.chance(1, 4) ? 150 : 12) : 4);
    c << " epochs=" << ep << (in.o.decay ? " decay" : "") << " t=" << t << " beta=\n" << in.m.beta << "\neta=\n" << in.m.eta;
    Settings o = in.o;
    auto run = [&](int iters) {
        o.iters = iters;
        o.tol = 0;
        auto step = make_estep<S>(method, o);
        for (int i = 0; i < ep; i++) step->e_step();
        return infer<S>(*step, method, in.doc, in.m);
    };
    RefM ref(in.m, in.X, in.y);
    double N = (double) ref.N();
    Result<S> a = run(0);
    const double e = sizeof(S) == 4 ? 1e-5 : 1e-12;
    for (int k = 0; k < in.K; k++) {
        REQUIRE(std::abs(a.gamma[k] - (in.m.alpha[k] + N / in.K)) <= e * (1 + in.m.alpha[k] + N), "initial weight of topic " << k << " is " << a.gamma[k]);
        for (int v = 0; v < in.V; v++) if (in.X[v]) REQUIRE(std::abs(a.phi(k, v) - 1.0 / in.K) <= e, "initial assignment not uniform " << a.phi(k, v));
    }
    if (t) a = run(t);
    Result<S> b = run(t + 1);
    if (!all_finite(a.phi) || !all_finite(b.phi) || !all_finite(b.gamma)) FAIL("not finite");
    check_update<S>(c, in, weight, a, b, t);
    c.nontrivial(in.K > 1 && N > 0);
    c.label(method_name(method));
}
PROP(c06_update) {
    int method = (int) c.draw(NMETHODS);
    if (c.chance(1, 2)) c06_up<float>(c, method); else c06_up<double>(c, method);
}

template <typename S> void c06_stopping(Case &c, int method) {
    Inst<S> in = gen_inst<S>(c, method, c.chance(1, 5), c.pick({0.0, 0.2}));
    const int T = 2 + (int) c.draw(cost(in) > 3000000 ? 3 : 9);
    std::vector<VX<S> > g;
    Settings o = in.o;
    auto run = [&](int iters, double tol, double cl) {
        o.iters = iters; o.tol = tol; o.cl = cl;
        auto step = make_estep<S>(method, o);
        return infer<S>(*step, method, in.doc, in.m).gamma;
    };
    for (int t = 0; t <= T; t++) { g.push_back(run(t, 0, 0)); if (!all_finite(g.back())) FAIL("not finite"); }
    // change before iteration i+1 runs: c_i = mean |g_{i-1} - g_i|, with g_{-1} = 0
    std::vector<double> ch;
    for (int i = 0; i <= T; i++) {
        double s = 0;
        for (int k = 0; k < in.K; k++) s += std::fabs((double) g[i][k] - (i ? (double) g[i - 1][k] : 0));
        ch.push_back(s / in.K);
    }
    // a tolerance near one of the observed changes, or anywhere
    double tol;
    if (c.chance(4, 5)) tol = ch[1 + c.draw(T)] * c.pick({1.02, 0.98, 1.5, 0.5, 1.0005, 0.9995});
    else tol = c.logu(1e-7, 100);
    double cl = (method == CORR && in.X.sum() == 0) ? 0 : c.pick({0.0, 1.0});
    int lim = c.chance(3, 4) ? T : (int) c.draw(T + 1);
    c << " tol=" << tol << " limit=" << lim << " cl=" << cl << " changes:";
    for (double x : ch) c << " " << x;
    VX<S> got = run(lim, tol, cl);
    // admissible stopping points
    std::vector<int> ok;
    bool sure = false;
    int i = 0;
    for (; i < lim; i++) {
        double rel = 1e-4 + (sizeof(S) == 4 ? 1e-3 : 0), noise = (sizeof(S) == 4 ? 3e-6 : 1e-13) * (g[i].cwiseAbs().sum());
        if (ch[i] < tol * (1 - rel) - noise) { ok.push_back(i); sure = true; break; }
        if (ch[i] < tol * (1 + rel) + noise) ok.push_back(i);
    }
    if (!sure) ok.push_back(lim);
    bool hit = false;
    for (int j : ok) if ((got - g[j]).cwiseAbs().maxCoeff() <= (sizeof(S) == 4 ? 1e-5 : 1e-10) * (1 + (double) g[j].cwiseAbs().maxCoeff())) hit = true;
    REQUIRE(hit, "result " << got.transpose() << " is not that of " << ok.back() << " iterations " << g[ok.back()].transpose());
    c.nontrivial(in.K > 1 && in.X.sum() > 0 && sure && ok.back() > 0);
    c.label(method_name(method));
    c.label(sure ? "stopped by tolerance" : "stopped by limit");
}
PROP(c06_stop) {
    int method = (int) c.draw(NMETHODS);
    if (c.chance(1, 2)) c06_stopping<float>(c, method); else c06_stopping<double>(c, method);
}

// words that are not in the document play no role: the same words inside a larger vocabulary give the same result
template <typename S> void c06_emb(Case &c, int method) {
    int K = 1 + (int) c.draw(6), n = 1 + (int) c.draw(c.chance(1, 4) ? 20 : 5), C = 1 + (int) c.draw(4);
    int V = n + (int) c.draw(c.chance(1, 30) ? 5000 : c.chance(1, 3) ? 600 : 100);
    Model<S> m = gen_model<S>(c, method, K, n, C, 0, c.pick({0.0, 0.2})), b = gen_model<S>(c, method, K, 1, C, 0, 0);
    std::set<int> at;
    while ((int) at.size() < n) at.insert((int) c.draw(V));
    std::vector<int> pos(at.begin(), at.end());
    b.alpha = m.alpha;
    b.eta = m.eta;
    b.beta = MX<S>::Constant(K, V, (S) (1.0 / V));
    bool other = c.chance(1, 2);
    if (other) for (int v = 0; v < V; v++) for (int k = 0; k < K; k++) b.beta(k, v) = (S) ((1 + (v * 7 + k * 3) % 5) / (3.0 * V));
    // counts of the document, at least one
    VectorXi x(n), X = VectorXi::Zero(V);
    for (int i = 0; i < n; i++) { x[i] = (int) c.draw(4); X[pos[i]] = x[i]; b.beta.col(pos[i]) = m.beta.col(i); }
    if (x.sum() == 0) { x[0] = 1; X[pos[0]] = 1; }
    int y = (int) c.draw(C);
    Settings o;
    o.iters = 1 + (int) c.draw(4);
    o.tol = 0;
    o.fixed_point = 1 + (int) c.draw(4);
    o.cl = 0;
    o.C = c.pick({1.0, 0.5});
    if (method == FAST) limit_weight(m, o);
    c << method_name(method) << (sizeof(S) == 4 ? " float" : " double") << " K=" << K << " C=" << C << " y=" << y << " words [" << x.transpose() << "] at";
    for (int p : pos) c << " " << p;
    c << " of " << V << " iters=" << o.iters << " beta=\n" << m.beta << "\neta=\n" << m.eta;
    MatrixXi xm = x, Xm = X;
    VectorXi ys = VectorXi::Constant(1, y);
    Corp small(xm, ys), large(Xm, ys);
    auto s1 = make_estep<S>(method, o), s2 = make_estep<S>(method, o);
    Result<S> r = infer<S>(*s1, method, small.c->at(0), m), q = infer<S>(*s2, method, large.c->at(0), b);
    const double tol = sizeof(S) == 4 ? 3e-3 : 1e-4, N = x.sum();
    for (int k = 0; k < K; k++) {
        REQUIRE(std::fabs((double) r.gamma[k] - q.gamma[k]) <= tol * (1 + N), "weight of topic " << k << " is " << r.gamma[k] << ", with more words in the vocabulary (not in the document) " << q.gamma[k]);
        for (int i = 0; i < n; i++) if (x[i] && m.beta.col(i).maxCoeff() > 0)
            REQUIRE(std::fabs((double) r.phi(k, i) - q.phi(k, pos[i])) <= tol, "topic " << k << " of word " << i << " is " << r.phi(k, i) << ", with more words in the vocabulary (not in the document) " << q.phi(k, pos[i]));
    }
    c.nontrivial(K > 1 && (x.array() > 0).count() > 1 && V > n);
    c.label(method_name(method));
}
PROP(c06_embedded) {
    int method = c.pick({(int) UNSUP, (int) SUP, (int) SUP, (int) FAST, (int) MULTI});
    if (c.chance(1, 3)) c06_emb<float>(c, method); else c06_emb<double>(c, method);
}

// ------------------------------------------------------------------- C07
// lower bound of the unsupervised model, and the sum of magnitudes of its terms
static LD ref_elbo(const RefM &r, const ML &phi, const VL &g, LD &mag) {
    LD s = 0;
    mag = 1;
    auto add = [&](LD x) { s += x; mag += std::fabs(x); };
    int K = r.alpha.size();
    LD pg = ref_digamma(g.sum());
    VL t(K);
    for (int k = 0; k < K; k++) t[k] = ref_digamma(g[k]) - pg;
    add(lgammal(r.alpha.sum()));
    add(-lgammal(g.sum()));
    for (int k = 0; k < K; k++) {
        add(-lgammal(r.alpha[k]));
        add(lgammal(g[k]));
        add((r.alpha[k] - 1) * t[k]);
        add(-(g[k] - 1) * t[k]);
    }
    for (int n = 0; n < r.X.size(); n++) if (r.X[n]) for (int k = 0; k < K; k++) if (phi(k, n) > 0) {
        LD w = r.X[n] * phi(k, n);
        add(w * t[k]);
        add(w * std::log(r.beta(k, n)));
        add(-w * std::log(phi(k, n)));
    }
    return s;
}

// exact log evidence: sum over all topic assignments of the tokens
static LD exact_evidence(const RefM &r) {
    int K = r.alpha.size();
    std::vector<int> tok;
    for (int n = 0; n < r.X.size(); n++) for (int i = 0; i < r.X[n]; i++) tok.push_back(n);
    int N = tok.size();
    long total = 1;
    for (int i = 0; i < N; i++) total *= K;
    LD sum = 0, a0 = r.alpha.sum();
    for (long z = 0; z < total; z++) {
        std::vector<int> cnt(K, 0);
        LD p = 1;
        long q = z;
        for (int i = 0; i < N; i++) {
            int k = q % K;
            q /= K;
            p *= r.beta(k, tok[i]) * (r.alpha[k] + cnt[k]) / (a0 + i);
            cnt[k]++;
        }
        sum += p;
    }
    return std::log(sum);
}

// make one word very unlikely in every topic; the probabilities stay well above the smallest number of the type
template <typename S> bool scale_word(Case &c, Model<S> &m) {
    int v = (int) c.draw(m.beta.cols());
    if (c.chance(1, 2)) { int w = 0; m.beta.row(0).maxCoeff(&w); v = w; }
    double to = std::pow(10.0, -(double) (10 + c.draw(sizeof(S) == 4 ? 11 : 21))), mx = m.beta.col(v).maxCoeff();
    for (int k = 0; k < m.beta.rows(); k++) if (m.beta(k, v) > 0 && m.beta(k, v) < 1e-4 * mx) return false;
    if (!(mx > to)) return false;
    m.beta.col(v) *= (S) (to / mx);
    return true;
}

template <typename S> void c07(Case &c, int method) {
    bool small = c.chance(1, 3);
    int wide = small ? 0 : c.chance(1, 4);
    Inst<S> in = gen_inst<S>(c, method, wide, c.pick({0.0, 0.3}));
    if (small) {
        // tiny document with repeated words, so that the evidence can be computed exactly
        in.K = 1 + (int) c.draw(3);
        in.m = gen_model<S>(c, method, in.K, in.V, in.C, 0, 0);
        limit_weight(in);
        VectorXi X = VectorXi::Zero(in.V);
        int n = 1 + (int) c.draw(7);
        for (int i = 0; i < n; i++) X[c.draw(in.V)]++;
        in.X = X;
        in.doc = std::make_shared<corpus::ClassificationDecorator>(std::make_shared<corpus::EigenDocument>(in.X), in.y);
    }
    in.o.cl = 1;
    in.o.iters = (int) c.draw(cost(in) > 3000000 ? 3 : cost(in) <= 10000 && c.chance(1, 12) ? 80 : 8);
    in.o.tol = c.chance(1, 2) ? 0 : 1e-2;
    for (int v = 0; v < in.V; v++) if (in.m.beta.col(v).maxCoeff() == 0) in.m.beta.col(v).setConstant(1e-3);
    if (in.o.iters == 0 || method == SUP) for (int v = 0; v < in.V; v++) for (int k = 0; k < in.K; k++) if (in.m.beta(k, v) == 0) in.m.beta(k, v) = 1e-3;
    if (c.chance(1, 8) && scale_word<S>(c, in.m)) c.label("word of vanishing probability");
    c << " iters=" << in.o.iters << " X'=" << in.X.transpose() << " beta=\n" << in.m.beta << "\neta=\n" << in.m.eta;
    auto step = make_estep<S>(method, in.o);
    Result<S> r = infer<S>(*step, method, in.doc, in.m);
    REQUIRE(r.events == 1 && r.reports.size() == 1, "not exactly one likelihood report but " << r.events);
    double got = r.reports[0];
    RefM ref(in.m, in.X, in.y);
    LD N = ref.N(), mag;
    // float results may round a tiny probability whose topic has zero probability for the word to zero; nothing else can go missing
    LD want = ref_elbo(ref, r.phi.template cast<LD>(), r.gamma.template cast<LD>(), mag);
    double tol = (double) mag * (sizeof(S) == 4 ? 3e-5 : 2e-8) + (sizeof(S) == 4 ? 1e-3 : 1e-6);
    if (method != UNSUP) {
        if (N > 0) {
            VL zb = VL::Zero(in.K);
            for (int n = 0; n < in.V; n++) if (in.X[n]) zb += r.phi.col(n).template cast<LD>() * (in.X[n] / N);
            want += ref.eta.col(in.y).dot(zb);
            LD tot = 0;
            for (int j = 0; j < in.C; j++) {
                LD p = 1;
                for (int n = 0; n < in.V; n++) if (in.X[n]) {
                    LD q = 0;
                    for (int k = 0; k < in.K; k++) q += std::exp(ref.eta(k, j) * in.X[n] / N) * r.phi(k, n);
                    p *= q;
                }
                tot += p;
            }
            want -= std::log(tot);
            double me = in.m.eta.cwiseAbs().maxCoeff();
            for (int n = 0; n < in.V; n++) if (in.X[n]) tol += std::max(1.0, 2 * me * in.X[n] / (double) N) / 1024;
            tol += 1e-4 * (sizeof(S) == 4) * (1 + me);
        } else want -= std::log((LD) in.C);
    }
    REQUIRE(std::isfinite(got), "reported likelihood " << got << " not finite; the bound is " << (double) want);
    REQUIRE(std::abs(got - (double) want) <= tol, "reported likelihood " << got << ", the bound of the returned parameters is " << (double) want << " (tolerance " << tol << ")");
    if (small && method == UNSUP) {
        LD ev = exact_evidence(ref);
        REQUIRE(got <= (double) ev + tol, "reported bound " << got << " exceeds the exact log evidence " << (double) ev);
        c.label("exact evidence");
    }
    if (method == UNSUP && in.X.sum() > 0 && in.o.tol == 0) {
        Settings o = in.o;
        o.iters++;
        auto s2 = make_estep<S>(method, o);
        Result<S> r2 = infer<S>(*s2, method, in.doc, in.m);
        double sh = std::abs((double) ref_digamma((LD) r.gamma.template cast<double>().sum())) + 1, eps = 0;
        for (int k = 0; k < in.K; k++) eps = std::max(eps, (std::abs((double) ref_digamma(r.gamma[k])) + sh) * 2 / 1024);
        double slack = 2 * tol + 2 * (double) N * eps * eps;
        REQUIRE(r2.reports.at(0) >= got - slack, "one more iteration lowered the bound from " << got << " to " << r2.reports[0] << " (slack " << slack << ")");
        c.label("monotone");
    }
    c.nontrivial(in.K > 1 && in.X.maxCoeff() > 1);
    c.label(method_name(method));
}
PROP(c07_bound) {
    int method = (int) c.draw(3);
    if (c.chance(1, 2)) c07<float>(c, method); else c07<double>(c, method);
}

template <typename S> void c07_frac(Case &c, int method) {
    Inst<S> in = gen_inst<S>(c, method, 0, 0);
    if (in.X.sum() == 0) { in.X[0] = 2; in.doc = nullptr; }
    if (!in.doc) {
        MatrixXi X = in.corp->X;
        X.colwise() = in.X;
        VectorXi y = VectorXi::Constant(X.cols(), in.y);
        in.corp.reset(new Corp(X, y));
        in.doc = in.corp->c->at(0);
    }
    in.o.iters = (int) c.draw(3);
    double p = c.pick({0.0, 1.0, 0.5, 0.1, 0.9});
    if (c.chance(1, 3)) p = c.unit();
    in.o.cl = p;
    in.o.rs = (int) c.draw(1000);
    auto step = make_estep<S>(method, in.o);
    const int n = 600;
    int rep = 0;
    double first = NAN;
    for (int i = 0; i < n; i++) {
        Result<S> r = infer<S>(*step, method, in.doc, in.m);
        REQUIRE(r.events == 1 && r.reports.size() == 1, "not exactly one report per document but " << r.events);
        if (!std::isnan(r.reports[0])) {
            rep++;
            if (std::isnan(first)) first = r.reports[0];
            REQUIRE(r.reports[0] == first, "the same document reported as " << first << " and " << r.reports[0]);
        }
    }
    c << " p=" << p << " rs=" << in.o.rs << " reported=" << rep << "/" << n;
    double pp = (S) p, sd = std::sqrt(n * pp * (1 - pp));
    REQUIRE(std::abs(rep - n * pp) <= 6.5 * sd + 1e-3, "likelihood computed for " << rep << " of " << n << " documents with probability " << p);
    c.nontrivial(p > 0 && p < 1);
    c.label(method_name(method));
}
PROP(c07_fraction) {
    int method = (int) c.draw(NMETHODS);
    if (c.chance(1, 2)) c07_frac<float>(c, method); else c07_frac<double>(c, method);
}

// The two multinomial methods: the difference of two reports under the same prior settings (terms that depend on
// nothing but the sizes and mu cancel, so the normaliser of the class parameter prior is not judged).
template <typename S> LD ref_multi(const Inst<S> &in, const VectorXi &X, int y, const Model<S> &m, const Result<S> &r, LD prior_y, LD docs, LD &mag) {
    RefM ref(m, X, y);
    ML phi = r.phi.template cast<LD>();
    LD s = ref_elbo(ref, phi, r.gamma.template cast<LD>(), mag);
    auto add = [&](LD x) { s += x; mag += std::fabs(x); };
    for (int n = 0; n < in.V; n++) if (X[n]) {
        LD w = in.method == CORR ? (LD) r.tau[n] : 1;
        for (int k = 0; k < in.K; k++) add(w * X[n] * phi(k, n) * std::log(ref.eta(k, y)));
        if (in.method == CORR && w > 0) add(-w * X[n] * std::log(w));
    }
    if (in.method == MULTI) add(-(ref.N() - 1) * std::log(prior_y));
    else add(-std::log(ref.N()));
    for (int k = 0; k < in.K; k++) for (int j = 0; j < in.C; j++) add(((LD) in.o.mu - 1) / docs * std::log(ref.eta(k, j)));
    return s;
}
template <typename S> void c07_multi(Case &c, int method) {
    Inst<S> in = gen_inst<S>(c, method, c.chance(1, 4), c.pick({0.0, 0.3}));
    in.o.cl = 1;
    in.o.iters = (int) c.draw(cost(in) <= 10000 && c.chance(1, 12) ? 80 : 6);
    in.o.tol = c.chance(1, 2) ? 0 : 1e-2;
    Model<S> m2 = c.chance(1, 3) ? in.m : gen_model<S>(c, method, in.K, in.V, in.C, 0, 0);
    if (c.chance(1, 3)) { m2.alpha = in.m.alpha; m2.beta = in.m.beta; }
    for (Model<S> *m : {&in.m, &m2}) {
        for (int v = 0; v < in.V; v++) {
            if (m->beta.col(v).maxCoeff() == 0) m->beta.col(v).setConstant(1e-3);
            if (in.o.iters == 0) for (int k = 0; k < in.K; k++) if (m->beta(k, v) == 0) m->beta(k, v) = 1e-3;
        }
    }
    if (c.chance(1, 8) && scale_word<S>(c, in.m)) c.label("word of vanishing probability");
    int D = in.corp->X.cols();
    int d[2] = {(int) c.draw(D), (int) c.draw(D)};
    c << " iters=" << in.o.iters << " mu=" << in.o.mu << " documents " << d[0] << "," << d[1] << " of " << D << " y=[" << in.corp->y.transpose() << "] eta=\n" << in.m.eta << "\neta2=\n" << m2.eta;
    double got[2];
    LD want[2], mag = 0;
    for (int i = 0; i < 2; i++) {
        VectorXi X = in.corp->X.col(d[i]);
        int y = in.corp->y[d[i]];
        if (X.sum() == 0) { c.label("empty document"); return; }
        auto step = make_estep<S>(method, in.o);
        Result<S> r = infer<S>(*step, method, in.corp->c->at(d[i]), i ? m2 : in.m);
        REQUIRE(r.events == 1 && r.reports.size() == 1, "not exactly one likelihood report but " << r.events);
        got[i] = r.reports[0];
        REQUIRE(std::isfinite(got[i]), "reported likelihood " << got[i] << " not finite");
        LD g;
        want[i] = ref_multi(in, X, y, i ? m2 : in.m, r, (LD) (in.corp->y.array() == y).count() / D, D, g);
        mag += g;
    }
    double tol = (double) mag * (sizeof(S) == 4 ? 3e-5 : 1e-7) + (sizeof(S) == 4 ? 1e-3 : 1e-6);
    REQUIRE(std::abs((got[0] - got[1]) - (double) (want[0] - want[1])) <= tol, "reports " << got[0] << " and " << got[1] << " differ by " << got[0] - got[1] << ", the bounds by "
            << (double) (want[0] - want[1]) << " (tolerance " << tol << ")");
    c.nontrivial(in.K > 1 && in.C > 1 && (d[0] != d[1] || m2.eta != in.m.eta));
    c.label(method_name(method));
}
PROP(c07_multinomial) {
    int method = c.chance(1, 2) ? MULTI : CORR;
    if (c.chance(1, 2)) c07_multi<float>(c, method); else c07_multi<double>(c, method);
}

PBT_MAIN
