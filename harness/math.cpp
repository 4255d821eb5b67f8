// C04 (corpus), C17 (numerical helpers), C10/C11 (objectives, minimisation)
#include "pbt.hpp"
#include <memory>
#include <Eigen/Core>
#include "ldaplusplus/Document.hpp"
#include "ldaplusplus/utils.hpp"
#include "ldaplusplus/optimization/GradientDescent.hpp"
#include "ldaplusplus/optimization/MultinomialLogisticRegression.hpp"
#include "ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.hpp"

using namespace Eigen;
using namespace ldaplusplus;
using pbt::Case;
typedef long double LD;
template <typename S> using MX = Matrix<S, Dynamic, Dynamic>;
template <typename S> using VX = Matrix<S, Dynamic, 1>;

// ------------------------------------------------------------------ C04
static MatrixXi gen_counts(Case &c, int V, int D) {
    MatrixXi X(V, D);
    for (int d = 0; d < D; d++) for (int v = 0; v < V; v++) X(v, d) = c.chance(2, 3) ? (int) c.draw(5) : 0;
    return X;
}

// identify documents: make columns distinct or not; compare as multisets of (column, label)
typedef std::vector<int> Key;
static Key key_of(const VectorXi &w, int y) { Key k(w.data(), w.data() + w.size()); k.push_back(y); return k; }

template <typename C>
static void check_corpus(Case &, const C &corpus, const MatrixXi &X, const VectorXi *y, std::vector<Key> *order) {
    REQUIRE((int) corpus.size() == X.cols(), "size " << corpus.size());
    std::multiset<Key> want, got;
    for (int d = 0; d < X.cols(); d++) want.insert(key_of(X.col(d), y ? (*y)[d] : 0));
    if (order) order->clear();
    for (size_t i = 0; i < corpus.size(); i++) {
        auto doc = corpus.at(i);
        int lab = 0;
        if (y) {
            auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(doc);
            REQUIRE(cd != nullptr, "document " << i << " carries no label");
            lab = cd->get_class();
        }
        Key k = key_of(doc->get_words(), lab);
        REQUIRE(corpus.at(i)->get_words() == doc->get_words(), "two reads of position " << i << " differ");
        got.insert(k);
        if (order) order->push_back(k);
    }
    REQUIRE(got == want, "documents (words with labels) are not exactly those of the input");
}

static void check_priors(const corpus::ClassificationCorpus &cc, const VectorXi &y, int classes) {
    if (y.size() == 0) return;
    for (int k = 0; k < classes + 3; k++) {      // classes no document has included
        int n = 0;
        for (int i = 0; i < y.size(); i++) n += y[i] == k;
        double want = n / (double) y.size(), got = cc.get_prior(k);
        REQUIRE(std::abs(got - want) < 1e-5, "prior of class " << k << " is " << got << " instead of " << want);
    }
}

PROP(c04_history) {
    int D = c.size(12, c.chance(1, 40) ? 3000 : 120, 10), V = 1 + (int) c.draw(5);
    if (c.chance(1, 40)) D = 0; // a corpus without documents
    MatrixXi X = gen_counts(c, V, D);
    // most of the time make the documents distinguishable
    if (c.chance(3, 4)) for (int d = 0; d < D; d++) X(0, d) = d + 1;
    VectorXi y(D);
    int C = c.size(5, c.chance(1, 5) ? 1000 : 40, 10);
    bool neg = c.chance(1, 3);
    for (int d = 0; d < D; d++) { y[d] = (int) c.draw(C); if (neg && c.chance(1, 2)) y[d] = c.chance(1, 4) ? -1 - (int) c.draw(100) : -1; }
    int allneg = neg && c.chance(1, 6);
    if (allneg) y.fill(-1);
    int seed = (int) c.draw(1000);
    bool labelled = c.chance(2, 3);
    c << "D=" << D << " V=" << V << " y=" << y.transpose() << " seed=" << seed << (labelled ? " labelled" : " plain") << " ops:";
    MatrixXi X0 = X;
    VectorXi y0 = y;
    std::shared_ptr<corpus::Corpus> a, b;
    if (labelled) {
        a = std::make_shared<corpus::EigenClassificationCorpus>(X, y, seed);
        b = std::make_shared<corpus::EigenClassificationCorpus>(X, y, seed);
    } else {
        a = std::make_shared<corpus::EigenCorpus>(X, seed);
        b = std::make_shared<corpus::EigenCorpus>(X, seed);
    }
    int mx = 0;
    for (int d = 0; d < D; d++) mx = std::max(mx, y[d] + 1);
    auto cc = std::dynamic_pointer_cast<corpus::ClassificationCorpus>(a);
    int ops = (int) c.draw(8), shuffles = 0;
    std::vector<Key> oa, ob;
    check_corpus(c, *a, X0, labelled ? &y0 : nullptr, &oa);
    if (cc) check_priors(*cc, y0, mx);
    for (int i = 0; i < ops; i++) {
        int op = (int) c.draw(4);
        if (op <= 1) { c << " shuffle"; a->shuffle(); b->shuffle(); shuffles++; }
        else if (op == 2 && D) { c << " at"; a->at(c.draw(D)); }
        else if (cc && mx) { c << " prior"; cc->get_prior((int) c.draw(mx)); }
        check_corpus(c, *a, X0, labelled ? &y0 : nullptr, &oa);
        if (cc) check_priors(*cc, y0, mx);
    }
    check_corpus(c, *b, X0, labelled ? &y0 : nullptr, &ob);
    REQUIRE(oa == ob, "the same input, random state and number of shuffles give different orders");
    if (cc && D) {
        auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(a->at(0));
        auto dc = std::dynamic_pointer_cast<const corpus::ClassificationCorpus>(cd->get_corpus());
        REQUIRE(dc != nullptr, "a document of a classification corpus must know its corpus");
        check_priors(*dc, y0, mx);
    }
    REQUIRE(X == X0 && y == y0, "the caller's data changed");
    if (neg) c.label("unlabelled documents");
    if (shuffles) c.label("shuffled");
    c.nontrivial(D > 1 && shuffles > 0);
}

// more documents than 16 bit numbers can index
PROP(c04_large) {
    int D = (1 << 16) + (int) c.draw(20000), C = 1 + (int) c.draw(300), a = 1 + (int) c.draw(1000);
    bool labelled = c.chance(2, 3);
    MatrixXi X(1, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) { X(0, d) = d; y[d] = (int) ((long) d * a % (C + 1)) - 1; }
    std::shared_ptr<corpus::Corpus> k;
    if (labelled) k = std::make_shared<corpus::EigenClassificationCorpus>(X, y, a);
    else k = std::make_shared<corpus::EigenCorpus>(X, a);
    int shuffles = (int) c.draw(3);
    c << "D=" << D << (labelled ? " labelled" : " plain") << " classes=" << C << " shuffles=" << shuffles;
    for (int i = 0; i < shuffles; i++) k->shuffle();
    REQUIRE((int) k->size() == D, "size " << k->size());
    std::vector<char> seen(D, 0);
    for (int i = 0; i < D; i++) {
        auto doc = k->at(i);
        int w = doc->get_words()[0];
        REQUIRE(w >= 0 && w < D && !seen[w], "document " << w << " comes twice");
        seen[w] = 1;
        if (labelled) REQUIRE(std::dynamic_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() == y[w], "document " << w << " has the label of another");
    }
    if (labelled) {
        std::vector<int> n(C, 0);
        for (int d = 0; d < D; d++) if (y[d] >= 0) n[y[d]]++;
        auto cc = std::dynamic_pointer_cast<corpus::ClassificationCorpus>(k);
        for (int j = 0; j < C; j++) REQUIRE(std::abs(cc->get_prior(j) - n[j] / (double) D) < 1e-5, "prior of class " << j);
    }
    c.nontrivial(shuffles > 0);
}

PROP(c04_uniform) {
    int D = 2 + (int) c.draw(c.chance(1, 6) ? 60 : 7);
    bool fresh = c.chance(1, 2), labelled = c.chance(1, 2);
    int T = 4000, seed0 = (int) c.draw(100000);
    MatrixXi X(1, D);
    VectorXi y = VectorXi::Zero(D);
    for (int d = 0; d < D; d++) { X(0, d) = d; y[d] = d % 2; }
    MatrixXi n = MatrixXi::Zero(D, D);
    std::shared_ptr<corpus::Corpus> a;
    for (int t = 0; t < T; t++) {
        if (fresh || !t) {
            if (labelled) a = std::make_shared<corpus::EigenClassificationCorpus>(X, y, seed0 + t);
            else a = std::make_shared<corpus::EigenCorpus>(X, seed0 + t);
        }
        a->shuffle();
        for (int i = 0; i < D; i++) n(i, a->at(i)->get_words()[0])++;
    }
    double p = 1.0 / D, sd = std::sqrt(T * p * (1 - p));
    c << "D=" << D << (fresh ? " fresh corpora" : " repeated shuffles") << " seed " << seed0;
    for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
        REQUIRE(std::abs(n(i, j) - T * p) < 7 * sd, "document " << j << " was at position " << i << " in " << n(i, j) << " of " << T << " shuffles, expected " << T * p);
    c.nontrivial();
}

// ------------------------------------------------------------------ C17
static LD digamma_ref(LD x) {
    LD r = 0;
    while (x < 30) { r -= 1 / x; x += 1; }
    LD i = 1 / (x * x);
    return r + std::log(x) - 1 / (2 * x) - i * (1.0L / 12 - i * (1.0L / 120 - i * (1.0L / 252 - i * (1.0L / 240 - i * (1.0L / 132)))));
}

template <typename S> static S gen_pos(Case &c) {
    switch (c.draw(5)) {
        case 0: return (S) c.logu(1e-30, 1e-3);
        case 1: return (S) c.uniform(0.001, 10);
        case 2: { S k = (S) c.range(1, 12); int d = (int) c.range(-3, 3); S x = k; for (int i = 0; i < std::abs(d); i++) x = std::nextafter(x, d < 0 ? (S) 0 : (S) 100); return x; }
        case 3: return (S) c.uniform(6, 8);
        default: return (S) c.logu(1, 1e30);
    }
}

template <typename S> static void digamma_case(Case &c) {
    for (int k = 0; k < 50; k++) {
        S x = gen_pos<S>(c);
        if (k < 3) c << (double) x << " ";
        S got = math_utils::digamma(x);
        LD want = digamma_ref(x), eps = sizeof(S) == 4 ? 4e-6L : 1e-7L;
        REQUIRE(std::abs(got - want) <= eps * (1 + std::abs(want)), "digamma(" << x << ") = " << got << " instead of " << (double) want);
        VX<S> v(2); v << x, x;
        v = v.unaryExpr(math_utils::CwiseDigamma<S>());
        REQUIRE(v[0] == got && v[1] == got, "coefficient-wise digamma differs");
    }
    c.nontrivial();
}
PROP(c17_digamma) { if (c.chance(1, 2)) digamma_case<float>(c); else digamma_case<double>(c); }

template <typename S> static void exp_case(Case &c) {
    const LD maxv = std::numeric_limits<S>::max(), minv = std::numeric_limits<S>::min();
    for (int k = 0; k < 100; k++) {
        S x;
        switch (c.draw(7)) {
            case 0: x = (S) c.uniform(-2, 2); break;
            case 1: x = (S) c.uniform(-100, 100); break;
            case 2: x = (S) c.uniform(-800, 800); break;
            case 3: { S b = (S) c.pick({0., 1., 2., 4., 8., 16., 32., 64., 100., 0.5, 88.7, 709.7}); int d = (int) c.range(-3, 3); x = b; for (int i = 0; i < std::abs(d); i++) x = std::nextafter(x, d < 0 ? (S) -1e30 : (S) 1e30); if (c.chance(1, 2)) x = -x; break; }
            case 4: x = (S) (c.range(-1025, 1025) / 1024.0); break;
            case 5: x = (S) (c.chance(1, 2) ? 1 : -1) * (S) c.logu(1e-30, 1e30); break;
            default: x = c.pick({(S) INFINITY, (S) -INFINITY, (S) NAN, (S) 0, (S) -0.0, std::numeric_limits<S>::denorm_min(), std::numeric_limits<S>::max()});
        }
        if (k < 3) c << (double) x << " ";
        S got = math_utils::fast_exp(x);
        if (std::isnan(x)) continue; // only: no access outside the table
        REQUIRE(got >= 0, "fast_exp(" << x << ") = " << got << " is negative or not a number");
        LD want = std::exp((LD) x), ax = std::abs((LD) x);
        LD f = ax <= 100.0001L ? std::exp(std::max((LD) 1, ax) / 1000) : 1 + 1e-5L;
        LD lo = want / f, hi = want * f;
        bool ok = (got >= lo - minv || lo > maxv) && (got <= hi + minv);
        if (lo > maxv) ok = std::isinf(got);
        else if (hi > maxv) ok = got >= lo;  // close to overflow either is fine
        // 1/exp(-x): the reciprocal may underflow to zero earlier
        if (x < 0 && got == 0) ok = want < 4 / maxv;
        REQUIRE(ok, "fast_exp(" << x << ") = " << got << " instead of " << (double) want);
        VX<S> v(1); v << x;
        v = v.unaryExpr(math_utils::CwiseFastExp<S>());
        REQUIRE(v[0] == got, "coefficient-wise fast_exp differs");
    }
    c.nontrivial();
}
PROP(c17_fast_exp) { if (c.chance(1, 2)) exp_case<float>(c); else exp_case<double>(c); }

template <typename S> static void helpers_case(Case &c) {
    bool big = c.chance(1, 200);
    int R = 1 + (int) c.draw(8), C = 1 + (int) c.draw(8);
    if (big) { R = 1 + (int) c.draw(c.chance(1, 2) ? 3000 : 60); C = 1 + (int) c.draw(R > 60 ? 20 : 3000); }
    MX<S> m(R, C);
    S scale = (S) c.logu(1e-12, 1e12);
    for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) m(i, j) = c.chance(1, 3) ? (S) 0 : (S) (scale * c.logu(1e-6, 1));
    if (c.chance(1, 2)) m.col(c.draw(C)).setZero();
    if (c.chance(1, 2)) m.row(c.draw(R)).setZero();
    const LD eps = (sizeof(S) == 4 ? 1e-5L : 1e-12L) * (big ? 300 : 1);
    c << R << "x" << C << " scale " << (double) scale;
    // sometimes of both signs: multiples of a power of two, so that the sums are exact
    MX<S> nm = m;
    if (c.chance(1, 2)) {
        S unit = (S) std::ldexp(1.0, (int) c.range(-60, 60));
        for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) nm(i, j) = unit * (S) c.range(-6, 6);
        c.label("both signs");
    }
    {
        const MX<S> &m = nm;
        MX<S> a = m, b = m;
        math_utils::normalize_rows(a);
        math_utils::normalize_cols(b);
        for (int i = 0; i < R; i++) {
            LD s = 0; for (int j = 0; j < C; j++) s += m(i, j);
            for (int j = 0; j < C; j++) { LD w = s != 0 ? m(i, j) / s : m(i, j); REQUIRE(std::abs(a(i, j) - w) <= eps * (std::abs(w)), "normalize_rows (" << i << "," << j << ")"); }
        }
        for (int j = 0; j < C; j++) {
            LD s = 0; for (int i = 0; i < R; i++) s += m(i, j);
            for (int i = 0; i < R; i++) { LD w = s != 0 ? m(i, j) / s : m(i, j); REQUIRE(std::abs(b(i, j) - w) <= eps * (std::abs(w)), "normalize_cols (" << i << "," << j << ")"); }
        }
    }
    {
        MX<S> p(R, C);
        LD want = 1;
        for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) { p(i, j) = c.chance(1, 3) ? (S) 0 : big ? (S) (c.uniform(0.98, 1.02) * c.pick({1.0, -1.0})) : (S) c.uniform(-2, 2); if (p(i, j) != 0) want *= p(i, j); }
        LD got = math_utils::product_of_nonzeros(p);
        REQUIRE(std::abs(got - want) <= 10 * eps * std::abs(want) + 1e-37L, "product_of_nonzeros " << (double) got << " instead of " << (double) want);
    }
    {
        MX<S> x = MX<S>::Zero(R, C);
        for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) x(i, j) = (S) c.uniform(-3, 3);
        VX<S> wr(R), wc(C);
        for (int i = 0; i < R; i++) wr[i] = c.chance(1, 3) ? (S) 0 : (S) c.uniform(-3, 3);
        for (int j = 0; j < C; j++) wc[j] = c.chance(1, 3) ? (S) 0 : (S) c.uniform(-3, 3);
        MX<S> xr = x, xc = x;
        S bad = c.pick({(S) NAN, (S) INFINITY, (S) -INFINITY, (S) 5});
        for (int i = 0; i < R; i++) if (wr[i] == 0) xr.row(i).setConstant(bad);
        for (int j = 0; j < C; j++) if (wc[j] == 0) xc.col(j).setConstant(bad);
        Matrix<S, 1, Dynamic> rr(C);
        VX<S> rc(R);
        for (int j = 0; j < C; j++) rr[j] = (S) c.uniform(-1, 1);
        for (int i = 0; i < R; i++) rc[i] = (S) c.uniform(-1, 1);
        Matrix<S, 1, Dynamic> rr0 = rr; VX<S> rc0 = rc;
        math_utils::sum_rows_scaled(xr, wr, rr);
        math_utils::sum_cols_scaled(xc, wc, rc);
        for (int j = 0; j < C; j++) { LD s = rr0[j]; for (int i = 0; i < R; i++) if (wr[i] != 0) s += (LD) wr[i] * x(i, j); REQUIRE(std::abs(rr[j] - s) <= 30 * eps, "sum_rows_scaled [" << j << "]"); }
        for (int i = 0; i < R; i++) { LD s = rc0[i]; for (int j = 0; j < C; j++) if (wc[j] != 0) s += (LD) wc[j] * x(i, j); REQUIRE(std::abs(rc[i] - s) <= 30 * eps, "sum_cols_scaled [" << i << "]"); }
        VX<S> flat(R * C);
        math_utils::reshape_into(x, flat);
        for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) REQUIRE(flat[j * R + i] == x(i, j), "reshape_into vector");
        MX<S> back(R, C);
        math_utils::reshape_into(flat, back);
        REQUIRE(back == x, "reshape_into matrix");
        S num = (S) c.uniform(-3, 3);
        MX<S> q = m.unaryExpr(math_utils::CwiseScalarDivideByMatrix<S>(num));
        for (int j = 0; j < C; j++) for (int i = 0; i < R; i++) { LD w = m(i, j) != 0 ? (LD) num / m(i, j) : 0; REQUIRE(std::abs(q(i, j) - w) <= eps * std::abs(w), "scalar / matrix"); }
    }
    c.nontrivial(R * C > 1);
}
PROP(c17_helpers) { if (c.chance(1, 2)) helpers_case<float>(c); else helpers_case<double>(c); }

// ------------------------------------------------------------------ C10
struct RefProblem {
    int K, Y, N;
    std::vector<std::vector<LD>> X;              // N x K
    std::vector<std::vector<std::vector<LD>>> Vr; // N x K x K, empty for first order
    std::vector<int> y;
    std::vector<LD> Cy;
    LD L;
    // value at eta (K x Y); also the magnitude of what was added up
    LD value(const std::vector<std::vector<LD>> &e, LD *scale = nullptr) const {
        LD J = 0, S = 0;
        for (int n = 0; n < N; n++) {
            std::vector<LD> t(Y), w(Y, 1);
            LD mx = -INFINITY, mag = 0;
            for (int j = 0; j < Y; j++) {
                t[j] = 0;
                LD a = 0;
                for (int k = 0; k < K; k++) { t[j] += e[k][j] * X[n][k]; a += std::abs(e[k][j] * X[n][k]); }
                mag = std::max(mag, a);
                mx = std::max(mx, t[j]);
                if (!Vr.empty()) { LD q = 0; for (int k = 0; k < K; k++) for (int l = 0; l < K; l++) q += e[k][j] * Vr[n][k][l] * e[l][j]; w[j] = 1 + q / 2; }
            }
            LD s = 0;
            for (int j = 0; j < Y; j++) s += std::exp(t[j] - mx) * w[j];
            J -= Cy[y[n]] * (t[y[n]] - mx - std::log(s));
            S += Cy[y[n]] * (1 + mag + std::abs(std::log(s)));
        }
        LD q = 0;
        for (auto &r : e) for (auto v : r) q += v * v;
        if (scale) *scale = S + L / 2 * q;
        return J + L / 2 * q;
    }
};

template <typename S>
static void objective_case(Case &c, bool second) {
    RefProblem p;
    p.K = c.size(7, 30); p.Y = c.size(6, 30); p.N = c.size(15, c.chance(1, 10) && p.K <= 8 ? 1500 : 120);
    int K = p.K, Y = p.Y, N = p.N;
    MX<S> X(K, N);
    bool simplex = c.chance(1, 2);
    for (int n = 0; n < N; n++) { for (int k = 0; k < K; k++) X(k, n) = simplex ? (S) c.unit() : (S) c.uniform(-2, 2); if (simplex) { S s = X.col(n).sum(); if (s > 0) X.col(n) /= s; } }
    std::vector<MX<S>> V;
    if (second) for (int n = 0; n < N; n++) {
        MX<S> A(K, K);
        for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) A(i, j) = (S) c.uniform(-1, 1);
        MX<S> v = A * A.transpose() * (S) 0.3;
        if (c.chance(1, 2)) v += (A - A.transpose()); // antisymmetric part
        if (c.chance(1, 6)) v.setZero();
        V.push_back(v);
    }
    VectorXi y(N);
    int Yused = 1 + (int) c.draw(Y);
    uint64_t skew = c.pick({0, 0, 0, 5, 30, 300});       // one class has nearly all documents
    for (int n = 0; n < N; n++) y[n] = skew && !c.chance(1, skew) ? 0 : (int) c.draw(Yused);
    if (skew && c.chance(1, 2)) y[N - 1] = Yused - 1;
    S L = (S) c.pick({0., 0.01, 1., 10.});
    bool own = c.chance(1, 2);
    VX<S> Cy(Y);
    for (int j = 0; j < Y; j++) Cy[j] = (S) c.uniform(0, 3);
    LD es = c.pick({0., 0.1, 1., 1., 5., 30., 300.});
    if (c.chance(1, 10)) es = 2000;
    MX<S> eta(K, Y);
    for (int k = 0; k < K; k++) for (int j = 0; j < Y; j++) eta(k, j) = (S) (es * c.uniform(-1, 1));
    // reference
    p.X.assign(N, std::vector<LD>(K)); p.y.resize(N); p.L = L;
    for (int n = 0; n < N; n++) { for (int k = 0; k < K; k++) p.X[n][k] = X(k, n); p.y[n] = y[n]; }
    for (auto &v : V) { std::vector<std::vector<LD>> r(K, std::vector<LD>(K)); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) r[i][j] = v(i, j); p.Vr.push_back(r); }
    p.Cy.assign(Y, 0);
    if (own) for (int j = 0; j < Y; j++) p.Cy[j] = Cy[j];
    else {
        int C = 0;
        for (int n = 0; n < N; n++) C = std::max(C, y[n] + 1);
        std::vector<int> cnt(Y, 0);
        for (int n = 0; n < N; n++) cnt[y[n]]++;
        for (int j = 0; j < Y; j++) if (cnt[j]) p.Cy[j] = (LD) N / ((LD) cnt[j] * C);
    }
    c << (second ? "second order " : "first order ") << (sizeof(S) == 4 ? "float" : "double") << " K=" << K << " Y=" << Y << " N=" << N << " eta scale " << (double) es << (own ? " own weights" : " auto weights") << " L=" << (double) L;
    c.label(es > 80 ? "large parameters" : "moderate parameters");
    S got; MX<S> grad(K, Y);
    grad.setConstant((S) 77);
    if (second) {
        typedef optimization::SecondOrderLogisticRegressionApproximation<S> P;
        P q = own ? P(X, V, y, Cy, L) : P(X, V, y, L);
        got = q.value(eta); q.gradient(eta, grad);
    } else {
        typedef optimization::MultinomialLogisticRegression<S> P;
        P q = own ? P(X, y, Cy, L) : P(X, y, L);
        got = q.value(eta); q.gradient(eta, grad);
    }
    std::vector<std::vector<LD>> e(K, std::vector<LD>(Y));
    for (int k = 0; k < K; k++) for (int j = 0; j < Y; j++) e[k][j] = eta(k, j);
    LD scale, want = p.value(e, &scale);
    LD eps = (sizeof(S) == 4 ? 3e-5L : 1e-11L) * (1 + N / 300);
    REQUIRE(std::abs(got - want) <= eps * scale, "value " << got << " instead of " << (double) want << " (scale " << (double) scale << ")");
    // gradient against central differences of the reference (long double)
    LD gs = 0; // magnitude of the terms
    for (int n = 0; n < N; n++) { LD a = 0; for (int k = 0; k < K; k++) a = std::max(a, std::abs(p.X[n][k])); if (second) for (int k = 0; k < K; k++) for (int l = 0; l < K; l++) a += std::abs(p.Vr[n][k][l]) * std::min<LD>((LD) es, 3); gs += p.Cy[y[n]] * a; }
    // rounding of the exponents matters relative to the terms
    LD rel = (sizeof(S) == 4 ? 1e-6L : 2e-15L) * (10 + es * K * 4) * K * (1 + N / 300);
    long cost = (long) N * K * K * Y * Y * (second ? K : 1), every = 1 + cost / 2000000, at = 0;
    for (int k = 0; k < K; k++) for (int j = 0; j < Y; j++) {
        if (at++ % every != 0) continue;
        LD h = 1e-5L, x0 = e[k][j];
        e[k][j] = x0 + h; LD a = p.value(e);
        e[k][j] = x0 - h; LD b = p.value(e);
        e[k][j] = x0 + 2 * h; LD a2 = p.value(e);
        e[k][j] = x0 - 2 * h; LD b2 = p.value(e);
        e[k][j] = x0;
        LD fd = (8 * (a - b) - (a2 - b2)) / (12 * h);
        LD tol = rel * (gs + std::abs(L * x0)) + 1e-12L * scale + 1e-8L * (std::abs(fd) + gs);
        REQUIRE(std::abs(grad(k, j) - fd) <= tol, "gradient (" << k << "," << j << ") is " << grad(k, j) << " instead of " << (double) fd << " tol " << (double) tol);
    }
    c.nontrivial(K > 1 && Y > 1 && N > 1);
}
PROP(c10_first_order) { if (c.chance(1, 2)) objective_case<float>(c, false); else objective_case<double>(c, false); }
PROP(c10_second_order) { if (c.chance(1, 2)) objective_case<float>(c, true); else objective_case<double>(c, true); }

// ------------------------------------------------------------------ C11
// f(x) = sum_i s_i/2 (x_i - m_i)^2 + a_i cos(b_i x_i) + exp(q (x_i - 4)) + offset
// (non convex when a != 0; with q > 0 trial points can overflow to infinity)
template <typename S>
struct Smooth {
    MX<S> s, m, a, b;
    S off, q;
    S value(const MX<S> &x) const {
        S v = (S) ((s.array() * (x - m).array().square() / 2 + a.array() * (b.array() * x.array()).cos()).sum()) + off;
        if (q > 0) v += (q * (x.array() - (S) 4)).exp().sum();
        return v;
    }
    void gradient(const MX<S> &x, Ref<MX<S>> g) const {
        g = (s.array() * (x - m).array() - a.array() * b.array() * (b.array() * x.array()).sin()).matrix();
        if (q > 0) g.array() += q * (q * (x.array() - (S) 4)).exp();
    }
    LD scale(const MX<S> &x) const {
        LD v = (s.array() * (x - m).array().square() / 2 + a.array().abs()).sum() + std::abs((LD) off);
        if (q > 0) for (int i = 0; i < x.size(); i++) v += std::exp((LD) q * ((LD) x.data()[i] - 4)) * (1 + q * (8 + std::abs((LD) x.data()[i])));
        return v;
    }
    // admissible error of a component of the gradient
    LD gscale(const MX<S> &x) const { LD v = 1; if (q > 0) for (int i = 0; i < x.size(); i++) v = std::max(v, q * std::exp((LD) q * ((LD) x.data()[i] - 4)) * (1 + q * (8 + std::abs((LD) x.data()[i])))); return v; }
};
template <typename S> static MX<S> gen_mat(Case &c, int r, int k, double lo, double hi) { MX<S> m(r, k); for (int j = 0; j < k; j++) for (int i = 0; i < r; i++) m(i, j) = (S) c.uniform(lo, hi); return m; }
template <typename S> static Smooth<S> gen_problem(Case &c, int r, int k) {
    Smooth<S> p;
    S cond = (S) c.logu(0.1, 1000);
    p.s = gen_mat<S>(c, r, k, 0.05, 1) * cond;
    p.m = gen_mat<S>(c, r, k, -2, 2);
    bool wavy = c.chance(1, 2);
    p.a = wavy ? gen_mat<S>(c, r, k, -1, 1) : MX<S>::Zero(r, k);
    p.b = gen_mat<S>(c, r, k, -3, 3);
    p.off = (S) c.pick({0., 0., 10., 1000., 1e6, -1000.});
    p.q = c.chance(1, 3) ? (S) c.pick({1., 5., 20., 60.}) : (S) 0;
    if (p.q > 0) { c << "exponential " << (double) p.q << " "; c.label("exponential growth"); }
    c << r << "x" << k << (wavy ? " wavy" : " quadratic") << " curvature " << (double) cond << " offset " << (double) p.off;
    return p;
}
template <typename S> static LD EPS() { return std::numeric_limits<S>::epsilon(); }

// Check one line search step x -> xn along p with the Armijo rule.
template <typename S>
static void check_armijo(const Smooth<S> &f, const MX<S> &x, const MX<S> &g, const MX<S> &p, const MX<S> &xn, S ret, S beta, S tau) {
    S fx = f.value(x), fn = f.value(xn);
    LD slack = 64 * EPS<S>() * (f.scale(x) + f.scale(xn) + 1);
    REQUIRE(std::abs((LD) ret - fn) <= slack, "the returned value " << ret << " is not the objective at the final point " << fn);
    LD gp = 0, pn = 0, xm = 0;
    for (int i = 0; i < x.size(); i++) { gp += (LD) g.data()[i] * p.data()[i]; pn = std::max(pn, std::abs((LD) p.data()[i])); xm = std::max(xm, std::abs((LD) x.data()[i])); }
    if (pn == 0) { REQUIRE(xn == x, "moved although the direction is zero"); return; }
    // which step was taken?
    LD step = 0, num = 0, den = 0;
    for (int i = 0; i < x.size(); i++) { num += ((LD) x.data()[i] - xn.data()[i]) * p.data()[i]; den += (LD) p.data()[i] * p.data()[i]; }
    step = num / den;
    LD tolstep = 8 * EPS<S>() * (xm + pn) * std::sqrt((LD) x.size()) / pn * 4 + 1e-4L * std::abs(step);
    for (int i = 0; i < x.size(); i++) REQUIRE(std::abs((LD) x.data()[i] - step * p.data()[i] - xn.data()[i]) <= 16 * EPS<S>() * (xm + (1 + std::abs(step)) * pn), "the point did not move along the direction");
    LD a = 1;
    int n = 0;
    bool found = false;
    while (n < 5000) {
        if (std::abs(a - step) <= tolstep + 1e-4L * a) { found = true; break; }
        if (a < 1e-40L) break;
        a *= tau;
        n++;
    }
    REQUIRE(found || std::abs(step) <= tolstep, "step " << (double) step << " is not in {tau^n} for tau=" << tau);
    // Armijo condition at the taken step
    REQUIRE((LD) fn <= fx - step * beta * gp + slack, "the Armijo condition does not hold: f went from " << fx << " to " << fn << ", step " << (double) step);
    // and at no larger one
    LD b = 1;
    for (int k = 0; k < n && b > step * 1.0001L + tolstep; k++, b *= tau) {
        MX<S> xb = x - (S) b * p;
        LD fb = f.value(xb), sl = 64 * EPS<S>() * (f.scale(x) + f.scale(xb) + 1);
        REQUIRE(fb > fx - b * beta * gp - sl, "the larger step " << (double) b << " satisfies the condition already (took " << (double) step << ")");
    }
}

template <typename S>
static void line_case(Case &c) {
    bool wide = c.chance(1, 10);
    int r = 1 + (int) c.draw(wide ? 40 : 4), k = 1 + (int) c.draw(wide ? 12 : 3);
    Smooth<S> f = gen_problem<S>(c, r, k);
    S beta = (S) c.pick({0.001, 0.001, 0.0001, 0.1, 0.4}), tau = (S) c.pick({0.5, 0.5, 0.3, 0.8, 0.9, 0.1});
    MX<S> x = gen_mat<S>(c, r, k, -3, 3), g(r, k), p;
    if (c.chance(1, 4)) { // close to a minimum of the quadratic part
        x = f.m + gen_mat<S>(c, r, k, -1, 1) * (S) c.logu(1e-8, 1e-1);
        c << " near minimum";
    }
    f.gradient(x, g);
    int kind = (int) c.draw(3);
    p = g;
    if (kind == 1) { S nr = g.norm(); if (nr > 0) p = g / nr; }
    if (kind == 2) p = (g.array() * gen_mat<S>(c, r, k, 0.1, 1).array()).matrix(); // preconditioned
    c << " beta " << (double) beta << " tau " << (double) tau << " direction " << kind << (sizeof(S) == 4 ? " float" : " double");
    typedef optimization::ArmijoLineSearch<Smooth<S>, MX<S>> A;
    A ls = c.chance(1, 4) ? (beta = (S) 0.001, tau = (S) 0.5, A()) : A(beta, tau);
    MX<S> xn = x;
    S ret = ls.search(f, xn, g, p);
    check_armijo<S>(f, x, g, p, xn, ret, beta, tau);
    S alpha = (S) c.logu(1e-3, 10);
    optimization::ConstantLineSearch<Smooth<S>, MX<S>> cl(alpha);
    MX<S> xc = x;
    ret = cl.search(f, xc, g, p);
    for (int i = 0; i < x.size(); i++) { LD w = (LD) x.data()[i] - (LD) alpha * p.data()[i]; REQUIRE(std::abs(xc.data()[i] - w) <= 8 * EPS<S>() * (std::abs((LD) x.data()[i]) + std::abs((LD) alpha * p.data()[i])), "constant step"); }
    REQUIRE(ret == f.value(xc) || std::abs((LD) ret - f.value(xc)) <= 64 * EPS<S>() * (f.scale(xc) + 1), "constant line search returned " << ret << " instead of " << f.value(xc));
    c.nontrivial(g.norm() > 0);
}
PROP(c11_line_search) { if (c.chance(1, 2)) line_case<float>(c); else line_case<double>(c); }

template <typename S>
struct RecordingSearch : public optimization::LineSearch<Smooth<S>, MX<S>> {
    std::shared_ptr<optimization::LineSearch<Smooth<S>, MX<S>>> inner;
    std::vector<MX<S>> from, grad, dir, to;
    std::vector<S> ret;
    S search(const Smooth<S> &p, Ref<MX<S>> x0, const MX<S> &g, const MX<S> &d) {
        from.push_back(x0); grad.push_back(g); dir.push_back(d);
        S v = inner->search(p, x0, g, d);
        to.push_back(x0); ret.push_back(v);
        return v;
    }
};

template <typename S>
static void descent_case(Case &c) {
    bool wide = c.chance(1, 10);
    int r = 1 + (int) c.draw(wide ? 40 : 4), k = 1 + (int) c.draw(wide ? 12 : 3);
    Smooth<S> f = gen_problem<S>(c, r, k);
    S beta = (S) c.pick({0.001, 0.001, 0.1}), tau = (S) c.pick({0.5, 0.5, 0.3, 0.8});
    MX<S> x0 = gen_mat<S>(c, r, k, -3, 3), x = x0;
    size_t stop = c.draw(c.chance(1, 5) ? (c.chance(1, 10) ? 3000 : 200) : 12);
    auto rec = std::make_shared<RecordingSearch<S>>();
    bool armijo = c.chance(4, 5);
    if (armijo) rec->inner = std::make_shared<optimization::ArmijoLineSearch<Smooth<S>, MX<S>>>(beta, tau);
    else rec->inner = std::make_shared<optimization::ConstantLineSearch<Smooth<S>, MX<S>>>((S) 1e-4);
    struct Call { S v, g; size_t i; };
    std::vector<Call> calls;
    optimization::GradientDescent<Smooth<S>, MX<S>> gd(rec, [&](S v, S g, size_t i) { calls.push_back(Call{v, g, i}); return calls.size() <= stop; });
    // the parameters may be part of a larger matrix
    if (c.chance(1, 3)) {
        MX<S> outer = MX<S>::Constant(r + 3, k + 2, (S) 42);
        outer.block(2, 1, r, k) = x0;
        gd.minimize(f, outer.block(2, 1, r, k));
        x = outer.block(2, 1, r, k);
        outer.block(2, 1, r, k).setConstant((S) 42);
        REQUIRE((outer.array() == (S) 42).all(), "something besides the parameters changed");
        c << " block";
    } else gd.minimize(f, x);
    c << " stop after " << stop << (armijo ? " armijo" : " constant") << (sizeof(S) == 4 ? " float" : " double");
    REQUIRE(calls.size() == stop + 1, "the callback asked to stop after " << stop << " updates but was called " << calls.size() << " times");
    REQUIRE(rec->from.size() == stop, rec->from.size() << " line searches instead of " << stop);
    MX<S> cur = x0, g(r, k);
    for (size_t i = 0; i <= stop; i++) {
        REQUIRE(calls[i].i == i, "iteration number " << calls[i].i << " instead of " << i);
        S v = f.value(cur);
        LD slack = 64 * EPS<S>() * (f.scale(cur) + 1);
        REQUIRE(std::abs((LD) calls[i].v - v) <= slack, "reported value " << calls[i].v << " instead of " << v << " in iteration " << i);
        f.gradient(cur, g);
        S gn = g.template lpNorm<Infinity>();
        REQUIRE(std::abs((LD) calls[i].g - gn) <= 64 * EPS<S>() * (f.gscale(cur) + gn), "reported gradient norm " << calls[i].g << " instead of " << gn << " in iteration " << i);
        if (armijo && i) REQUIRE((LD) calls[i].v <= (LD) calls[i - 1].v + slack, "the objective went up from " << calls[i - 1].v << " to " << calls[i].v);
        if (i < stop) {
            REQUIRE(rec->from[i] == cur, "line search " << i << " did not start at the current point");
            REQUIRE((rec->grad[i] - g).template lpNorm<Infinity>() <= 64 * EPS<S>() * (f.gscale(cur) + gn), "line search " << i << " got a wrong gradient");
            REQUIRE((rec->dir[i] - g).template lpNorm<Infinity>() <= 64 * EPS<S>() * (f.gscale(cur) + gn), "line search " << i << " got a wrong direction");
            if (armijo) check_armijo<S>(f, cur, g, g, rec->to[i], rec->ret[i], beta, tau);
            cur = rec->to[i];
        }
    }
    REQUIRE(x == cur, "the result is not the last point");
    c.nontrivial(stop > 0);
}
PROP(c11_descent) { if (c.chance(1, 2)) descent_case<float>(c); else descent_case<double>(c); }

PBT_MAIN
