// C12 (transform / predict), C13 (training epochs), C21 (symmetry), C22 (independent trainers)
#include "gate.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include <atomic>
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <malloc.h>
#include <iomanip>
#include <map>

template <typename M> double maxdiff(const M &a, const M &b) {
    double r = 0;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) {
        double x = a(i, j), y = b(i, j);
        if (std::isnan(x) && std::isnan(y)) continue;
        double d = std::fabs(x - y) / (1 + std::max(std::fabs(x), std::fabs(y)));
        if (!(d <= r)) r = std::isnan(d) ? 1e300 : d;
    }
    return r;
}

// a corpus whose documents are recognisable: the first word occurs id+1 times (or all counts are free)
static MatrixXi gen_corpus(Case &c, int V, int D, bool ids, bool empties) {
    MatrixXi X(V, D);
    for (int d = 0; d < D; d++) {
        X.col(d) = gen_doc(c, V, 0);
        if (ids) X(0, d) = d + 1;
        else if (empties && c.chance(1, 6)) X.col(d).setZero();
    }
    return X;
}

// ------------------------------------------------------------------- C12
template <typename S> void c12(Case &c) {
    int K = c.size(5, c.chance(1, 10) ? 120 : 30), V = c.size(8, c.chance(1, 10) ? 1500 : 100), C = c.size(4, c.chance(1, 10) ? 150 : 30);
    Model<S> m = gen_model<S>(c, FAST, K, V, C, 0, 0);
    Settings o;
    o.iters = (int) c.draw(12);
    o.tol = c.pick({0.0, 1e-2, 1.0});
    o.cl = c.pick({0.0, 1.0});
    int W = c.size(8, 40);
    auto gated = std::make_shared<GatedEStep<S> >(make_estep<S>(UNSUP, o));
    auto mp = m.params();
    LDA<S> lda(mp, gated, std::make_shared<em::UnsupervisedMStep<S> >(), 1 + c.draw(3), W);
    const double eps = sizeof(S) == 4 ? 1e-4 : 1e-11;
    int ops = 1 + (int) c.draw(c.chance(1, 2) ? 8 : 4), big = 0;
    std::vector<MatrixXi> pool;                   // matrices of earlier calls, to be used again
    std::vector<bool> pool_ids;
    c << (sizeof(S) == 4 ? "float" : "double") << " K=" << K << " V=" << V << " C=" << C << " workers=" << W << " iters=" << o.iters << " ops:";
    std::map<std::vector<int>, VX<S> > seen;      // document -> weights, for the current model
    bool permuted = false;
    for (int op = 0; op < ops; op++) {
        size_t which = pool.size();
        if (which && c.chance(1, 2)) {
            which = c.draw(which);
            c << " again:" << which;
            // the same matrix object, now and then with other contents
            if (c.chance(1, 4)) { pool[which] = gen_corpus(c, V, (int) pool[which].cols(), pool_ids[which], true); c << "*"; }
        } else {
            int n = c.chance(1, 12) ? 0 : 1 + (int) c.draw(c.chance(1, 4) ? (c.chance(1, 10) ? (c.chance(1, 10) ? 2000 : 300) : 40) : 9);
            bool id = c.chance(1, 2);
            pool.push_back(gen_corpus(c, V, n, id, true));
            pool_ids.push_back(id);
            if (n > 1 && !id && c.chance(1, 3)) pool.back().col((int) c.draw(n)) = pool.back().col((int) c.draw(n));     // duplicates
        }
        const MatrixXi &X = pool[which];
        int D = (int) X.cols();
        bool ids = pool_ids[which];
        int kind = (int) c.draw(9);
        static const char *kn[] = {"transform", "decision", "predict", "both", "fit", "partial_fit", "partial_fit_corpus", "assign", "fit_labels"};
        c << " " << kn[kind] << "(" << D << (ids ? ",gated" : "") << ")";
        if (ids && W > 1 && D > 1) { gated->gate.arm(c.permutation(D), W); permuted = true; }
        else gated->gate.off();
        if (D > 1) big++;
        if (kind >= 4) {
            // the model changes
            if (D == 0) { gated->gate.off(); continue; }
            VectorXi y = VectorXi::Zero(D);
            for (int d = 0; d < D; d++) y[d] = d % C;
            switch (kind) {
                case 4: lda.fit(X); break;
                case 5: lda.partial_fit(X, y); break;
                case 6: lda.partial_fit(std::make_shared<corpus::EigenCorpus>(X)); break;
                case 8: lda.fit(X, y); break;
                default: {
                    Model<S> q = gen_model<S>(c, FAST, K, V, C, 0, 0);
                    mp->beta = q.beta;
                    mp->eta = q.eta;
                    if (c.chance(1, 2)) mp->alpha = q.alpha;
                }
            }
            gated->gate.off();
            m.alpha = mp->alpha;
            m.beta = mp->beta;
            m.eta = mp->eta;
            seen.clear();
            continue;
        }
        MX<S> T, dec;
        VectorXi pred;
        bool hasT = false, hasD = false, hasP = false;
        if (kind == 0) {
            T = lda.transform(X);
            hasT = true;
        }
        if (kind == 1) {
            dec = lda.decision_function(X);
            hasD = true;
        }
        if (kind == 2) { pred = lda.predict(X); hasP = true; }
        if (kind == 3) { std::tie(T, pred) = lda.transform_predict(X); hasT = hasP = true; }
        gated->gate.off();
        REQUIRE(same_bits(mp->alpha, m.alpha) && same_bits(mp->beta, m.beta) && same_bits(mp->eta, m.eta), kn[kind] << " changed the model");
        if (hasT) REQUIRE(T.rows() == K && T.cols() == D, "transform returned a " << T.rows() << "x" << T.cols() << " matrix");
        if (hasD) REQUIRE(dec.rows() == C && dec.cols() == D, "decision_function returned a " << dec.rows() << "x" << dec.cols() << " matrix");
        if (hasP) REQUIRE(pred.size() == D, "predict returned " << pred.size() << " labels");
        for (int d = 0; d < D; d++) {
            auto fresh = make_estep<S>(UNSUP, o);
            VX<S> g = infer<S>(*fresh, UNSUP, std::make_shared<corpus::EigenDocument>(VectorXi(X.col(d))), m).gamma;
            if (hasT) {
                VX<S> t = T.col(d);
                REQUIRE(maxdiff(t, g) <= eps, "column " << d << " of transform is not the inference of document " << d << ": " << t.transpose() << " != " << g.transpose());
                std::vector<int> key(X.col(d).data(), X.col(d).data() + V);
                auto it = seen.find(key);
                if (it != seen.end()) REQUIRE(maxdiff(t, it->second) <= eps, "the same document transformed differently: " << t.transpose() << " / " << it->second.transpose());
                else seen[key] = t;
            }
            // scores from the directly inferred weights
            VL z = g.template cast<LD>() - m.alpha.template cast<LD>();
            LD n = X.col(d).sum();
            VL sc = VL::Zero(C);
            LD zs = z.sum();
            if (n > 0 && zs > 0) sc = m.eta.template cast<LD>().transpose() * (z / zs);
            double zeps = sizeof(S) == 4 ? 2e-4 * (1 + (double) m.alpha.sum()) : 1e-9;
            bool weights = n > 0 && zs > 0.5;
            if (hasD) {
                for (int j = 0; j < C; j++) {
                    REQUIRE(std::isfinite((double) dec(j, d)), "score of document " << d << " for class " << j << " is " << dec(j, d) << " (document of " << (double) n << " words)");
                    if (weights || n == 0)
                        REQUIRE(std::fabs((double) (dec(j, d) - sc[j])) <= zeps * (1 + (double) m.eta.cwiseAbs().maxCoeff()), "score(" << j << "," << d << ") = " << dec(j, d) << " but eta applied to the normalised weights is " << (double) sc[j]);
                }
            }
            if (hasP) {
                REQUIRE(pred[d] >= 0 && pred[d] < C, "predicted class " << pred[d]);
                if (weights)
                    REQUIRE((double) (sc.maxCoeff() - sc[pred[d]]) <= 2 * zeps * (1 + (double) m.eta.cwiseAbs().maxCoeff()), "document " << d << " predicted as " << pred[d] << " with score " << (double) sc[pred[d]] << " but the largest score is " << (double) sc.maxCoeff());
            }
        }
    }
    if (permuted) c.label("controlled-order");
    c.nontrivial(big > 0 && K > 1);
}
// more documents than 16 bit numbers can count; they repeat a few that are inferred directly
PROP(c12_many) {
    int K = 2 + (int) c.draw(2), V = 2, C = 2, P = 2 + (int) c.draw(90), D = (1 << 16) + (int) c.draw(9000), W = 1 + (int) c.draw(8);
    Model<double> m = gen_model<double>(c, FAST, K, V, C, 0, 0);
    Settings o;
    o.iters = 1 + (int) c.draw(2);
    o.tol = 0;
    o.cl = 0;
    MatrixXi few(V, P), X(V, D);
    for (int p = 0; p < P; p++) few.col(p) << p % 9, p / 9;
    for (int d = 0; d < D; d++) X.col(d) = few.col(d % P);
    c << "K=" << K << " D=" << D << " distinct=" << P << " workers=" << W;
    LDA<double> lda(m.params(), make_estep<double>(UNSUP, o), std::make_shared<em::UnsupervisedMStep<double> >(), 1, W);
    MatrixXd want(K, P);
    auto direct = make_estep<double>(UNSUP, o);
    for (int p = 0; p < P; p++) want.col(p) = infer<double>(*direct, UNSUP, std::make_shared<corpus::EigenDocument>(few.col(p)), m).gamma;
    MatrixXd T;
    VectorXi pred;
    std::tie(T, pred) = lda.transform_predict(X);
    REQUIRE(T.cols() == D && pred.size() == D, "number of results");
    MatrixXd sc = lda.decision_function(few);
    for (int d = 0; d < D; d++) {
        REQUIRE((T.col(d) - want.col(d % P)).cwiseAbs().maxCoeff() < 1e-9, "column " << d << " is not the result of its document");
        REQUIRE(pred[d] >= 0 && pred[d] < C && sc(pred[d], d % P) >= sc.col(d % P).maxCoeff() - 1e-9, "prediction of column " << d);
    }
    c.nontrivial(W > 1);
}
PROP(c12_race) { c12<double>(c); }
PROP(c12_transform) { if (c.chance(1, 4)) c12<float>(c); else c12<double>(c); }

// ------------------------------------------------------------------- C13
// A ledger: custom steps record who was inferred and folded with what.
struct Ledger {
    std::mutex m;
    std::vector<int> inferred, folded;
    std::vector<std::string> errors;
    int e_steps = 0, m_steps = 0, epochs = 0, D = 0;
    int op = 0;                 // stamp of the current call, encoded in word 1
    bool training = false, labelled = false;
    double stamp = 0;           // model of the current epoch
    std::atomic<int> in_m;
    Ledger() : in_m(0) {}
    void err(const std::string &s) { std::lock_guard<std::mutex> l(m); if (errors.size() < 5) errors.push_back(s); }
    void start(int d, int o, bool t, bool lab) {
        std::lock_guard<std::mutex> l(m);
        D = d; op = o; training = t; labelled = lab;
        inferred.assign(d, 0); folded.assign(d, 0); e_steps = m_steps = 0;
    }
};
static int label_of(int id, int op) { return (id * 7 + op) % 5; }

struct LedgerE : public em::EStepInterface<double> {
    Ledger &L;
    Gate gate;
    std::shared_ptr<parameters::Parameters> model;
    std::atomic<int> slow, slow_ms;     // the document that takes its time, once
    explicit LedgerE(Ledger &l) : L(l), slow(-1), slow_ms(0) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc,
                                                        const std::shared_ptr<parameters::Parameters> p) override {
        const VectorXi &w = doc->get_words();
        int id = w[0] - 1, op = w[1];
        double stamp = std::static_pointer_cast<parameters::ModelParameters<double> >(p)->beta(0, 0);
        if (p != model) L.err("a document was inferred with a model that is not the trainer's");
        {
            std::lock_guard<std::mutex> l(L.m);
            if (op != L.op) L.errors.push_back("a document of an earlier call was inferred");
            else if (id < 0 || id >= L.D) L.errors.push_back("an unknown document was inferred");
            else L.inferred[id]++;
            if (L.training && stamp != L.stamp) L.errors.push_back("a document was inferred with the model of another epoch");
            if (L.e_steps || L.m_steps) L.errors.push_back("a document was inferred after the epoch callbacks");
        }
        if (L.labelled && std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() != label_of(id, op))
            L.err("a document reached inference with the label of another");
        VectorXd gamma(4);
        gamma << id, stamp, op, w.sum();
        auto vp = std::make_shared<parameters::VariationalParameters<double> >(gamma, MatrixXd::Constant(1, 1, id));
        this->get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(id);
        int want = id;
        if (slow.compare_exchange_strong(want, -1)) std::this_thread::sleep_for(std::chrono::milliseconds(slow_ms.load()));
        gate.pass(id);
        return vp;
    }
    void e_step() override {
        std::lock_guard<std::mutex> l(L.m);
        L.e_steps++;
        for (int d = 0; d < L.D; d++) if (L.folded[d] != 1 || L.inferred[d] != 1) { L.errors.push_back("the expectation callback ran before all documents were handled"); break; }
    }
};
struct LedgerM : public em::MStepInterface<double> {
    Ledger &L;
    std::shared_ptr<parameters::Parameters> model;
    explicit LedgerM(Ledger &l) : L(l) {}
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> v,
                    std::shared_ptr<parameters::Parameters> p) override {
        if (L.in_m++) L.err("two maximization calls ran at the same time");
        const VectorXi &w = doc->get_words();
        int id = w[0] - 1, op = w[1];
        if (p != model) L.err("a document was folded into a model that is not the trainer's");
        auto vp = std::static_pointer_cast<parameters::VariationalParameters<double> >(v);
        {
            std::lock_guard<std::mutex> l(L.m);
            if (op != L.op || id < 0 || id >= L.D) L.errors.push_back("an unknown document was folded in");
            else L.folded[id]++;
            if (!L.training) L.errors.push_back("a document was folded in outside training");
            if (vp->gamma[0] != id || vp->gamma[2] != op || vp->gamma[3] != w.sum()) L.errors.push_back("a document was folded in with the parameters of another document");
            else if (vp->gamma[1] != L.stamp) L.errors.push_back("a document was folded in with parameters of another epoch");
            if (L.m_steps) L.errors.push_back("a document was folded in after the maximization callback");
        }
        if (L.labelled && std::static_pointer_cast<corpus::ClassificationDocument>(doc)->get_class() != label_of(id, op))
            L.err("a document was folded in with the label of another");
        L.in_m--;
    }
    void m_step(std::shared_ptr<parameters::Parameters> p) override {
        if (L.in_m++) L.err("two maximization calls ran at the same time");
        {
            std::lock_guard<std::mutex> l(L.m);
            L.m_steps++;
            for (int d = 0; d < L.D; d++) if (L.folded[d] != 1 || L.inferred[d] != 1) { L.errors.push_back("the maximization callback ran before all documents were handled"); break; }
            L.stamp += 1;
        }
        std::static_pointer_cast<parameters::ModelParameters<double> >(p)->beta(0, 0) += 1;
        L.in_m--;
    }
};

PROP(c13_ledger) {
    Ledger L;
    auto e = std::make_shared<LedgerE>(L);
    auto m = std::make_shared<LedgerM>(L);
    auto model = std::make_shared<parameters::ModelParameters<double> >(VectorXd::Ones(4), MatrixXd::Zero(4, 3));
    e->model = m->model = model;
    int iterations = (int) c.draw(c.chance(1, 30) ? 120 : 5), W = 1 + (int) c.draw(c.chance(1, 4) ? (c.chance(1, 8) ? 60 : 16) : 5);
    std::unique_ptr<LDA<double> > lda(new LDA<double>(model, e, m, iterations, W));
    int ops = 1 + (int) c.draw(5), opstamp = 0;
    bool real = false;
    c << "iterations=" << iterations << " workers=" << W;
    // epoch reports close an epoch
    lda->get_event_dispatcher()->add_listener([&L, &model](std::shared_ptr<events::Event> ev) {
        if (ev->id() != "EpochProgressEvent") return;
        std::lock_guard<std::mutex> l(L.m);
        L.epochs++;
        if (std::static_pointer_cast<events::EpochProgressEvent<double> >(ev)->model_parameters() != model) L.errors.push_back("epoch report with another model");
        for (int d = 0; d < L.D; d++) if (L.inferred[d] != 1 || L.folded[d] != 1) {
            std::ostringstream s;
            s << "in an epoch document " << d << " was inferred " << L.inferred[d] << " times and folded in " << L.folded[d] << " times";
            L.errors.push_back(s.str());
            break;
        }
        if (L.e_steps != 1 || L.m_steps != 1) L.errors.push_back("the epoch callbacks did not run exactly once in an epoch");
        L.inferred.assign(L.D, 0); L.folded.assign(L.D, 0); L.e_steps = L.m_steps = 0;
    });
    // corpora that live across several calls
    std::vector<std::unique_ptr<Corp> > kept;
    std::vector<int> kept_op;
    for (int op = 0; op < ops; op++) {
        int kind = (int) c.draw(6);
        int D = c.chance(1, 25) ? 0 : 1 + (int) c.draw(c.chance(1, 12) ? (iterations < 6 && c.chance(1, 20) ? (c.chance(1, 8) ? 75000 : 3000) : 200) : c.chance(1, 3) ? 30 : 6);
        if (iterations > 5) D = std::min(D, 20);
        int stamp = ++opstamp;
        MatrixXi X = MatrixXi::Zero(3, D);
        VectorXi y(D);
        for (int d = 0; d < D; d++) { X(0, d) = d + 1; X(1, d) = stamp; X(2, d) = d * 7 % 1009; y[d] = label_of(d, stamp); }
        bool gated = W > 1 && D > 1 && D <= 3000 && c.chance(2, 3);
        if (D > (1 << 16)) c.label("more than 65536 documents");
        int epochs = 1;
        static const char *kn[] = {"fit(X,y)", "fit(X)", "partial_fit(X,y)", "partial_fit(corpus)", "transform", "move"};
        c << " " << kn[kind] << "x" << D << (gated ? "g" : "");
        if (kind != 5 && D > 0 && c.chance(1, 60)) {
            e->slow_ms = c.chance(1, 20) ? 2500 : 150 + (int) c.draw(150);
            e->slow = (int) c.draw(D);
            c << "(document " << e->slow.load() << " takes " << e->slow_ms.load() << " ms)";
        }
        if (kind == 5) {
            std::unique_ptr<LDA<double> > n(new LDA<double>(std::move(*lda)));
            lda = std::move(n);
            continue;
        }
        if (kind == 3 && !kept.empty() && c.chance(1, 2)) {
            int i = (int) c.draw(kept.size());
            D = kept[i]->X.cols();
            stamp = kept_op[i];
            L.start(D, stamp, true, true);
            if (gated) e->gate.arm(c.permutation(D), W); else e->gate.off();
            L.epochs = 0;
            lda->partial_fit(std::static_pointer_cast<corpus::Corpus>(kept[i]->c));
        } else {
            bool lab = kind == 0 || kind == 2 || kind == 3;
            L.start(D, stamp, kind != 4, lab);
            L.epochs = 0;
            std::vector<int> perm = gated ? c.permutation(D) : std::vector<int>();
            if (kind <= 1) {
                // several epochs: gate only the first one
                epochs = iterations;
                if (gated) e->gate.arm(perm, W); else e->gate.off();
                if (kind == 0) lda->fit(X, y); else lda->fit(X);
            } else if (kind == 2) {
                if (gated) e->gate.arm(perm, W); else e->gate.off();
                lda->partial_fit(X, y);
            } else if (kind == 3) {
                kept.emplace_back(new Corp(X, y, (int) c.draw(5)));
                kept_op.push_back(stamp);
                if (gated) e->gate.arm(perm, W); else e->gate.off();
                lda->partial_fit(std::static_pointer_cast<corpus::Corpus>(kept.back()->c));
            } else {
                epochs = 0;
                if (gated) e->gate.arm(perm, W); else e->gate.off();
                MatrixXd T = lda->transform(X);
                REQUIRE(T.cols() == D, "transform of " << D << " documents returned " << T.cols() << " columns");
                for (int d = 0; d < D; d++) REQUIRE(T(0, d) == d && T(2, d) == stamp, "column " << d << " of transform holds document " << T(0, d));
                for (int d = 0; d < D; d++) REQUIRE(L.inferred[d] == 1 && L.folded[d] == 0, "transform inferred document " << d << " " << L.inferred[d] << " times");
                REQUIRE(L.e_steps == 0 && L.m_steps == 0, "transform ran the epoch callbacks");
            }
        }
        e->gate.off();
        REQUIRE(L.errors.empty(), kn[kind] << ": " << L.errors[0]);
        REQUIRE(L.epochs == epochs, kn[kind] << " ran " << L.epochs << " epochs instead of " << epochs);
        if (D > 1 && W > 1 && epochs) real = true;
    }
    c.nontrivial(real);
}

// the steps of a method; SEMI = 5, ONLINE = 6
enum { T_SEMI = NMETHODS, T_ONLINE, NT };
static const char *tname(int t) { return t < NMETHODS ? method_name(t) : t == T_SEMI ? "semi" : "online"; }
struct TSettings { Settings e; int m_iters = 3; double m_tol = 1e-2, L = 0.05, mu = 2; int batch = 1; bool semi_exact = false; int C = 2; };
template <typename S> std::shared_ptr<em::EStepInterface<S> > train_e(int t, const TSettings &o) {
    if (t == T_SEMI) return std::make_shared<em::SemiSupervisedEStep<S> >(make_estep<S>(o.semi_exact ? SUP : FAST, o.e), make_estep<S>(UNSUP, o.e));
    return make_estep<S>(t == T_ONLINE ? FAST : t, o.e);
}
template <typename S> std::shared_ptr<em::MStepInterface<S> > train_m(int t, const TSettings &o) {
    switch (t) {
        case UNSUP: return std::make_shared<em::UnsupervisedMStep<S> >();
        case SUP: return std::make_shared<em::SupervisedMStep<S> >(o.m_iters, o.m_tol, o.L);
        case FAST: return std::make_shared<em::FastSupervisedMStep<S> >(o.m_iters, o.m_tol, o.L);
        case MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S> >(o.mu);
        case CORR: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >(o.mu);
        case T_SEMI: return std::make_shared<em::SemiSupervisedMStep<S> >(o.m_iters, o.m_tol, o.L);
        default: return std::make_shared<em::FastOnlineSupervisedMStep<S> >((size_t) o.C, (S) o.L, (size_t) o.batch, (S) 0.9, (S) 0.01, (S) 0.9);
    }
}
static VectorXi gen_labels(Case &c, int D, int C, bool semi) {
    VectorXi y(D);
    for (int d = 0; d < D; d++) { y[d] = (int) c.draw(C); if (semi && c.chance(1, 3)) y[d] = -1; }
    return y;
}
static TSettings gen_tsettings(Case &c, int C, int D) {
    TSettings o;
    o.e.iters = 1 + (int) c.draw(6);
    o.e.tol = c.pick({0.0, 1e-3, 1e-2});
    o.e.fixed_point = 1 + (int) c.draw(3);
    o.e.C = c.pick({1.0, 0.3, 2.0});
    o.e.eta_weight = c.pick({1.0, 0.5});
    o.m_iters = (int) c.draw(5);
    o.L = c.pick({0.05, 0.5});
    o.batch = D;
    o.semi_exact = c.chance(1, 2);
    o.C = C;
    return o;
}

// remembers in which order documents were folded in; events of the wrapped step are forwarded
struct OrderMStep : public em::MStepInterface<double> {
    std::shared_ptr<em::MStepInterface<double> > inner;
    std::map<std::vector<int>, int> &ids;
    std::vector<std::vector<int> > order;   // per epoch
    OrderMStep(std::shared_ptr<em::MStepInterface<double> > i, std::map<std::vector<int>, int> &ids) : inner(i), ids(ids), order(1) {
        inner->get_event_dispatcher()->add_listener([this](std::shared_ptr<events::Event> e) { this->get_event_dispatcher()->dispatch(e); });
    }
    void doc_m_step(const std::shared_ptr<corpus::Document> d, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters> m) override {
        auto cd = std::dynamic_pointer_cast<corpus::ClassificationDocument>(d);
        std::vector<int> k(d->get_words().data(), d->get_words().data() + d->get_words().size());
        k.push_back(cd ? cd->get_class() : 0);
        auto it = ids.find(k);
        order.back().push_back(it == ids.end() ? -1 : it->second);
        inner->doc_m_step(d, v, m);
    }
    void m_step(std::shared_ptr<parameters::Parameters> m) override { inner->m_step(m); order.emplace_back(); }
};

static void train_compare(Case &c, int t, bool race) {
    int K = c.size(4, 12), V = 1 + c.size(6, 30), C = 1 + c.size(2, 10), W = (race ? 2 : 1) + (int) c.draw(7);
    int D = 1 + (int) c.draw(c.chance(1, 5) ? (!race && c.chance(1, 20) ? 600 : 30) : 8), epochs = 1 + (int) c.draw(3);
    // minibatches have to end with the call for the result to be determined (known finding)
    int calls = t != T_ONLINE && c.chance(1, 3) ? 2 : 1;
    Model<double> m = gen_model<double>(c, t < NMETHODS ? t : FAST, K, V, C, 0, 0);
    TSettings o = gen_tsettings(c, C, D);
    o.e.cl = race ? c.pick({0.5, 1.0}) : 0;
    bool gated = !race && c.chance(2, 3), unlab = t == UNSUP && c.chance(1, 2);
    MatrixXi X = gen_corpus(c, V, D, gated, !gated);
    VectorXi y = gen_labels(c, D, C, t == T_SEMI);
    c << tname(t) << " K=" << K << " V=" << V << " C=" << C << " D=" << D << " epochs=" << epochs << " workers=" << W << (gated ? " controlled order" : "");
    auto e = std::make_shared<GatedEStep<double> >(train_e<double>(t, o));
    auto mp = m.params();
    // events of the inner steps go through the trainer's dispatcher in the racing variant
    std::map<std::vector<int>, int> ids;   // documents with the same words and label are interchangeable
    for (int d = 0; d < D; d++) {
        std::vector<int> k(X.col(d).data(), X.col(d).data() + V);
        k.push_back(unlab ? 0 : y[d]);
        ids.insert(std::make_pair(k, d));
    }
    auto rec = std::make_shared<OrderMStep>(train_m<double>(t, o), ids);
    LDA<double> lda(mp, race ? train_e<double>(t, o) : std::static_pointer_cast<em::EStepInterface<double> >(e), rec, epochs, W);
    int events = 0;
    lda.get_event_dispatcher()->add_listener([&events](std::shared_ptr<events::Event> ev) { events++; });
    // the same passes, one document after the other
    auto e2 = train_e<double>(t, o);
    auto m2 = train_m<double>(t, o);
    auto ref = m.params();
    Corp cp(X, y);
    size_t done = 0;
    for (int call = 0; call < calls; call++) {
        // a second call continues from the state of the first
        bool partial = call && c.chance(1, 2);
        int eps = partial ? 1 : epochs;
        if (call) {
            c << (partial ? " then partial_fit" : " then fit");
            if (t == UNSUP && c.chance(1, 2)) { lda.transform(X); c << " (after transform)"; }   // transforming takes the unsupervised step
        }
        if (gated) e->gate.arm(c.permutation(D), W);
        if (partial) lda.partial_fit(X, unlab ? VectorXi(VectorXi::Zero(D)) : y);
        else if (unlab) lda.fit(X);
        else lda.fit(X, y);
        e->gate.off();
        REQUIRE(rec->order.size() == done + eps + 1 && rec->order.back().empty(), rec->order.size() - 1 - done << " epochs instead of " << eps);
        for (int ep = 0; ep < eps; ep++, done++) {
            // folded in the order the trainer chose, which only affects rounding
            REQUIRE((int) rec->order[done].size() == D, "epoch " << ep << " folded " << rec->order[done].size() << " documents in instead of " << D);
            std::vector<std::shared_ptr<parameters::Parameters> > v;
            for (int d = 0; d < D; d++) {
                REQUIRE(rec->order[done][d] >= 0, "epoch " << ep << " folded in a document that is not in the corpus");
                v.push_back(e2->doc_e_step(cp.c->at(rec->order[done][d]), ref));
            }
            for (int d = 0; d < D; d++) m2->doc_m_step(cp.c->at(rec->order[done][d]), v[d], ref);
            e2->e_step();
            m2->m_step(ref);
        }
    }
    REQUIRE(same_bits(mp->alpha, ref->alpha), "training changed alpha");
    double db = maxdiff(mp->beta, ref->beta), de = maxdiff(mp->eta, ref->eta);
    REQUIRE(db <= 1e-9, "topics trained with " << W << " workers differ from one-by-one training by " << db);
    REQUIRE(de <= 1e-9, "class parameters trained with " << W << " workers differ from one-by-one training by " << de);
    c.label(tname(t));
    c.nontrivial(D > 1 && W > 1 && K > 1);
}
PROP(c13_schedule) { train_compare(c, (int) c.draw(NT), false); }
PROP(c13_race) { train_compare(c, (int) c.draw(NT), true); }

// Known finding: minibatch updates write the model while workers infer with it.
PROP(c13_online_race) {
    int K = 3, V = 20, C = 2, D = 400, W = 4;
    Model<double> m = gen_model<double>(c, FAST, K, V, C, 0, 0);
    TSettings o;
    o.e.iters = 10; o.batch = 4; o.C = C;
    MatrixXi X(V, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) { y[d] = d % C; for (int v = 0; v < V; v++) X(v, d) = (d * 31 + v * 7) % 5; }
    LDA<double> lda(m.params(), train_e<double>(T_ONLINE, o), train_m<double>(T_ONLINE, o), 2, W);
    lda.fit(X, y);
    c.nontrivial();
}

// ------------------------------------------------------------------- C21
struct SymRun { VectorXd alpha; MatrixXd beta, eta, T; };
static SymRun sym_run(int t, const Model<double> &m, const TSettings &o, const MatrixXi &X, const VectorXi &y, int epochs, int workers) {
    auto p = m.params();
    LDA<double> a(p, train_e<double>(t, o), train_m<double>(t, o), epochs, workers);
    a.fit(X, y);
    LDA<double> ta(p, make_estep<double>(UNSUP, o.e), train_m<double>(UNSUP, o), 1, 2);
    SymRun r;
    r.T = ta.transform(X);
    r.alpha = p->alpha; r.beta = p->beta; r.eta = p->eta;
    return r;
}
// largest difference in units of its tolerance
static double sym_diff(const SymRun &a, const SymRun &b, const std::vector<int> &pk, const std::vector<int> &pv, const std::vector<int> &pc,
                       const std::vector<int> &pd, std::string *why) {
    double worst = 0;
    auto look = [&](double x, double y, double tol, const char *what) {
        if (std::isnan(x) && std::isnan(y)) return;
        double d = std::fabs(x - y) / (1 + std::max(std::fabs(x), std::fabs(y))) / tol;
        if (!(d <= worst)) {
            worst = std::isnan(d) ? 1e300 : d;
            if (why) { std::ostringstream s; s << what << " " << std::setprecision(17) << x << " became " << y << " after relabelling"; *why = s.str(); }
        }
    };
    for (size_t k = 0; k < pk.size(); k++) {
        look(a.alpha[k], b.alpha[pk[k]], 1e-7, "alpha");
        for (size_t v = 0; v < pv.size(); v++) look(a.beta(k, v), b.beta(pk[k], pv[v]), 1e-4, "topic-word probability");
        for (size_t j = 0; j < pc.size(); j++) look(a.eta(k, j), b.eta(pk[k], pc[j]), 1e-3, "class parameter");
        for (size_t d = 0; d < pd.size(); d++) look(a.T(k, d), b.T(pk[k], pd[d]), 1e-2, "topic weight");
    }
    return worst;
}
PROP(c21_symmetry) {
    int t = (int) c.draw(T_SEMI + 1);
    int K = c.size(4, 12), V = c.size(6, 30), C = c.size(3, 8), D = c.size(8, 40), epochs = 1 + (int) c.draw(3);
    Model<double> m = gen_model<double>(c, t < NMETHODS ? t : FAST, K, V, C, 0, c.pick({0.0, 0.0, 0.2}));
    TSettings o = gen_tsettings(c, C, D);
    o.e.tol = c.pick({0.0, 1e-4});
    MatrixXi X = gen_corpus(c, V, D, false, true);
    VectorXi y = gen_labels(c, D, C, t == T_SEMI);
    bool words_ok = !(t == SUP || (t == T_SEMI && o.semi_exact));
    std::vector<int> pk = c.permutation(K), pv = words_ok ? c.permutation(V) : std::vector<int>(), pc = c.permutation(C), pd = c.permutation(D);
    if (!words_ok) for (int v = 0; v < V; v++) pv.push_back(v);
    // class weights are derived from the labels that occur: relabel classes only when all do
    for (int j = 0; j < C; j++) if (!(y.array() == j).any()) { for (int i = 0; i < C; i++) pc[i] = i; break; }
    // words that occur nowhere, at any place of the vocabulary, change nothing either (the participation weights of the
    // correspondence method are distributed over the whole vocabulary)
    int V2 = V;
    if (t != CORR && c.chance(1, 2)) {
        V2 += 1 + (int) c.draw(3);
        std::vector<int> place = c.permutation(V2);
        place.resize(V);
        std::sort(place.begin(), place.end());
        for (int v = 0; v < V; v++) pv[v] = place[pv[v]];
        c.label("with unused words");
    }
    Model<double> n;
    n.alpha.resize(K); n.beta = MatrixXd::Zero(K, V2); n.eta.resize(K, C);
    MatrixXi X2 = MatrixXi::Zero(V2, D);
    VectorXi y2(D);
    for (int k = 0; k < K; k++) {
        n.alpha[pk[k]] = m.alpha[k];
        for (int v = 0; v < V; v++) n.beta(pk[k], pv[v]) = m.beta(k, v);
        for (int j = 0; j < C; j++) n.eta(pk[k], pc[j]) = m.eta(k, j);
    }
    for (int d = 0; d < D; d++) {
        for (int v = 0; v < V; v++) X2(pv[v], pd[d]) = X(v, d);
        y2[pd[d]] = y[d] < 0 ? y[d] : pc[y[d]];
    }
    c << tname(t) << " K=" << K << " V=" << V << " C=" << C << " D=" << D << " epochs=" << epochs;
    int w1 = 1 + (int) c.draw(3), w2 = 1 + (int) c.draw(3);
    std::vector<int> ik(K), iv(V), ic(C), id(D);
    for (int k = 0; k < K; k++) ik[k] = k;
    for (int v = 0; v < V; v++) iv[v] = v;
    for (int j = 0; j < C; j++) ic[j] = j;
    for (int d = 0; d < D; d++) id[d] = d;
    SymRun a = sym_run(t, m, o, X, y, epochs, w1), b = sym_run(t, n, o, X2, y2, epochs, w2);
    std::string why;
    double off = sym_diff(a, b, pk, pv, pc, pd, &why);
    if (off > 1) {
        // A threshold (line search, stopping rule, the table of the exponential) can turn rounding into a visible
        // difference: such a case says nothing. Perturbing the input far below the tolerance shows whether it is one.
        for (int r = 0; r < 48; r++) {
            std::mt19937_64 g(r + 1);
            double eps = r % 3 == 0 ? 1e-12 : r % 3 == 1 ? 1e-10 : 1e-8;
            Model<double> q = m;
            auto u = [&]() { return 1 + eps * ((double) (g() >> 11) / (1ull << 53) - 0.5); };
            for (int k = 0; k < K; k++) {
                q.alpha[k] *= u();
                for (int v = 0; v < V; v++) q.beta(k, v) *= u();
                for (int j = 0; j < C; j++) q.eta(k, j) = q.eta(k, j) * u() + (u() - 1); // breaks ties between zeros as well
            }
            if (sym_diff(a, sym_run(t, q, o, X, y, epochs, 1), ik, iv, ic, id, nullptr) > 0.05) { c.label("unstable"); return; }
        }
    }
    REQUIRE(off <= 1, why);
    c.label(tname(t));
    c.nontrivial(K > 1 && D > 1 && V > 1);
}
PBT_MAIN

// ------------------------------------------------------------------- C22
// Several trainers with histories of their own. What each of them does must not depend on the others.
enum { O_FIT, O_FIT_UNLABELLED, O_PARTIAL, O_CORPUS, O_CORPUS_AGAIN, O_TRANSFORM, O_SCORES, O_MOVE, O_REBUILD, O_STEP, NOPS };
struct WOp { int kind; MatrixXi X; VectorXi y; int rs; };
struct World {
    int t, K, V, C, D, epochs, init, init_rs;
    bool single;
    Model<double> m;
    MatrixXi seed;
    TSettings o;
    std::vector<WOp> ops;
};
template <typename M> void add_bytes(std::string &s, const M &m) {
    long n[2] = {(long) m.rows(), (long) m.cols()};
    s.append((const char *) n, sizeof(n));
    s.append((const char *) m.data(), m.size() * sizeof(typename M::Scalar));
}
template <typename S> struct Live {
    const World &w;
    std::shared_ptr<parameters::SupervisedModelParameters<S> > p;
    std::shared_ptr<em::EStepInterface<S> > e;
    std::unique_ptr<LDA<S> > lda;
    std::vector<std::pair<int, std::shared_ptr<corpus::EigenClassificationCorpus> > > kept;
    std::string log;
    explicit Live(const World &w) : w(w) {
        if (w.init == 0) {
            p = std::make_shared<parameters::SupervisedModelParameters<S> >(w.m.alpha.cast<S>(), w.m.beta.cast<S>(), w.m.eta.cast<S>());
        } else {
            LDABuilder<S> b;
            if (w.init == 1) b.initialize_topics_random(w.V, w.K, w.init_rs); else b.initialize_topics_seeded(w.seed, w.K, 2, w.init_rs);
            if (w.t == MULTI || w.t == CORR) b.initialize_eta_uniform(w.C); else b.initialize_eta_zeros(w.C);
            LDA<S> l = b;
            p = std::make_shared<parameters::SupervisedModelParameters<S> >(
                *std::static_pointer_cast<parameters::SupervisedModelParameters<S> >(l.model_parameters()));
        }
        build();
    }
    void build() {
        e = train_e<S>(w.t, w.o);
        lda.reset(new LDA<S>(p, e, train_m<S>(w.t, w.o), w.epochs, 1));
        lda->get_event_dispatcher()->add_listener([this](std::shared_ptr<events::Event> ev) {
            log += ev->id();
            S v = 0;
            if (ev->id() == "ExpectationProgressEvent") v = std::static_pointer_cast<events::ExpectationProgressEvent<S> >(ev)->likelihood();
            if (ev->id() == "MaximizationProgressEvent") v = std::static_pointer_cast<events::MaximizationProgressEvent<S> >(ev)->likelihood();
            if (std::isnan(v)) log += "nan"; else log.append((const char *) &v, sizeof(v));
        });
    }
    // what the call returned, reported and left in the model
    std::string run(size_t i) {
        const WOp &op = w.ops[i];
        log.clear();
        std::string out;
        switch (op.kind) {
            case O_FIT: { MatrixXi X = op.X; VectorXi y = op.y; lda->fit(X, y); if (X != op.X || y != op.y) out += "DATA CHANGED"; X.setConstant(7); y.setConstant(0); break; }
            case O_FIT_UNLABELLED: { MatrixXi X = op.X; lda->fit(X); if (X != op.X) out += "DATA CHANGED"; X.setConstant(7); break; }
            case O_PARTIAL: { MatrixXi X = op.X; VectorXi y = op.y; lda->partial_fit(X, y); if (X != op.X || y != op.y) out += "DATA CHANGED"; X.setConstant(7); y.setConstant(0); break; }
            case O_CORPUS: kept.emplace_back((int) i, std::make_shared<corpus::EigenClassificationCorpus>(op.X, op.y, op.rs));
                           lda->partial_fit(std::static_pointer_cast<corpus::Corpus>(kept.back().second)); break;
            case O_CORPUS_AGAIN: if (!kept.empty()) lda->partial_fit(std::static_pointer_cast<corpus::Corpus>(kept[op.rs % kept.size()].second)); break;
            case O_TRANSFORM: { MatrixXi X = op.X; MX<S> T = lda->transform(X); if (X != op.X) out += "DATA CHANGED"; add_bytes(out, T); break; }
            case O_SCORES: {     // scoring takes an unsupervised expectation step
                LDA<S> scorer(p, make_estep<S>(UNSUP, w.o.e), train_m<S>(UNSUP, w.o), 1, 1);
                MX<S> Z = scorer.decision_function(op.X);
                add_bytes(out, Z);
                VectorXi q = scorer.predict(op.X);
                add_bytes(out, q);
                auto tp = scorer.transform_predict(op.X);
                add_bytes(out, std::get<0>(tp)); add_bytes(out, std::get<1>(tp));
                break;
            }
            case O_MOVE: { std::unique_ptr<LDA<S> > n(new LDA<S>(std::move(*lda))); lda = std::move(n); break; }
            case O_REBUILD: build(); break;
            case O_STEP: {
                corpus::EigenClassificationCorpus cp(op.X, op.y, op.rs);
                Result<S> r = unpack<S>(e->doc_e_step(cp.at(0), p), w.t);
                add_bytes(out, r.gamma); add_bytes(out, r.phi);
                break;
            }
        }
        add_bytes(out, p->alpha); add_bytes(out, p->beta); add_bytes(out, p->eta);
        return out + log;
    }
};
struct AnyLive {
    std::unique_ptr<Live<double> > d;
    std::unique_ptr<Live<float> > f;
    explicit AnyLive(const World &w) { if (w.single) f.reset(new Live<float>(w)); else d.reset(new Live<double>(w)); }
    std::string run(size_t i) { return d ? d->run(i) : f->run(i); }
};
static void perturb(int b) {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    mallopt(M_PERTURB, b);       // what fresh memory contains must not matter
#else
    (void) b;
#endif
}
static const char *wop_name(int k) {
    static const char *n[] = {"fit", "fit-unlabelled", "partial_fit", "partial_fit(corpus)", "partial_fit(same corpus)", "transform", "scores", "move", "rebuild", "step"};
    return n[k];
}
static std::vector<World> gen_worlds(Case &c, int n) {
    std::vector<World> ws;
    int sharedK = c.size(4, 10), sharedV = 1 + c.size(6, 25);
    for (int i = 0; i < n; i++) {
        World w;
        w.t = i && c.chance(1, 2) ? ws[0].t : (int) c.draw(NT);
        // worlds of equal and of different sizes
        w.K = c.chance(1, 2) ? sharedK : c.size(4, 10);
        w.V = c.chance(1, 2) ? sharedV : 1 + c.size(6, 25);
        w.C = 1 + c.size(2, 5);
        w.D = 1 + (int) c.draw(6);
        w.epochs = 1 + (int) c.draw(3);
        w.init = c.chance(1, 2) ? 0 : 1 + (int) c.draw(2);
        w.init_rs = (int) c.draw(4);
        w.single = c.chance(1, 4);
        w.o = gen_tsettings(c, w.C, w.D);
        w.o.e.cl = c.pick({0.0, 0.5, 1.0});
        w.o.e.rs = (int) c.draw(4);
        w.o.e.decay = c.chance(1, 4);
        w.m = gen_model<double>(c, w.t < NMETHODS ? w.t : FAST, w.K, w.V, w.C, 0, 0);
        w.seed = gen_corpus(c, w.V, 3, false, false);
        int nops = 1 + (int) c.draw(4);
        for (int j = 0; j < nops; j++) {
            WOp op;
            op.kind = (int) c.draw(NOPS);
            if (w.t != UNSUP && (op.kind == O_TRANSFORM || op.kind == O_FIT_UNLABELLED)) op.kind = O_FIT;
            // a kept corpus and another number of documents would split minibatches between calls
            op.X = gen_corpus(c, w.V, w.D, false, w.t != CORR);
            op.y = gen_labels(c, w.D, w.C, w.t == T_SEMI);
            op.rs = (int) c.draw(4);
            w.ops.push_back(op);
        }
        ws.push_back(w);
    }
    return ws;
}
static void describe(Case &c, const std::vector<World> &ws) {
    for (auto &w : ws) {
        c << " [" << tname(w.t) << (w.single ? " float" : "") << " K=" << w.K << " V=" << w.V << " D=" << w.D << " epochs=" << w.epochs << ":";
        for (auto &op : w.ops) c << " " << wop_name(op.kind);
        c << "]";
    }
}
static void c22(Case &c, bool threads) {
    int n = 2 + (int) c.draw(threads ? 3 : 2);
    std::vector<World> ws = gen_worlds(c, n);
    c << n << (threads ? " concurrent" : " interleaved") << " trainers:";
    describe(c, ws);
    std::vector<std::vector<std::string> > together(n), alone(n);
    perturb(0x55);
    if (threads) {
        std::vector<std::thread> th;
        std::atomic<int> ready(0);
        for (int i = 0; i < n; i++) th.emplace_back([&, i]() {
            ready++;
            while (ready < n) std::this_thread::yield();
            AnyLive l(ws[i]);
            for (size_t j = 0; j < ws[i].ops.size(); j++) together[i].push_back(l.run(j));
        });
        for (auto &t : th) t.join();
    } else {
        std::vector<std::unique_ptr<AnyLive> > live(n);
        std::vector<size_t> next(n, 0);
        for (;;) {
            std::vector<int> left;
            for (int i = 0; i < n; i++) if (next[i] < ws[i].ops.size()) left.push_back(i);
            if (left.empty()) break;
            int i = left[c.draw(left.size())];
            if (!live[i]) live[i].reset(new AnyLive(ws[i]));
            together[i].push_back(live[i]->run(next[i]++));
            if (next[i] == ws[i].ops.size() && c.chance(1, 2)) live[i].reset();
        }
    }
    perturb(0xfe);
    size_t calls = 0;
    for (int i = n - 1; i >= 0; i--) {
        AnyLive l(ws[i]);
        for (size_t j = 0; j < ws[i].ops.size(); j++) alone[i].push_back(l.run(j));
    }
    perturb(0);
    for (int i = 0; i < n; i++) for (size_t j = 0; j < ws[i].ops.size(); j++) {
        REQUIRE(alone[i][j].find("DATA CHANGED") != 0, "trainer " << i << ", call " << j << " (" << wop_name(ws[i].ops[j].kind) << ") changed its input");
        REQUIRE(together[i][j] == alone[i][j], "trainer " << i << " (" << tname(ws[i].t) << "), call " << j << " (" << wop_name(ws[i].ops[j].kind)
                << ") did something else " << (threads ? "next to other threads' trainers" : "among calls on other trainers") << " than alone");
        if (ws[i].ops[j].kind <= O_SCORES) calls++;
    }
    for (auto &w : ws) c.label(tname(w.t));
    c.nontrivial(calls > 1);
}
PROP(c22_interleaved) { c22(c, false); }
PROP(c22_memory) { c22(c, false); }
PROP(c22_threads) { c22(c, true); }
PROP(c22_race) { c22(c, true); }

// A process that has never used the library: it forks one child per request, which runs the last trainer of the case.
struct Fresh {
    int to = -1, from = -1;
    static bool get(int fd, void *p, size_t n) { char *q = (char *) p; while (n) { ssize_t k = read(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
    static bool put(int fd, const void *p, size_t n) { const char *q = (const char *) p; while (n) { ssize_t k = write(fd, q, n); if (k <= 0) return false; q += k; n -= k; } return true; }
    static std::vector<std::string> history(const World &w) {
        std::vector<std::string> r;
        AnyLive l(w);
        for (size_t j = 0; j < w.ops.size(); j++) r.push_back(l.run(j));
        return r;
    }
    Fresh() {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return;
        pid_t pid = fork();
        if (pid < 0) return;
        if (pid) { close(a[0]); close(b[1]); to = a[1]; from = b[0]; return; }
        close(a[1]); close(b[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        for (uint64_t n; get(a[0], &n, sizeof(n)); ) {
            std::vector<uint64_t> ch(n);
            if (!get(a[0], ch.data(), n * sizeof(uint64_t))) break;
            pid_t k = fork();
            if (k == 0) {
                static pbt::State own;
                Case c(&own);
                c.replaying = true;
                c.given = ch;
                std::string all;
                try {
                    for (auto &s : history(gen_worlds(c, 1 + (int) c.draw(3)).back())) { uint64_t h[2] = {s.size(), pbt::fnv(s)}; all.append((const char *) h, sizeof(h)); }
                } catch (const std::exception &) { _exit(1); }
                uint64_t z = all.size();
                _exit(put(b[1], &z, sizeof(z)) && put(b[1], all.data(), z) ? 0 : 1);
            }
            int st = 0;
            if (k < 0 || waitpid(k, &st, 0) != k || st) { uint64_t z = ~0ULL; if (!put(b[1], &z, sizeof(z))) break; }
        }
        _exit(0);
    }
    bool ask(const uint64_t *ch, uint64_t n, std::string &out) {
        uint64_t z;
        if (to < 0 || !put(to, &n, sizeof(n)) || !put(to, ch, n * sizeof(uint64_t)) || !get(from, &z, sizeof(z)) || z == ~0ULL) return false;
        out.resize(z);
        return get(from, &out[0], z);
    }
};
PROP(c22_fresh) {
    static Fresh fresh;                                   // before anything of the library runs in this process
    uint64_t first = c.st->n;
    int n = 1 + (int) c.draw(3);
    std::vector<World> ws = gen_worlds(c, n);
    c << n << " trainers one after another:";
    describe(c, ws);
    std::string want, got;
    if (!fresh.ask(c.st->choices + first, c.st->n - first, want)) FAIL("the last trainer alone, in a process of its own, did not finish");
    for (int i = 0; i < n; i++) {
        auto r = Fresh::history(ws[i]);
        if (i + 1 == n) for (auto &s : r) { uint64_t h[2] = {s.size(), pbt::fnv(s)}; got.append((const char *) h, sizeof(h)); }
    }
    REQUIRE(got.size() == want.size(), "internal: another number of calls");
    for (size_t j = 0; j < ws.back().ops.size(); j++)
        REQUIRE(memcmp(&got[16 * j], &want[16 * j], 16) == 0, "trainer " << n - 1 << " (" << tname(ws.back().t) << "), call " << j << " (" << wop_name(ws.back().ops[j].kind)
                << ") did something else than in a process where nothing else was ever trained");
    for (auto &w : ws) c.label(tname(w.t));
    c.nontrivial(ws.back().ops[0].kind <= O_SCORES);
}
