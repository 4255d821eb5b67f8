// C16: the builder against trainers assembled by hand
#include "gate.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include <atomic>

template <typename M> double maxdiff(const M &a, const M &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
    double r = 0;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) {
        double x = a(i, j), y = b(i, j);
        if (std::isnan(x) && std::isnan(y)) continue;
        double d = std::fabs(x - y) / (1 + std::max(std::fabs(x), std::fabs(y)));
        if (!(d <= r)) r = std::isnan(d) ? 1e300 : d;
    }
    return r;
}

enum { B_SEMI = NMETHODS, B_ONLINE };
// what the calls so far ask for; defaults as documented
template <typename S> struct Want {
    int iterations = 20;
    int e = UNSUP, m = UNSUP;
    bool e_known = true, m_known = true;     // false: set through set_e/set_m
    int ei = 10; double et = 1e-2, cl = 1; int rs = 0, fp = 10; double C = 1, mu = 2, ew = 1;
    // semi-supervised parts
    int sup = FAST; Settings sset, uset;
    int mi = 10; double mt = 1e-2, L = 1e-2, mmu = 2;
    VX<S> weights; int batch = 128; double mom = .9, lr = .01, bw = .9;

    void e_defaults(int method) { e = method; ei = 10; et = 1e-2; cl = 1; rs = 0; fp = 10; C = 1; mu = 2; ew = 1; }
    void m_defaults(int method) { m = method; mi = 10; mt = 1e-2; L = 1e-2; mmu = 2; batch = 128; mom = .9; lr = .01; bw = .9; }
    Settings es() const { Settings s; s.iters = ei; s.tol = et; s.cl = cl; s.rs = rs; s.fixed_point = fp; s.C = C; s.mu = mu; s.eta_weight = ew; return s; }
    std::shared_ptr<em::EStepInterface<S> > make_e() const {
        if (e == B_SEMI) return std::make_shared<em::SemiSupervisedEStep<S> >(make_estep<S>(sup, sset), make_estep<S>(UNSUP, uset));
        return make_estep<S>(e, es());
    }
    std::shared_ptr<em::MStepInterface<S> > make_m() const {
        switch (m) {
            case UNSUP: return std::make_shared<em::UnsupervisedMStep<S> >();
            case SUP: return std::make_shared<em::SupervisedMStep<S> >(mi, mt, L);
            case FAST: return std::make_shared<em::FastSupervisedMStep<S> >(mi, mt, L);
            case B_SEMI: return std::make_shared<em::SemiSupervisedMStep<S> >(mi, mt, L);
            case MULTI: return std::make_shared<em::MultinomialSupervisedMStep<S> >(mmu);
            case CORR: return std::make_shared<em::CorrespondenceSupervisedMStep<S> >(mmu);
            default: return std::make_shared<em::FastOnlineSupervisedMStep<S> >(weights, (S) L, (size_t) batch, (S) mom, (S) lr, (S) bw);
        }
    }
};
template <typename S> Settings default_settings() { Settings s; s.iters = 10; s.tol = 1e-2; s.cl = 1; s.rs = 0; s.fixed_point = 10; s.C = 1; s.mu = 2; s.eta_weight = 1; return s; }

#define ARGS_0(F) F()
// choose how many arguments are given explicitly
template <typename S> void set_e(Case &c, LDABuilder<S> &b, Want<S> &w, int method) {
    int ei = 1 + (int) c.draw(8);
    double et = c.pick({1e-4, 0.03, 0.3}), cl = c.pick({0.0, 0.4, 0.7}), C = c.pick({0.5, 3.0}), mu = c.pick({1.5, 4.0}), ew = c.pick({0.4, 2.5});
    int rs = 1 + (int) c.draw(5), fp = 1 + (int) c.draw(4), n = (int) c.draw(7);
    bool viaget = c.chance(1, 5);
    w.e_defaults(method);
    w.e_known = !viaget;
    std::shared_ptr<em::EStepInterface<S> > s;
    if (n >= 1) w.ei = ei;
    if (n >= 2) w.et = et;
    switch (method) {
        case UNSUP:
            if (n > 4) n = 4;
            if (n >= 3) w.cl = cl;
            if (n >= 4) w.rs = rs;
            if (viaget) s = n == 0 ? b.get_classic_e_step() : n == 1 ? b.get_classic_e_step(ei) : n == 2 ? b.get_classic_e_step(ei, et) : n == 3 ? b.get_classic_e_step(ei, et, cl) : b.get_classic_e_step(ei, et, cl, rs);
            else if (n == 0) b.set_classic_e_step(); else if (n == 1) b.set_classic_e_step(ei); else if (n == 2) b.set_classic_e_step(ei, et); else if (n == 3) b.set_classic_e_step(ei, et, cl); else b.set_classic_e_step(ei, et, cl, rs);
            break;
        case SUP:
            if (n > 5) n = 5;
            if (n >= 3) w.fp = fp;
            if (n >= 4) w.cl = cl;
            if (n >= 5) w.rs = rs;
            if (viaget) s = n == 0 ? b.get_supervised_e_step() : n == 1 ? b.get_supervised_e_step(ei) : n == 2 ? b.get_supervised_e_step(ei, et) : n == 3 ? b.get_supervised_e_step(ei, et, fp) : n == 4 ? b.get_supervised_e_step(ei, et, fp, cl) : b.get_supervised_e_step(ei, et, fp, cl, rs);
            else if (n == 0) b.set_supervised_e_step(); else if (n == 1) b.set_supervised_e_step(ei); else if (n == 2) b.set_supervised_e_step(ei, et); else if (n == 3) b.set_supervised_e_step(ei, et, fp); else if (n == 4) b.set_supervised_e_step(ei, et, fp, cl); else b.set_supervised_e_step(ei, et, fp, cl, rs);
            break;
        case FAST:
            if (n > 5) n = 5;
            if (n >= 3) w.C = C;
            if (n >= 4) w.cl = cl;
            if (n >= 5) w.rs = rs;
            if (viaget) s = n == 0 ? b.get_fast_supervised_e_step() : n == 1 ? b.get_fast_supervised_e_step(ei) : n == 2 ? b.get_fast_supervised_e_step(ei, et) : n == 3 ? b.get_fast_supervised_e_step(ei, et, C) : n == 4 ? b.get_fast_supervised_e_step(ei, et, C, cl) : b.get_fast_supervised_e_step(ei, et, C, cl, rs);
            else if (n == 0) b.set_fast_supervised_e_step(); else if (n == 1) b.set_fast_supervised_e_step(ei); else if (n == 2) b.set_fast_supervised_e_step(ei, et); else if (n == 3) b.set_fast_supervised_e_step(ei, et, C); else if (n == 4) b.set_fast_supervised_e_step(ei, et, C, cl); else b.set_fast_supervised_e_step(ei, et, C, cl, rs);
            break;
        case MULTI:
            if (n >= 3) w.mu = mu;
            if (n >= 4) w.ew = ew;
            if (n >= 5) w.cl = cl;
            if (n >= 6) w.rs = rs;
            if (viaget) s = n == 0 ? b.get_multinomial_supervised_e_step() : n == 1 ? b.get_multinomial_supervised_e_step(ei) : n == 2 ? b.get_multinomial_supervised_e_step(ei, et) : n == 3 ? b.get_multinomial_supervised_e_step(ei, et, mu) : n == 4 ? b.get_multinomial_supervised_e_step(ei, et, mu, ew) : n == 5 ? b.get_multinomial_supervised_e_step(ei, et, mu, ew, cl) : b.get_multinomial_supervised_e_step(ei, et, mu, ew, cl, rs);
            else if (n == 0) b.set_multinomial_supervised_e_step(); else if (n == 1) b.set_multinomial_supervised_e_step(ei); else if (n == 2) b.set_multinomial_supervised_e_step(ei, et); else if (n == 3) b.set_multinomial_supervised_e_step(ei, et, mu); else if (n == 4) b.set_multinomial_supervised_e_step(ei, et, mu, ew); else if (n == 5) b.set_multinomial_supervised_e_step(ei, et, mu, ew, cl); else b.set_multinomial_supervised_e_step(ei, et, mu, ew, cl, rs);
            break;
        case CORR:
            if (n > 5) n = 5;
            if (n >= 3) w.mu = mu;
            if (n >= 4) w.cl = cl;
            if (n >= 5) w.rs = rs;
            if (viaget) s = n == 0 ? b.get_correspondence_supervised_e_step() : n == 1 ? b.get_correspondence_supervised_e_step(ei) : n == 2 ? b.get_correspondence_supervised_e_step(ei, et) : n == 3 ? b.get_correspondence_supervised_e_step(ei, et, mu) : n == 4 ? b.get_correspondence_supervised_e_step(ei, et, mu, cl) : b.get_correspondence_supervised_e_step(ei, et, mu, cl, rs);
            else if (n == 0) b.set_correspondence_supervised_e_step(); else if (n == 1) b.set_correspondence_supervised_e_step(ei); else if (n == 2) b.set_correspondence_supervised_e_step(ei, et); else if (n == 3) b.set_correspondence_supervised_e_step(ei, et, mu); else if (n == 4) b.set_correspondence_supervised_e_step(ei, et, mu, cl); else b.set_correspondence_supervised_e_step(ei, et, mu, cl, rs);
            break;
        default: {
            std::shared_ptr<em::EStepInterface<S> > sup, un;
            w.sup = FAST; w.sset = w.uset = default_settings<S>();
            if (n % 3 >= 1) {
                w.sup = c.pick({(int) SUP, (int) FAST});
                w.sset.iters = ei; w.sset.tol = et; w.sset.fixed_point = fp; w.sset.C = C;
                sup = w.sup == SUP ? b.get_supervised_e_step(ei, et, fp) : b.get_fast_supervised_e_step(ei, et, C);
            }
            if (n % 3 >= 2 || n == 3) { w.uset.iters = ei + 1; w.uset.tol = et; w.uset.cl = cl; un = b.get_classic_e_step(ei + 1, et, cl); }
            if (viaget) s = sup || un ? b.get_semi_supervised_e_step(sup, un) : b.get_semi_supervised_e_step();
            else if (un) b.set_semi_supervised_e_step(sup, un);
            else if (sup) b.set_semi_supervised_e_step(sup);
            else b.set_semi_supervised_e_step();
        }
    }
    if (viaget) b.set_e(s);
    c << " e=" << (method < NMETHODS ? method_name(method) : "semi") << "/" << n << (viaget ? "via get" : "");
}

template <typename S> void set_m(Case &c, LDABuilder<S> &b, Want<S> &w, int method, int C, int D) {
    int mi = (int) c.draw(4), n = (int) c.draw(6), batch = D * (1 + (int) c.draw(2));
    double mt = c.pick({1e-4, 0.2}), L = c.pick({0.3, 2.0}), mu = c.pick({1.5, 4.0}), mom = c.pick({0.1, 0.5}), lr = c.pick({0.3, 0.05}), bw = c.pick({0.2, 0.6});
    bool viaget = c.chance(1, 5);
    w.m_defaults(method);
    w.m_known = !viaget;
    std::shared_ptr<em::MStepInterface<S> > s;
    switch (method) {
        case UNSUP: n = 0; if (viaget) s = b.get_classic_m_step(); else b.set_classic_m_step(); break;
        case SUP: case FAST: case B_SEMI:
            if (n > 3) n = 3;
            if (n >= 1) w.mi = mi;
            if (n >= 2) w.mt = mt;
            if (n >= 3) w.L = L;
#define LOGI(NAME) \
            if (viaget) s = n == 0 ? b.get_##NAME() : n == 1 ? b.get_##NAME(mi) : n == 2 ? b.get_##NAME(mi, mt) : b.get_##NAME(mi, mt, L); \
            else if (n == 0) b.set_##NAME(); else if (n == 1) b.set_##NAME(mi); else if (n == 2) b.set_##NAME(mi, mt); else b.set_##NAME(mi, mt, L);
            if (method == SUP) { LOGI(supervised_m_step) } else if (method == FAST) { LOGI(fast_supervised_m_step) } else { LOGI(semi_supervised_m_step) }
            break;
        case MULTI:
            n = n % 2; if (n) w.mmu = mu;
            if (viaget) s = n ? b.get_multinomial_supervised_m_step(mu) : b.get_multinomial_supervised_m_step();
            else if (n) b.set_multinomial_supervised_m_step(mu); else b.set_multinomial_supervised_m_step();
            break;
        case CORR:
            n = n % 2; if (n) w.mmu = mu;
            if (viaget) s = n ? b.get_correspondence_supervised_m_step(mu) : b.get_correspondence_supervised_m_step();
            else if (n) b.set_correspondence_supervised_m_step(mu); else b.set_correspondence_supervised_m_step();
            break;
        default: {
            int form = (int) c.draw(3);
            std::vector<S> sv(C);
            VX<S> ev(C);
            for (int j = 0; j < C; j++) sv[j] = ev[j] = c.pick({0.5, 1.0, 2.0, 3.5});
            w.weights = form == 0 ? VX<S>(VX<S>::Ones(C)) : ev;
            if (n >= 1) w.L = L;
            if (n >= 2) w.batch = batch;
            if (n >= 3) w.mom = mom;
            if (n >= 4) w.lr = lr;
            if (n >= 5) w.bw = bw;
#define ONLINE(X) \
            if (viaget) s = n == 0 ? b.get_fast_supervised_online_m_step(X) : n == 1 ? b.get_fast_supervised_online_m_step(X, L) : n == 2 ? b.get_fast_supervised_online_m_step(X, L, batch) : n == 3 ? b.get_fast_supervised_online_m_step(X, L, batch, mom) : n == 4 ? b.get_fast_supervised_online_m_step(X, L, batch, mom, lr) : b.get_fast_supervised_online_m_step(X, L, batch, mom, lr, bw); \
            else if (n == 0) b.set_fast_supervised_online_m_step(X); else if (n == 1) b.set_fast_supervised_online_m_step(X, L); else if (n == 2) b.set_fast_supervised_online_m_step(X, L, batch); else if (n == 3) b.set_fast_supervised_online_m_step(X, L, batch, mom); else if (n == 4) b.set_fast_supervised_online_m_step(X, L, batch, mom, lr); else b.set_fast_supervised_online_m_step(X, L, batch, mom, lr, bw);
            if (form == 0) { ONLINE((size_t) C) } else if (form == 1) { ONLINE(sv) } else { ONLINE(ev) }
        }
    }
    if (viaget) b.set_m(s);
    c << " m=" << (method < NMETHODS ? method_name(method) : method == B_SEMI ? "semi" : "online") << "/" << n << (viaget ? "via get" : "");
}

static std::string log_events(std::vector<std::pair<char, double> > &v, std::shared_ptr<events::Event> e, int fl) {
    if (e->id() == "ExpectationProgressEvent") v.push_back(std::make_pair('x', fl ? std::static_pointer_cast<events::ExpectationProgressEvent<float> >(e)->likelihood() : std::static_pointer_cast<events::ExpectationProgressEvent<double> >(e)->likelihood()));
    else if (e->id() == "MaximizationProgressEvent") v.push_back(std::make_pair('M', fl ? std::static_pointer_cast<events::MaximizationProgressEvent<float> >(e)->likelihood() : std::static_pointer_cast<events::MaximizationProgressEvent<double> >(e)->likelihood()));
    else v.push_back(std::make_pair('E', 0.0));
    return "";
}

template <typename S> void c16(Case &c) {
    const int fl = sizeof(S) == 4;
    LDABuilder<S> b;
    Want<S> w;
    // compatible methods for the final configuration
    int method = (int) c.draw(7);                       // UNSUP..CORR, SEMI, ONLINE
    int fe = method == B_ONLINE ? FAST : method, fm = method;
    if (method == UNSUP && c.chance(1, 4)) fe = fm = -1;     // keep the defaults
    int K = c.size(4, 12), V = 1 + c.size(5, 30), C = 1 + c.size(2, 10);
    int D = 1 + c.size(6, 20);
    // minibatches that end with an epoch: others race with the inference of later documents
    if (method == B_ONLINE) D = c.pick({2, 4, 8, 64});
    MatrixXi X(V, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) {
        X.col(d) = gen_doc(c, V, 0);
        X(0, d)++;
        y[d] = d < C ? d : (int) c.draw(C);
        if (method == B_SEMI && d >= C && c.chance(1, 2)) y[d] = -1;
    }
    c << (fl ? "float" : "double") << " K=" << K << " V=" << V << " C=" << C << " D=" << D;
    Model<S> given = gen_model<S>(c, method < NMETHODS ? method : FAST, K, V, C, 0, 0);
    // shuffle the order of the calls: 0 e, 1 m, 2 topics(+eta), 3 iterations, 4 workers; noise calls come first
    bool explicit_iters = !c.chance(1, 10);
    std::vector<int> order = c.permutation(5);
    int noise = (int) c.draw(4);
    std::shared_ptr<parameters::SupervisedModelParameters<S> > gp = given.params();
    int topics_kind = 0, eta_kind = 0, seedN = 30, trs = 0;
    bool eta_set = false;
    for (int step = 0; step < noise + 5; step++) {
        bool final = step >= noise;
        int what = final ? order[step - noise] : (int) c.draw(5);
        switch (what) {
            case 0: if (final) { if (fe >= 0) set_e<S>(c, b, w, fe); }
                    else if (fe >= 0) set_e<S>(c, b, w, (int) c.draw(6));
                    break;
            case 1: if (final) { if (fm >= 0) set_m<S>(c, b, w, fm, C, D); }
                    else if (fm >= 0) set_m<S>(c, b, w, (int) c.draw(7), C, D);
                    break;
            case 2: {
                topics_kind = (int) c.draw(4); seedN = 1 + (int) c.draw(40); trs = (int) c.draw(4);
                int k2 = final ? K : 1 + (int) c.draw(4);
                switch (topics_kind) {
                    case 0: b.initialize_topics_seeded(X, k2, seedN, trs); break;
                    case 1: b.initialize_topics_random(V, k2, trs); break;
                    case 2: b.initialize_topics_from_model(gp); k2 = K; break;
                    case 3: b.initialize_topics_seeded(std::make_shared<corpus::EigenCorpus>(X), k2, seedN, trs); break;
                }
                eta_kind = method == UNSUP ? (int) c.draw(4) : method == MULTI || method == CORR ? 1 + (int) c.draw(2) : (int) c.draw(3);
                eta_set = true;
                switch (eta_kind) {
                    case 0: b.initialize_eta_zeros(C); break;
                    case 1: b.initialize_eta_uniform(C); break;
                    case 2: b.initialize_eta_from_model(gp); break;
                    case 3: eta_set = false; break;
                }
                c << " topics" << topics_kind << " eta" << eta_kind;
                break;
            }
            case 3: if (explicit_iters) { w.iterations = final ? (int) c.draw(4) : (int) c.draw(9); b.set_iterations(w.iterations); c << " iters=" << w.iterations; } break;
            case 4: { int n = final ? 1 : 1 + (int) c.draw(5); b.set_workers(n); c << " workers=" << n; break; }
        }
    }
    LDA<S> lda = b;
    auto mp = lda.template model_parameters<parameters::SupervisedModelParameters<S> >();
    // the initial model
    Model<S> init;
    init.alpha = mp->alpha; init.beta = mp->beta; init.eta = mp->eta;
    REQUIRE(init.alpha.size() == K && init.beta.rows() == K && init.beta.cols() == V, "initial topics have shape " << init.beta.rows() << "x" << init.beta.cols() << ", alpha " << init.alpha.size());
    if (topics_kind == 2) REQUIRE(same_bits(init.alpha, given.alpha) && same_bits(init.beta, given.beta), "topics initialised from a model are not that model's");
    else {
        for (int k = 0; k < K; k++) {
            REQUIRE(std::fabs((double) init.alpha[k] - 1.0 / K) < 1e-6, "alpha = " << init.alpha[k] << " for " << K << " topics");
            REQUIRE(std::fabs((double) init.beta.row(k).sum() - 1) < 1e-5 && init.beta.row(k).minCoeff() >= 0, "initial topic " << k << " is no distribution: " << init.beta.row(k));
        }
        LDABuilder<S> b2;
        if (topics_kind == 1) b2.initialize_topics_random(V, K, trs); else b2.initialize_topics_seeded(X, K, seedN, trs);
        LDA<S> l2 = b2;
        REQUIRE(maxdiff(l2.template model_parameters<parameters::ModelParameters<S> >()->beta, init.beta) < 1e-6, "the same initialisation gave other topics");
    }
    if (eta_set) {
        REQUIRE(init.eta.rows() == K && init.eta.cols() == C, "class parameters of shape " << init.eta.rows() << "x" << init.eta.cols());
        double want = eta_kind == 0 ? 0 : 1.0 / C;
        if (eta_kind == 2) REQUIRE(same_bits(init.eta, given.eta), "class parameters from a model are not that model's");
        else REQUIRE(maxdiff(init.eta, MX<S>(MX<S>::Constant(K, C, want))) < 1e-6, "class parameters initialised to " << init.eta(0, 0) << " instead of " << want);
    }
    // the same training with a trainer made by hand
    auto hp = init.params();
    LDA<S> hand(hp, w.make_e(), w.make_m(), w.iterations, 1);
    std::vector<std::pair<char, double> > ea, eb;
    lda.get_event_dispatcher()->add_listener([&ea, fl](std::shared_ptr<events::Event> e) { log_events(ea, e, fl); });
    hand.get_event_dispatcher()->add_listener([&eb, fl](std::shared_ptr<events::Event> e) { log_events(eb, e, fl); });
    lda.fit(X, y);
    hand.fit(X, y);
    const double eps = fl ? 1e-3 : 1e-8;
    std::ostringstream la, lb;
    for (auto &x : ea) la << x.first;
    for (auto &x : eb) lb << x.first;
    REQUIRE(la.str() == lb.str(), "events of the built trainer (x document, M maximization, E epoch): " << la.str() << " but by hand: " << lb.str());
    for (size_t i = 0; i < ea.size(); i++) {
        double d = std::fabs(ea[i].second - eb[i].second) / (1 + std::fabs(eb[i].second));
        REQUIRE(d <= eps || (std::isnan(ea[i].second) && std::isnan(eb[i].second)), "report " << i << " (" << ea[i].first << ") is " << ea[i].second << " but by hand " << eb[i].second);
    }
    REQUIRE(same_bits(mp->alpha, hp->alpha), "alpha differs");
    REQUIRE(maxdiff(mp->beta, hp->beta) <= eps, "topics of the built trainer differ from the hand-made one by " << maxdiff(mp->beta, hp->beta));
    REQUIRE(maxdiff(mp->eta, hp->eta) <= eps, "class parameters of the built trainer differ from the hand-made one by " << maxdiff(mp->eta, hp->eta));
    c.label(method < NMETHODS ? method_name(method) : method == B_SEMI ? "semi" : "online");
    c.nontrivial(K > 1 && w.iterations > 0);
}
PROP(c16_builder) { if (c.chance(1, 4)) c16<float>(c); else c16<double>(c); }

// seeded / random initialisation: what may be drawn, and that everything is drawn
PROP(c16_init) {
    int D = 2 + (int) c.draw(4), extra = (int) c.draw(3), V = D + extra, K = 8 + (int) c.draw(3), N = c.chance(1, 20) ? 34 + (int) c.draw(3000) : 30 + (int) c.draw(3), rs = (int) c.draw(1000);
    bool defN = c.chance(1, 4), defR = defN && c.chance(1, 2);
    if (defN) N = 30;
    if (defR) rs = 0;
    int count = 1 + (int) c.draw(9);
    MatrixXi X = MatrixXi::Zero(V, D);
    std::vector<int> where = c.permutation(V);
    for (int d = 0; d < D; d++) X(where[d], d) = count;
    c << "D=" << D << " V=" << V << " K=" << K << " N=" << N << " rs=" << rs << " count=" << count;
    LDABuilder<double> b;
    bool viacorpus = c.chance(1, 2);
    auto corp = std::make_shared<corpus::EigenCorpus>(X);
    if (defR) { if (viacorpus) b.initialize_topics_seeded(corp, K); else b.initialize_topics_seeded(X, K); }
    else if (defN && rs == 0) { if (viacorpus) b.initialize_topics_seeded(corp, K, 30); else b.initialize_topics_seeded(X, K, 30); }
    else if (viacorpus) b.initialize_topics_seeded(corp, K, N, rs);
    else b.initialize_topics_seeded(X, K, N, rs);
    LDA<double> l = b;
    auto p = l.model_parameters<parameters::ModelParameters<double> >();
    REQUIRE(p->beta.rows() == K && p->beta.cols() == V, "shape");
    double tot = V + (double) count * N;
    std::vector<long> used(D, 0);
    bool differ = false;
    for (int k = 0; k < K; k++) {
        long sum = 0;
        for (int v = 0; v < V; v++) {
            double n = (p->beta(k, v) * tot - 1) / count;
            REQUIRE(std::fabs(n - std::round(n)) < 1e-6 && n > -1e-6, "topic " << k << " word " << v << ": " << p->beta(k, v) << " is not (1 + contributions of " << N << " documents) / total");
            sum += std::lround(n);
            for (int d = 0; d < D; d++) if (where[d] == v) used[d] += std::lround(n);
            for (int d = D; d < V; d++) if (where[d] == v) REQUIRE(std::lround(n) == 0, "a word of no document was seeded");
        }
        REQUIRE(sum == N, "topic " << k << " was seeded with " << sum << " documents instead of " << N);
        if (maxdiff(MatrixXd(p->beta.row(k)), MatrixXd(p->beta.row(0))) > 1e-9) differ = true;
    }
    REQUIRE(differ, "all topics were seeded with the same documents");
    for (int d = 0; d < D; d++) REQUIRE(used[d] > 0, "document " << d << " was never drawn in " << K * N << " draws");
    LDABuilder<double> b2, b3;
    b2.initialize_topics_seeded(X, K, N, rs);
    LDA<double> l2 = b2;
    REQUIRE(same_bits(l2.model_parameters<parameters::ModelParameters<double> >()->beta, p->beta), "seeding is not reproducible");
    b3.initialize_topics_seeded(X, K, N, rs + 1);
    LDA<double> l3 = b3;
    REQUIRE(!same_bits(l3.model_parameters<parameters::ModelParameters<double> >()->beta, p->beta), "the random state does not matter for seeding");
    // random topics
    LDABuilder<double> r1, r2, r3;
    if (rs == 0) r1.initialize_topics_random(V, K); else r1.initialize_topics_random(V, K, rs);
    r2.initialize_topics_random(V, K, rs);
    r3.initialize_topics_random(V, K, rs + 1);
    LDA<double> a1 = r1, a2 = r2, a3 = r3;
    MatrixXd q1 = a1.model_parameters<parameters::ModelParameters<double> >()->beta, q2 = a2.model_parameters<parameters::ModelParameters<double> >()->beta, q3 = a3.model_parameters<parameters::ModelParameters<double> >()->beta;
    REQUIRE(same_bits(q1, q2), "random topics are not reproducible");
    REQUIRE(!same_bits(q1, q3), "the random state does not matter for random topics");
    for (int k = 0; k < K; k++) {
        REQUIRE(std::fabs(q1.row(k).sum() - 1) < 1e-9 && q1.row(k).minCoeff() >= 0, "random topic " << k << " is no distribution");
        for (int j = 0; j < k; j++) REQUIRE(!same_bits(MatrixXd(q1.row(k)), MatrixXd(q1.row(j))), "two random topics are equal");
    }
    c.nontrivial();
}

// refusals
template <typename T>
static void refusal(pbt::Case &c) {
    LDABuilder<T> b;
    Want<T> w;
    bool topics = false, eta = false;
    int K = 2, V = 3, C = 2;
    MatrixXi X = MatrixXi::Ones(V, 4);
    Model<T> given = gen_model<T>(c, FAST, K, V, C, 0, 0);
    auto gp = given.params();
    int ops = 1 + (int) c.draw(6);
    w.e = w.m = UNSUP;
    for (int i = 0; i < ops; i++) switch (c.draw(7)) {
        case 0: case 1: set_e<T>(c, b, w, (int) c.draw(6)); break;
        case 2: case 3: set_m<T>(c, b, w, (int) c.draw(7), C, 4); break;
        case 4:
            switch (c.draw(3)) { case 0: b.initialize_topics_seeded(X, K); break; case 1: b.initialize_topics_random(V, K); break; default: b.initialize_topics_from_model(gp); }
            topics = true;
            c << " topics";
            break;
        case 5: {
            bool threw = false, zeros = c.chance(1, 2);
            try { if (zeros) b.initialize_eta_zeros(C); else b.initialize_eta_uniform(C); } catch (const std::runtime_error &) { threw = true; }
            REQUIRE(threw == !topics, (threw ? "initialising eta was refused although topics exist" : "initialising eta before the topics was accepted"));
            if (!threw) eta = true;
            c << " eta" << (threw ? "!" : "");
            break;
        }
        case 6: b.set_iterations(1); b.set_workers(1); break;
    }
    bool needs = (w.e_known && w.e != UNSUP) || (w.m_known && w.m != UNSUP);
    bool threw = false;
    try { LDA<T> l = b; } catch (const std::runtime_error &) { threw = true; }
    if (!topics) REQUIRE(threw, "a trainer without topics was built");
    else if (!eta && needs) REQUIRE(threw, "a supervised trainer without class parameters was built");
    else if (eta || (w.e == UNSUP && w.m == UNSUP)) REQUIRE(!threw, "building a complete trainer was refused");
    c.label(threw ? "refused" : "built");
    c.nontrivial(ops > 1);
}
PROP(c16_refusal) { if (c.chance(1, 3)) { c << "float"; refusal<float>(c); } else refusal<double>(c); }

// the number of workers is the number of documents inferred at the same time
struct CountE : public em::EStepInterface<double> {
    std::mutex m;
    std::condition_variable cv;
    int in = 0, most = 0, want = 1;
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> p) override {
        std::unique_lock<std::mutex> l(m);
        in++;
        most = std::max(most, in);
        cv.notify_all();
        cv.wait_for(l, std::chrono::milliseconds(most >= want ? 1 : 6000), [this] { return most >= want; });
        in--;
        return std::make_shared<parameters::VariationalParameters<double> >(VectorXd::Ones(2), MatrixXd::Zero(2, 3));
    }
    void e_step() override {}
};
struct NullM : public em::MStepInterface<double> {
    int calls = 0;
    void doc_m_step(const std::shared_ptr<corpus::Document>, const std::shared_ptr<parameters::Parameters>, std::shared_ptr<parameters::Parameters>) override {}
    void m_step(std::shared_ptr<parameters::Parameters>) override { calls++; }
};
PROP(c16_workers) {
    bool def = c.chance(1, 5);
    int n = def ? (int) std::thread::hardware_concurrency() : 1 + (int) c.draw(12), iters = (int) c.draw(c.chance(1, 20) ? 200 : 4);
    if (n == 0) throw pbt::Discard();
    bool defi = c.chance(1, 4);
    c << "workers=" << n << (def ? " (default)" : "");
    auto e = std::make_shared<CountE>();
    auto m = std::make_shared<NullM>();
    e->want = n;
    LDABuilder<double> b;
    b.initialize_topics_random(3, 2).set_e(e).set_m(m);
    if (!defi) b.set_iterations(iters);
    if (!def) b.set_workers(n);
    LDA<double> built = b;
    bool moved = c.chance(1, 2);
    std::unique_ptr<LDA<double> > other;
    if (moved) other.reset(new LDA<double>(std::move(built)));
    LDA<double> &lda = moved ? *other : built;
    c << (moved ? " moved" : "");
    MatrixXi X = MatrixXi::Ones(3, n * 3);
    lda.transform(X);
    REQUIRE(e->most == n, "at most " << e->most << " documents were inferred at the same time with " << n << " workers");
    lda.fit(X);
    REQUIRE(m->calls == (defi ? 20 : iters), "fit ran " << m->calls << " epochs instead of " << (defi ? 20 : iters));
    c.nontrivial(n > 1);
}
// steps and trainers constructed directly, leaving out trailing arguments
template <typename S> void defaults(Case &c) {
    int method = (int) c.draw(NMETHODS + 2), n = (int) c.draw(7), K = 2 + (int) c.draw(3), V = 3 + (int) c.draw(6), C = 2 + (int) c.draw(2), D = 3 + (int) c.draw(8);
    int em_ = method < NMETHODS ? method : FAST, fl = sizeof(S) == 4;
    Model<S> m = gen_model<S>(c, em_, K, V, C, 0, 0);
    MatrixXi X(V, D);
    VectorXi y(D);
    for (int d = 0; d < D; d++) { X.col(d) = gen_doc(c, V, 0); X(0, d)++; y[d] = d < C ? d : (int) c.draw(C); }
    Settings o = default_settings<S>();
    o.fixed_point = 20;
    int ei = 1 + (int) c.draw(8), fp = 1 + (int) c.draw(4), rs = 2 + (int) c.draw(5);
    S et = c.pick({1e-4, 0.03, 0.3}), cl = c.pick({0.0, 0.4, 0.7}), Cw = c.pick({0.5, 3.0}), mu = c.pick({1.5, 4.0}), ew = c.pick({0.4, 2.5});
    if (n >= 1) o.iters = ei;
    if (n >= 2) o.tol = et;
    std::shared_ptr<em::EStepInterface<S> > e;
    switch (em_) {
        case UNSUP: {
            typedef em::UnsupervisedEStep<S> T;
            if (n >= 3) o.cl = cl;
            if (n >= 4) o.rs = rs;
            switch (n) { case 0: e = std::make_shared<T>(); break; case 1: e = std::make_shared<T>(ei); break; case 2: e = std::make_shared<T>(ei, et); break; case 3: e = std::make_shared<T>(ei, et, cl); break; default: e = std::make_shared<T>(ei, et, cl, rs); }
            break;
        }
        case SUP: {
            typedef em::SupervisedEStep<S> T;
            if (n >= 3) o.fixed_point = fp;
            if (n >= 4) o.cl = cl;
            if (n >= 5) o.rs = rs;
            switch (n) { case 0: e = std::make_shared<T>(); break; case 1: e = std::make_shared<T>(ei); break; case 2: e = std::make_shared<T>(ei, et); break; case 3: e = std::make_shared<T>(ei, et, fp); break; case 4: e = std::make_shared<T>(ei, et, fp, cl); break; default: e = std::make_shared<T>(ei, et, fp, cl, rs); }
            break;
        }
        case FAST: {
            typedef em::FastSupervisedEStep<S> T;
            if (n >= 3) o.C = Cw;
            if (n >= 5) o.cl = cl;
            if (n >= 6) o.rs = rs;
            switch (n) { case 0: e = std::make_shared<T>(); break; case 1: e = std::make_shared<T>(ei); break; case 2: e = std::make_shared<T>(ei, et); break; case 3: e = std::make_shared<T>(ei, et, Cw); break; case 4: e = std::make_shared<T>(ei, et, Cw, T::Constant); break; case 5: e = std::make_shared<T>(ei, et, Cw, T::Constant, cl); break; default: e = std::make_shared<T>(ei, et, Cw, T::Constant, cl, rs); }
            break;
        }
        case MULTI: {
            typedef em::MultinomialSupervisedEStep<S> T;
            if (n >= 3) o.mu = mu;
            if (n >= 4) o.eta_weight = ew;
            if (n >= 5) o.cl = cl;
            if (n >= 6) o.rs = rs;
            switch (n) { case 0: e = std::make_shared<T>(); break; case 1: e = std::make_shared<T>(ei); break; case 2: e = std::make_shared<T>(ei, et); break; case 3: e = std::make_shared<T>(ei, et, mu); break; case 4: e = std::make_shared<T>(ei, et, mu, ew); break; case 5: e = std::make_shared<T>(ei, et, mu, ew, cl); break; default: e = std::make_shared<T>(ei, et, mu, ew, cl, rs); }
            break;
        }
        default: {
            typedef em::CorrespondenceSupervisedEStep<S> T;
            if (n >= 3) o.mu = mu;
            if (n >= 4) o.cl = cl;
            if (n >= 5) o.rs = rs;
            switch (n) { case 0: e = std::make_shared<T>(); break; case 1: e = std::make_shared<T>(ei); break; case 2: e = std::make_shared<T>(ei, et); break; case 3: e = std::make_shared<T>(ei, et, mu); break; case 4: e = std::make_shared<T>(ei, et, mu, cl); break; default: e = std::make_shared<T>(ei, et, mu, cl, rs); }
        }
    }
    int mi = (int) c.draw(4), k = (int) c.draw(6);
    S mt = c.pick({1e-4, 0.2}), L = c.pick({0.3, 2.0}), mom = c.pick({0.1, 0.5}), lr = c.pick({0.3, 0.05}), bw = c.pick({0.2, 0.6});
    size_t batch = D;
    Want<S> w;
    w.m_defaults(method);
    std::shared_ptr<em::MStepInterface<S> > ms;
    if (method == B_ONLINE) {
        typedef em::FastOnlineSupervisedMStep<S> T;
        bool uniform = c.chance(1, 2);
        VX<S> W = VX<S>::Ones(C);
        if (!uniform) for (int i = 0; i < C; i++) W[i] = (S) c.logu(0.2, 5);
        w.weights = W;
        if (k >= 1) w.L = L;
        if (k >= 2) w.batch = (int) batch;
        if (k >= 3) w.mom = mom;
        if (k >= 4) w.lr = lr;
        if (k >= 5) w.bw = bw;
        if (k < 2) {        // exactly the default minibatch, so that no document is inferred while the model changes
            int R = 1 + 128 / D;
            X = X.replicate(1, R).leftCols(128).eval();
            y = y.replicate(R, 1).topRows(128).eval();
        }
        size_t nc = C;
        if (uniform) switch (k) { case 0: ms = std::make_shared<T>(nc); break; case 1: ms = std::make_shared<T>(nc, L); break; case 2: ms = std::make_shared<T>(nc, L, batch); break; case 3: ms = std::make_shared<T>(nc, L, batch, mom); break; case 4: ms = std::make_shared<T>(nc, L, batch, mom, lr); break; default: ms = std::make_shared<T>(nc, L, batch, mom, lr, bw); }
        else switch (k) { case 0: ms = std::make_shared<T>(W); break; case 1: ms = std::make_shared<T>(W, L); break; case 2: ms = std::make_shared<T>(W, L, batch); break; case 3: ms = std::make_shared<T>(W, L, batch, mom); break; case 4: ms = std::make_shared<T>(W, L, batch, mom, lr); break; default: ms = std::make_shared<T>(W, L, batch, mom, lr, bw); }
    } else if (method == MULTI || method == CORR) {
        if (k >= 1) w.mmu = mu;
        if (method == MULTI) { if (k) ms = std::make_shared<em::MultinomialSupervisedMStep<S> >(mu); else ms = std::make_shared<em::MultinomialSupervisedMStep<S> >(); }
        else if (k) ms = std::make_shared<em::CorrespondenceSupervisedMStep<S> >(mu); else ms = std::make_shared<em::CorrespondenceSupervisedMStep<S> >();
    } else if (method != UNSUP) {
        if (k >= 1) w.mi = mi;
        if (k >= 2) w.mt = mt;
        if (k >= 3) w.L = L;
#define THREE(T) switch (k) { case 0: ms = std::make_shared<T>(); break; case 1: ms = std::make_shared<T>(mi); break; case 2: ms = std::make_shared<T>(mi, mt); break; default: ms = std::make_shared<T>(mi, mt, L); }
        if (method == SUP) { THREE(em::SupervisedMStep<S>) } else if (method == FAST) { THREE(em::FastSupervisedMStep<S>) } else { THREE(em::SemiSupervisedMStep<S>) }
    } else ms = std::make_shared<em::UnsupervisedMStep<S> >();
    bool defi = c.chance(1, 5);
    size_t it = 1 + c.draw(3);
    c << (fl ? "float" : "double") << " method " << method << " E arguments " << n << " M arguments " << k << (defi ? " default epochs" : "") << " D=" << X.cols();
    auto p = m.params(), q = m.params();
    LDA<S> b(q, make_estep<S>(em_, o), w.make_m(), defi ? 20 : it, 1);
    std::unique_ptr<LDA<S> > a(defi ? new LDA<S>(p, e, ms) : c.chance(1, 2) ? new LDA<S>(p, e, ms, it) : new LDA<S>(p, e, ms, it, 1));
    std::vector<std::pair<char, double> > ea, eb;
    a->get_event_dispatcher()->add_listener([&ea, fl](std::shared_ptr<events::Event> x) { log_events(ea, x, fl); });
    b.get_event_dispatcher()->add_listener([&eb, fl](std::shared_ptr<events::Event> x) { log_events(eb, x, fl); });
    a->fit(X, y);
    b.fit(X, y);
    const double eps = fl ? 1e-3 : 1e-8;
    REQUIRE(ea.size() == eb.size(), ea.size() << " reports with arguments left out, " << eb.size() << " with them given as documented");
    for (size_t i = 0; i < ea.size(); i++) {
        REQUIRE(ea[i].first == eb[i].first, "report " << i << " is " << ea[i].first << " with arguments left out, " << eb[i].first << " otherwise");
        double d = std::fabs(ea[i].second - eb[i].second) / (1 + std::fabs(eb[i].second));
        REQUIRE(d <= eps || (std::isnan(ea[i].second) && std::isnan(eb[i].second)), "report " << i << " (" << ea[i].first << ") is " << ea[i].second << " with arguments left out, " << eb[i].second << " otherwise");
    }
    REQUIRE(maxdiff(p->beta, q->beta) <= eps, "topics differ by " << maxdiff(p->beta, q->beta) << " when arguments are left out");
    REQUIRE(maxdiff(p->eta, q->eta) <= eps, "class parameters differ by " << maxdiff(p->eta, q->eta) << " when arguments are left out");
    c.nontrivial(n < 6 || k < 5 || defi);
}
PROP(c16_defaults) { if (c.chance(1, 4)) defaults<float>(c); else defaults<double>(c); }

PBT_MAIN
