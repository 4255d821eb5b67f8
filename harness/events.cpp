// C14: event dispatchers and the events of training
#include "gate.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/SemiSupervisedMStep.hpp"
#include "ldaplusplus/em/MultinomialSupervisedMStep.hpp"
#include "ldaplusplus/em/CorrespondenceSupervisedMStep.hpp"
#include <atomic>

struct Ev : public events::Event {
    int n, from;
    Ev(int i, int f = 0) : events::Event("Ev"), n(i), from(f) {}
};

// ------------------------------------------------------- one thread, any history
enum Kind { IMMEDIATE = 0, QUEUE, SAMETHREAD };
enum Act { NOTHING = 0, REMOVE_SELF, REMOVE_OTHER, ADD_NEW, DISPATCH, READD_SELF };

struct World;
struct Listener : public events::EventListenerInterface {
    World &w;
    int id;
    Listener(World &ww, int i) : w(ww), id(i) {}
    void on_event(std::shared_ptr<events::Event> e) override;
};
struct EvInfo { int sent, done = -1; bool nested; };       // logical times
struct LInfo {
    std::shared_ptr<Listener> l;
    std::vector<std::pair<int, int> > spans;     // [added, removed) in logical time, removed = -1: still there
    bool registered() const { return !spans.empty() && spans.back().second < 0; }
};
struct World {
    Case &c;
    Kind kind;
    int now = 0, depth = 0, budget = 40;
    bool delivering_allowed = false;
    std::shared_ptr<events::EventDispatcherInterface> d;
    std::vector<EvInfo> evs;
    std::vector<LInfo> ls;
    std::vector<std::pair<int, int> > pending;      // events not processed yet
    std::map<std::pair<int, int>, int> got;
    std::vector<std::vector<int> > order;
    std::vector<Act> script;
    std::string problem;
    int reentrant = 0;
    World(Case &cc, Kind k) : c(cc), kind(k) {
        if (k == IMMEDIATE) d = std::make_shared<events::EventDispatcher>();
        else if (k == QUEUE) d = std::make_shared<events::ThreadSafeEventDispatcher>();
        else d = std::make_shared<events::SameThreadEventDispatcher>();
    }
    int add() {
        LInfo li;
        li.l = std::make_shared<Listener>(*this, (int) ls.size());
        ls.push_back(li);
        order.push_back(std::vector<int>());
        add_existing((int) ls.size() - 1);
        return (int) ls.size() - 1;
    }
    void add_existing(int i) {
        auto p = ls[i].l;
        d->add_listener(std::static_pointer_cast<events::EventListenerInterface>(p));
        ls[i].spans.push_back(std::make_pair(now++, -1));
    }
    void remove(int i) {
        if (!ls[i].registered()) return;
        ls[i].spans.back().second = now++;
        d->remove_listener(ls[i].l);
    }
    void dispatch() {
        int n = (int) evs.size();
        EvInfo e;
        e.sent = now++;
        e.nested = depth > 0;
        evs.push_back(e);
        bool was = delivering_allowed;
        if (kind != QUEUE) delivering_allowed = true;
        d->dispatch(std::make_shared<Ev>(n));
        delivering_allowed = was;
        if (kind != QUEUE) evs[n].done = now++;
    }
    void process() {
        if (kind == IMMEDIATE) return;
        std::vector<int> mine;
        for (size_t i = 0; i < evs.size(); i++) if (evs[i].done < 0) mine.push_back((int) i);
        delivering_allowed = true;
        std::static_pointer_cast<events::ThreadSafeEventDispatcher>(d)->process_events();
        delivering_allowed = false;
        for (int i : mine) evs[i].done = now++;
    }
};
void Listener::on_event(std::shared_ptr<events::Event> e) {
    int n = std::static_pointer_cast<Ev>(e)->n;
    if (!w.delivering_allowed && w.problem.empty()) w.problem = "an event was delivered outside of processing";
    w.got[std::make_pair(n, id)]++;
    w.order[id].push_back(n);
    if (w.now++ > 100000 || w.budget <= 0) return;
    Act a = w.c.chance(1, 4) ? (Act) w.c.draw(6) : NOTHING;
    if (a == NOTHING) return;
    w.budget--;
    w.reentrant++;
    w.depth++;
    switch (a) {
        case REMOVE_SELF: w.remove(id); break;
        case REMOVE_OTHER: w.remove((int) w.c.draw(w.ls.size())); break;
        case ADD_NEW: if (w.ls.size() < 12) w.add(); break;
        case DISPATCH: if (w.evs.size() < 40 && w.depth < 4) w.dispatch(); break;
        case READD_SELF: w.remove(id); w.add_existing(id); break;
        default: break;
    }
    w.depth--;
}

PROP(c14_history) {
    Kind kind = (Kind) c.draw(3);
    World w(c, kind);
    static const char *kn[] = {"immediate", "queueing", "same-thread"};
    c << kn[kind] << ":";
    int ops = 1 + (int) c.draw(25);
    size_t most = 10;
    if (c.chance(1, 60)) { most = 80; ops += 120; }
    for (int i = 0; i < ops; i++) {
        int op = (int) c.draw(8);
        if (op == 7 && c.chance(1, 300)) {
            // a long burst
            int n = 1 + (int) c.draw(6000);
            c << " burst" << n;
            for (int k = 0; k < n; k++) w.dispatch();
        } else if (op <= 1 || w.ls.empty()) { if (w.ls.size() < most) { int l = w.add(); c << " add" << l; } }
        else if (op == 2) { int l = (int) c.draw(w.ls.size()); w.remove(l); c << " rm" << l; }
        else if (op == 3) { int l = (int) c.draw(w.ls.size()); if (!w.ls[l].registered()) { w.add_existing(l); c << " readd" << l; } }
        else if (op == 4 && kind != IMMEDIATE) { w.process(); c << " process"; }
        else { w.dispatch(); c << " ev" << w.evs.size() - 1; }
        if (!w.problem.empty()) break;
    }
    if (kind != IMMEDIATE) for (int i = 0; i < 50; i++) { w.process(); bool left = false; for (auto &e : w.evs) left |= e.done < 0; if (!left) break; }
    REQUIRE(w.problem.empty(), w.problem);
    int delivered = 0;
    for (size_t n = 0; n < w.evs.size(); n++) for (size_t l = 0; l < w.ls.size(); l++) {
        int g = 0;
        auto it = w.got.find(std::make_pair((int) n, (int) l));
        if (it != w.got.end()) g = it->second;
        delivered += g;
        REQUIRE(g <= 1, "event " << n << " reached listener " << l << " " << g << " times");
        const EvInfo &e = w.evs[n];
        bool must = false, may = false;
        for (auto &s : w.ls[l].spans) {
            if (s.first < e.sent && (s.second < 0 || s.second > e.done)) must = true;
            if (s.first < e.done && (s.second < 0 || s.second > e.sent)) may = true;
        }
        if (must) REQUIRE(g == 1, "event " << n << " did not reach listener " << l << ", which was registered all the time");
        if (!may) REQUIRE(g == 0, "event " << n << " reached listener " << l << ", which was not registered");
    }
    // events that do not come out of a listener keep their order
    for (size_t l = 0; l < w.ls.size(); l++) {
        int last = -1;
        for (int n : w.order[l]) if (!w.evs[n].nested) {
            REQUIRE(n > last, "listener " << l << " received event " << n << " after event " << last);
            last = n;
        }
    }
    if (w.reentrant) c.label("re-entrant");
    c.label(kn[kind]);
    c.nontrivial(delivered > 1);
}

// ------------------------------------------------------- many dispatching threads
static void threads(Case &c) {
    int T = 1 + (int) c.draw(7), N = 1 + (int) c.draw(c.chance(1, 40) ? 5000 : 60), P = 1 + (int) c.draw(4);
    bool same = c.chance(1, 2), churn = c.chance(1, 2), mainsends = c.chance(1, 2), late = c.chance(1, 3);
    if (late) c << "processed late ";
    c << (same ? "same-thread" : "queueing") << " threads=" << T << " events=" << N << " listeners=" << P << (churn ? " churn" : "") << (mainsends ? " main dispatches" : "");
    std::shared_ptr<events::ThreadSafeEventDispatcher> d;
    if (same) d = std::make_shared<events::SameThreadEventDispatcher>(); else d = std::make_shared<events::ThreadSafeEventDispatcher>();
    auto me = std::this_thread::get_id();
    std::vector<std::vector<std::pair<int, int> > > log(P);
    bool foreign = false;
    for (int p = 0; p < P; p++) d->events::EventDispatcherInterface::add_listener(std::function<void(std::shared_ptr<events::Event>)>([&log, &foreign, me, p](std::shared_ptr<events::Event> e) {
        auto ev = std::static_pointer_cast<Ev>(e);
        if (std::this_thread::get_id() != me) foreign = true;
        else log[p].push_back(std::make_pair(ev->from, ev->n));
    }));
    std::atomic<int> running(T), go(0);
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++) ts.emplace_back([&, t] {
        while (!go.load()) std::this_thread::yield();
        for (int i = 0; i < N; i++) {
            d->dispatch(std::make_shared<Ev>(i, t));
            if (churn && i % 5 == t % 5) {
                // a listener that comes and goes must not disturb the others
                std::shared_ptr<events::EventListenerInterface> l = std::make_shared<events::FunctionEventListener>([](std::shared_ptr<events::Event>) {});
                d->add_listener(l);
                d->remove_listener(l);
            }
        }
        running--;
    });
    go = 1;
    int sent = 0;
    while (running.load()) {
        if (mainsends && sent < 20) d->dispatch(std::make_shared<Ev>(sent++, T));
        if (late) std::this_thread::yield(); else d->process_events();
    }
    for (auto &t : ts) t.join();
    d->process_events();
    REQUIRE(!foreign, "a listener was called in a thread that does not process events");
    for (int p = 0; p < P; p++) {
        std::vector<int> next(T + 1, 0);
        for (auto &x : log[p]) {
            REQUIRE(x.second == next[x.first], "listener " << p << " received event " << x.second << " of thread " << x.first << " when " << next[x.first] << " was due");
            next[x.first]++;
        }
        for (int t = 0; t < T; t++) REQUIRE(next[t] == N, "listener " << p << " received " << next[t] << " of the " << N << " events of thread " << t);
        REQUIRE(next[T] == sent, "listener " << p << " received " << next[T] << " of the " << sent << " events of the main thread");
    }
    c.nontrivial(T > 1 && N > 1);
}
PROP(c14_threads) { threads(c); }
PROP(c14_threads_race) { threads(c); }

// ------------------------------------------------------- training
struct TalkE : public em::EStepInterface<double> {
    int per_doc;
    std::atomic<int> sent;
    Gate gate;
    explicit TalkE(int n) : per_doc(n), sent(0) {}
    std::shared_ptr<parameters::Parameters> doc_e_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> p) override {
        int id = doc->get_words()[0] - 1;
        for (int i = 0; i < per_doc; i++) {
            this->get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(id * 100 + i);
            if (i == per_doc / 2) gate.pass(id);
        }
        sent += per_doc;
        return std::make_shared<parameters::VariationalParameters<double> >(VectorXd::Constant(2, id), MatrixXd::Zero(2, 2));
    }
    void e_step() override { this->get_event_dispatcher()->dispatch<events::ExpectationProgressEvent<double> >(-1); }
};
struct TalkM : public em::MStepInterface<double> {
    int n;
    explicit TalkM(int k) : n(k) {}
    void doc_m_step(const std::shared_ptr<corpus::Document> doc, const std::shared_ptr<parameters::Parameters> v, std::shared_ptr<parameters::Parameters> p) override {
        this->get_event_dispatcher()->dispatch<events::MaximizationProgressEvent<double> >(doc->get_words()[0] - 1);
    }
    void m_step(std::shared_ptr<parameters::Parameters> p) override {
        for (int i = 0; i < n; i++) this->get_event_dispatcher()->dispatch<events::MaximizationProgressEvent<double> >(-1 - i);
    }
};
static void talk(Case &c) {
    int D = 1 + (int) c.draw(c.chance(1, 4) ? (c.chance(1, 15) ? (c.chance(1, 10) ? 70000 : 1500) : 60) : 8), W = 1 + (int) c.draw(8), epochs = 1 + (int) c.draw(3), per = (int) c.draw(c.chance(1, 20) ? 40 : 4), nm = (int) c.draw(c.chance(1, 20) ? 200 : 3), P = 1 + (int) c.draw(3);
    c << "D=" << D << " workers=" << W << " epochs=" << epochs << " reports per document=" << per << " per maximization=" << nm << " listeners=" << P;
    auto e = std::make_shared<TalkE>(per);
    auto m = std::make_shared<TalkM>(nm);
    auto model = std::make_shared<parameters::ModelParameters<double> >(VectorXd::Ones(2), MatrixXd::Zero(2, 2));
    LDA<double> lda(model, e, m, epochs, W);
    auto me = std::this_thread::get_id();
    struct Rec { int type; double v; };
    std::vector<std::vector<Rec> > log(P);
    std::atomic<bool> foreign(false);
    for (int p = 0; p < P; p++) lda.get_event_dispatcher()->add_listener([&, p](std::shared_ptr<events::Event> ev) {
        if (std::this_thread::get_id() != me) { foreign = true; return; }
        Rec r{0, 0};
        if (ev->id() == "ExpectationProgressEvent") r = Rec{0, std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood()};
        else if (ev->id() == "MaximizationProgressEvent") r = Rec{1, std::static_pointer_cast<events::MaximizationProgressEvent<double> >(ev)->likelihood()};
        else if (ev->id() == "EpochProgressEvent") r.type = 2;
        else r.type = 3;
        log[p].push_back(r);
    });
    // listeners that leave or join during training
    std::shared_ptr<events::EventListenerInterface> leaver;
    int heard_by_leaver = 0, leave_after = (int) c.draw(20);
    bool gone = false, late = false;
    leaver = lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        // the report of an epoch is dispatched after everything else of it
        if (gone && ev->id() == "EpochProgressEvent") late = true;
        if (++heard_by_leaver == leave_after) { lda.get_event_dispatcher()->remove_listener(leaver); gone = true; }
    });
    MatrixXi X = MatrixXi::Ones(2, D);
    for (int d = 0; d < D; d++) X(0, d) = d + 1;
    if (D > 1500) c.label("many documents");
    if (W > 1 && D > 1 && D <= 1500 && c.chance(1, 2)) e->gate.arm(c.permutation(D), W);
    bool labels = c.chance(1, 2);
    VectorXi y = VectorXi::Zero(D);
    if (labels) lda.fit(X, y); else lda.fit(X);
    e->gate.off();
    REQUIRE(!late, "a listener that removed itself received a later event");
    REQUIRE(!foreign, "training called a listener in a worker thread");
    for (int p = 0; p < P; p++) {
        size_t i = 0;
        for (int ep = 0; ep < epochs; ep++) {
            std::vector<int> next(D, 0), folded(D, 0);
            int batch = 0, es = 0;
            for (; i < log[p].size() && log[p][i].type != 2; i++) {
                Rec &r = log[p][i];
                REQUIRE(r.type != 3, "unknown event");
                if (r.type == 0 && r.v < 0) es++;
                else if (r.type == 0) {
                    int id = (int) r.v / 100, k = (int) r.v % 100;
                    REQUIRE(id >= 0 && id < D && next[id] == k, "epoch " << ep << ": report " << k << " of document " << id << " arrived when report " << (id < D ? next[id] : -1) << " was due");
                    next[id]++;
                } else if (r.v >= 0) folded[(int) r.v]++;
                else { REQUIRE(r.v == -1 - batch, "maximization reports out of order"); batch++; }
            }
            REQUIRE(i < log[p].size(), "listener " << p << " never received the report of epoch " << ep);
            i++;
            for (int d = 0; d < D; d++) REQUIRE(next[d] == per && folded[d] == 1, "when epoch " << ep << " was reported, " << next[d] << " of " << per << " reports of document " << d << " and " << folded[d] << " maximization reports of it had arrived");
            REQUIRE(batch == nm && es == 1, "when epoch " << ep << " was reported, " << batch << " of " << nm << " maximization reports and " << es << " expectation callback reports had arrived");
        }
        REQUIRE(i == log[p].size(), "reports arrived after the last epoch was reported");
    }
    // inference only: all reports arrive, in this thread, before the call returns
    for (auto &l : log) l.clear();
    lda.transform(X);
    REQUIRE(!foreign, "transform called a listener in a worker thread");
    for (int p = 0; p < P; p++) REQUIRE((int) log[p].size() == D * per, "transform delivered " << log[p].size() << " of " << D * per << " reports");
    c.nontrivial(D > 1 && W > 1 && per > 0);
}
PROP(c14_training) { talk(c); }
PROP(c14_training_race) { talk(c); }

// the library's own steps: as many reports as documents, then the epoch
PROP(c14_steps) {
    int t = (int) c.draw(6);
    int K = 1 + (int) c.draw(3), V = 2 + (int) c.draw(4), C = 2, D = 1 + (int) c.draw(12), W = 1 + (int) c.draw(6), epochs = 1 + (int) c.draw(3);
    Model<double> m = gen_model<double>(c, t < NMETHODS ? t : FAST, K, V, C, 0, 0);
    Settings o;
    o.iters = 1 + (int) c.draw(4);
    o.cl = 1;
    std::shared_ptr<em::EStepInterface<double> > e;
    if (t == 5) e = std::make_shared<em::SemiSupervisedEStep<double> >(make_estep<double>(FAST, o), make_estep<double>(UNSUP, o));
    else e = make_estep<double>(t, o);
    std::shared_ptr<em::MStepInterface<double> > ms;
    switch (t) {
        case UNSUP: ms = std::make_shared<em::UnsupervisedMStep<double> >(); break;
        case SUP: ms = std::make_shared<em::SupervisedMStep<double> >(3, 1e-3, 0.05); break;
        case FAST: ms = std::make_shared<em::FastSupervisedMStep<double> >(3, 1e-3, 0.05); break;
        case MULTI: ms = std::make_shared<em::MultinomialSupervisedMStep<double> >(2); break;
        case CORR: ms = std::make_shared<em::CorrespondenceSupervisedMStep<double> >(2); break;
        default: ms = std::make_shared<em::SemiSupervisedMStep<double> >(3, 1e-3, 0.05);
    }
    MatrixXi X(V, D);
    VectorXi y(D);
    int labelled = 0;
    for (int d = 0; d < D; d++) {
        X.col(d) = gen_doc(c, V, 0);
        X(0, d)++;
        y[d] = (int) c.draw(C);
        if (t == 5 && c.chance(1, 3)) y[d] = -1;
        labelled += y[d] >= 0;
    }
    c << (t < NMETHODS ? method_name(t) : "semi") << " D=" << D << " workers=" << W << " epochs=" << epochs;
    auto mp = m.params();
    LDA<double> lda(mp, e, ms, epochs, W);
    auto me = std::this_thread::get_id();
    bool foreign = false;
    std::string log;
    std::vector<MatrixXd> betas;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (std::this_thread::get_id() != me) foreign = true;
        else log += ev->id()[1] == 'x' ? 'x' : ev->id()[0] == 'M' ? 'M' : ev->id() == "EpochProgressEvent" ? 'E' : '?';
        if (ev->id() == "EpochProgressEvent")
            betas.push_back(std::static_pointer_cast<parameters::ModelParameters<double> >(std::static_pointer_cast<events::EpochProgressEvent<double> >(ev)->model_parameters())->beta);
    });
    lda.fit(X, y);
    REQUIRE(!foreign, "training called a listener in a worker thread");
    size_t i = 0;
    for (int ep = 0; ep < epochs; ep++) {
        int ex = 0, mx = 0;
        for (; i < log.size() && log[i] != 'E'; i++) {
            if (log[i] == 'x') ex++;
            else { REQUIRE(log[i] == 'M', "unknown event"); mx++; }
        }
        REQUIRE(i < log.size(), "epoch " << ep << " was not reported: " << log);
        i++;
        REQUIRE(ex == D, "epoch " << ep << ": " << ex << " likelihood reports for " << D << " documents before its own report: " << log);
        bool fits = t == SUP || t == FAST || t == MULTI || t == CORR || (t == 5 && labelled);
        if (fits) REQUIRE(mx >= 1, "epoch " << ep << ": no maximization report: " << log);
        if (t == UNSUP) REQUIRE(mx == 0, "maximization reports of the unsupervised step: " << log);
    }
    REQUIRE(i == log.size(), "events after the last epoch: " << log);
    REQUIRE(same_bits(betas.back(), mp->beta), "the last epoch report does not hold the trained topics");
    c.nontrivial(D > 1 && W > 1);
}
PBT_MAIN
