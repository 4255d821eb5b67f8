// C18 (console applications compute what the library does), C19 (model files, snapshots, continuation)
#include "model_gen.hpp"
#include "npy_ref.hpp"
#include "thread_count.hpp"
#include "ldaplusplus/LDA.hpp"
#include "ldaplusplus/LDABuilder.hpp"
#include "ldaplusplus/em/UnsupervisedMStep.hpp"
#include "ldaplusplus/em/SupervisedMStep.hpp"
#include "ldaplusplus/em/FastSupervisedMStep.hpp"
#include "ldaplusplus/em/FastOnlineSupervisedMStep.hpp"
#include <dirent.h>
#include <spawn.h>
#include <sys/wait.h>
extern char **environ;

// ------------------------------------------------------------ files and processes
struct Dir {
    std::string path;
    Dir() {
        const char *s = getenv("PBT_SCRATCH");
        std::string t = std::string(s ? s : "/tmp") + "/appXXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(3); }
        path = b.data();
    }
    std::string operator/(const std::string &n) const { return path + "/" + n; }
    std::vector<std::string> list() const {
        std::vector<std::string> r;
        DIR *d = opendir(path.c_str());
        while (dirent *e = readdir(d)) if (e->d_name[0] != '.') r.push_back(e->d_name);
        closedir(d);
        std::sort(r.begin(), r.end());
        return r;
    }
    ~Dir() {
        for (auto &f : list()) unlink((path + "/" + f).c_str());
        rmdir(path.c_str());
    }
};
static void put(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary); f << b; }
static bool exists(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::string get(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
struct Out { int status; long threads; std::string out, err; bool ok() const { return status == 0; } };

static Out run(const Dir &d, const std::string &app, std::vector<std::string> args) {
    std::string U = app;
    for (auto &ch : U) ch = toupper(ch);
    const char *exe = getenv(("PBT_APP_" + U).c_str());
    if (!exe) { std::cerr << "PBT_APP_" << U << " is not set\n"; _exit(3); }
    std::vector<char *> av;
    av.push_back((char *) exe);
    for (auto &a : args) av.push_back((char *) a.c_str());
    av.push_back(nullptr);
    std::vector<std::string> env;
    for (char **e = environ; *e; e++) if (strncmp(*e, "ASAN_OPTIONS=", 13)) env.push_back(*e);
    env.push_back("ASAN_OPTIONS=detect_leaks=0:exitcode=86:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=512:max_malloc_fill_size=1048576:malloc_fill_byte=255");
    std::string tf = d / ".threads";
    env.push_back("PBT_THREADS=" + tf);
    std::vector<char *> ev;
    for (auto &e : env) ev.push_back((char *) e.c_str());
    ev.push_back(nullptr);
    std::string of = d / ".out", ef = d / ".err";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid;
    if (posix_spawn(&pid, exe, &fa, nullptr, av.data(), ev.data())) { perror("spawn"); _exit(3); }
    posix_spawn_file_actions_destroy(&fa);
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Out o;
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    o.out = get(of);
    o.err = get(ef);
    unlink(of.c_str());
    unlink(ef.c_str());
    o.threads = -1;
    if (exists(tf)) { o.threads = strtol(get(tf).c_str(), 0, 10); unlink(tf.c_str()); }
    if (o.err.find("AddressSanitizer") != std::string::npos || o.err.find("runtime error:") != std::string::npos) {
        size_t p = o.err.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = o.err.find("runtime error:");
        FAIL("the application has a memory error: " << o.err.substr(p == std::string::npos ? 0 : p, 400));
    }
    return o;
}

template <typename T> static std::string bytes(const T &v) { return std::string((const char *) &v, sizeof v); }
static std::string npy_int(Case &c, const MatrixXi &X, bool vec) {
    bool f = c.chance(1, 2);
    std::string p;
    if (f) for (int j = 0; j < X.cols(); j++) for (int i = 0; i < X.rows(); i++) p += bytes((int32_t) X(i, j));
    else for (int i = 0; i < X.rows(); i++) for (int j = 0; j < X.cols(); j++) p += bytes((int32_t) X(i, j));
    std::vector<long long> sh;
    sh.push_back(X.rows());
    if (!vec) sh.push_back(X.cols());
    return npyref::write("<i4", vec ? false : f, sh, p, c.chance(1, 2) ? 64 : 16);
}
static std::string npy_double(const MatrixXd &X, bool vec) {
    std::string p((const char *) X.data(), 8 * X.size());
    std::vector<long long> sh;
    sh.push_back(X.rows());
    if (!vec) sh.push_back(X.cols());
    return npyref::write("<f8", !vec, sh, p);
}
static std::string model_file(const Model<double> &m) { return npy_double(m.alpha, true) + npy_double(m.beta, false) + npy_double(m.eta, false); }

// the next record of a file of doubles
static MatrixXd next_double(const std::string &all, size_t &at, const std::string &what) {
    npyref::Record r;
    size_t data;
    std::string rest = all.substr(at);
    REQUIRE(npyref::parse(rest, r, data) == npyref::GOOD_HEADER && r.descr == "<f8", what << " is not a numpy record of doubles (file of " << all.size() << " bytes)");
    REQUIRE(r.shape.size() == 1 || r.shape.size() == 2, what << " has " << r.shape.size() << " dimensions");
    long n = r.shape[0], m = r.shape.size() == 2 ? r.shape[1] : 1;
    REQUIRE(rest.size() >= data + 8 * n * m, what << " is truncated");
    MatrixXd X(n, m);
    for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) memcpy(&X(i, j), rest.data() + data + 8 * (r.fortran ? j * n + i : i * m + j), 8);
    at += data + 8 * n * m;
    return X;
}
static Model<double> parse_model(const std::string &path) {
    REQUIRE(exists(path), "no model file was written");
    std::string b = get(path);
    size_t at = 0;
    Model<double> m;
    MatrixXd a = next_double(b, at, "alpha");
    REQUIRE(a.cols() == 1, "alpha is no vector");
    m.alpha = a.col(0);
    m.beta = next_double(b, at, "beta");
    m.eta = next_double(b, at, "eta");
    REQUIRE(at == b.size(), "the model file has " << b.size() - at << " bytes after its three records");
    return m;
}

static double maxdiff(const MatrixXd &a, const MatrixXd &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
    double r = 0;
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) {
        double x = a(i, j), y = b(i, j);
        if (std::isnan(x) && std::isnan(y)) continue;
        double d = std::fabs(x - y) / (1 + std::max(std::fabs(x), std::fabs(y)));
        if (!(d <= r)) r = std::isnan(d) ? 1e300 : d;
    }
    return r;
}
static void same_model(const Model<double> &got, const Model<double> &want, const std::string &what, double be = 1e-6, double ee = 1e-4) {
    REQUIRE(got.alpha.size() == want.alpha.size() && got.beta.rows() == want.beta.rows() && got.beta.cols() == want.beta.cols() && got.eta.rows() == want.eta.rows() && got.eta.cols() == want.eta.cols(),
            what << ": shapes " << got.alpha.size() << ", " << got.beta.rows() << "x" << got.beta.cols() << ", " << got.eta.rows() << "x" << got.eta.cols() << " instead of "
            << want.alpha.size() << ", " << want.beta.rows() << "x" << want.beta.cols() << ", " << want.eta.rows() << "x" << want.eta.cols());
    REQUIRE(maxdiff(got.alpha, want.alpha) <= 1e-12, what << ": alpha differs from the library's by " << maxdiff(got.alpha, want.alpha));
    REQUIRE(maxdiff(got.beta, want.beta) <= be, what << ": topics differ from the library's by " << maxdiff(got.beta, want.beta));
    REQUIRE(maxdiff(got.eta, want.eta) <= ee, what << ": class parameters differ from the library's by " << maxdiff(got.eta, want.eta));
}
static void bit_model(const Model<double> &got, const Model<double> &want, const std::string &what) {
    REQUIRE(same_bits(got.alpha, want.alpha), what << ": alpha is not the same");
    REQUIRE(same_bits(got.beta, want.beta), what << ": topics are not the same");
    REQUIRE(same_bits(got.eta, want.eta), what << ": class parameters are not the same");
}

// ------------------------------------------------------------ options
enum App { A_LDA = 0, A_SLDA, A_FSLDA, A_ONLINE };
static const char *app_name(int a) { static const char *n[] = {"lda", "slda", "fslda", "fslda"}; return n[a]; }
static const char *app_cmd(int a) { return a == A_ONLINE ? "online_train" : "train"; }

struct Run {
    int app;
    // documented defaults
    int topics = 100, iterations = 20, rs = 0, workers = 1, snap = -1;
    int ei, fp = 20, mi = 200, batch = 128;
    double et, cl = 0, C = 1, L = 0.05, mt = 1e-4, mom = 0.9, lr = 0.01, bw = 0.9;
    bool random_init = false, quiet = false;
    std::vector<std::string> args;
    explicit Run(int a) : app(a), ei(a == A_LDA ? 30 : 10), et(a == A_LDA ? 1e-3 : 1e-4) {}
    void opt(Case &c, const std::string &name, const std::string &v, const std::string &sh = "") {
        if (!sh.empty() && c.chance(1, 2)) { args.push_back(sh); args.push_back(v); }
        else if (c.chance(1, 2)) args.push_back("--" + name + "=" + v);
        else { args.push_back("--" + name); args.push_back(v); }
    }
    void inum(Case &c, const std::string &n, int &dst, std::initializer_list<int> l) { dst = c.pick(l); opt(c, n, std::to_string(dst)); }
    void dnum(Case &c, const std::string &n, double &dst, std::initializer_list<const char *> l, const std::string &sh = "") {
        std::string v = c.pick(l);
        dst = strtod(v.c_str(), 0);
        opt(c, n, v, sh);
    }
    // e-step options common to training and transforming
    void e_opts(Case &c) {
        if (c.chance(1, 2)) inum(c, "e_step_iterations", ei, {1, 2, 4, 15});
        if (c.chance(1, 2)) dnum(c, "e_step_tolerance", et, {"1e-6", "0.05", "0.5", ".2"});
        if (c.chance(1, 3)) inum(c, "workers", workers, {1, 2, 4});
        if (c.chance(1, 2)) { quiet = true; args.push_back(c.chance(1, 2) ? "-q" : "--quiet"); }
    }
    void train_opts(Case &c, int D, bool init_options) {
        if (!c.chance(1, 10) || (app == A_SLDA && D > 20)) inum(c, "topics", topics, {1, 2, 3, 5, 2, 3, 12});
        if (topics == 100 && app == A_SLDA) inum(c, "iterations", iterations, {0, 1});        // quadratic in the topics
        else if (!c.chance(1, 10)) inum(c, "iterations", iterations, {0, 1, 2, 3, 4, 2, 3, 11});
        if (c.chance(1, 2)) inum(c, "random_state", rs, {1, 7, 42, 123456});
        if (c.chance(1, 2)) dnum(c, "compute_likelihood", cl, {"1.0", "0.5", "0", "0.2", "0.9"});
        if (init_options) { if (c.chance(1, 3)) { random_init = true; args.push_back("--initialize_random"); } else if (c.chance(1, 3)) args.push_back("--initialize_seeded"); }
        e_opts(c);
        if (app == A_SLDA && c.chance(2, 3)) inum(c, "fixed_point_iterations", fp, {1, 2, 5});
        if ((app == A_FSLDA || app == A_ONLINE) && c.chance(1, 2)) dnum(c, "supervised_weight", C, {"0.2", "5", "2.5"}, "-C");
        if (app != A_LDA && c.chance(1, 2)) dnum(c, "regularization_penalty", L, {"0.5", "2", "1e-3"}, "-L");
        if ((app == A_SLDA || app == A_FSLDA) && c.chance(1, 2)) inum(c, "m_step_iterations", mi, {1, 2, 5, 50});
        if ((app == A_SLDA || app == A_FSLDA) && c.chance(1, 2)) dnum(c, "m_step_tolerance", mt, {"0.2", "1e-2", "1e-6"});
        if (app == A_ONLINE) {
            // minibatches that end with an epoch (others race with inference)
            if (c.chance(2, 3)) { batch = D * (1 + (int) c.draw(2)); opt(c, "batch_size", std::to_string(batch)); }
            if (c.chance(1, 2)) dnum(c, "momentum", mom, {"0.2", "0.5"});
            if (c.chance(1, 2)) dnum(c, "learning_rate", lr, {"0.3", "0.05"});
            if (c.chance(1, 2)) dnum(c, "beta_weight", bw, {"0.1", "0.6"});
        }
        std::vector<std::string> sh;      // options in any order is covered by drawing them; keep pairs together
    }
    std::shared_ptr<em::EStepInterface<double> > e() const {
        Settings s;
        s.iters = ei; s.tol = (float) et; s.cl = (float) cl; s.rs = rs; s.fixed_point = fp; s.C = (float) C;
        return make_estep<double>(app == A_LDA ? UNSUP : app == A_SLDA ? SUP : FAST, s);
    }
    std::shared_ptr<em::MStepInterface<double> > m(const VectorXi &y) const {
        if (app == A_LDA) return std::make_shared<em::UnsupervisedMStep<double> >();
        if (app == A_SLDA) return std::make_shared<em::SupervisedMStep<double> >(mi, (float) mt, (float) L);
        if (app == A_FSLDA) return std::make_shared<em::FastSupervisedMStep<double> >(mi, (float) mt, (float) L);
        int C_ = y.maxCoeff() + 1;
        VectorXd w(C_);
        for (int j = 0; j < C_; j++) w[j] = (double) y.size() / ((double) (y.array() == j).count() * C_);
        return std::make_shared<em::FastOnlineSupervisedMStep<double> >(w, (float) L, batch, (float) mom, (float) lr, (float) bw);
    }
    Model<double> init(const MatrixXi &X, const VectorXi &y) const {
        LDABuilder<double> b;
        if (random_init) b.initialize_topics_random(X.rows(), topics, rs); else b.initialize_topics_seeded(X, topics, 30, rs);
        LDA<double> l = b;
        auto p = l.model_parameters<parameters::SupervisedModelParameters<double> >();
        Model<double> m;
        m.alpha = p->alpha; m.beta = p->beta;
        m.eta = MatrixXd::Zero(topics, app == A_LDA ? 1 : y.maxCoeff() + 1);
        return m;
    }
};

struct Line { std::string text; double v; bool num; };
// train with the library; models after each epoch and the progress output the application documents
static std::vector<Model<double> > reference(const Run &r, const Model<double> &start, const MatrixXi &X, const VectorXi &y, std::vector<Line> &out) {
    std::vector<Model<double> > ms;
    auto mp = start.params();
    LDA<double> lda(mp, r.e(), r.m(y), r.iterations, 1);
    int em = 0, docs = 0, cnt = 0;
    double lik = 0;
    lda.get_event_dispatcher()->add_listener([&](std::shared_ptr<events::Event> ev) {
        if (ev->id() == "ExpectationProgressEvent") {
            double v = std::static_pointer_cast<events::ExpectationProgressEvent<double> >(ev)->likelihood();
            if (docs == 0) out.push_back(Line{"E-M Iteration " + std::to_string(em + 1), 0, false});
            if (++docs % 100 == 0) out.push_back(Line{std::to_string(docs), 0, false});
            if (std::isfinite(v) && v < 0) { lik += v; cnt++; }
        } else if (ev->id() == "MaximizationProgressEvent") {
            out.push_back(Line{"log p(y | \\bar{z}, eta): ", std::static_pointer_cast<events::MaximizationProgressEvent<double> >(ev)->likelihood(), true});
        } else {
            if (lik < 0) out.push_back(Line{"Per document likelihood: ", lik / cnt, true});
            em++;
            docs = cnt = 0;
            lik = 0;
            Model<double> m;
            m.alpha = mp->alpha; m.beta = mp->beta; m.eta = mp->eta;
            ms.push_back(m);
        }
    });
    if (r.app == A_LDA) lda.fit(X); else lda.fit(X, y);
    return ms;
}

struct Data { MatrixXi X; VectorXi y; std::string file; };
static Data gen_data(Case &c, int app, int D_) {
    Data d;
    int V = 1 + c.size(6, 60), C = 1 + c.size(2, 12, 8);
    d.X.resize(V, D_);
    d.y.resize(D_);
    for (int i = 0; i < D_; i++) { d.X.col(i) = gen_doc(c, V, 0); d.X(0, i)++; d.y[i] = i < C ? i : (int) c.draw(C); }
    if (c.chance(1, 6)) d.y *= 2;       // classes in between do not occur
    d.file = npy_int(c, d.X, false);
    if (app != A_LDA || c.chance(1, 4)) d.file += npy_int(c, d.y, !c.chance(1, 4));
    return d;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += " " + x; return s; }

// place the positional arguments after, before or around the options
static std::vector<std::string> command(Case &c, const std::string &cmd, const std::vector<std::string> &opts, const std::vector<std::string> &pos) {
    std::vector<std::string> a(1, cmd);
    if (c.chance(1, 4)) { a.insert(a.end(), pos.begin(), pos.end()); a.insert(a.end(), opts.begin(), opts.end()); }
    else { a.insert(a.end(), opts.begin(), opts.end()); a.insert(a.end(), pos.begin(), pos.end()); }
    return a;
}

// how many threads the library starts with so many workers
static long library_threads(const MatrixXi &X, const VectorXi &y, int workers, int iterations, bool transform, bool labels) {
    Model<double> m;
    m.alpha = VectorXd::Ones(1); m.beta = MatrixXd::Constant(1, X.rows(), 1.0 / X.rows()); m.eta = MatrixXd::Zero(1, y.size() ? y.maxCoeff() + 1 : 1);
    Settings s;
    s.iters = 1;
    long before = started_threads;
    LDA<double> lda(m.params(), make_estep<double>(UNSUP, s), std::make_shared<em::UnsupervisedMStep<double> >(), iterations, workers);
    if (transform) lda.transform(X);
    else if (labels) lda.fit(X, y);
    else lda.fit(X);
    return started_threads - before;
}

// ------------------------------------------------------------ C18
static std::string model_name(Case &c) {
    switch (c.draw(8)) {
        case 0: return "a model";
        case 1: return "model.npy";
        case 2: return "m%d%s.v2";
        case 3: return std::string(1 + c.draw(200), 'n');
        case 4: return "m_010";
        case 5: return "m\xc3\xb6del";
        default: return "m";
    }
}
PROP(c18_train) {
    Dir dir;
    int app = (int) c.draw(4);
    int D = app == A_ONLINE ? c.pick({2, 4, 8, 16}) : 2 + (int) c.draw(8);
    if (app != A_SLDA && c.chance(1, 15)) D = app == A_ONLINE ? 128 : c.pick({120, 99, 100, 101, 199, 200});
    Data d = gen_data(c, app, D);
    Run r(app);
    r.train_opts(c, D, true);
    const std::string M = model_name(c);
    put(dir / "data", d.file);
    if (c.chance(1, 4)) { put(dir / M, std::string(20000, 'x')); c << "over an older file: "; }
    std::vector<std::string> cmd = command(c, app_cmd(app), r.args, {dir / "data", dir / M});
    c << app_name(app) << " " << app_cmd(app) << join(r.args) << "  (" << d.X.rows() << "x" << D << ")";
    Out o = run(dir, app_name(app), cmd);
    REQUIRE(o.ok(), "exit status " << o.status << ": " << o.err.substr(0, 300));
    Model<double> start = r.init(d.X, d.y);
    std::vector<Line> lines;
    std::vector<Model<double> > ref = reference(r, start, d.X, d.y, lines);
    Model<double> got = parse_model(dir / M);
    const Model<double> &want = ref.empty() ? start : ref.back();
    if (r.workers > 1 && !ref.empty() && got.beta.rows() == want.beta.rows() && (maxdiff(got.beta, want.beta) > 1e-6 || maxdiff(got.eta, want.eta) > 1e-4)) {
        // the order of summation can push an update across a threshold (line search, stopping rule): such a case says nothing
        for (int k = 0; k < 24; k++) {
            std::mt19937_64 g(k + 1);
            Model<double> q = start;
            double eps = k % 3 == 0 ? 1e-13 : k % 3 == 1 ? 1e-11 : 1e-9;
            for (int i = 0; i < q.beta.size(); i++) q.beta.data()[i] *= 1 + eps * ((double) (g() >> 11) / (1ull << 53) - 0.5);
            MatrixXi X2 = d.X;
            VectorXi y2 = d.y;
            for (int i = D - 1; i > 0; i--) { int j = (int) (g() % (i + 1)); X2.col(i).swap(X2.col(j)); std::swap(y2[i], y2[j]); }
            std::vector<Line> none;
            Model<double> p = reference(r, q, X2, y2, none).back();
            if (maxdiff(p.beta, want.beta) > 1e-7 || maxdiff(p.eta, want.eta) > 1e-5) { c.label("unstable"); return; }
        }
    }
    same_model(got, want, "trained model");
    long th = library_threads(d.X, d.y, r.workers, r.iterations, false, app != A_LDA);
    REQUIRE(o.threads == th, "the application started " << o.threads << " threads, the library starts " << th << " with " << r.workers << " workers");
    std::vector<std::string> files = dir.list();
    REQUIRE(files.size() == 2, "files besides the data and the model were written:" << join(files));
    // progress output
    if (r.quiet) REQUIRE(o.out.empty(), "output in spite of the quiet flag: " << o.out.substr(0, 200));
    else if (r.workers == 1) {
        std::istringstream is(o.out);
        std::string l;
        size_t i = 0;
        while (std::getline(is, l)) {
            REQUIRE(i < lines.size(), "unexpected output line: " << l);
            const Line &w = lines[i++];
            REQUIRE(l.compare(0, w.text.size(), w.text) == 0, "output line '" << l << "' where '" << w.text << "' was due");
            if (!w.num) REQUIRE(l == w.text, "output line '" << l << "' where '" << w.text << "' was due");
            else {
                double v = strtod(l.c_str() + w.text.size(), 0);
                REQUIRE(std::fabs(v - w.v) <= 1e-4 * (1 + std::fabs(w.v)), "output line '" << l << "' where the value is " << w.v);
            }
        }
        REQUIRE(i == lines.size(), "the output ends after " << i << " of " << lines.size() << " lines");
        c.label("output-checked");
    }
    c.label(app == A_ONLINE ? "online" : app_name(app));
    c.nontrivial(r.topics > 1 && r.iterations > 0);
}

PROP(c18_transform) {
    Dir dir;
    int app = (int) c.draw(3), D = c.chance(1, 15) ? 100 + (int) c.draw(150) : 1 + (int) c.draw(10);
    Data d = gen_data(c, app, D);
    Run r(app);
    r.e_opts(c);
    int K = 1 + (int) c.draw(5);
    Model<double> m = gen_model<double>(c, FAST, K, (int) d.X.rows(), 2, 0, 0);
    const std::string M = "model-" + model_name(c), R = "result-" + model_name(c);
    put(dir / "data", d.file);
    put(dir / M, model_file(m));
    if (c.chance(1, 4)) { put(dir / R, std::string(20000, 'x')); c << "over an older file: "; }
    std::string before = get(dir / M);
    c << app_name(app) << " transform" << join(r.args) << "  K=" << K << " (" << d.X.rows() << "x" << D << ")";
    Out o = run(dir, app_name(app), command(c, "transform", r.args, {dir / M, dir / "data", dir / R}));
    REQUIRE(o.ok(), "exit status " << o.status << ": " << o.err.substr(0, 300));
    REQUIRE(exists(dir / R), "no result was written");
    std::string b = get(dir / R);
    size_t at = 0;
    MatrixXd T = next_double(b, at, "the result");
    REQUIRE(at == b.size(), "bytes after the result");
    Settings s;
    s.iters = r.ei; s.tol = (float) r.et;
    LDA<double> lda(m.params(), make_estep<double>(UNSUP, s), std::make_shared<em::UnsupervisedMStep<double> >(), 1, 1);
    MatrixXd W = lda.transform(d.X);
    REQUIRE(T.rows() == K && T.cols() == D, "the result has shape " << T.rows() << "x" << T.cols() << " for " << K << " topics and " << D << " documents");
    REQUIRE(maxdiff(T, W) <= 1e-9, "the written topic weights differ from the library's by " << maxdiff(T, W));
    REQUIRE(get(dir / M) == before && get(dir / "data") == d.file, "transform changed its input files");
    long th = library_threads(d.X, d.y, r.workers, 1, true, false);
    REQUIRE(o.threads == th, "the application started " << o.threads << " threads, the library starts " << th << " with " << r.workers << " workers");
    if (r.quiet) REQUIRE(o.out.empty(), "output in spite of the quiet flag");
    else {
        // every hundredth document is announced
        std::istringstream is(o.out);
        std::string l;
        int n = 0;
        while (std::getline(is, l)) if (!l.empty() && l.find_first_not_of("0123456789") == std::string::npos) {
            n++;
            REQUIRE(l == std::to_string(100 * n) && 100 * n <= D, "progress line '" << l << "' for " << D << " documents");
        }
        REQUIRE(n == D / 100, n << " progress lines for " << D << " documents");
    }
    c.nontrivial(K > 1 && D > 1);
}

// unreadable input and unwritable results
PROP(c18_failures) {
    Dir dir;
    int app = (int) c.draw(4), D = 4;
    Data d = gen_data(c, app == A_LDA ? A_SLDA : app, D);
    if (app == A_LDA) d.file = npy_int(c, d.X, false);
    Model<double> m = gen_model<double>(c, FAST, 2, (int) d.X.rows(), d.y.maxCoeff() + 1, 0, 0);
    bool transform = c.chance(1, 3), cont = !transform && c.chance(1, 3);
    std::string data = d.file, model = model_file(m);
    bool data_there = true, model_there = true;
    std::string result = dir / "result";
    int what = (int) c.draw(transform || cont ? 9 : 6);
    std::string &victim = what >= 6 ? model : data;
    std::string w;
    size_t cut = 0;
    bool unwritable = false;
    switch (what) {
        case 0: data_there = false; w = "missing data"; break;
        case 1: case 6: cut = c.draw(victim.size()); victim.resize(cut); w = "truncated " + std::string(what == 1 ? "data" : "model"); break;
        case 2: { int n = (int) c.draw(40); victim.clear(); for (int i = 0; i < n; i++) victim += (char) c.draw(256); w = "garbage data"; break; }
        case 3: { std::string p; for (int i = 0; i < d.X.size(); i++) p += bytes((int64_t) d.X.data()[i]); victim = npyref::write("<i8", true, {d.X.rows(), d.X.cols()}, p) + npyref::write("<i8", false, {D}, std::string(8 * D, 0)); w = "int64 data"; break; }
        case 4: result = dir / "missing/result"; unwritable = true; w = "directory of the result missing"; break;
        case 5: if (exists("/dev/full")) { result = "/dev/full"; unwritable = true; w = "device full"; } else { result = dir / "missing/result"; unwritable = true; w = "directory of the result missing"; } break;
        case 7: model_there = false; w = "missing model"; break;
        case 8: { int n = (int) c.draw(40); victim.clear(); for (int i = 0; i < n; i++) victim += (char) c.draw(256); w = "garbage model"; break; }
    }
    c << app_name(app) << (transform ? " transform: " : cont ? " train --continue: " : " train: ") << w << " " << cut;
    if (data_there) put(dir / "data", data);
    if (model_there) put(dir / "model", model);
    std::vector<std::string> a;
    if (transform) a = {"transform", "-q", dir / "model", dir / "data", result};
    else {
        a = {app_cmd(app), "-q", "--topics=2", "--iterations=2"};
        if (!unwritable) a.push_back("--snapshot_every=1");
        if (cont) a.push_back("--continue=" + (dir / "model"));
        a.push_back(dir / "data");
        a.push_back(result);
    }
    Out o = run(dir, app_name(app), a);
    REQUIRE(o.status != 0, "exit status 0 although " << w);
    if (!unwritable) for (auto &f : dir.list()) REQUIRE(f == "data" || f == "model", "a file " << f << " was written although " << w);
    c.label(w);
    c.nontrivial();
}

// command lines outside the documented usage, and the documented help
PROP(c18_usage) {
    Dir dir;
    int app = (int) c.draw(4);
    Data d = gen_data(c, app == A_LDA ? A_SLDA : app, 4);
    if (app == A_LDA) d.file = npy_int(c, d.X, false);
    Model<double> m = gen_model<double>(c, FAST, 2, (int) d.X.rows(), d.y.maxCoeff() + 1, 0, 0);
    put(dir / "data", d.file);
    put(dir / "model", model_file(m));
    bool transform = c.chance(1, 3);
    std::vector<std::string> opts, pos;
    std::string cmd;
    if (transform) { cmd = "transform"; pos = {dir / "model", dir / "data", dir / "result"}; }
    else { cmd = app_cmd(app); pos = {dir / "data", dir / "result"}; opts = {"--topics=2", "--iterations=1"}; }
    if (c.chance(1, 2)) opts.push_back("-q");
    std::string w;
    bool help = false, valid = false;
    static const char *numeric[] = {"--e_step_iterations", "--workers", "--iterations", "--topics", "--random_state", "--snapshot_every"};
    switch (c.draw(10)) {
        case 0: opts.insert(opts.begin() + c.draw(opts.size() + 1), c.pick({0, 1}) ? "--no_such_option=3" : "--no_such_flag"); w = "unknown option"; break;
        case 1: pos.pop_back(); w = "argument missing"; break;
        case 2: pos.push_back(dir / "extra"); w = "argument too many"; break;
        case 3: cmd = c.pick({std::string("learn"), std::string("trainer"), std::string("")}); if (cmd.empty()) w = "no command"; else w = "unknown command"; break;
        case 4: if (transform) { opts.push_back("--topics=2"); w = "training option for transform"; } else { opts.push_back("--initialize_seeded"); opts.push_back("--initialize_random"); w = "both initialisations"; } break;
        case 5: {
            std::string o = numeric[c.draw(transform ? 2 : 6)], v = c.pick({std::string("abc"), std::string("x1"), std::string("3x"), std::string("--")});
            for (size_t i = 0; i < opts.size(); i++) if (opts[i].compare(0, o.size() + 1, o + "=") == 0) { opts.erase(opts.begin() + i); break; }
            opts.push_back(o + "=" + v);
            w = "not a number: " + opts.back();
            break;
        }
        case 6: opts.push_back("--workers=1"); opts.push_back("--workers=1"); w = "option given twice"; break;
        case 7: cmd.clear(); opts.clear(); pos.clear(); opts.push_back(c.chance(1, 2) ? "-h" : "--help"); help = true; w = "help"; break;
        case 8: opts.push_back(c.chance(1, 2) ? "-h" : "--help"); help = true; w = "help along with a command"; break;
        default: valid = true; w = "valid";
    }
    std::vector<std::string> a;
    if (!cmd.empty()) a = command(c, cmd, opts, pos); else { a = opts; a.insert(a.end(), pos.begin(), pos.end()); }
    c << app_name(app) << ": " << w << " " << (int) transform;
    Out o = run(dir, app_name(app), a);
    if (valid || help) REQUIRE(o.status == 0, "exit status " << o.status << " for " << w);
    else REQUIRE(o.status != 0, "exit status 0 although " << w);
    if (help) REQUIRE(o.out.find("Usage:") != std::string::npos, "help does not show the usage");
    for (auto &f : dir.list()) REQUIRE(f == "data" || f == "model" || (valid && f == "result"), "a file " << f << " was written: " << w);
    c.label(w.substr(0, w.find(':')));
    c.nontrivial();
}

// ------------------------------------------------------------ C19
PROP(c19_snapshots) {
    Dir dir;
    int app = (int) c.draw(4), D = app == A_ONLINE ? c.pick({2, 4, 8}) : 2 + (int) c.draw(6);
    Data d = gen_data(c, app, D);
    Run r(app);
    r.topics = 1 + (int) c.draw(3);
    r.iterations = (int) c.draw(9);
    int N = c.pick({1, 2, 3, 5, -1, 0, 9});
    if (app != A_SLDA && c.chance(1, 60)) { r.iterations = 1005; N = c.pick({1000, 500, 67}); }
    r.mi = 3;
    r.args = {"-q", "--topics=" + std::to_string(r.topics), "--iterations=" + std::to_string(r.iterations), "--snapshot_every=" + std::to_string(N)};
    if (app == A_SLDA || app == A_FSLDA) r.args.push_back("--m_step_iterations=3");
    if (app == A_ONLINE) { r.batch = D; r.args.push_back("--batch_size=" + std::to_string(D)); }
    put(dir / "data", d.file);
    const std::string M = model_name(c);
    auto shot = [&M](int e) { char b[32]; snprintf(b, 32, "_%03d", e); return M + b; };
    if (N > 0 && N <= r.iterations && c.chance(1, 4)) { put(dir / shot(N), std::string(20000, 'x')); c << "over an older snapshot: "; }
    c << app_name(app) << " " << app_cmd(app) << join(r.args) << " " << M << " (" << d.X.rows() << "x" << D << ")";
    Out o = run(dir, app_name(app), command(c, app_cmd(app), r.args, {dir / "data", dir / M}));
    REQUIRE(o.ok(), "exit status " << o.status << ": " << o.err.substr(0, 300));
    Model<double> start = r.init(d.X, d.y);
    std::vector<Line> lines;
    std::vector<Model<double> > ref = reference(r, start, d.X, d.y, lines);
    same_model(parse_model(dir / M), ref.empty() ? start : ref.back(), "final model");
    std::set<std::string> want;
    want.insert("data"); want.insert(M);
    int shots = 0;
    if (N > 0) for (int e = N; e <= r.iterations; e += N) {
        const std::string b = shot(e);
        want.insert(b);
        REQUIRE(exists(dir / b), "no snapshot " << b << " of epoch " << e);
        same_model(parse_model(dir / b), ref[e - 1], "snapshot " + b);
        shots++;
    }
    for (auto &f : dir.list()) REQUIRE(want.count(f), "an unexpected file " << f << " was written");
    // a crash after epoch e: continuing from the snapshot ends where the uninterrupted run ended
    if (shots && app != A_ONLINE && app != A_LDA + 99 && r.iterations < 20) {
        int e = N * (1 + (int) c.draw(shots));
        const std::string b = shot(e);
        if (e < r.iterations) {
            std::vector<std::string> a = {app_cmd(app), "-q", "--iterations=" + std::to_string(r.iterations - e), "--continue=" + (dir / b)};
            if (app != A_LDA) a.push_back("--m_step_iterations=3");
            a.push_back(dir / "data");
            a.push_back(dir / "resumed");
            Out o2 = run(dir, app_name(app), a);
            REQUIRE(o2.ok(), "continuing: exit status " << o2.status << ": " << o2.err.substr(0, 300));
            same_model(parse_model(dir / "resumed"), ref.back(), "model continued from the snapshot of epoch " + std::to_string(e));
            c.label("resumed");
        }
    }
    c.nontrivial(shots > 0 && r.topics > 1);
}

// loading and saving without training keeps every bit
PROP(c19_roundtrip) {
    Dir dir;
    int app = (int) c.draw(4), D = 3;
    int K = 1 + (int) c.draw(6), V = 1 + (int) c.draw(8), C = 1 + (int) c.draw(5);
    Model<double> m;
    m.alpha.resize(K); m.beta.resize(K, V); m.eta.resize(K, C);
    int style = (int) c.draw(3);
    auto val = [&]() -> double {
        if (style == 0) return c.unit();
        uint64_t b = c.draw(0);
        double x;
        memcpy(&x, &b, 8);
        if (style == 1 && !std::isfinite(x)) x = 0.5;
        return x;
    };
    for (int k = 0; k < K; k++) { m.alpha[k] = val(); for (int v = 0; v < V; v++) m.beta(k, v) = val(); for (int j = 0; j < C; j++) m.eta(k, j) = val(); }
    MatrixXi X = MatrixXi::Ones(V, D);
    VectorXi y = VectorXi::Zero(D);
    for (int i = 0; i < D; i++) y[i] = i % C;
    put(dir / "data", npy_int(c, X, false) + npy_int(c, y, true));
    put(dir / "model", model_file(m));
    bool unsup = app != A_LDA && c.chance(1, 3);
    c << app_name(app) << " " << app_cmd(app) << (unsup ? " from unsupervised" : "") << " K=" << K << " V=" << V << " C=" << C << " values " << style;
    Out o = run(dir, app_name(app), {app_cmd(app), "-q", "--iterations=0", (unsup ? "--continue_from_unsupervised=" : "--continue=") + (dir / "model"), dir / "data", dir / "again"});
    REQUIRE(o.ok(), "exit status " << o.status << ": " << o.err.substr(0, 300));
    Model<double> g = parse_model(dir / "again");
    if (app == A_LDA) m.eta = MatrixXd::Zero(K, 1);
    if (unsup) m.eta = MatrixXd::Zero(K, y.maxCoeff() + 1);
    bit_model(g, m, "model saved after loading");
    c.nontrivial(K > 1 && V > 1);
}

// training in two steps
PROP(c19_continue) {
    Dir dir;
    int app = (int) c.draw(4), first = c.chance(1, 2) || app == A_LDA ? app : (int) A_LDA;
    if (app == A_ONLINE && first == A_ONLINE && c.chance(1, 2)) first = A_FSLDA;
    int D = app == A_ONLINE || first == A_ONLINE ? c.pick({2, 4, 8}) : 2 + (int) c.draw(6);
    Data d = gen_data(c, A_SLDA, D);
    put(dir / "data", d.file);
    auto base = [&](Run &r) {
        r.args = {"-q", "--iterations=" + std::to_string(r.iterations)};
        r.mi = 3;
        if (r.app == A_SLDA || r.app == A_FSLDA) r.args.push_back("--m_step_iterations=3");
        if (r.app == A_ONLINE) { r.batch = D; r.args.push_back("--batch_size=" + std::to_string(D)); }
    };
    Run a(first), b(app);
    a.topics = 1 + (int) c.draw(3);
    a.iterations = (int) c.draw(4);
    b.iterations = (int) c.draw(4);
    base(a);
    base(b);
    a.args.push_back("--topics=" + std::to_string(a.topics));
    bool unsup = app != A_LDA && (first == A_LDA || c.chance(1, 4));
    // other options must not change where a continued training starts
    if (c.chance(1, 3)) b.args.push_back("--topics=" + std::to_string(1 + c.draw(5)));
    if (c.chance(1, 3)) b.args.push_back("--initialize_random");
    b.args.push_back((unsup ? "--continue_from_unsupervised=" : "--continue=") + (dir / "m1"));
    c << app_name(first) << "/" << app_cmd(first) << join(a.args) << " then " << app_name(app) << "/" << app_cmd(app) << join(b.args) << " (" << d.X.rows() << "x" << D << ")";
    Out o = run(dir, app_name(first), command(c, app_cmd(first), a.args, {dir / "data", dir / "m1"}));
    REQUIRE(o.ok(), "first training: exit status " << o.status << ": " << o.err.substr(0, 300));
    std::string before = get(dir / "m1");
    Model<double> m1 = parse_model(dir / "m1");
    std::vector<Line> lines;
    Model<double> s1 = a.init(d.X, d.y);
    std::vector<Model<double> > r1 = reference(a, s1, d.X, d.y, lines);
    same_model(m1, r1.empty() ? s1 : r1.back(), "first model");
    bool inplace = c.chance(1, 4);
    std::string out = dir / (inplace ? "m1" : "m2");
    o = run(dir, app_name(app), command(c, app_cmd(app), b.args, {dir / "data", out}));
    REQUIRE(o.ok(), "second training: exit status " << o.status << ": " << o.err.substr(0, 300));
    if (unsup) m1.eta = MatrixXd::Zero(m1.alpha.size(), d.y.maxCoeff() + 1);
    if (app == A_LDA) m1.eta = MatrixXd::Zero(m1.alpha.size(), 1);
    std::vector<Model<double> > r2 = reference(b, m1, d.X, d.y, lines);
    same_model(parse_model(out), r2.empty() ? m1 : r2.back(), "continued model");
    if (!inplace) REQUIRE(get(dir / "m1") == before, "continuing changed the model it started from");
    c.label(unsup ? "from-unsupervised" : "same-kind");
    c.nontrivial(a.iterations > 0 && b.iterations > 0 && a.topics > 1);
}
PBT_MAIN
