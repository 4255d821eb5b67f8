// A small property-based testing engine.
//
// A case is a function of a sequence of unsigned choices.  Generation draws
// the choices from a PRNG seeded by (seed, sub-property, case index); replay
// takes them from a file.  The choices of the running case live in a shared
// memory-mapped file so that the driver (check.py) can shrink and replay
// crashes, sanitizer aborts and hangs exactly like ordinary failures.
#ifndef PBT_HPP
#define PBT_HPP
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

struct State {
    uint64_t magic, case_index, n, beat;
    uint64_t choices[1 << 20];
};

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

class Case {
    public:
        State *st;
        bool replaying = false;
        std::vector<uint64_t> given;
        size_t pos = 0;
        uint64_t rng;
        bool nontrivial_ = false;
        std::ostringstream desc;
        std::vector<std::string> labels;
        bool thorough = false;

        explicit Case(State *s) : st(s), rng(0) {}

        uint64_t raw() { rng += 0x9e3779b97f4a7c15ULL; return mix(rng); }

        // uniform in [0, n); n == 0 means the whole 64 bit range
        uint64_t draw(uint64_t n) {
            uint64_t v;
            if (replaying) {
                v = pos < given.size() ? given[pos] : 0;
                if (n) v = v < n ? v : v % n;
            } else {
                v = raw();
                if (n) v %= n;
            }
            pos++;
            if (st->n >= (1u << 20)) throw Discard();         // a case too large to be recorded
            st->choices[st->n] = v;
            st->n++;
            return v;
        }
        // 1..n, now and then 1..big
        int size(int n, int big, int den = 20) { return 1 + (int) draw(chance(1, den) ? big : n); }
        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t)(hi - lo) + 1); }
        // true with probability num/den, shrinks to false
        bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
        double unit() { return draw(1ULL << 53) * (1.0 / (1ULL << 53)); }
        double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
        double logu(double lo, double hi) { return std::exp(uniform(std::log(lo), std::log(hi))); }
        double normal() {
            double u = 1.0 - unit(), v = unit();
            return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
        }
        template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
        template <typename T> const T & pick(const std::vector<T> &l) { return l[draw(l.size())]; }
        std::mt19937_64 bulk() { return std::mt19937_64(draw(0)); }
        std::vector<int> permutation(int n) {
            std::vector<int> p(n);
            for (int i = 0; i < n; i++) p[i] = i;
            for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + draw(n - i)]);
            return p;
        }

        void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
        void label(const std::string &s) { labels.push_back(s); }
        template <typename T> Case & operator<<(const T &t) { desc << t; return *this; }
};

typedef void (*Prop)(Case &);
struct Entry { std::string name; Prop fn; };
inline std::vector<Entry> & registry() { static std::vector<Entry> r; return r; }
struct Registrar { Registrar(const char *n, Prop p) { registry().push_back(Entry{n, p}); } };

#define PROP(name) \
    static void name(pbt::Case &c); \
    static pbt::Registrar reg_##name(#name, name); \
    static void name(pbt::Case &c)

#define REQUIRE(cond, stream) \
    do { if (!(cond)) { std::ostringstream os__; os__.precision(17); os__ << stream << "   [" #cond "]"; throw pbt::Fail{os__.str()}; } } while (0)
#define FAIL(stream) \
    do { std::ostringstream os__; os__.precision(17); os__ << stream; throw pbt::Fail{os__.str()}; } while (0)

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o + "\"";
}

inline uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
    return h;
}

inline int run_case(const Entry &e, Case &c, std::string &msg) {
    try {
        e.fn(c);
        return 0;
    } catch (const Fail &f) { msg = f.msg; return 1; }
    catch (const Discard &) { return 2; }
    catch (const std::exception &ex) { msg = std::string("unexpected exception: ") + ex.what(); return 1; }
    catch (...) { msg = "unexpected non-standard exception"; return 1; }
}

inline int main_(int argc, char **argv) {
    std::string sub, state, out, replay;
    uint64_t seed = 1, start = 0, stride = 1, cases = 100;
    double time_s = 1e9;
    bool thorough = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") { for (auto &e : registry()) std::cout << e.name << "\n"; return 0; }
        if (a == "--thorough") { thorough = true; continue; }
        if (i + 1 >= argc) { std::cerr << "bad args\n"; return 3; }
        std::string v = argv[++i];
        if (a == "--sub") sub = v;
        else if (a == "--state") state = v;
        else if (a == "--out") out = v;
        else if (a == "--replay") replay = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--start") start = strtoull(v.c_str(), 0, 10);
        else if (a == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if (a == "--cases") cases = strtoull(v.c_str(), 0, 10);
        else if (a == "--time") time_s = atof(v.c_str());
    }
    const Entry *e = nullptr;
    for (auto &x : registry()) if (x.name == sub) e = &x;
    if (!e) { std::cerr << "no such sub-property: " << sub << "\n"; return 3; }

    State *st;
    if (state.empty()) {
        st = (State *) mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    } else {
        int fd = open(state.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) { perror("state"); return 3; }
        st = (State *) mmap(0, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    if (st == MAP_FAILED) { perror("mmap"); return 3; }
    st->magic = 0x50425431;
    st->n = 0;

    if (!replay.empty()) {
        Case c(st);
        c.thorough = thorough;
        c.replaying = true;
        std::ifstream f(replay);
        std::string w;
        bool ok = false;
        while (f >> w) if (w == "choices") { ok = true; break; }
        if (!ok) { std::cerr << "bad replay file\n"; return 3; }
        uint64_t x;
        while (f >> x) c.given.push_back(x);
        std::string msg;
        int r = run_case(*e, c, msg);
        std::cout << "CASE " << c.desc.str() << "\n";
        if (r == 1) std::cout << "FAIL " << msg << "\n";
        std::cout.flush();
        return r == 1 ? 1 : 0;
    }

    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0, discards = 0;
    std::string msg, faildesc;
    int rc = 0;
    auto t0 = std::chrono::steady_clock::now();
    for (uint64_t k = 0; k < cases; k++) {
        uint64_t idx = start + k * stride;
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > time_s) break;
        Case c(st);
        c.thorough = thorough;
        c.rng = mix(mix(seed) ^ mix(fnv(sub)) ^ mix(idx * 2 + 1));
        st->case_index = idx;
        st->n = 0;
        st->beat++;
        int r = run_case(*e, c, msg);
        if (r == 2) { discards++; continue; }
        evals++;
        for (auto &l : c.labels) labels[l]++;
        if (c.nontrivial_) {
            uint64_t h = fnv(sub);
            for (uint64_t i = 0; i < st->n; i++) h = mix(h ^ st->choices[i]);
            bool fresh = distinct.insert(h).second;
            if (fresh && samples.size() < 3 && (k % 7 == 3 || k > 20)) samples.push_back(c.desc.str().substr(0, 600));
        }
        if (r == 1) { rc = 1; faildesc = c.desc.str(); break; }
    }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"sub\":" << jstr(sub) << ",\"evaluations\":" << evals << ",\"discards\":" << discards
          << ",\"wall\":" << el << ",\"labels\":{";
        bool first = true;
        for (auto &l : labels) { o << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
        o << "},\"samples\":[";
        first = true;
        for (auto &s : samples) { o << (first ? "" : ",") << jstr(s); first = false; }
        o << "],\"distinct\":[";
        first = true;
        for (auto h : distinct) { o << (first ? "" : ",") << h; first = false; }
        o << "]";
        if (rc == 1) o << ",\"fail\":" << jstr(msg) << ",\"case\":" << jstr(faildesc);
        o << "}\n";
    }
    if (rc == 1) std::cout << "FAIL " << msg << "\n";
    std::cout.flush();
    return rc;
}

} // namespace pbt

#define PBT_MAIN int main(int argc, char **argv) { return pbt::main_(argc, argv); }
#endif
