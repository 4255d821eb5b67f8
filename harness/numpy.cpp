#include <locale>
#include "pbt.hpp"
#include "npy_ref.hpp"
#include "npy_oracle.hpp"
#include "limited_new.hpp"
#include <sstream>
#include <map>
#include <sys/mman.h>
#include <dirent.h>
#include <Eigen/Core>
#include "ldaplusplus/NumpyFormat.hpp"

using namespace ldaplusplus;
using namespace Eigen;
using pbt::Case;

template <typename S> struct Bits { static S from(uint64_t b) { S s; memcpy(&s, &b, sizeof s); return s; } };

template <typename S>
static std::string gen_payload(Case &c, size_t n) {
    std::string out(n * sizeof(S), '\0');
    bool bulk = n > 40;
    std::mt19937_64 g;
    if (bulk) g = c.bulk();
    static const uint64_t specials[] = {0, ~0ULL, 0x7ff0000000000000ULL, 0xfff8000000000000ULL, 0x7ff0000000000001ULL, 1, 0x8000000000000000ULL,
        0x7f800000ULL, 0x7fc00001ULL, 0x80000000ULL, 0x7fffffffULL, 0x3ff0000000000000ULL, 0x0102030405060708ULL, 0xff80ULL, 0x0aULL, 0x0d0aULL, 0x1a};
    for (size_t i = 0; i < n; i++) {
        uint64_t b = bulk ? g() : c.draw(0);
        if (b % 4 == 0) b = specials[(b >> 8) % (sizeof(specials) / 8)];
        memcpy(&out[i * sizeof(S)], &b, sizeof(S));
    }
    return out;
}

static std::vector<long long> gen_shape(Case &c, int maxdims, long long cap) {
    int nd = 1 + (int) c.draw(maxdims);
    std::vector<long long> s(nd);
    long long tot = 1;
    bool zero = c.chance(1, 8);
    int zi = zero ? (int) c.draw(nd) : -1;
    for (int i = 0; i < nd; i++) {
        long long lim = zero ? std::max<long long>(1, 100000 / tot) : std::max<long long>(1, cap / std::max<long long>(1, tot));
        long long hi = c.pick<long long>({1, 3, 7, 12, 130, 1100});
        if (cap > 4000) hi = c.pick<long long>({300, 5000, 70000});
        s[i] = 1 + (long long) c.draw(std::min(lim, hi));
        if (i == zi) s[i] = 0;
        else tot *= s[i];
    }
    return s;
}
static long long product(const std::vector<long long> &s) { long long n = 1; for (auto d : s) n *= d; return n; }
static std::string show(const std::vector<long long> &s) { std::ostringstream o; o << "("; for (auto d : s) o << d << ","; o << ")"; return o.str(); }

struct Rec { std::string type; bool fortran; std::vector<long long> shape; std::string payload; size_t end; };

// element (i,j) of a shape[0] x rest matrix in the given order
static size_t index_of(size_t i, size_t j, size_t rows, size_t cols, bool fortran) { return fortran ? j * rows + i : i * cols + j; }

template <typename S, typename M>
static void check_matrix(const M &m, const Rec &r, const char *what) {
    size_t rows = r.shape.empty() ? 1 : r.shape[0], cols = 1;
    for (size_t k = 1; k < r.shape.size(); k++) cols *= r.shape[k];
    REQUIRE((size_t) m.rows() == rows && (size_t) m.cols() == cols, what << ": " << m.rows() << "x" << m.cols() << " instead of " << rows << "x" << cols);
    for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < rows; i++) {
        S v = m(i, j);
        REQUIRE(memcmp(&v, &r.payload[index_of(i, j, rows, cols, r.fortran) * sizeof(S)], sizeof(S)) == 0,
                what << ": element (" << i << "," << j << ") of " << show(r.shape) << " " << r.type << " differs");
    }
}

// Write one record with the library in one of the ways the API offers.
template <typename S>
static void emit(Case &c, std::ostream &os, Rec &r) {
    r.type = numpy_format::dtype_for_scalar<S>();
    int way = (int) c.draw(8);
    long long cap = c.chance(1, 100) ? (c.chance(1, 20) ? 1500000 : 120000) : 4000;
    if (way <= 2) {
        r.shape = gen_shape(c, c.pick<int>({4, 4, 4, 20, 32, 90}), cap);
        if (c.chance(1, 40)) r.shape.clear(); // a 0-dimensional array holds one element
        r.fortran = c.chance(1, 2);
        r.payload = gen_payload<S>(c, product(r.shape));
        std::vector<S> data(product(r.shape));
        if (!data.empty()) memcpy(&data[0], r.payload.data(), r.payload.size());
        std::vector<size_t> sh(r.shape.begin(), r.shape.end());
        os << numpy_format::NumpyOutput<S>(data.data(), sh, r.fortran);
    } else if (way == 3) {
        r.shape = gen_shape(c, 2, cap);
        if (r.shape.size() == 1) r.shape.push_back(1);
        r.fortran = true;
        r.payload = gen_payload<S>(c, product(r.shape));
        Matrix<S, Dynamic, Dynamic> m(r.shape[0], r.shape[1]);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(os, m);
    } else if (way == 4) {
        r.shape = gen_shape(c, 2, cap);
        if (r.shape.size() == 1) r.shape.push_back(1);
        r.fortran = false;
        r.payload = gen_payload<S>(c, product(r.shape));
        Matrix<S, Dynamic, Dynamic, RowMajor> m(r.shape[0], r.shape[1]);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(os, m);
    } else if (way == 5) {
        long long n = (long long) c.draw(40);
        r.shape = {1, n};
        r.fortran = false;
        r.payload = gen_payload<S>(c, n);
        Matrix<S, 1, Dynamic> m(n);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(os, m);
    } else if (way == 6) {
        r.fortran = c.chance(1, 2);
        r.shape = {3, 2};
        r.payload = gen_payload<S>(c, 6);
        if (r.fortran) { Matrix<S, 3, 2> m; memcpy(m.data(), r.payload.data(), r.payload.size()); numpy_format::save(os, m); }
        else { Matrix<S, 3, 2, RowMajor> m; memcpy(m.data(), r.payload.data(), r.payload.size()); numpy_format::save(os, m); }
    } else {
        long long n = (long long) c.draw(cap > 200000 ? 2500000 : cap > 4000 ? 70000 : 300);
        r.shape = {n, 1};
        r.fortran = true;
        r.payload = gen_payload<S>(c, n);
        Matrix<S, Dynamic, 1> m(n);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(os, m);
    }
    c << r.type << (r.fortran ? "F" : "C") << show(r.shape) << " way" << way << "; ";
    c.label(r.fortran ? "fortran" : "c-order");
    if (product(r.shape) == 0) c.label("empty array");
    if (r.payload.size() > (1 << 20)) c.label("more than a megabyte");
    if (r.shape.size() > 2) c.label("n-d");
    if (r.shape.size() > 64) c.label("header longer than 255 bytes");
}

template <typename S>
static void read_back(Case &c, std::istream &is, const Rec &r) {
    int way = (int) c.draw(3);
    if (r.shape.size() == 2 && r.shape[1] == 1 && c.chance(1, 3)) {
        Matrix<S, Dynamic, 1> v = numpy_format::load<S, Dynamic, 1>(is);
        check_matrix<S>(v, r, "load as a vector");
    } else if (r.shape.size() == 2 && r.shape[0] == 3 && r.shape[1] == 2 && c.chance(1, 3)) {
        Matrix<S, 3, 2, RowMajor> v = numpy_format::load<S, 3, 2, RowMajor>(is);
        check_matrix<S>(v, r, "load as a fixed size matrix");
    } else if (way == 0) {
        numpy_format::NumpyInput<S> ni;
        if (c.chance(1, 3)) {
            // an object that has been read into before
            std::stringstream other(std::ios::in | std::ios::out | std::ios::binary);
            S five[6] = {1, 2, 3, 4, 5, 6};
            numpy_format::NumpyOutput<S> no(five, std::vector<size_t>{3, 2}, c.chance(1, 2));
            other << no;
            other >> ni;
            c << "reused ";
        }
        is >> ni;
        REQUIRE(ni.shape().size() == r.shape.size(), "number of dimensions " << ni.shape().size() << " instead of " << r.shape.size());
        for (size_t k = 0; k < r.shape.size(); k++) REQUIRE((long long) ni.shape()[k] == r.shape[k], "extent " << k << " is " << ni.shape()[k]);
        {
            bool line = r.shape.size() < 2 || (r.shape.size() == 2 && (r.shape[0] <= 1 || r.shape[1] <= 1));
            REQUIRE(ni.fortran_contiguous() == r.fortran || line, "memory order changed");
        }
        REQUIRE(r.payload.empty() || memcmp(ni.data(), r.payload.data(), r.payload.size()) == 0, "elements changed");
        if (c.chance(1, 2)) { Matrix<S, Dynamic, Dynamic> m = ni; check_matrix<S>(m, r, "col-major matrix"); }
        else { Matrix<S, Dynamic, Dynamic, RowMajor> m = ni; check_matrix<S>(m, r, "row-major matrix"); }
    } else if (way == 1) {
        auto m = numpy_format::load<S>(is);
        check_matrix<S>(m, r, "load");
    } else {
        auto m = numpy_format::load<S, Dynamic, Dynamic, RowMajor>(is);
        check_matrix<S>(m, r, "load row-major");
    }
}

#define FOR_TYPE(t, call) \
    switch (t) { \
        case 0: { typedef double S; call; break; } case 1: { typedef float S; call; break; } \
        case 2: { typedef int32_t S; call; break; } case 3: { typedef int64_t S; call; break; } \
        case 4: { typedef int16_t S; call; break; } case 5: { typedef int8_t S; call; break; } \
        case 6: { typedef uint8_t S; call; break; } case 7: { typedef uint16_t S; call; break; } \
        case 8: { typedef uint32_t S; call; break; } default: { typedef uint64_t S; call; break; } }
static const char *TYPES[] = {"f8", "f4", "i4", "i8", "i2", "i1", "u1", "u2", "u4", "u8"};

// a program may have set the format of its stream or its locale for other output
struct Grouping : std::numpunct<char> {
    char do_thousands_sep() const override { return ','; }
    std::string do_grouping() const override { return "\3"; }
};
struct GlobalLocale {
    std::locale old;
    explicit GlobalLocale(bool on) { if (on) std::locale::global(std::locale(std::locale::classic(), new Grouping)); }
    ~GlobalLocale() { std::locale::global(old); }
};
static void format_state(Case &c, std::ios &s) {
    if (!c.chance(1, 6)) return;
    if (c.chance(1, 2)) s.setf(std::ios::hex, std::ios::basefield);
    if (c.chance(1, 3)) s.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase);
    if (c.chance(1, 2)) { s.width(1 + c.draw(400)); s.fill(c.pick({'0', '*', ' '})); }
    if (c.chance(1, 3)) s.imbue(std::locale(std::locale::classic(), new Grouping));
    if (c.chance(1, 3)) s.unsetf(std::ios::skipws);
    c.label("formatted stream");
}

PROP(c01_roundtrip) {
    bool grouped = c.chance(1, 12);
    if (grouped) c.label("global locale");
    GlobalLocale global(grouped);
    int n = 1 + (int) c.draw(5);
    std::vector<Rec> recs(n);
    std::vector<int> types(n);
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    for (int i = 0; i < n; i++) {
        types[i] = (int) c.draw(10);
        format_state(c, ss);
        FOR_TYPE(types[i], emit<S>(c, ss, recs[i]));
        recs[i].end = (size_t) ss.tellp();
    }
    std::string bytes = ss.str();
    size_t begin = 0;
    for (int i = 0; i < n; i++) {
        const Rec &r = recs[i];
        REQUIRE(r.end <= bytes.size() && r.end > begin, "stream position after writing");
        std::string rec = bytes.substr(begin, r.end - begin);
        npyref::Record p;
        size_t at;
        auto v = npyref::parse(rec, p, at);
        REQUIRE(v == npyref::GOOD_HEADER, "record " << i << " is not a well-formed version 1 record");
        REQUIRE(rec[7] == 0, "minor version");
        REQUIRE(at % 16 == 0, "data does not start at a multiple of 16: " << at);
        std::string t = p.descr.size() == 3 ? p.descr.substr(1) : p.descr;
        REQUIRE(t == r.type, "descr " << p.descr << " for " << r.type);
        REQUIRE(p.descr[0] == '<' || (r.type[1] == '1' && p.descr[0] && strchr("|<>=", p.descr[0])), "byte order in " << p.descr);
        {
            // a row or a column is the same in both orders
            bool line = r.shape.size() < 2 || (r.shape.size() == 2 && (r.shape[0] <= 1 || r.shape[1] <= 1));
            REQUIRE(p.fortran == r.fortran || line, "declared order");
        }
        REQUIRE(p.shape == r.shape, "declared shape " << show(p.shape) << " instead of " << show(r.shape));
        REQUIRE(rec.size() - at == r.payload.size(), "payload has " << rec.size() - at << " bytes instead of " << r.payload.size());
        REQUIRE(rec.compare(at, std::string::npos, r.payload) == 0, "payload bytes differ from the array's");
        begin = r.end;
    }
    REQUIRE(begin == bytes.size(), "trailing bytes");
    ss.seekg(0);
    for (int i = 0; i < n; i++) {
        format_state(c, ss);
        FOR_TYPE(types[i], read_back<S>(c, ss, recs[i]));
        REQUIRE(ss.good() || recs[i].end == bytes.size(), "stream state after reading record " << i);
        REQUIRE((size_t) ss.tellg() == recs[i].end, "reading record " << i << " consumed up to " << (long) ss.tellg() << " instead of " << recs[i].end);
    }
    if (n > 1) c.label("several records");
    size_t tot = 0;
    for (auto &r : recs) tot += r.payload.size();
    c.nontrivial(tot > 8);
}

template <typename S>
static void file_case(Case &c) {
    std::string dir = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp";
    std::string path = dir + "/npy-" + std::to_string(getpid()) + ".npy";
    Rec r;
    r.type = numpy_format::dtype_for_scalar<S>();
    r.shape = {(long long) c.draw(20), 1 + (long long) c.draw(20)};
    r.fortran = !c.chance(1, 2);
    r.payload = gen_payload<S>(c, product(r.shape));
    c << r.type << show(r.shape) << (r.fortran ? "F" : "C");
    if (c.chance(1, 20)) { // nowhere to write
        std::string bad = c.chance(1, 2) && access("/dev/full", W_OK) == 0 && product(r.shape) > 0 ? "/dev/full" : path + "-missing/x.npy";
        bool threw = false;
        Matrix<S, Dynamic, Dynamic> m(r.shape[0], r.shape[1]);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        try { numpy_format::save(bad, m); } catch (const std::exception &) { threw = true; }
        REQUIRE(threw, "saving to " << bad << " reported nothing");
        c.label("unwritable file");
    }
    if (c.chance(1, 2)) { // an older, longer file is already there
        Matrix<S, Dynamic, Dynamic> old = Matrix<S, Dynamic, Dynamic>::Zero(30, 30);
        numpy_format::save(path, old);
        c.label("overwrites a longer file");
    }
    if (r.fortran) {
        Matrix<S, Dynamic, Dynamic> m(r.shape[0], r.shape[1]);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(path, m);
    } else {
        Matrix<S, Dynamic, Dynamic, RowMajor> m(r.shape[0], r.shape[1]);
        if (m.size()) memcpy(m.data(), r.payload.data(), r.payload.size());
        numpy_format::save(path, m);
    }
    std::ifstream f(path, std::ios::binary);
    std::string bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    npyref::Record p;
    size_t at;
    auto v = npyref::parse(bytes, p, at);
    bool same = v == npyref::GOOD_HEADER && p.shape == r.shape && p.fortran == r.fortran && bytes.substr(at) == r.payload;
    auto m = numpy_format::load<S>(path);
    auto mr = numpy_format::load<S, Dynamic, Dynamic, RowMajor>(path);
    unlink(path.c_str());
    REQUIRE(same, "file content is not the array");
    check_matrix<S>(m, r, "load from file");
    check_matrix<S>(mr, r, "load row-major from file");
    c.nontrivial(product(r.shape) > 1);
}
PROP(c01_files) { int t = (int) c.draw(10); FOR_TYPE(t, file_case<S>(c)); }

template <typename S>
static void foreign_case(Case &c) {
    Rec r;
    r.type = numpy_format::dtype_for_scalar<S>();
    r.shape = gen_shape(c, c.pick<int>({4, 4, 4, 32, 90}), c.chance(1, 200) ? (c.chance(1, 20) ? 1500000 : 100000) : 3000);
    if (c.chance(1, 40)) r.shape.clear();
    r.fortran = c.chance(1, 2);
    r.payload = gen_payload<S>(c, product(r.shape));
    bool big = c.chance(1, 2);
    std::string descr = (sizeof(S) == 1 ? "|" : (big ? ">" : "<")) + r.type;
    int align = c.chance(1, 2) ? 16 : 64, growth = (int) c.draw(40);
    std::string stored = big && sizeof(S) > 1 ? npyref::reverse_items(r.payload, sizeof(S)) : r.payload;
    bool py2 = c.chance(1, 12);
    if (py2) c.label("long integers of Python 2");
    std::string rec = npyref::write(descr, r.fortran, r.shape, stored, align, growth, py2 ? "L" : "");
    std::string tail(c.draw(20), 'x');
    c << descr << (r.fortran ? "F" : "C") << show(r.shape) << " align " << align << " growth " << growth << " tail " << tail.size();
    c.label(big ? "big-endian" : "little-endian");
    c.nontrivial(product(r.shape) > 1);
    std::istringstream is(rec + tail);
    read_back<S>(c, is, r);
    REQUIRE((size_t) is.tellg() == rec.size(), "consumed up to " << (long) is.tellg() << " instead of " << rec.size());
}
PROP(c02_foreign) { int t = (int) c.draw(10); FOR_TYPE(t, foreign_case<S>(c)); }

// ------------------------------------------------------------------ arrays of more than 2^31 bytes or elements
// The content is all zero bytes except for a few marked positions, so that streams can make it up.
static bool enough_memory() {
    std::ifstream f("/proc/meminfo");
    std::string k; long v; std::string unit;
    while (f >> k >> v >> unit) if (k == "MemAvailable:") return v > 10l << 20;
    return false;
}
typedef std::vector<std::pair<size_t, unsigned char>> Marks; // sorted by offset in the payload
struct HugeOut : std::streambuf {
    std::string head;      // the first bytes
    size_t total = 0, data = 0;
    const Marks &marks;
    std::map<size_t, unsigned char> seen;
    explicit HugeOut(const Marks &m) : marks(m) {}
    void take(const char *s, size_t n) {
        while (n && total < 10) { head += *s++; total++; n--; }
        if (head.size() >= 10) data = 10 + (unsigned char) head[8] + 256 * (unsigned char) head[9];
        while (n && total < data) { head += *s++; total++; n--; }
        for (auto &m : marks) if (data + m.first >= total && data + m.first < total + n) seen[m.first] = (unsigned char) s[data + m.first - total];
        total += n;
    }
    int overflow(int ch) override { if (ch != EOF) { char b = (char) ch; take(&b, 1); } return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { take(s, n); return n; }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override { return d == std::ios::cur && o == 0 ? pos_type(total) : pos_type(off_type(-1)); }
};
struct HugeIn : std::streambuf {
    std::string head;
    const Marks &marks;
    size_t bytes, at = 0;  // at: position of the end of the buffer
    std::vector<char> buf;
    HugeIn(std::string h, const Marks &m, size_t b) : head(h), marks(m), bytes(b), buf(1 << 20) {}
    size_t total() const { return head.size() + bytes; }
    int underflow() override {
        if (gptr() < egptr()) return (unsigned char) *gptr();
        size_t n = std::min(buf.size(), total() - at);
        if (!n) return EOF;
        memset(buf.data(), 0, n);
        for (size_t i = at; i < head.size() && i < at + n; i++) buf[i - at] = head[i];
        for (auto &m : marks) { size_t p = head.size() + m.first; if (p >= at && p < at + n) buf[p - at] = (char) m.second; }
        at += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        return (unsigned char) *gptr();
    }
    size_t pos() const { return at - (egptr() - gptr()); }
    pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override {
        off_type p = o + (d == std::ios::beg ? 0 : d == std::ios::cur ? (off_type) pos() : (off_type) total());
        if (p < 0 || p > (off_type) total()) return pos_type(off_type(-1));
        if (p != (off_type) pos()) { at = p; setg(buf.data(), buf.data(), buf.data()); }
        return p;
    }
    pos_type seekpos(pos_type p, std::ios::openmode w) override { return seekoff(p, std::ios::beg, w); }
};
static Marks gen_marks(Case &c, size_t bytes) {
    std::map<size_t, unsigned char> m;
    for (size_t p : {size_t(0), size_t(1) << 20, (size_t(1) << 31) - 1, size_t(1) << 31, size_t(1) << 32, bytes - 1, bytes / 2})
        if (p < bytes) m[p] = 1 + (unsigned char) (p % 251);
    for (int i = 0; i < 40; i++) { size_t p = c.draw(bytes); m[p] = 1 + (unsigned char) c.draw(255); }
    return Marks(m.begin(), m.end());
}
template <typename S>
static void huge_case(Case &c, bool foreign) {
    if (!enough_memory()) throw pbt::Discard();
    struct Limit { std::size_t old = alloc_limit; Limit() { alloc_limit = (std::size_t) 8 << 30; } ~Limit() { alloc_limit = old; } } limit;
    Rec r;
    r.type = numpy_format::dtype_for_scalar<S>();
    r.fortran = c.chance(1, 2);
    // a bit more than 2^31 elements of one byte, or than 2^31 bytes of wider ones
    bool vast = sizeof(S) == 1 && (!foreign || c.chance(1, 3));     // more than 2^32
    long long n = ((1ll << (vast ? 32 : 31)) + 100000 + (long long) c.draw(50000000)) / (long long) sizeof(S), a = 1 + (long long) c.draw(6);
    if (sizeof(S) == 1) a = std::max(vast ? 3ll : 2ll, a); // the reader takes extents up to 2^31 - 1
    r.shape = {a, n / a};
    if (c.chance(1, 2)) std::swap(r.shape[0], r.shape[1]);
    size_t bytes = (size_t) product(r.shape) * sizeof(S);
    Marks marks = gen_marks(c, bytes);
    c << r.type << (r.fortran ? "F" : "C") << show(r.shape);
    c.label(vast ? "more than 2^32 elements" : sizeof(S) == 1 ? "more than 2^31 elements" : "more than 2^31 bytes");
    c.nontrivial(true);
    std::string head;
    bool big = false;
    if (foreign) {
        big = sizeof(S) > 1 && c.chance(1, 2);
        head = npyref::write((sizeof(S) == 1 ? "|" : (big ? ">" : "<")) + r.type, r.fortran, r.shape, "", 64, 10, "");
        if (big) c << " big-endian";
    } else {
        char *mem = (char *) mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (mem == MAP_FAILED) throw pbt::Discard();
        for (auto &m : marks) mem[m.first] = (char) m.second;
        HugeOut out(marks);
        std::ostream os(&out);
        os << numpy_format::NumpyOutput<S>((const S *) mem, std::vector<size_t>(r.shape.begin(), r.shape.end()), r.fortran);
        munmap(mem, bytes);
        REQUIRE(os.good(), "the stream failed");
        npyref::Record p;
        size_t at;
        REQUIRE(npyref::parse(out.head, p, at) == npyref::GOOD_HEADER, "not a well-formed record");
        REQUIRE(p.shape == r.shape && p.fortran == r.fortran, "declared shape or order");
        REQUIRE(out.total - out.head.size() == bytes, "payload has " << out.total - out.head.size() << " bytes instead of " << bytes);
        for (auto &m : marks) REQUIRE(out.seen[m.first] == m.second, "byte " << m.first << " of the payload differs");
        head = out.head;
    }
    HugeIn in(head, marks, bytes);
    std::istream is(&in);
    numpy_format::NumpyInput<S> ni;
    is >> ni;
    REQUIRE(in.pos() == in.total(), "consumed up to " << in.pos() << " instead of " << in.total());
    REQUIRE(ni.shape().size() == 2 && (long long) ni.shape()[0] == r.shape[0] && (long long) ni.shape()[1] == r.shape[1], "shape");
    auto where = [&](size_t p) { return big ? p / sizeof(S) * sizeof(S) + sizeof(S) - 1 - p % sizeof(S) : p; };
    for (auto &m : marks) REQUIRE((unsigned char) ((const char *) ni.data())[where(m.first)] == m.second, "byte " << m.first << " of the array differs");
    if (!vast) {
        Matrix<S, Dynamic, Dynamic> m = ni;
        REQUIRE(m.rows() == r.shape[0] && m.cols() == r.shape[1], "size of the matrix");
        for (auto &k : marks) {
            size_t p = where(k.first), e = p / sizeof(S), i = r.fortran ? e % r.shape[0] : e / r.shape[1], j = r.fortran ? e / r.shape[0] : e % r.shape[1];
            S v = m(i, j);
            REQUIRE(((unsigned char *) &v)[p % sizeof(S)] == k.second, "element (" << i << "," << j << ") of the matrix differs");
        }
    }
}
PROP(c01_huge) { switch ((int) c.draw(4)) { case 0: case 3: huge_case<int8_t>(c, false); break; case 1: huge_case<double>(c, false); break; default: huge_case<int32_t>(c, false); } }
PROP(c02_huge) { switch ((int) c.draw(4)) { case 0: case 3: huge_case<uint8_t>(c, true); break; case 1: huge_case<double>(c, true); break; default: huge_case<int32_t>(c, true); } }

// Records written by numpy itself (harness/gen_npy.py): NAME.npy and NAME.exp with
//   type / fortran / shape / native-order payload bytes in stored memory order
static const std::vector<std::string> & numpy_files() {
    static std::vector<std::string> names;
    static bool done = false;
    if (!done) {
        done = true;
        std::string dir = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/nonexistent") + "/numpy";
        if (DIR *d = opendir(dir.c_str())) {
            while (dirent *e = readdir(d)) {
                std::string n = e->d_name;
                if (n.size() > 4 && n.substr(n.size() - 4) == ".npy") names.push_back(dir + "/" + n.substr(0, n.size() - 4));
            }
            closedir(d);
        }
        std::sort(names.begin(), names.end());
    }
    return names;
}
PROP(c02_numpy_files) {
    auto &names = numpy_files();
    if (names.empty()) throw pbt::Discard();
    std::string n = names[c.draw(names.size())];
    std::ifstream e(n + ".exp", std::ios::binary);
    Rec r;
    int f, nd;
    e >> r.type >> f >> nd;
    r.fortran = f;
    r.shape.resize(nd);
    for (auto &d : r.shape) e >> d;
    e.get();
    r.payload.assign((std::istreambuf_iterator<char>(e)), std::istreambuf_iterator<char>());
    c << n.substr(n.rfind('/') + 1) << " " << r.type << show(r.shape) << (r.fortran ? "F" : "C");
    int t = 0;
    while (TYPES[t] != r.type) t++;
    std::ifstream is(n + ".npy", std::ios::binary);
    FOR_TYPE(t, read_back<S>(c, is, r));
    is.close();
    FOR_TYPE(t, check_matrix<S>(numpy_format::load<S>(n + ".npy"), r, "load(path)"));
    c.nontrivial(product(r.shape) > 1);
}

static std::string mutate(Case &c, std::string b) {
    int kind = (int) c.draw(9);
    static const char *names[] = {"truncate", "flip byte", "insert", "delete", "shape text", "descr text", "header length", "prefix byte", "order text"};
    c << " [" << names[kind] << "]";
    c.label(names[kind]);
    size_t n = b.size();
    switch (kind) {
        case 0: b.resize(c.draw(n + 1)); break;
        case 1: if (n) b[c.draw(n)] ^= (char) (1 + c.draw(255)); break;
        case 2: { std::string ins(1 + c.draw(8), '\0'); for (auto &x : ins) x = (char) c.draw(256); b.insert(c.draw(n + 1), ins); break; }
        case 3: if (n) { size_t p = c.draw(n); b.erase(p, 1 + c.draw(8)); } break;
        case 4: {
            size_t p = b.find('(', 10), q = p == std::string::npos ? p : b.find(')', p);
            if (q == std::string::npos || q > 200) break;
            static const char *sh[] = {"-1, 4", "-3,", "2147483647, 2147483647", "65536, 65536", "65536, 65537", "4294967296,", "99999999999999999999,", "", "3", "a, b", "3, x",
                "1, -1", "-2, -2", "0, 5", "0, 2147483647, 2147483647, 2147483647", "5,,5", "  3, 4", "3,4", "3, 4L", "1073741824, 4", "268435456, 16", "(3, 4", "2147483648, 2", "1, 1, 1, 1, 1, 1", "65536, 65536, 65536, 65536", "1073741824, 1073741824, 16", "65536, 65536, 32768, 65536", "1073741824, 1073741824, 8"};
            std::string s = sh[c.draw(sizeof(sh) / sizeof(*sh))];
            bool keep_len = c.chance(1, 2);
            std::string nb = b.substr(0, p + 1) + s + b.substr(q);
            if (keep_len && nb.size() != n) { // adjust the padding so that the header length stays right
                size_t nl = nb.find('\n', p);
                if (nl != std::string::npos) {
                    if (nb.size() < n) nb.insert(nl, n - nb.size(), ' ');
                    else { size_t extra = nb.size() - n; if (nl > extra) nb.erase(nl - extra, extra); }
                }
            }
            b = nb;
            break;
        }
        case 5: {
            size_t p = b.find("'descr': '");
            if (p == std::string::npos || p + 13 > n) break;
            static const char *ds[] = {"<f8", "<f4", ">f8", "<i4", ">i4", "|i1", "<U3", "|O8", "<c8", "|b1", "<i8", "   ", "<f2", "<i2", "|u1", "|V8"};
            b.replace(p + 10, 3, ds[c.draw(16)]);
            break;
        }
        case 6: if (n >= 10) { b[8] = (char) c.draw(256); b[9] = (char) (c.chance(1, 3) ? c.draw(256) : 0); } break;
        case 7: if (n >= 8) { size_t p = c.draw(8); b[p] = (char) c.pick({0, 1, 2, 3, 127, 128, 129, 255, 0x93, 0x4e}); } break;
        default: {
            size_t p = b.find("'fortran_order': ");
            if (p == std::string::npos || p + 18 > n) break;
            b[p + 17] = (char) c.pick({'T', 'F', 't', '0', '\0', ' '});
        }
    }
    return b;
}

static std::string read_as(int t, const std::string &bytes, std::string *outcome) {
    std::string err;
    FOR_TYPE(t, err = read_any<S>(bytes, outcome));
    return err;
}

template <typename S>
static void malformed_case(Case &c) {
    std::string bytes;
    int base = (int) c.draw(10);
    if (base == 0) { // raw bytes, sometimes with a valid prefix
        if (c.chance(2, 3)) bytes = std::string("\x93NUMPY\x01\x00", 8);
        size_t n = c.draw(150);
        for (size_t i = 0; i < n; i++) bytes += (char) c.draw(256);
        c << "raw";
        c.label("raw bytes");
    } else if (base <= 4) { // a record of the library itself
        std::ostringstream os;
        Rec r;
        emit<S>(c, os, r);
        bytes = os.str();
    } else {
        std::string type = numpy_format::dtype_for_scalar<S>();
        auto shape = gen_shape(c, 3, 200);
        bool big = c.chance(1, 3);
        bytes = npyref::write((big ? ">" : "<") + type, c.chance(1, 2), shape, gen_payload<S>(c, product(shape)), c.chance(1, 2) ? 16 : 64);
        c << (big ? ">" : "<") << type << show(shape);
    }
    int nm = base == 0 ? (int) c.draw(2) : (int) c.draw(4);
    for (int i = 0; i < nm; i++) bytes = mutate(c, bytes);
    std::string outcome, err;
    bool other = c.chance(1, 6); // request a different type
    if (!other) err = read_any<S>(bytes, &outcome);
    else { int t = (int) c.draw(10); c << " read as " << TYPES[t]; err = read_as(t, bytes, &outcome); }
    c.label(outcome);
    c.nontrivial(nm > 0 || base == 0);
    if (!err.empty()) FAIL(err << "; input (" << bytes.size() << " bytes): " << bytes.substr(0, 160));
}
PROP(c03_malformed) { int t = (int) c.draw(10); FOR_TYPE(t, malformed_case<S>(c)); }

// every truncation point of one record
PROP(c03_truncations) {
    int t = (int) c.draw(10);
    std::ostringstream os;
    Rec r;
    FOR_TYPE(t, emit<S>(c, os, r));
    std::string b = os.str();
    size_t n = std::min<size_t>(b.size(), 400);
    for (size_t k = 0; k < n; k++) {
        size_t len = k < 200 || b.size() <= 400 ? k : b.size() - (400 - k);
        std::string outcome, err;
        FOR_TYPE(t, err = read_any<S>(b.substr(0, len), &outcome));
        if (!err.empty()) FAIL("truncated to " << len << " of " << b.size() << " bytes: " << err);
    }
    c.nontrivial();
}

PBT_MAIN
