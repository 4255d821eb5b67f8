// Oracle for reading arbitrary bytes with the library (C03), shared by the
// generated check and the libFuzzer target.  Returns "" or what went wrong.
#ifndef NPY_ORACLE_HPP
#define NPY_ORACLE_HPP
#include <sstream>
#include <Eigen/Core>
#include "ldaplusplus/NumpyFormat.hpp"
#include "npy_ref.hpp"

template <typename S>
std::string read_any(const std::string &bytes, std::string *outcome) {
    using namespace ldaplusplus;
    npyref::Record r;
    size_t at;
    auto verdict = npyref::parse(bytes, r, at);
    std::string want = numpy_format::dtype_for_scalar<S>();
    // what a conforming reader must do
    std::string must_reject;
    unsigned __int128 total = 1;
    bool neg = false;
    if (verdict == npyref::BAD_PREFIX) must_reject = "magic, version or header is missing or wrong";
    else if (verdict == npyref::GOOD_HEADER) {
        for (auto d : r.shape) { if (d < 0) neg = true; }
        if (!neg) for (auto d : r.shape) { total *= (unsigned long long) d; if (total > ((unsigned __int128) 1 << 62)) total = (unsigned __int128) 1 << 62; }
        bool zero = false;
        for (auto d : r.shape) if (d == 0) zero = true;
        if (zero) total = 0;
        if (r.descr.size() != 3 || r.descr.substr(1) != want) must_reject = "element type differs from the requested one";
        else if (neg) must_reject = "negative extent";
        else if (total * sizeof(S) > bytes.size() - at) must_reject = "payload is truncated";
    }
    std::istringstream is(bytes);
    numpy_format::NumpyInput<S> ni;
    try {
        is >> ni;
    } catch (const std::exception &e) {
        *outcome = "rejected";
        if (verdict == npyref::GOOD_HEADER && must_reject.empty() && npyref::known_descr(r.descr) && r.shape.size() >= 1 && r.shape.size() <= 32) {
            bool small = true;
            for (auto d : r.shape) if (d > 100000) small = false;
            // headers with the exact numpy spacing must be accepted
            if (small && bytes.compare(0, at, npyref::write(r.descr, r.fortran, r.shape, "", 64).substr(0, at)) == 0)
                return std::string("a valid record was rejected: ") + e.what();
        }
        return "";
    }
    *outcome = "accepted";
    if (!must_reject.empty()) return "accepted although: " + must_reject;
    size_t avail = bytes.size() - at;
    unsigned __int128 n = 1;
    bool zero = false;
    for (auto d : ni.shape()) {
        if (d == 0) zero = true;
        if ((long long) d < 0) return "negative extent in the shape of an accepted array";
        n *= d;
        if (n > ((unsigned __int128) 1 << 62)) n = (unsigned __int128) 1 << 62;
    }
    if (zero) n = 0;
    if (n * sizeof(S) > avail) return "accepted array has more elements than the input holds";
    std::string got((const char *) ni.data(), (size_t) n * sizeof(S));
    std::string raw = bytes.substr(at, (size_t) n * sizeof(S)), rev = npyref::reverse_items(raw, sizeof(S));
    bool good = verdict == npyref::GOOD_HEADER;
    if (good) {
        bool big = r.descr[0] == '>';
        if (r.shape.size() != ni.shape().size()) return "shape differs from the declared one";
        for (size_t i = 0; i < r.shape.size(); i++) if ((size_t) r.shape[i] != ni.shape()[i]) return "shape differs from the declared one";
        if (got != (big ? rev : raw)) return "elements differ from the stored ones";
        if (ni.fortran_contiguous() != r.fortran) return "memory order differs from the declared one";
    } else if (got != raw && got != rev) return "elements are not those of the input";
    // the conversion must be safe as well
    bool small = true;
    for (auto d : ni.shape()) if (d > 1000000) small = false;
    unsigned __int128 cols = 1;
    for (size_t i = 1; i < ni.shape().size(); i++) { cols *= ni.shape()[i]; if (cols > 1000000) small = false; }
    if (small) {
        Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> m = ni;
        if ((unsigned __int128) m.size() != n) return "matrix size differs from the shape's product";
    }
    return "";
}
#endif
