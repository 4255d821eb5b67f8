// Independent description of the .npy version 1 format (written from the
// numpy format document, not from the library).
#ifndef NPY_REF_HPP
#define NPY_REF_HPP
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace npyref {

struct Record {
    std::string descr;           // e.g. "<f8"
    bool fortran = false;
    std::vector<long long> shape;
    std::string payload;         // bytes as stored
    size_t size = 0;             // bytes of the whole record
};

inline size_t item_size(const std::string &descr) { return descr.size() == 3 ? descr[2] - '0' : 0; }

inline bool known_descr(const std::string &d) {
    if (d.size() != 3 || !d[0] || !strchr("<>|=", d[0])) return false;
    std::string t = d.substr(1);
    static const char *ok[] = {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"};
    for (auto o : ok) if (t == o) return true;
    return false;
}

// Parse a python dict literal {'descr': '..', 'fortran_order': .., 'shape': (..)}
// with arbitrary spacing; keys in the order the format requires (sorted).
struct HeaderParser {
    const std::string &s;
    size_t p = 0;
    explicit HeaderParser(const std::string &x) : s(x) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; }
    bool lit(const char *t) { ws(); size_t n = strlen(t); if (s.compare(p, n, t) == 0) { p += n; return true; } return false; }
    bool parse(Record &r) {
        if (!lit("{")) return false;
        if (!lit("'descr'") || !lit(":") || !lit("'")) return false;
        size_t q = s.find('\'', p);
        if (q == std::string::npos) return false;
        r.descr = s.substr(p, q - p);
        p = q + 1;
        if (!lit(",") || !lit("'fortran_order'") || !lit(":")) return false;
        if (lit("True")) r.fortran = true;
        else if (lit("False")) r.fortran = false;
        else return false;
        if (!lit(",") || !lit("'shape'") || !lit(":") || !lit("(")) return false;
        bool comma = true;
        r.shape.clear();
        while (true) {
            if (lit(")")) break;
            if (!comma) return false;
            ws();
            bool neg = false;
            if (p < s.size() && s[p] == '-') { neg = true; p++; }
            size_t b = p;
            long long v = 0;
            while (p < s.size() && isdigit((unsigned char) s[p]) && p - b < 18) v = v * 10 + (s[p++] - '0');
            if (p == b) return false;
            r.shape.push_back(neg ? -v : v);
            comma = lit(",");
        }
        if (r.shape.size() == 1 && !comma) return false;  // (5) is not a tuple
        lit(",");
        if (!lit("}")) return false;
        ws();
        return p + 1 == s.size() && s[p] == '\n';
    }
};

enum Verdict { BAD_PREFIX, BAD_HEADER, GOOD_HEADER };

// Parses the record at the start of `b`. On GOOD_HEADER the payload may still be short.
inline Verdict parse(const std::string &b, Record &r, size_t &data_at) {
    static const char magic[] = "\x93NUMPY";
    data_at = 0;
    if (b.size() < 10 || memcmp(b.data(), magic, 6) != 0 || b[6] != 1) return BAD_PREFIX;
    size_t hl = (unsigned char) b[8] | ((size_t)(unsigned char) b[9] << 8);
    if (b.size() < 10 + hl) return BAD_PREFIX;
    data_at = 10 + hl;
    std::string h = b.substr(10, hl);
    HeaderParser hp(h);
    return hp.parse(r) ? GOOD_HEADER : BAD_HEADER;
}

inline std::string reverse_items(std::string s, size_t item) {
    for (size_t i = 0; i + item <= s.size(); i += item) std::reverse(s.begin() + i, s.begin() + i + item);
    return s;
}

// What numpy writes
inline std::string write(const std::string &descr, bool fortran, const std::vector<long long> &shape,
                         const std::string &payload, int align = 64, int growth = 0, const char *suffix = "") {
    std::string h = "{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (";
    for (size_t i = 0; i < shape.size(); i++) {
        h += std::to_string(shape[i]) + suffix;       // numpy of Python 2 writes long integers as 3L
        if (shape.size() == 1) h += ",";
        else if (i + 1 < shape.size()) h += ", ";
    }
    h += "), }" + std::string(growth, ' ');
    while ((10 + h.size() + 1) % align) h += ' ';
    h += '\n';
    std::string o = std::string("\x93NUMPY\x01\x00", 8);
    o += (char) (h.size() & 255);
    o += (char) (h.size() >> 8);
    return o + h + payload;
}

} // namespace npyref
#endif
