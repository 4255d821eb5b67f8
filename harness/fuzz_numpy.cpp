// libFuzzer target for C03: first byte selects the requested type
#include "npy_oracle.hpp"
#include "limited_new.hpp"
#include <cstdio>
#include <cstdlib>
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (!size) return 0;
    std::string b((const char *) data + 1, size - 1), outcome, err;
    switch (data[0] % 10) {
        case 0: err = read_any<double>(b, &outcome); break;
        case 1: err = read_any<float>(b, &outcome); break;
        case 2: err = read_any<int32_t>(b, &outcome); break;
        case 3: err = read_any<int64_t>(b, &outcome); break;
        case 4: err = read_any<int16_t>(b, &outcome); break;
        case 5: err = read_any<int8_t>(b, &outcome); break;
        case 6: err = read_any<uint8_t>(b, &outcome); break;
        case 7: err = read_any<uint16_t>(b, &outcome); break;
        case 8: err = read_any<uint32_t>(b, &outcome); break;
        default: err = read_any<uint64_t>(b, &outcome); break;
    }
    if (!err.empty()) { fprintf(stderr, "runtime error: %s\n", err.c_str()); abort(); }
    return 0;
}
