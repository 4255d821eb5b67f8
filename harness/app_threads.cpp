// linked into the applications: reports the number of threads they started when they end
#include "thread_count.hpp"
#include <cstdio>
#include <cstdlib>
namespace {
struct Report {
    ~Report() {
        const char *p = getenv("PBT_THREADS");
        if (!p) return;
        if (FILE *f = fopen(p, "w")) {
            fprintf(f, "%ld\n", (long) started_threads);
            fclose(f);
        }
    }
} report;
}
