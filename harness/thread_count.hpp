// Counts the threads a program starts through std::thread, by interposing the function of libstdc++ that starts them.
#pragma once
#include <atomic>
#include <dlfcn.h>
#define START_THREAD "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"
static std::atomic<long> started_threads(0);
extern "C" __attribute__((visibility("default"), used)) void count_start_thread(void *self, void *state, void *depend) __asm__(START_THREAD);
extern "C" void count_start_thread(void *self, void *state, void *depend) {
    typedef void (*F)(void *, void *, void *);
    static F next = (F) dlsym(RTLD_NEXT, START_THREAD);
    started_threads++;
    next(self, state, depend);
}
