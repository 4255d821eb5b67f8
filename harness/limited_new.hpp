// operator new that throws std::bad_alloc (as without sanitizers) instead of
// ending the process, for sizes no harness case needs.
#include <cstdlib>
#include <new>
static std::size_t alloc_limit = (std::size_t) 256 << 20;
static void *limited_alloc(std::size_t n) {
    if (n > alloc_limit) throw std::bad_alloc();
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(std::size_t n) { return limited_alloc(n); }
void *operator new[](std::size_t n) { return limited_alloc(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
