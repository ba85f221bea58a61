#include "internal.hpp"
#include <cstdlib>
#include <execinfo.h>
#include <map>
#include <new>
#include <vector>

namespace sim {
using namespace internal;
namespace {
u64 g_seq = 0;
i64 g_live = 0;
u64 g_fail_at = 0;     // 0: off
bool g_persistent = false;
bool g_fired = false;
thread_local int g_nofault = 0;

// Debugging aid (environment variable SIM_LEAKS): where live allocations came from
template<class T> struct RawAlloc {
    using value_type = T;
    RawAlloc() = default;
    template<class U> RawAlloc(const RawAlloc<U>&) {}
    T* allocate(std::size_t n) { return static_cast<T*>(std::malloc(n * sizeof(T))); }
    void deallocate(T* p, std::size_t) { std::free(p); }
    bool operator==(const RawAlloc&) const { return true; }
};
struct Origin {
    void* frames[24];
    int n;
    std::size_t size;
};
using Origins = std::map<void*, Origin, std::less<void*>, RawAlloc<std::pair<void* const, Origin>>>;
Origins* g_origins = nullptr;
bool g_log_origins = false;
void log_origin(void* p, std::size_t size)
{
    Origin o;
    o.n = ::backtrace(o.frames, 24);
    o.size = size;
    (*g_origins)[p] = o;
}

bool should_fail(std::size_t size)
{
    if (!g_run_active || g_nofault > 0)
        return false;
    ++g_seq;
    if (__builtin_expect(g_fail_at != 0, 0)) {
        if (g_seq == g_fail_at || (g_persistent && g_seq > g_fail_at)) {
            g_fired = true;
            count("fault.alloc_failure");
            trace("  alloc failure (%zu bytes)", size);
            return true;
        }
    }
    return false;
}

void* alloc(std::size_t size, bool& failed)
{
    failed = false;
    if (should_fail(size)) {
        failed = true;
        return nullptr;
    }
    void* p = std::malloc(size ? size : 1);
    if (!p) {
        failed = true;
        return nullptr;
    }
    __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
    if (__builtin_expect(g_log_origins, 0))
        log_origin(p, size);
    return p;
}
void dealloc(void* p)
{
    if (p) {
        __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED);
        if (__builtin_expect(g_log_origins, 0))
            g_origins->erase(p);
        std::free(p);
    }
}
void* alloc_al(std::size_t size, std::size_t al, bool& failed)
{
    failed = false;
    if (should_fail(size)) {
        failed = true;
        return nullptr;
    }
    void* p = nullptr;
    if (posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, size ? size : 1) != 0) {
        failed = true;
        return nullptr;
    }
    __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED);
    if (__builtin_expect(g_log_origins, 0))
        log_origin(p, size);
    return p;
}
} // namespace

void internal::reset_alloc()
{
    g_fail_at = 0;
    g_persistent = false;
    g_fired = false;
    g_seq = 0;
    g_nofault = 0;
}
void internal::log_leaks(bool begin)
{
    if (!std::getenv("SIM_LEAKS"))
        return;
    if (begin) {
        g_origins = ::new (std::malloc(sizeof(Origins))) Origins();
        g_log_origins = true;
        return;
    }
    g_log_origins = false;
    ::dprintf(9, "%zu live allocations\n", g_origins->size());
    for (auto& e : *g_origins) {
        ::dprintf(9, "leaked %zu bytes:\n", e.second.size);
        ::backtrace_symbols_fd(e.second.frames, e.second.n, 9);
    }
}
void fail_alloc(u64 n, bool persistent)
{
    g_fail_at = n == 0 ? 0 : g_seq + n;
    g_persistent = persistent;
    g_fired = false;
}
void stop_alloc_faults() { g_fail_at = 0; g_persistent = false; }
bool alloc_fault_fired() { return g_fired; }
u64 alloc_seq() { return g_seq; }
i64 live_allocs() { return __atomic_load_n(&g_live, __ATOMIC_RELAXED); }
NoFault::NoFault() { ++g_nofault; }
NoFault::~NoFault() { --g_nofault; }
AllowFault::AllowFault() : depth(int(g_nofault)) { g_nofault = 0; }
AllowFault::~AllowFault() { g_nofault = depth; }
} // namespace sim

void* operator new(std::size_t n)
{
    bool f;
    void* p = sim::alloc(n, f);
    if (f) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n)
{
    bool f;
    void* p = sim::alloc(n, f);
    if (f) throw std::bad_alloc();
    return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { bool f; return sim::alloc(n, f); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { bool f; return sim::alloc(n, f); }
void* operator new(std::size_t n, std::align_val_t al)
{
    bool f;
    void* p = sim::alloc_al(n, std::size_t(al), f);
    if (f) throw std::bad_alloc();
    return p;
}
void* operator new[](std::size_t n, std::align_val_t al)
{
    bool f;
    void* p = sim::alloc_al(n, std::size_t(al), f);
    if (f) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { sim::dealloc(p); }
void operator delete[](void* p) noexcept { sim::dealloc(p); }
void operator delete(void* p, std::size_t) noexcept { sim::dealloc(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::dealloc(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::dealloc(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::dealloc(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::dealloc(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::dealloc(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::dealloc(p); }

// For C libraries whose references to the allocation functions are redirected (see check.py).
extern "C" {
void* sim_malloc(std::size_t n) { bool f; return sim::alloc(n, f); }
void sim_free(void* p) { sim::dealloc(p); }
void* sim_calloc(std::size_t n, std::size_t m)
{
    std::size_t k;
    if (__builtin_mul_overflow(n, m, &k)) return nullptr;
    bool f;
    void* p = sim::alloc(k, f);
    if (p) __builtin_memset(p, 0, k);
    return p;
}
void* sim_realloc(void* p, std::size_t n)
{
    if (!p) return sim_malloc(n);
    if (sim::should_fail(n)) return nullptr;
    return std::realloc(p, n);
}
}
