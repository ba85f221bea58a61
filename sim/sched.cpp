// Deterministic thread scheduler: real threads, parked and released one at a time.
#include "internal.hpp"

#include <cerrno>
#include <cstring>
#include <atomic>
#include <map>
#include <new>
#include <string>
#include <vector>

#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/syscall.h>

extern "C" {
    int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    int __real_pthread_join(pthread_t, void**);
    int __real_pthread_detach(pthread_t);
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
    int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    int __real_pthread_cond_signal(pthread_cond_t*);
    int __real_pthread_cond_broadcast(pthread_cond_t*);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __real_sched_yield();
    int __real_nanosleep(const struct timespec*, struct timespec*);
    int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
    int __real___cxa_guard_acquire(long long*);
    void __real___cxa_guard_release(long long*);
    void __real___cxa_guard_abort(long long*);
}

namespace sim {
using namespace internal;
namespace {

constexpr i64 never = INT64_MAX;

struct Thread {
    int id = 0;
    pthread_t real {};
    bool blocked = false;
    bool finished = false;
    bool joined = false;
    bool detached = false;
    bool (*pred)(void*) = nullptr;
    void* parg = nullptr;
    const char* what = "";
    i64 wake = never;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* retval = nullptr;
    int np = 0;
    std::atomic<int> go { 0 };
};

struct Mutex { Thread* owner; int depth; };
struct RwLock { Thread* writer = nullptr; int readers = 0; };
struct CondWaiter { const void* cond; bool signalled; Thread* t; };

struct Sched {
    std::vector<Thread*> threads;
    std::map<const void*, Mutex> mutexes;
    std::map<const void*, RwLock> rwlocks;
    std::vector<CondWaiter*> waiters;
    u64 switch_den = 3;
    bool preempt = false;
    u64 create_fail = 0;
    u64 spurious = 0;
};

bool on = false;
Sched* sc = nullptr;
Thread* cur = nullptr;
u64 n_switches = 0;
int base_np = 0;

// The system calls below can fail when the other thread gets there first, which must not be seen by the code that was preempted
struct SaveErrno { int e = errno; ~SaveErrno() { errno = e; } };

void futex_wait(std::atomic<int>& a)
{
    SaveErrno se;
    while (a.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a.store(0, std::memory_order_relaxed);
}
void futex_wake(std::atomic<int>& a)
{
    SaveErrno se;
    a.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool ready(Thread* t)
{
    if (t->finished) return false;
    if (!t->blocked) return true;
    if (t->wake != never && now_mono() >= t->wake) return true;
    return t->pred && t->pred(t->parg);
}

void draw_preempt()
{
    g_preempt_at = ~0ULL;
    if (sc->preempt && num_threads_alive() > 1) {
        switch (choose(5)) {
            case 0: break;
            case 1: g_preempt_at = g_blocks + 1 + choose(16); break;
            case 2: g_preempt_at = g_blocks + 1 + choose(128); break;
            case 3: g_preempt_at = g_blocks + 1 + choose(1024); break;
            default: g_preempt_at = g_blocks + 1 + choose(8192); break;
        }
    }
    g_block_event = g_preempt_at < g_block_limit ? g_preempt_at : g_block_limit;
}

void switch_to(Thread* t)
{
    if (t == cur)
        return;
    Thread* me = cur;
    ++n_switches;
    trace("  -> thread %d", t->id);
    cur = t;
    bool fin = me->finished;
    futex_wake(t->go);
    if (!fin) {
        futex_wait(me->go);
        draw_preempt();
    }
}

// Choose who runs next. The current thread may be blocked or finished.
void reschedule(bool must_switch)
{
    Thread* cand[64];
    for (;;) {
        std::size_t n = 0;
        if (!must_switch && ready(cur))
            cand[n++] = cur;
        for (Thread* t : sc->threads)
            if (t != cur && ready(t) && n < 64)
                cand[n++] = t;
        if (must_switch && n == 0 && ready(cur))
            return;
        if (n > 0) {
            Thread* t;
            if (cand[0] == cur && !cur->blocked) {
                // Voluntary scheduling point
                if (n == 1 || sc->switch_den == 0 || !chance(1, sc->switch_den))
                    return;
                t = cand[1 + choose(n - 1)];
            }
            else {
                t = cand[choose(n)];
            }
            switch_to(t);
            return;
        }
        // Nothing can run: advance time
        i64 w = never;
        for (Thread* t : sc->threads)
            if (!t->finished && t->blocked && t->wake < w)
                w = t->wake;
        if (w == never) {
            std::string s;
            for (Thread* t : sc->threads)
                if (!t->finished)
                    s += " thread " + std::to_string(t->id) + " waits for " + t->what + ";";
            fail("deadlock", "no thread can run:%s", s.c_str());
        }
        advance(w - now_mono());
    }
}

void block(bool (*pred)(void*), void* arg, i64 wake, const char* what)
{
    NoFault nf;
    Thread* me = cur;
    me->blocked = true;
    me->pred = pred;
    me->parg = arg;
    me->wake = wake;
    me->what = what;
    reschedule(false);
    me->blocked = false;
    me->pred = nullptr;
    me->wake = never;
}

void* thread_main(void* p)
{
    Thread* t = static_cast<Thread*>(p);
    futex_wait(t->go);
    draw_preempt();
    t->retval = t->fn(t->arg);
    {
        NoFault nf;
        trace("  thread %d ends", t->id);
        t->np = 1;
        t->finished = true;
        reschedule(true);
    }
    return nullptr;
}

bool mutex_free(void* m) { return sc->mutexes.count(m) == 0; }

void mutex_acquire(pthread_mutex_t* m)
{
    auto i = sc->mutexes.find(m);
    if (i != sc->mutexes.end()) {
        if (i->second.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) {
            ++i->second.depth;
            return;
        }
        count("probe.mutex_contended");
        block(&mutex_free, m, never, "a mutex");
    }
    NoFault nf;
    sc->mutexes[m] = Mutex { cur, 1 };
}
void mutex_release(pthread_mutex_t* m)
{
    auto i = sc->mutexes.find(m);
    if (i == sc->mutexes.end() || i->second.owner != cur)
        fail("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
    if (--i->second.depth == 0) {
        NoFault nf;
        sc->mutexes.erase(i);
    }
}

} // namespace

void internal::reset_sched()
{
    bool old = g_run_active;
    g_run_active = false;
    if (sc) {
        for (Thread* t : sc->threads) delete t;
        delete sc;
        sc = nullptr;
    }
    on = false;
    cur = nullptr;
    n_switches = 0;
    base_np = 0;
    g_run_active = old;
}

u64 num_switches() { return n_switches; }

void sched_begin()
{
    if (on) return;
    NoFault nf;
    sc = new Sched;
    Thread* t = new Thread;
    sc->threads.push_back(t);
    cur = t;
    t->np = base_np;
    on = true;
}

void sched_end()
{
    if (!on)
        return;
    for (Thread* t : sc->threads)
        if (t->id != 0 && !t->finished)
            fail("thread-leak", "thread %d was neither joined nor finished when the run ended", t->id);
    // Threads that were never joined nor detached
    for (Thread* t : sc->threads)
        if (t->id != 0 && !t->joined && !t->detached)
            fail("thread-leak", "thread %d was never joined", t->id);
    on = false;
    g_preempt_at = ~0ULL;
    g_block_event = g_block_limit;
}

int self() { return on ? cur->id : 0; }
void yield()
{
    if (!on) return;
    NoFault nf;
    reschedule(false);
}
void sleep_ns(i64 ns)
{
    if (ns < 0) ns = 0;
    if (!on) { advance(ns); return; }
    block(nullptr, nullptr, now_mono() + ns, "sleep");
}
void set_switch_rate(u64 den) { sched_begin(); sc->switch_den = den; }
void set_preempt(bool p) { sched_begin(); sc->preempt = p; }
void set_thread_create_failure(u64 nth) { sched_begin(); sc->create_fail = nth; }
void set_spurious_wakeups(u64 den) { sched_begin(); sc->spurious = den; }
u64 num_threads_alive()
{
    if (!on) return 1;
    u64 n = 0;
    for (Thread* t : sc->threads) if (!t->finished) ++n;
    return n;
}
void block_until(bool (*pred)(void*), void* arg, const char* what)
{
    if (pred(arg)) return;
    if (!on) fail("deadlock", "the only thread waits for ever for %s", what);
    block(pred, arg, never, what);
}
NoPreempt::NoPreempt() { if (on) ++cur->np; else ++base_np; }
NoPreempt::~NoPreempt() { if (on) --cur->np; else --base_np; }

void internal::sched_block_event()
{
    SaveErrno se;
    if (g_blocks >= g_block_limit) {
        block_event();
        return;
    }
    if (!on || g_blocks < g_preempt_at) {
        g_block_event = g_preempt_at < g_block_limit ? g_preempt_at : g_block_limit;
        return;
    }
    if (cur->np > 0) {
        g_preempt_at = g_blocks + 1; // as soon as possible
        g_block_event = g_preempt_at;
        return;
    }
    NoFault nf;
    count("probe.preemption");
    trace("  preempt thread %d", cur->id);
    Thread* me = cur;
    reschedule(true);
    if (cur == me)
        draw_preempt();
}

} // namespace sim

using namespace sim;

extern "C" {

int __wrap_pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!internal::g_run_active)
        return __real_pthread_create(p, a, fn, arg);
    sched_begin();
    Thread* t;
    {
        NoFault nf;
        if (sc->create_fail > 0 && --sc->create_fail == 0) {
            count("fault.thread_create_failure");
            trace("  pthread_create fails");
            return EAGAIN;
        }
        t = new Thread;
        t->id = int(sc->threads.size());
        t->fn = fn;
        t->arg = arg;
        sc->threads.push_back(t);
        int r = __real_pthread_create(&t->real, a, &thread_main, t);
        if (r != 0)
            harness_error("pthread_create failed: %d", r);
        *p = t->real;
        trace("  thread %d created", t->id);
        if (internal::g_preempt_at == ~0ULL)
            draw_preempt();
    }
    yield();
    return 0;
}
static Thread* find_thread(pthread_t p)
{
    for (std::size_t i = sc->threads.size(); i-- > 0;)
        if (pthread_equal(sc->threads[i]->real, p) && sc->threads[i]->id != 0 && !sc->threads[i]->joined)
            return sc->threads[i];
    return nullptr;
}
static bool is_finished(void* t) { return static_cast<Thread*>(t)->finished; }
int __wrap_pthread_join(pthread_t p, void** ret)
{
    if (!on) return __real_pthread_join(p, ret);
    Thread* t = find_thread(p);
    if (!t) fail("bad-join", "joining a thread that does not exist or was already joined");
    if (!t->finished)
        block(&is_finished, t, never, "a thread to join");
    t->joined = true;
    NoFault nf;
    int r = __real_pthread_join(p, nullptr);
    if (ret) *ret = t->retval;
    trace("  thread %d joined", t->id);
    return r;
}
int __wrap_pthread_detach(pthread_t p)
{
    if (!on) return __real_pthread_detach(p);
    Thread* t = find_thread(p);
    if (t) t->detached = true;
    return __real_pthread_detach(p);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_lock(m);
    yield();
    mutex_acquire(m);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_trylock(m);
    yield();
    auto i = sc->mutexes.find(m);
    if (i != sc->mutexes.end() && !(i->second.owner == cur && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP))
        return EBUSY;
    mutex_acquire(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on) return __real_pthread_mutex_unlock(m);
    mutex_release(m);
    yield();
    return 0;
}
static bool cond_ready(void* w) { return static_cast<CondWaiter*>(w)->signalled; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline)
{
    CondWaiter w { c, false, cur };
    {
        NoFault nf;
        sc->waiters.push_back(&w);
    }
    mutex_release(m);
    if (sc->spurious && chance(1, sc->spurious)) {
        count("fault.spurious_wakeup");
        yield();
    }
    else {
        block(&cond_ready, &w, deadline, "a condition variable");
    }
    for (std::size_t i = 0; i < sc->waiters.size(); ++i)
        if (sc->waiters[i] == &w) { sc->waiters.erase(sc->waiters.begin() + std::ptrdiff_t(i)); break; }
    mutex_acquire(m);
    return !w.signalled && deadline != never && now_mono() >= deadline ? ETIMEDOUT : 0;
}
static i64 to_ns(const struct timespec* ts)
{
    return i64(ts->tv_sec) * 1000000000 + ts->tv_nsec;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on) return __real_pthread_cond_wait(c, m);
    return cond_wait(c, m, never);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on) return __real_pthread_cond_timedwait(c, m, ts);
    return cond_wait(c, m, to_ns(ts) - now_real() + now_mono());
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts)
{
    if (!on) return __real_pthread_cond_clockwait(c, m, id, ts);
    return cond_wait(c, m, id == CLOCK_REALTIME ? to_ns(ts) - now_real() + now_mono() : to_ns(ts));
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    if (!on) return __real_pthread_cond_signal(c);
    std::vector<CondWaiter*> v;
    {
        NoFault nf;
        for (auto w : sc->waiters) if (w->cond == c && !w->signalled) v.push_back(w);
        if (!v.empty()) v[choose(v.size())]->signalled = true;
    }
    yield();
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on) return __real_pthread_cond_broadcast(c);
    for (auto w : sc->waiters) if (w->cond == c) w->signalled = true;
    yield();
    return 0;
}
static bool rw_can_read(void* p) { return static_cast<RwLock*>(p)->writer == nullptr; }
static bool rw_can_write(void* p) { auto l = static_cast<RwLock*>(p); return !l->writer && l->readers == 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!on) return __real_pthread_rwlock_rdlock(l);
    yield();
    RwLock* r;
    { NoFault nf; r = &sc->rwlocks[l]; }
    block_until(&rw_can_read, r, "a shared lock");
    ++r->readers;
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!on) return __real_pthread_rwlock_wrlock(l);
    yield();
    RwLock* r;
    { NoFault nf; r = &sc->rwlocks[l]; }
    block_until(&rw_can_write, r, "an exclusive lock");
    r->writer = cur;
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!on) return __real_pthread_rwlock_unlock(l);
    RwLock* r = &sc->rwlocks[l];
    if (r->writer == cur) r->writer = nullptr;
    else --r->readers;
    yield();
    return 0;
}
int __wrap_sched_yield()
{
    if (!on) return __real_sched_yield();
    yield();
    return 0;
}
int __wrap_nanosleep(const struct timespec* ts, struct timespec* rem)
{
    if (!internal::g_run_active) return __real_nanosleep(ts, rem);
    sleep_ns(to_ns(ts));
    return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec* rem)
{
    if (!internal::g_run_active) return __real_clock_nanosleep(id, flags, ts, rem);
    i64 t = to_ns(ts);
    if (flags & TIMER_ABSTIME) t -= id == CLOCK_REALTIME ? now_real() : now_mono();
    sleep_ns(t);
    return 0;
}

// Function-local statics: a thread may be preempted inside the initialiser.
static bool guard_free(void* g)
{
    volatile unsigned char* b = static_cast<volatile unsigned char*>(g);
    return b[0] || !b[1];
}
// What happens inside such an initialiser happens once per process, so it must not count:
// neither basic blocks, nor allocations.
static int static_depth = 0;
static u64 static_blocks = 0;
static NoFault* static_nf = nullptr;
alignas(NoFault) static unsigned char static_nf_mem[sizeof(NoFault)];
alignas(NoPreempt) static unsigned char static_np_mem[sizeof(NoPreempt)];
static void static_enter()
{
    if (!internal::g_run_active) return;
    if (static_depth++ == 0) {
        static_blocks = internal::g_blocks;
        static_nf = new (static_nf_mem) NoFault;
        new (static_np_mem) NoPreempt;
    }
}
static void static_leave()
{
    if (static_depth == 0) return;
    if (--static_depth == 0) {
        internal::g_blocks = static_blocks;
        reinterpret_cast<NoPreempt*>(static_np_mem)->~NoPreempt();
        static_nf->~NoFault();
    }
}
int __wrap___cxa_guard_acquire(long long* g)
{
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    if (b[0]) return 0;
    if (!on) {
        int r = __real___cxa_guard_acquire(g);
        if (r) static_enter();
        return r;
    }
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; static_enter(); return 1; }
        block(&guard_free, g, never, "a static initialiser");
    }
}
void __wrap___cxa_guard_release(long long* g)
{
    static_leave();
    if (!on) { __real___cxa_guard_release(g); return; }
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
    b[0] = 1;
}
void __wrap___cxa_guard_abort(long long* g)
{
    static_leave();
    if (!on) { __real___cxa_guard_abort(g); return; }
    volatile unsigned char* b = reinterpret_cast<volatile unsigned char*>(g);
    b[1] = 0;
}

} // extern "C"
