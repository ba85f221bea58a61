// Deterministic simulation core: one choice source decides everything.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP

#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- choices
// Uniform choice in [0, n). 0 is always the simplest / least faulty alternative, because
// replay of an exhausted choice list yields 0 and minimisation moves choices towards 0.
u64 choose(u64 n);
// True with probability num/den.
bool chance(u64 num, u64 den);
// Continue a generated list? False is choice 0; expected length is about `avg`.
bool more(u64 avg);
// Integer in [lo, hi], biased to the low end and to the extremes.
u64 range(u64 lo, u64 hi);
template<class T> const T& pick(const std::vector<T>& v) { return v[choose(v.size())]; }
template<class T, std::size_t N> const T& pick(const T (&v)[N]) { return v[choose(N)]; }

// ---------------------------------------------------------------- event log
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Report a violation of the property being decided; never returns.
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// Something that violates a property other than the one being decided: the run is given up.
[[noreturn]] void give_up(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Harness error (never a violation).
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Count that something happened (fault kinds: "fault.xxx", rare conditions: "probe.xxx").
void count(const char* name, u64 n = 1);
// Note an abstract state that was reached.
void state(u64 hash);
struct NoTrace { NoTrace(); ~NoTrace(); };   // initialisation that takes place only once in a process
bool tracing();   // true when a human will read the trace
u64 mix(u64 a, u64 b);
u64 hash_bytes(const void* p, std::size_t n, u64 seed = 0);
std::string quote(std::string_view bytes, std::size_t max = 80);

// ---------------------------------------------------------------- scenarios
struct Scenario {
    const char* property;
    const char* name;
    void (*fn)();
    unsigned weight;
    unsigned flags;
    u64 block_limit;
};
enum : unsigned { f_leakcheck = 1, f_faults = 2, f_threads = 4 };
struct Register {
    Register(const char* property, const char* name, void (*fn)(), unsigned weight, unsigned flags,
             u64 block_limit = 20000000);
};
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SIM_SCENARIO(property, name, weight, ... /* flags, block limit */)                                 \
    static void SIM_CAT(scn_, __LINE__)();                                              \
    static ::sim::Register SIM_CAT(reg_, __LINE__)(property, name, &SIM_CAT(scn_, __LINE__), weight, __VA_ARGS__); \
    static void SIM_CAT(scn_, __LINE__)()
// Text put in the evidence file.
struct Info { Info(const char* property, const char* rule, std::vector<const char*> real, std::vector<const char*> stubs); };

// ---------------------------------------------------------------- faults: allocation
// Fail the n-th C++ allocation from now (1 = next). `persistent`: all later ones too.
void fail_alloc(u64 n, bool persistent = false);
void stop_alloc_faults();
bool alloc_fault_fired();
u64 alloc_seq();          // number of allocations attempted so far
i64 live_allocs();        // live C++ allocations
// Suspend injection (for model code).
struct NoFault { NoFault(); ~NoFault(); };
// Allocations can fail again, inside of a NoFault
struct AllowFault { AllowFault(); ~AllowFault(); int depth; };

// ---------------------------------------------------------------- clock
// Simulated time. Nanoseconds.
i64 now_mono();
i64 now_real();
void set_real(i64 ns);            // wall clock jump
void set_mono(i64 ns);
void advance(i64 ns);             // advances all clocks
void set_clock_drift_per_read(i64 ns); // each reading advances the clock by this much
void set_clock_failure(int err);  // 0: none. Otherwise the next reading fails
void set_cpu_times(i64 user_ns);
i64 simulated_ns_total();

// ---------------------------------------------------------------- threads
void sched_begin();      // start deciding schedules (the calling thread becomes thread 0)
void sched_end();        // all other threads must have finished
int  self();             // simulated thread id
void yield();            // scheduling point
void sleep_ns(i64 ns);
void set_switch_rate(u64 den);       // a scheduling point switches with probability 1/den (0: never)
void set_preempt(bool on);           // preempt between basic blocks
void set_thread_create_failure(u64 nth); // nth creation from now fails with EAGAIN
void set_spurious_wakeups(u64 den);
u64 num_threads_alive();
u64 num_switches();
struct NoPreempt { NoPreempt(); ~NoPreempt(); };
// A self-made lock whose waiters are scheduled (used by simulated devices)
void block_until(bool (*pred)(void*), void* arg, const char* what);

// ---------------------------------------------------------------- file system
namespace fs {
struct Config {
    u64 eintr = 0;       // 1 in n calls
    u64 short_io = 0;    // 1 in n transfers is short
    u64 io_error = 0;    // 1 in n calls fails with an error
    u64 open_error = 0;
    u64 seek_error = 0;
    u64 stat_error = 0;
    u64 lock_error = 0;
    u64 futimens_error = 0;
    u64 dir_error = 0;    // creation, removal and listing of directories and files
    u64 disk_capacity = ~0ULL; // total bytes, ENOSPC beyond
    bool reuse_fds = true;
    bool yield = false;  // every call is a scheduling point
};
extern Config config;
extern std::string cwd; // unless empty, relative paths are simulated too
void reset();
void put(const std::string& path, std::string contents);
bool exists(const std::string& path);
void remove(const std::string& path);
std::string get(const std::string& path);
void mkdir(const std::string& path);
bool is_dir(const std::string& path);
std::vector<std::string> list();  // all paths
void mkstream(const std::string& path);  // FIFO-like: not seekable
i64 mtime(const std::string& path);
u64 num_open();
u64 num_open(const std::string& path);
int fail_next(const char* call, int err); // one-shot failure of the named call
void remap_std(bool on);  // let fds 0,1,2 be simulated ("/sim/stdin" ...)
struct OpenInfo { int fd; std::string path; int flags; };
std::vector<OpenInfo> list_open();
u64 calls();              // number of simulated system calls so far
extern int last_error;    // error of the last failed call (injected or not)
extern u64 n_errors;      // number of failed calls (excluding EINTR)
extern u64 n_eintr;
extern u64 n_dir_faults[64];  // injected by dir_error, by thread (modulo 64)
}

} // namespace sim
#endif
