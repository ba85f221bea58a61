#include "internal.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>

extern "C" {
    int __real_open(const char*, int, ...);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    int __real_close(int);
    int __real_clock_gettime(clockid_t, struct timespec*);
    int __real_nanosleep(const struct timespec*, struct timespec*);
}

namespace sim {
using namespace internal;

namespace internal {
bool g_run_active = false;
u64 g_blocks = 0;
u64 g_block_event = ~0ULL;
u64 g_block_limit = ~0ULL;
u64 g_preempt_at = ~0ULL;
}

namespace {

constexpr std::size_t max_choices = 1u << 18;
constexpr std::size_t max_counters = 192;
constexpr std::size_t max_hashes = 1u << 22;

struct Counter { char name[56]; u64 n; };

// Shared between coordinator and one worker
struct Slot {
    volatile u64 index;         // run in progress
    volatile u64 runs;          // finished runs
    volatile i64 sim_ns;
    volatile u64 blocks;
    volatile u64 switches;
    volatile int outcome;       // 0 running, 1 violation recorded, 2 batch done, 3 harness error
    char key[128];
    char msg[4096];
    volatile u64 hash;
    volatile u64 num_choices;
    Counter counters[max_counters];
    volatile u64 num_hashes;
    volatile u64 num_states;
    volatile u64 pcs[1 << 12];  // bitmap of 2^18 basic block hashes
    u64 choices[max_choices];
    u64 hashes[max_hashes];
    u64 states[max_hashes];
};

Slot* slot = nullptr;

u64 rng_state = 0;
bool replay_mode = false;
const u64* replay_choices = nullptr;
u64 replay_n = 0;
u64 trace_hash = 0;
u64 trace_lines = 0;
int trace_fd = -1;
std::string* trace_capture = nullptr;
const char* const foreign_key = "~foreign";
bool quiet_run = false; // do not record choices

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct InfoRec { std::string property, rule; std::vector<std::string> real, stubs; };
std::vector<InfoRec>& infos() { static std::vector<InfoRec> v; return v; }

u64 splitmix(u64& s)
{
    u64 z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

double wall()
{
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

void write_all(int fd, const char* p, std::size_t n)
{
    while (n > 0) {
        ssize_t r = __real_write(fd, p, n);
        if (r <= 0) break;
        p += r;
        n -= std::size_t(r);
    }
}

} // namespace

void internal::append_line(const char* s)
{
    if (trace_fd != -1) {
        write_all(trace_fd, s, std::strlen(s));
        write_all(trace_fd, "\n", 1);
    }
    if (trace_capture && trace_capture->size() < 4000) {
        trace_capture->append(s);
        trace_capture->push_back('\n');
    }
}

void internal::add_simulated(i64 ns) { if (slot) slot->sim_ns = slot->sim_ns + ns; }

u64 mix(u64 a, u64 b)
{
    u64 s = a ^ (b * 0xD6E8FEB86659FD93ULL + 0x2545F4914F6CDD1DULL);
    return splitmix(s);
}

u64 hash_bytes(const void* p, std::size_t n, u64 seed)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    u64 h = 1469598103934665603ULL ^ seed;
    for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return mix(h, n);
}

u64 choose(u64 n)
{
    if (n <= 1)
        return 0;
    u64 v;
    u64 pos = slot->num_choices;
    if (replay_mode) {
        v = pos < replay_n ? replay_choices[pos] % n : 0;
    }
    else {
        v = splitmix(rng_state) % n;
    }
    if (pos >= max_choices)
        harness_error("too many choices in one run");
    slot->choices[pos] = v;
    slot->num_choices = pos + 1;
    trace_hash = (trace_hash ^ (v + 0x9E37)) * 1099511628211ULL;
    return v;
}

bool chance(u64 num, u64 den)
{
    if (num == 0)
        return false;
    // choice 0 must be "false"
    u64 v = choose(den);
    return v >= den - num && (v != 0 || num >= den);
}

bool more(u64 avg) { return choose(avg + 1) != 0; }

u64 range(u64 lo, u64 hi)
{
    if (hi <= lo)
        return lo;
    u64 span = hi - lo;
    switch (choose(6)) {
        case 0: return lo + choose(std::min<u64>(span, 3) + 1);
        case 1: return lo + choose(std::min<u64>(span, 16) + 1);
        case 2: return hi - choose(std::min<u64>(span, 3) + 1);
        default: return lo + choose(span + 1);
    }
}

bool tracing() { return trace_fd != -1; }

static bool trace_suspended = false;
NoTrace::NoTrace() { trace_suspended = true; }
NoTrace::~NoTrace() { trace_suspended = false; }

void trace(const char* fmt, ...)
{
    if (trace_suspended)
        return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    std::size_t m = std::min<std::size_t>(std::size_t(n), sizeof buf - 1);
    trace_hash = hash_bytes(buf, m, trace_hash);
    ++trace_lines;
    if (trace_fd != -1 || trace_capture)
        append_line(buf);
}

void fail(const char* key, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    std::snprintf(slot->key, sizeof slot->key, "%s", key);
    slot->hash = trace_hash;
    slot->outcome = 1;
    if (trace_fd != -1) {
        append_line((std::string("VIOLATED [") + key + "] " + slot->msg).c_str());
    }
    _exit(42);
}

void give_up(const char* fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fail(foreign_key, "%s", buf);
}

void harness_error(const char* fmt, ...)
{
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (slot) {
        std::snprintf(slot->msg, sizeof slot->msg, "harness error: %s", buf);
        slot->outcome = 3;
    }
    write_all(2, "HARNESS ERROR: ", 15);
    write_all(2, buf, std::strlen(buf));
    write_all(2, "\n", 1);
    _exit(3);
}

void count(const char* name, u64 n)
{
    if (quiet_run)
        return;
    // Linear probing in the shared table
    u64 h = hash_bytes(name, std::strlen(name));
    for (std::size_t i = 0; i < max_counters; ++i) {
        Counter& c = slot->counters[(h + i) % max_counters];
        if (c.name[0] == '\0')
            std::snprintf(c.name, sizeof c.name, "%s", name);
        if (std::strncmp(c.name, name, sizeof c.name - 1) == 0) {
            c.n += n;
            return;
        }
    }
}

namespace { std::unordered_set<u64>* seen_states = nullptr; }

void state(u64 hash)
{
    if (quiet_run || !seen_states)
        return;
    bool old = internal::g_run_active;
    internal::g_run_active = false; // do not account these allocations
    if (slot->num_states < max_hashes && seen_states->insert(hash).second) {
        slot->states[slot->num_states] = hash;
        slot->num_states = slot->num_states + 1;
    }
    internal::g_run_active = old;
}

std::string quote(std::string_view s, std::size_t max)
{
    std::string r = "\"";
    std::size_t n = std::min(s.size(), max);
    for (std::size_t i = 0; i < n; ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        char b[8];
        if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else if (c == '\\' || c == '"') { r += '\\'; r += char(c); }
        else if (c >= 32 && c < 127) r += char(c);
        else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += "\"";
    if (n < s.size())
        r += "...(" + std::to_string(s.size()) + ")";
    return r;
}

Register::Register(const char* property, const char* name, void (*fn)(), unsigned weight, unsigned flags, u64 limit)
{
    scenarios().push_back({ property, name, fn, weight, flags, limit });
}

Info::Info(const char* property, const char* rule, std::vector<const char*> real, std::vector<const char*> stubs)
{
    InfoRec r;
    r.property = property;
    r.rule = rule;
    for (auto s : real) r.real.push_back(s);
    for (auto s : stubs) r.stubs.push_back(s);
    infos().push_back(r);
}

// ---------------------------------------------------------------- basic blocks

void internal::block_event()
{
    if (g_blocks >= g_block_limit) {
        g_block_event = ~0ULL;
        fail("no-progress", "the run executed %llu basic blocks without finishing (livelock or endless loop)",
             static_cast<unsigned long long>(g_blocks));
    }
}

} // namespace sim


extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc()
{
    using namespace sim::internal;
    if (__builtin_expect(!g_run_active, 0))
        return;
    u_int64_t pc = reinterpret_cast<u_int64_t>(__builtin_return_address(0));
    u_int64_t h = ((pc >> 2) ^ (pc >> 20)) & 0x3ffff;
    sim::slot->pcs[h >> 6] = sim::slot->pcs[h >> 6] | (1ULL << (h & 63));
    if (__builtin_expect(++g_blocks >= g_block_event, 0))
        sched_block_event();
}

// Stores to memory that other threads can get at are preemption points, too, such that updates can be lost when they are neither
// atomic nor protected by a lock.
namespace {
__attribute__((no_sanitize_address)) inline void on_store(const void* p)
{
    using namespace sim::internal;
    if (!g_run_active) return;
    if (u_int64_t(p) - (u_int64_t(__builtin_frame_address(0)) - 4096) < 0x10000) return; // on the stack
    if (__builtin_expect(++g_blocks >= g_block_event, 0))
        sched_block_event();
}
}
extern "C" {
__attribute__((no_sanitize_address)) void __sanitizer_cov_store1(const void* p) { on_store(p); }
__attribute__((no_sanitize_address)) void __sanitizer_cov_store2(const void* p) { on_store(p); }
__attribute__((no_sanitize_address)) void __sanitizer_cov_store4(const void* p) { on_store(p); }
__attribute__((no_sanitize_address)) void __sanitizer_cov_store8(const void* p) { on_store(p); }
__attribute__((no_sanitize_address)) void __sanitizer_cov_store16(const void* p) { on_store(p); }
}

namespace sim {
namespace {

// ---------------------------------------------------------------- execution

u64 base_seed = 1;
std::string property;
std::vector<const Scenario*> active;  // scenarios of this property, repeated by weight
bool no_leak_check = false;

u64 run_seed(u64 index)
{
    return mix(mix(base_seed, hash_bytes(property.data(), property.size())), index);
}

struct RunResult { u64 hash; };

void init_run_state(const Scenario& s)
{
    slot->num_choices = 0;
    trace_hash = hash_bytes(s.name, std::strlen(s.name));
    trace_lines = 0;
    fs::reset();
    reset_clock();
    reset_alloc();
    reset_sched();
    g_blocks = 0;
    g_block_limit = s.block_limit;
    g_preempt_at = ~0ULL;
    g_block_event = g_block_limit;
}

void exec_once(const Scenario& s)
{
    init_run_state(s);
    g_run_active = true;
    s.fn();
    g_run_active = false;
    stop_alloc_faults();
    sched_end();
    slot->blocks = slot->blocks + g_blocks;
    slot->switches = slot->switches + num_switches();
}

// Runs with generated choices; leaves hash in trace_hash
void exec_generated(const Scenario& s, u64 seed)
{
    replay_mode = false;
    rng_state = seed;
    i64 live0 = live_allocs();
    exec_once(s);
    i64 live1 = live_allocs();
    if ((s.flags & f_leakcheck) != 0 && live1 > live0 && !no_leak_check) {
        // Lazily initialised statics also show up here, but only once.
        static std::vector<u64> copy;
        u64 n = slot->num_choices;
        copy.assign(slot->choices, slot->choices + n);
        u64 h = trace_hash;
        for (int i = 0; i < 2; ++i) {
            i64 a = live_allocs();
            replay_mode = true;
            replay_choices = copy.data();
            replay_n = n;
            quiet_run = true;
            int old_fd = trace_fd; trace_fd = -1;
            exec_once(s);
            trace_fd = old_fd;
            quiet_run = false;
            replay_mode = false;
            i64 b = live_allocs();
            if (b <= a) {
                trace_hash = h;
                return;
            }
            if (i == 1)
                fail("leak", "%lld allocation(s) are never freed", static_cast<long long>(b - a));
        }
    }
}

void exec_replay(const Scenario& s, const std::vector<u64>& c)
{
    replay_mode = true;
    replay_choices = c.data();
    replay_n = c.size();
    i64 live0 = live_allocs();
    exec_once(s);
    u64 h = trace_hash;
    i64 live1 = live_allocs();
    if ((s.flags & f_leakcheck) != 0 && live1 > live0 && !no_leak_check) {
        std::vector<u64> eff(slot->choices, slot->choices + slot->num_choices);
        replay_choices = eff.data();
        replay_n = eff.size();
        for (int i = 0; i < 2; ++i) {
            i64 a = live_allocs();
            if (i == 1)
                log_leaks(true);
            quiet_run = true;
            int old_fd = trace_fd; trace_fd = -1;
            exec_once(s);
            trace_fd = old_fd;
            quiet_run = false;
            if (i == 1)
                log_leaks(false);
            i64 b = live_allocs();
            if (b <= a) {
                trace_hash = h;
                return;
            }
            if (i == 1)
                fail("leak", "%lld allocation(s) are never freed", static_cast<long long>(b - a));
        }
    }
    trace_hash = h;
}

// ---------------------------------------------------------------- worker

void redirect_stderr(const char* path)
{
    int fd = __real_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd != -1) {
        dup2(fd, 2);
        __real_close(fd);
    }
}

void child_setup(const char* stderr_path)
{
    redirect_stderr(stderr_path);
    int fd = __real_open("/dev/null", O_RDWR);
    if (fd != -1) {
        dup2(fd, 0);
        dup2(fd, 1);
        if (fd > 2) __real_close(fd);
    }
}

[[noreturn]] void worker(u64 start, u64 stride, u64 limit, double deadline)
{
    static std::unordered_set<u64> seen;
    static std::unordered_set<u64> states;
    seen_states = &states;
    u64 i = start;
    while (i < limit && wall() < deadline) {
        slot->index = i;
        const Scenario& s = *active[i % active.size()];
        exec_generated(s, run_seed(i));
        if (trace_lines >= 3 && slot->num_hashes < max_hashes && seen.insert(trace_hash).second) {
            slot->hashes[slot->num_hashes] = trace_hash;
            slot->num_hashes = slot->num_hashes + 1;
        }
        slot->runs = slot->runs + 1;
        i += stride;
    }
    slot->index = i;
    slot->outcome = 2;
    _exit(0);
}

Slot* new_slot()
{
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<Slot*>(p);
}

std::string read_file(const std::string& path, std::size_t max)
{
    std::string r;
    int fd = __real_open(path.c_str(), O_RDONLY);
    if (fd == -1)
        return r;
    char buf[4096];
    while (r.size() < max) {
        ssize_t n = __real_read(fd, buf, sizeof buf);
        if (n <= 0) break;
        r.append(buf, std::size_t(n));
    }
    __real_close(fd);
    return r;
}

std::string json_escape(const std::string& s)
{
    std::string r;
    for (char c_ : s) {
        unsigned char c = static_cast<unsigned char>(c_);
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}

// Interpret how a child ended. Returns violation key or empty.
struct Ended { bool violation = false; bool error = false; std::string key, msg; u64 hash = 0; std::vector<u64> choices; };

std::string crash_kind(const std::string& err, int status)
{
    std::size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        p += 25;
        std::size_t q = err.find_first_of(" \n", p);
        return "crash:" + err.substr(p, q - p);
    }
    if (err.find("runtime error:") != std::string::npos)
        return "crash:undefined-behaviour";
    if (WIFSIGNALED(status))
        return "crash:signal-" + std::to_string(WTERMSIG(status));
    return "crash:exit-" + std::to_string(WEXITSTATUS(status));
}

Ended interpret(Slot* s, int status, bool timed_out, const std::string& err_path)
{
    Ended e;
    e.choices.assign(s->choices, s->choices + s->num_choices);
    if (timed_out) {
        e.violation = true;
        e.key = "no-progress";
        e.msg = "the run did not finish (blocked or endless loop)";
        return e;
    }
    if (s->outcome == 1) {
        e.violation = true;
        e.key = s->key;
        e.msg = s->msg;
        e.hash = s->hash;
        return e;
    }
    if (s->outcome == 3) {
        e.error = true;
        e.msg = s->msg;
        return e;
    }
    if (s->outcome == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0)
        return e;
    std::string err = read_file(err_path, 6000);
    e.violation = true;
    e.key = crash_kind(err, status);
    e.msg = "the process died: " + e.key + "\n" + err.substr(0, 3000);
    return e;
}

std::string work_dir;

// Run a choice list in a forked child; text trace optionally to file
Ended try_choices(const Scenario& s, const std::vector<u64>& c, const char* trace_path, double timeout = 20)
{
    static Slot* sl = new_slot();
    sl->outcome = 0;
    sl->num_choices = 0;
    sl->key[0] = sl->msg[0] = '\0';
    sl->num_hashes = sl->num_states = 0;
    std::string err_path = work_dir + "/child.err";
    pid_t pid = fork();
    if (pid == 0) {
        slot = sl;
        child_setup(err_path.c_str());
        if (trace_path)
            trace_fd = __real_open(trace_path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        exec_replay(s, c);
        sl->hash = trace_hash;
        sl->outcome = 2;
        _exit(0);
    }
    double end = wall() + timeout;
    int status = 0;
    bool timed_out = false;
    int spins = 0;
    while (true) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid)
            break;
        if (wall() > end) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            timed_out = true;
            break;
        }
        struct timespec ts = { 0, spins < 100 ? 100000 : 2000000 };
        ++spins;
        __real_nanosleep(&ts, nullptr);
    }
    Ended e = interpret(sl, status, timed_out, err_path);
    if (!e.violation && !e.error)
        e.hash = sl->hash;
    return e;
}

std::string key_class(const std::string& k)
{
    return k.substr(0, k.find(':'));
}

std::vector<u64> minimise(const Scenario& s, std::vector<u64> best, const std::string& key, double budget, u64& tries)
{
    double end = wall() + budget;
    std::string cls = key_class(key);
    auto test = [&](const std::vector<u64>& c) {
        ++tries;
        Ended e = try_choices(s, c, nullptr, 20);
        if (e.violation && key_class(e.key) == cls) {
            // Effective choices may be shorter
            std::vector<u64> eff = e.choices;
            while (!eff.empty() && eff.back() == 0) eff.pop_back();
            best = (eff.size() <= c.size()) ? eff : c;
            return true;
        }
        return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && wall() < end) {
        progress = false;
        // Truncate
        for (std::size_t cut = best.size() / 2; cut >= 1 && wall() < end; cut /= 2) {
            while (best.size() >= cut && wall() < end) {
                std::vector<u64> c(best.begin(), best.end() - std::ptrdiff_t(cut));
                std::size_t old = best.size();
                if (!test(c) || best.size() >= old) break;
                progress = true;
            }
        }
        // Delete chunks
        for (std::size_t len = std::min<std::size_t>(best.size(), 64); len >= 1 && wall() < end; len = len > 8 ? len / 2 : len - 1) {
            std::size_t i = 0;
            while (i + len <= best.size() && wall() < end) {
                std::vector<u64> c = best;
                c.erase(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + len));
                std::size_t old = best.size();
                if (test(c) && best.size() < old) progress = true;
                else i += (len > 4 ? len / 2 : 1);
            }
        }
        // Zero and lower values
        for (std::size_t i = 0; i < best.size() && wall() < end; ++i) {
            if (i < best.size() && best[i] != 0) {
                u64 orig = best[i];
                std::vector<u64> c = best;
                c[i] = 0;
                if (test(c)) { progress = true; continue; }
                u64 lo = 0, hi = orig;
                int guard = 0;
                while (i < best.size() && lo + 1 < hi && wall() < end && ++guard < 20) {
                    u64 m = lo + (hi - lo) / 2;
                    c = best;
                    c[i] = m;
                    if (test(c)) { hi = m; progress = true; }
                    else lo = m;
                }
            }
        }
    }
    return best;
}

// ---------------------------------------------------------------- main modes

struct Args {
    std::string tier = "quick";
    double budget = 20;
    u64 max_runs = ~0ULL;
    unsigned jobs = 8;
    std::string out, replay_out, replay_in, hashes_in, known, only;
    u64 from = 0;
};

std::vector<std::string> known_keys; // "scenario-independent" violation keys listed as known findings

const Scenario* find_scenario(const std::string& name)
{
    for (auto& s : scenarios())
        if (property == s.property && name == s.name)
            return &s;
    return nullptr;
}

bool load_replay(const std::string& path, std::string& scn, std::vector<u64>& choices, std::string& key)
{
    std::string text = read_file(path, 1u << 24);
    auto field = [&](const char* name) -> std::string {
        std::string k = std::string("\"") + name + "\": \"";
        std::size_t p = text.find(k);
        if (p == std::string::npos) return "";
        p += k.size();
        return text.substr(p, text.find('"', p) - p);
    };
    scn = field("scenario");
    key = field("key");
    std::size_t p = text.find("\"choices\": [");
    if (p == std::string::npos)
        return false;
    p += 12;
    std::size_t q = text.find(']', p);
    std::string list = text.substr(p, q - p);
    const char* c = list.c_str();
    while (*c) {
        while (*c == ' ' || *c == ',' || *c == '\n') ++c;
        if (!*c) break;
        char* e = nullptr;
        choices.push_back(std::strtoull(c, &e, 10));
        if (e == c) break;
        c = e;
    }
    return true;
}

int do_replay(const Args& a)
{
    std::string scn, key;
    std::vector<u64> choices;
    if (!load_replay(a.replay_in, scn, choices, key))
        return 3;
    const Scenario* s = find_scenario(scn);
    if (!s)
        return 3;
    std::string tp = work_dir + "/replay.trace";
    Ended e = try_choices(*s, choices, tp.c_str(), 60);
    std::string t = read_file(tp, 1u << 20);
    std::printf("%s", t.c_str());
    if (e.error) {
        std::printf("ERROR %s\n", e.msg.c_str());
        return 3;
    }
    std::printf("HASH %016llx\n", static_cast<unsigned long long>(e.hash));
    if (e.violation) {
        std::printf("KEY %s\nMESSAGE %s\n", e.key.c_str(), e.msg.c_str());
        return 1;
    }
    std::printf("KEY -\n");
    return 0;
}

// Recompute hashes of runs in this (fresh) process
int do_hashes(const Args& a)
{
    slot = new_slot();
    const char* p = a.hashes_in.c_str();
    std::string out;
    int saved = dup(1);
    child_setup((work_dir + "/hashes.err").c_str());
    no_leak_check = false;
    std::vector<u64> list;
    while (*p) {
        char* e = nullptr;
        u64 i = std::strtoull(p, &e, 10);
        if (e == p) break;
        p = e;
        while (*p == ',') ++p;
        list.push_back(i);
    }
    // Continue in a new process after a run that ends with a known finding
    slot->index = 0;
    while (slot->index < list.size()) {
        pid_t pid = fork();
        if (pid == 0) {
            while (slot->index < list.size()) {
                u64 i = list[slot->index];
                const Scenario& s = *active[i % active.size()];
                exec_generated(s, run_seed(i));
                char b[64];
                std::snprintf(b, sizeof b, "%llu %016llx%s\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(trace_hash), trace_lines < 3 ? " short" : "");
                write_all(saved, b, std::strlen(b));
                slot->index = slot->index + 1;
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 42) _exit(3);
        char b[64];
        std::snprintf(b, sizeof b, "%llu %016llx short\n", static_cast<unsigned long long>(list[slot->index]), static_cast<unsigned long long>(slot->hash));
        write_all(saved, b, std::strlen(b));
        slot->index = slot->index + 1;
    }
    _exit(0);
}

std::string exec_self(const std::vector<std::string>& args, int& status)
{
    int pfd[2];
    if (pipe(pfd) != 0) std::exit(3);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(pfd[1], 1);
        __real_close(pfd[0]);
        __real_close(pfd[1]);
        std::vector<char*> av;
        for (auto& x : args) av.push_back(const_cast<char*>(x.c_str()));
        av.push_back(nullptr);
        execv("/proc/self/exe", av.data());
        _exit(127);
    }
    __real_close(pfd[1]);
    std::string r;
    char buf[4096];
    for (;;) {
        ssize_t n = __real_read(pfd[0], buf, sizeof buf);
        if (n <= 0) break;
        r.append(buf, std::size_t(n));
    }
    __real_close(pfd[0]);
    waitpid(pid, &status, 0);
    return r;
}

int coordinator(const Args& a)
{
    double t0 = wall();
    double deadline = t0 + a.budget;
    unsigned jobs = a.jobs;
    std::vector<Slot*> slots;
    std::vector<pid_t> pids(jobs, -1);
    std::vector<double> last_progress(jobs, 0);
    std::vector<u64> last_index(jobs, ~0ULL);
    std::vector<u64> last_runs(jobs, 0);
    std::vector<std::string> errs;
    for (unsigned j = 0; j < jobs; ++j) {
        slots.push_back(new_slot());
        errs.push_back(work_dir + "/worker" + std::to_string(j) + ".err");
    }
    auto start = [&](unsigned j, u64 from) {
        slots[j]->outcome = 0;
        pid_t pid = fork();
        if (pid == 0) {
            slot = slots[j];
            child_setup(errs[j].c_str());
            worker(from, jobs, a.max_runs, deadline);
        }
        pids[j] = pid;
        last_progress[j] = wall();
    };
    for (unsigned j = 0; j < jobs; ++j)
        start(j, a.from + j);

    std::map<std::string, u64> known_hits;
    u64 num_foreign = 0;
    std::string foreign_msg;
    std::map<std::string, std::string> known_msgs;
    bool have = false, error = false;
    u64 v_index = 0;
    Ended v;
    unsigned running = jobs;
    while (running > 0 && !error) {
        bool any = false;
        for (unsigned j = 0; j < jobs; ++j) {
            if (pids[j] == -1)
                continue;
            int status = 0;
            pid_t r = waitpid(pids[j], &status, WNOHANG);
            bool timed_out = false;
            if (r == 0) {
                if (slots[j]->index != last_index[j] || slots[j]->runs != last_runs[j]) {
                    last_index[j] = slots[j]->index;
                    last_runs[j] = slots[j]->runs;
                    last_progress[j] = wall();
                }
                else if (wall() - last_progress[j] > 60) {
                    kill(pids[j], SIGKILL);
                    waitpid(pids[j], &status, 0);
                    timed_out = true;
                }
                if (!timed_out)
                    continue;
            }
            any = true;
            pids[j] = -1;
            --running;
            Ended e = interpret(slots[j], status, timed_out, errs[j]);
            if (e.error) {
                error = true;
                v = e;
                break;
            }
            if (e.violation) {
                bool foreign = e.key == foreign_key;
                bool known = foreign || std::find(known_keys.begin(), known_keys.end(), e.key) != known_keys.end();
                if (known) {
                    if (foreign) { ++num_foreign; foreign_msg = e.msg; }
                    else {
                        ++known_hits[e.key];
                        known_msgs[e.key] = e.msg;
                    }
                    if (wall() < deadline) {
                        start(j, slots[j]->index + jobs);
                        ++running;
                    }
                    continue;
                }
                if (!have || slots[j]->index < v_index) {
                    have = true;
                    v = e;
                    v_index = slots[j]->index;
                }
                // Stop the others
                for (unsigned k = 0; k < jobs; ++k) {
                    if (pids[k] != -1) {
                        kill(pids[k], SIGKILL);
                        int st;
                        waitpid(pids[k], &st, 0);
                        pids[k] = -1;
                        --running;
                    }
                }
            }
        }
        if (!any) {
            struct timespec ts = { 0, 5000000 };
            __real_nanosleep(&ts, nullptr);
        }
    }
    for (unsigned k = 0; k < jobs; ++k)
        if (pids[k] != -1) { kill(pids[k], SIGKILL); int st; waitpid(pids[k], &st, 0); }
    if (error) {
        std::printf("ERROR %s\n", v.msg.c_str());
        return 3;
    }
    double t_search = wall() - t0;

    // Merge statistics
    u64 runs = 0, blocks = 0, switches = 0;
    i64 sim_ns = 0;
    std::map<std::string, u64> counters;
    std::unordered_set<u64> hashes, states;
    std::vector<u64> pcs(1 << 12, 0);
    for (Slot* s : slots) {
        runs += s->runs;
        blocks += s->blocks;
        switches += s->switches;
        sim_ns += s->sim_ns;
        for (auto& c : s->counters)
            if (c.name[0]) counters[c.name] += c.n;
        for (u64 i = 0; i < s->num_hashes; ++i) hashes.insert(s->hashes[i]);
        for (u64 i = 0; i < s->num_states; ++i) states.insert(s->states[i]);
        for (std::size_t i = 0; i < pcs.size(); ++i) pcs[i] |= s->pcs[i];
    }
    u64 num_pcs = 0;
    for (u64 w : pcs) num_pcs += u64(__builtin_popcountll(w));

    // Determinism: recompute a sample of runs in fresh processes
    u64 rechecked = 0, mismatches = 0;
    std::vector<std::string> samples;
    u64 total_index = ~0ULL; // all runs below were executed
    for (Slot* s : slots) total_index = std::min<u64>(total_index, u64(s->index));
    if (!have) {
        u64 n = std::min<u64>(total_index, a.tier == "quick" ? 64 : 512);
        std::string list;
        for (u64 k = 0; k < n; ++k) {
            u64 i = total_index * k / n;
            list += std::to_string(i) + ",";
        }
        std::string o[2];
        for (int r = 0; r < 2; ++r) {
            int status = 0;
            std::string l = list;
            if (r == 1) { // other order
                std::vector<std::string> parts;
                std::size_t p = 0;
                while (p < list.size()) { std::size_t q = list.find(',', p); parts.push_back(list.substr(p, q - p)); p = q + 1; }
                std::reverse(parts.begin(), parts.end());
                l.clear();
                for (auto& x : parts) l += x + ",";
            }
            o[r] = exec_self({ "sim", "--property", property, "--seed", std::to_string(base_seed), "--work", work_dir,
                               "--only", a.only, "--hashes", l }, status);
            if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                std::printf("ERROR determinism recheck died (status %d): %s\n", status,
                            read_file(work_dir + "/hashes.err", 2000).c_str());
                return 3;
            }
        }
        auto parse = [](const std::string& s) {
            std::map<std::string, std::string> m;
            std::size_t p = 0;
            while (p < s.size()) {
                std::size_t q = s.find('\n', p);
                std::string line = s.substr(p, q - p);
                std::size_t sp = line.find(' ');
                m[line.substr(0, sp)] = line.substr(sp + 1);
                p = q + 1;
            }
            return m;
        };
        auto m0 = parse(o[0]), m1 = parse(o[1]);
        rechecked = m0.size();
        for (auto& [k, h] : m0) {
            bool in_batch = hashes.count(std::strtoull(h.c_str(), nullptr, 16)) != 0 || h.find(" short") != std::string::npos;
            if (m1[k] != h || (!in_batch && known_hits.empty() && num_foreign == 0)) {
                ++mismatches;
                std::printf("NONDETERMINISTIC run %s: %s / %s%s\n", k.c_str(), h.c_str(), m1[k].c_str(), in_batch ? "" : " (not in batch)");
            }
        }
        // Samples: traces of a few runs
        for (u64 k = 0; k < 3 && runs > 0; ++k) {
            u64 i = total_index * (2 * k + 1) / 7;
            const Scenario& s = *active[i % active.size()];
            std::string tp = work_dir + "/sample.trace";
            static Slot* sl = new_slot();
            pid_t pid = fork();
            if (pid == 0) {
                slot = sl;
                child_setup((work_dir + "/sample.err").c_str());
                trace_fd = __real_open(tp.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
                exec_generated(s, run_seed(i));
                _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            samples.push_back("run " + std::to_string(i) + " scenario " + s.name + ":\n" + read_file(tp, 1500).substr(0, 1500));
        }
    }

    std::string replay_path;
    u64 tries = 0;
    bool reproducible = true;
    const Scenario* vs = nullptr;
    if (have) {
        vs = active[v_index % active.size()];
        std::vector<u64> best = v.choices;
        Ended first = try_choices(*vs, best, nullptr, 60);
        if (!first.violation || key_class(first.key) != key_class(v.key)) {
            // State carried over inside the worker? Retry from seed in this process image only.
            reproducible = false;
            std::printf("ERROR violation [%s] of run %llu (scenario %s) does not reproduce: %s\n", v.key.c_str(),
                        static_cast<unsigned long long>(v_index), vs->name, v.msg.c_str());
            return 4;
        }
        best = minimise(*vs, first.choices, v.key, a.tier == "quick" ? 25 : 60, tries);
        std::string tp = work_dir + "/violation.trace";
        Ended fin = try_choices(*vs, best, tp.c_str(), 60);
        Ended fin2 = try_choices(*vs, best, nullptr, 60);
        if (!fin.violation || !fin2.violation || fin.hash != fin2.hash || fin.key != fin2.key) {
            // Fall back on the unminimised list
            best = v.choices;
            fin = try_choices(*vs, best, tp.c_str(), 60);
        }
        std::string tr = read_file(tp, 60000);
        std::string js = "{\n \"property\": \"" + property + "\",\n \"scenario\": \"" + vs->name + "\",\n \"key\": \"" + json_escape(fin.key) +
            "\",\n \"verif_seed\": " + std::to_string(base_seed) + ",\n \"run\": " + std::to_string(v_index) +
            ",\n \"original_choices\": " + std::to_string(v.choices.size()) + ",\n \"minimisation_runs\": " + std::to_string(tries) +
            ",\n \"message\": \"" + json_escape(fin.msg) + "\",\n \"choices\": [";
        for (std::size_t i = 0; i < best.size(); ++i)
            js += (i ? ", " : "") + std::to_string(best[i]);
        js += "],\n \"trace\": [\n";
        std::size_t p = 0;
        bool firstl = true;
        while (p < tr.size()) {
            std::size_t q = tr.find('\n', p);
            if (q == std::string::npos) q = tr.size();
            js += std::string(firstl ? "" : ",\n") + "  \"" + json_escape(tr.substr(p, q - p)) + "\"";
            firstl = false;
            p = q + 1;
        }
        js += "\n ]\n}\n";
        replay_path = a.replay_out;
        int fd = __real_open(replay_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        write_all(fd, js.data(), js.size());
        __real_close(fd);
        // Gate: fresh process, twice
        std::string o[2];
        int status[2];
        for (int r = 0; r < 2; ++r)
            o[r] = exec_self({ "sim", "--property", property, "--work", work_dir, "--replay", replay_path }, status[r]);
        auto keyline = [](const std::string& s) { std::size_t p = s.rfind("KEY "); return p == std::string::npos ? "" : s.substr(p + 4, s.find('\n', p) - p - 4); };
        auto hashline = [](const std::string& s) { std::size_t p = s.rfind("HASH "); return p == std::string::npos ? "" : s.substr(p, s.find('\n', p) - p); };
        if (key_class(keyline(o[0])) != key_class(fin.key) || keyline(o[0]) != keyline(o[1]) || hashline(o[0]) != hashline(o[1])) {
            std::printf("ERROR replay in fresh processes differs: [%s] [%s] vs [%s]\n", keyline(o[0]).c_str(), keyline(o[1]).c_str(), fin.key.c_str());
            return 4;
        }
        v.key = fin.key;
        v.msg = fin.msg;
    }

    // Output
    std::string js = "{\n";
    js += " \"runs\": " + std::to_string(runs) + ",\n \"search_s\": " + std::to_string(t_search) + ",\n \"simulated_ns\": " + std::to_string(sim_ns) +
        ",\n \"blocks\": " + std::to_string(blocks) + ",\n \"switches\": " + std::to_string(switches) + ",\n \"distinct\": " + std::to_string(hashes.size()) +
        ",\n \"states\": " + std::to_string(states.size()) + ",\n \"block_coverage\": " + std::to_string(num_pcs) +
        ",\n \"determinism_rechecked\": " + std::to_string(rechecked) + ",\n \"determinism_mismatches\": " + std::to_string(mismatches);
    js += ",\n \"counters\": {";
    bool f = true;
    for (auto& [k, n] : counters) { js += std::string(f ? "" : ", ") + "\"" + json_escape(k) + "\": " + std::to_string(n); f = false; }
    if (num_foreign > 0) std::printf("note: %llu run(s) were given up because another property was violated: %s\n", static_cast<unsigned long long>(num_foreign), foreign_msg.c_str());
    js += "},\n \"given_up\": " + std::to_string(num_foreign) + ",\n \"known\": {";
    f = true;
    for (auto& [k, n] : known_hits) { js += std::string(f ? "" : ", ") + "\"" + json_escape(k) + "\": " + std::to_string(n); f = false; }
    js += "},\n \"scenarios\": [";
    f = true;
    for (auto& s : scenarios())
        if (property == s.property) { js += std::string(f ? "" : ", ") + "\"" + json_escape(s.name) + "\""; f = false; }
    js += "],\n \"samples\": [";
    f = true;
    for (auto& s : samples) { js += std::string(f ? "" : ", ") + "\"" + json_escape(s) + "\""; f = false; }
    js += "]";
    for (auto& i : infos()) {
        if (i.property != property) continue;
        js += ",\n \"rule\": \"" + json_escape(i.rule) + "\",\n \"real\": [";
        f = true;
        for (auto& s : i.real) { js += std::string(f ? "" : ", ") + "\"" + json_escape(s) + "\""; f = false; }
        js += "],\n \"stubs\": [";
        f = true;
        for (auto& s : i.stubs) { js += std::string(f ? "" : ", ") + "\"" + json_escape(s) + "\""; f = false; }
        js += "]";
    }
    if (have) {
        js += ",\n \"violation\": {\"key\": \"" + json_escape(v.key) + "\", \"message\": \"" + json_escape(v.msg) + "\", \"scenario\": \"" + vs->name +
            "\", \"run\": " + std::to_string(v_index) + ", \"replay\": \"" + json_escape(replay_path) + "\"}";
    }
    js += "\n}\n";
    int fd = __real_open(a.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd == -1) { std::perror("out"); return 3; }
    write_all(fd, js.data(), js.size());
    __real_close(fd);
    (void)reproducible;
    if (mismatches)
        return 5;
    return have ? 1 : 0;
}

} // namespace
} // namespace sim

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=0:"
           "handle_segv=1:handle_abort=0:exitcode=77:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=2:"
           "max_allocation_size_mb=4096:check_initialization_order=0:detect_odr_violation=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:symbolize=0"; }

int main(int argc, char** argv)
{
    using namespace sim;
    Args a;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    for (int i = 1; i < argc; ++i) {
        std::string o = argv[i];
        std::string val = i + 1 < argc ? argv[i + 1] : "";
        if (o == "--property") property = val;
        else if (o == "--seed") base_seed = std::strtoull(val.c_str(), nullptr, 10);
        else if (o == "--tier") a.tier = val;
        else if (o == "--budget") a.budget = std::strtod(val.c_str(), nullptr);
        else if (o == "--max-runs") a.max_runs = std::strtoull(val.c_str(), nullptr, 10);
        else if (o == "--jobs") a.jobs = unsigned(std::strtoul(val.c_str(), nullptr, 10));
        else if (o == "--out") a.out = val;
        else if (o == "--replay-out") a.replay_out = val;
        else if (o == "--replay") a.replay_in = val;
        else if (o == "--hashes") a.hashes_in = val;
        else if (o == "--work") work_dir = val;
        else if (o == "--only") a.only = val;
        else if (o == "--known") known_keys.push_back(val);
        else { std::fprintf(stderr, "unknown option %s\n", o.c_str()); return 3; }
        ++i;
    }
    for (auto& s : scenarios())
        if (property == s.property && (a.only.empty() || a.only == s.name))
            for (unsigned k = 0; k < s.weight; ++k)
                active.push_back(&s);
    if (active.empty()) {
        std::fprintf(stderr, "no scenario for %s\n", property.c_str());
        return 3;
    }
    // Interleave by weight
    {
        std::vector<const Scenario*> r;
        std::size_t n = active.size();
        std::vector<bool> used(n, false);
        std::size_t step = 1;
        for (std::size_t c : { 7u, 5u, 3u, 11u, 13u }) if (n % c != 0) { step = c; break; }
        for (std::size_t i = 0, p = 0; i < n; ++i) {
            while (used[p]) p = (p + 1) % n;
            used[p] = true;
            r.push_back(active[p]);
            p = (p + step) % n;
        }
        active = r;
    }
    if (!a.replay_in.empty())
        return do_replay(a);
    if (!a.hashes_in.empty())
        return do_hashes(a);
    return coordinator(a);
}
