// C15 thread guards
#include <atomic>
#include <csignal>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <locale>

#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/thread.hpp>
#include <archon/core/thread_guard.hpp>

#include <atomic>
#include "sim.hpp"

using namespace archon;
using core::ThreadGuard;
using sim::u64;
using sim::choose;
using sim::trace;
using sim::fail;

namespace {

struct Boom { int id; static inline std::atomic<int> live = 0; Boom(int i) : id(i) { ++live; } Boom(const Boom& o) : id(o.id) { ++live; } ~Boom() { --live; } };

struct Func {
    int throws; // 0 no, 1 Boom, 2 runtime_error, 3 int
    int work;
    std::string name;
    bool named, blocked;
    bool created = false;
    int runs = 0;
    bool finished = false;
    bool joined = false, rethrown = false;
};

struct World {
    std::vector<std::unique_ptr<Func>> funcs;
};

struct Callable {
    World* w; int id; std::shared_ptr<int> token;
    void operator()() const
    {
        Func& f = *w->funcs[id];
        {
            sim::NoPreempt np;
            trace("func %d begins", id);
            if (++f.runs != 1) fail("ran-twice", "function %d was run twice", id);
            if (!token || *token != id) fail("lost-capture", "function %d lost its state", id);
            if (f.named) {
                std::string n;
                if (core::get_thread_name(n) && n != f.name.substr(0, 15)) fail("wrong-name", "thread of function %d is named '%s' instead of '%s'", id, n.c_str(), f.name.c_str());
            }
            sigset_t m;
            pthread_sigmask(SIG_BLOCK, nullptr, &m);
            bool blocked = sigismember(&m, SIGTERM) && sigismember(&m, SIGINT) && sigismember(&m, SIGUSR1) && sigismember(&m, SIGALRM);
            if (blocked != f.blocked) fail("wrong-signals", "signals are %s in the thread of function %d", blocked ? "blocked" : "not blocked", id);
        }
        for (int i = 0; i < f.work; ++i) sim::yield();
        {
            sim::NoPreempt np;
            trace("func %d ends, throws %d", id, f.throws);
            f.finished = true;
        }
        switch (f.throws) {
            case 1: throw Boom(id);
            case 2: throw std::runtime_error("id " + std::to_string(id));
            case 3: throw id;
        }
    }
};

struct Slot { std::optional<ThreadGuard> g; int id = -1; };

void check_joined(World& w, int id, const char* what)
{
    if (id < 0) return;
    Func& f = *w.funcs[id];
    if (!f.finished) fail("not-joined", "%s returned before function %d had finished", what, id);
    f.joined = true;
}

// Join and rethrow; verify the outcome
void jar(World& w, Slot& s)
{
    int id = s.id;
    int got = 0, got_id = -1;
    try { s.g->join_and_rethrow(); }
    catch (Boom& b) { got = 1; got_id = b.id; }
    catch (std::runtime_error& e) { got = 2; got_id = std::stoi(std::string(e.what()).substr(3)); }
    catch (int i) { got = 3; got_id = i; }
    trace("  rethrown %d %d", got, got_id);
    check_joined(w, id, "join_and_rethrow()");
    int want = id < 0 || w.funcs[id]->rethrown ? 0 : w.funcs[id]->throws;
    if (got != want) {
        if (want == 0) fail("extra-exception", "join_and_rethrow() threw an exception that %s", got_id == id ? "it had thrown before" : "was not thrown by its thread");
        fail("lost-exception", "the exception thrown by function %d was not delivered (got %d, want %d)", id, got, want);
    }
    if (got && got_id != id) fail("wrong-exception", "the exception of function %d was delivered instead of that of function %d", got_id, id);
    if (got) { w.funcs[id]->rethrown = true; sim::count("probe.exception_delivered"); }
}

void c15(bool faults)
{
    sim::set_switch_rate(1 + choose(4));
    sim::set_preempt(choose(3) != 0);
    if (faults) sim::set_thread_create_failure(1 + choose(4));
    auto wp = std::make_unique<World>();
    World& w = *wp;
    w.funcs.reserve(64); // must not be reallocated while threads run
    {
        std::vector<Slot> slots(3);
        int steps = 0;
        do {
            Slot& a = slots[choose(3)];
            Slot& b = slots[choose(3)];
            switch (choose(9)) {
                case 0: case 1: case 2: { // create
                    auto f = std::make_unique<Func>();
                    f->throws = int(choose(4));
                    f->work = int(choose(5));
                    f->named = choose(2);
                    f->blocked = choose(2);
                    static const char* const names[] = { "worker", "w", "a name that is far too long" };
                    f->name = names[choose(3)];
                    int id = int(w.funcs.size());
                    w.funcs.push_back(std::move(f));
                    Func& fn = *w.funcs[id];
                    int how = int(choose(3));
                    if (how == 0) fn.named = fn.blocked = false;
                    trace("create %d throws=%d work=%d named=%d blocked=%d how=%d", id, fn.throws, fn.work, fn.named, fn.blocked, how);
                    Callable c { &w, id, std::make_shared<int>(id) };
                    ThreadGuard::Config config;
                    if (fn.named) config.thread_name = ThreadGuard::ThreadName(fn.name, std::locale::classic());
                    config.block_signals = fn.blocked;
                    bool ok = true;
                    int old = a.id;
                    try {
                        if (how == 0) {
                            if (choose(2)) { a.g.reset(); a.id = -1; check_joined(w, old, "destruction"); old = -1; a.g.emplace(std::move(c)); }
                            else { ThreadGuard g(std::move(c)); if (a.g) { *a.g = std::move(g); check_joined(w, old, "assignment"); } else a.g.emplace(std::move(g)); }
                        }
                        else if (how == 1 && a.g) { *a.g = ThreadGuard(std::move(c), std::move(config)); check_joined(w, old, "assignment"); }
                        else { a.g.reset(); a.id = -1; check_joined(w, old, "destruction"); old = -1; a.g.emplace(std::move(c), std::move(config)); }
                    }
                    catch (std::system_error& e) {
                        ok = false;
                        trace("  creation failed");
                        if (!faults) fail("spurious-failure", "thread creation failed: %s", e.what());
                        sim::count("probe.creation_failed");
                    }
                    fn.created = ok;
                    if (ok) a.id = id;
                    else { a.id = old; if (fn.runs) fail("ran-without-thread", "function %d was run although thread creation failed", id); }
                    break;
                }
                case 3: if (a.g) { trace("join %d", a.id); a.g->join(); check_joined(w, a.id, "join()"); } break;
                case 4: if (a.g) { trace("join and rethrow %d", a.id); jar(w, a); } break;
                case 5: if (a.g) { trace("destroy %d", a.id); a.g.reset(); check_joined(w, a.id, "destruction"); a.id = -1; } break;
                case 6: // move construct
                    if (&a != &b && b.g) {
                        trace("move-construct from %d", b.id);
                        a.g.reset(); check_joined(w, a.id, "destruction");
                        a.g.emplace(std::move(*b.g));
                        a.id = b.id; b.id = -1;
                        if (a.id >= 0 && !w.funcs[a.id]->finished) sim::count("probe.moved_while_running");
                    }
                    break;
                case 7: // move assign
                    if (&a != &b && a.g && b.g) {
                        trace("move-assign %d from %d", a.id, b.id);
                        *a.g = std::move(*b.g);
                        check_joined(w, a.id, "assignment");
                        a.id = b.id; b.id = -1;
                        if (a.id >= 0 && !w.funcs[a.id]->finished) sim::count("probe.moved_while_running");
                    }
                    break;
                case 8: // swap, or degenerate
                    if (&a != &b && a.g && b.g) {
                        trace("swap %d %d", a.id, b.id);
                        std::swap(*a.g, *b.g);
                        std::swap(a.id, b.id);
                    }
                    else if (!a.g) { a.g.emplace(); a.id = -1; }
                    else if (a.id < 0) jar(w, a);
                    break;
            }
        }
        while (++steps < 40 && sim::more(10));
        for (auto& s : slots) {
            if (!s.g) continue;
            if (choose(2)) { trace("final join and rethrow %d", s.id); jar(w, s); }
            int id = s.id;
            s.g.reset();
            check_joined(w, id, "destruction");
        }
    }
    sigset_t m;
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    if (sigismember(&m, SIGTERM)) fail("wrong-signals", "signals are left blocked in the parent thread");
    for (std::size_t i = 0; i < w.funcs.size(); ++i)
        if (w.funcs[i]->runs != int(w.funcs[i]->created)) fail(w.funcs[i]->runs ? "ran-without-thread" : "not-run", "function %zu was run %d times", i, w.funcs[i]->runs);
    if (Boom::live != 0) { int n = Boom::live; Boom::live = 0; fail("exception-leak", "%d exception object(s) were never destroyed", n); }
}

sim::Info i15("C15", "A run is one seeded history of creating, moving, swapping, joining and destroying thread guards under one seeded schedule.",
    { "archon::core::ThreadGuard, SignalBlocker, thread names", "std::thread" }, { "pthread scheduling (simulated scheduler)", "thread creation failures" });
SIM_SCENARIO("C15", "guards", 3, sim::f_threads | sim::f_leakcheck) { c15(false); }
SIM_SCENARIO("C15", "creation-failure", 1, sim::f_threads | sim::f_leakcheck | sim::f_faults) { c15(true); }

} // unnamed namespace
