// C33 files, directories and logs of test runs
#include <algorithm>
#include <filesystem>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <archon/core/file.hpp>
#include <archon/log.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/check.hpp>
#include <archon/check/run.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/test_config.hpp>
#include <archon/check/test_context.hpp>
#include <archon/check/test_path.hpp>

#include "sim.hpp"

using namespace archon;
namespace fs = sim::fs;
using sim::u64;
using sim::choose;
using sim::trace;

namespace { int g_nprocs = 2; }
extern "C" int __wrap_get_nprocs() { return g_nprocs; }

namespace {

#define EXPECT(cond, key, ...) do { if (!(cond)) { sim::NoPreempt np_; sim::fail(key, __VA_ARGS__); } } while (0)

enum class Kind { guard, write, mkdir, verify, yield, log, boom, boom_int, move_construct, move_assign, data };
struct Node { Kind kind; bool dir; int leftover; std::string text; std::vector<Node> kids; };

using Tree = std::map<std::string, std::string>; // path -> contents
const char* const is_dir = "<directory>";

std::string lexical(const std::string& s)
{
    std::string r = std::filesystem::path(s).lexically_normal().string();
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
}

struct Exec { int test, rep; Node body; int runs = 0; bool escaped = false; int tokens = 0; int guards = 0; };
struct World {
    std::map<std::pair<int, int>, Exec> execs;
    std::string dir;              // where test files belong
    bool keep, to_files;
    std::string data_dir;
    std::set<std::string> paths;  // all paths handed out in the run
    Tree kept;
    std::map<std::string, int> token_thread;
    std::map<int, std::string> log_paths;
    int threads = 0;
};

u64 faults() { return fs::n_dir_faults[sim::self() & 63]; }

// Termination because a guard failed to clean up while the stack was being unwound (a known finding)
u64 unwinding[64];  // by thread: one more than the number of faults when the guard came to its end, 0 when not unwinding
struct Sentinel {
    u64& before;
    ~Sentinel()
    {
        before = faults();
        if (std::uncaught_exceptions() > 0) unwinding[sim::self() & 63] = before + 1;
    }
};
void on_terminate()
{
    u64 u = unwinding[sim::self() & 63];
    if (u != 0 && faults() >= u)
        { sim::NoPreempt np; sim::fail("terminated-while-unwinding", "the run was terminated because a test that ended by an exception was unable to remove its test file or directory"); }
    std::abort();
}

// What is found at and below a path
Tree snapshot(const std::string& path)
{
    sim::NoPreempt np;
    Tree t;
    for (auto& p : fs::list())
        if (p == path || p.compare(0, path.size() + 1, path + "/") == 0)
            t[p] = fs::is_dir(p) ? is_dir : fs::get(p);
    return t;
}
std::string show(const Tree& t)
{
    std::string s;
    for (auto& [p, c] : t) s += (s.empty() ? "" : ", ") + p + (c == is_dir ? "/" : "");
    return s.empty() ? "nothing" : s;
}
void wipe(const std::string& path)
{
    sim::NoPreempt np;
    for (auto& [p, c] : snapshot(path)) fs::remove(p);
}

struct Res { std::string path; Tree want; bool moved = false; };

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

struct Env {
    World& w; Exec& e; check::TestContext& c;

    void verify(const Res& r, const char* when)
    {
        Tree t = snapshot(r.path);
        EXPECT(t == r.want, "contents-differ", "%s: expected %s, but found %s%s", when, show(r.want).c_str(), show(t).c_str(), show(t) == show(r.want) ? " with other contents" : "");
    }

    std::string suffix() { return "." + std::string(1, char('a' + e.guards % 26)) + std::to_string(e.guards) + (e.guards % 3 == 1 ? ".txt" : ""); }

    // The life of a guard: `make` constructs it and calls back
    template<class G, class M, class B> void guarded(Res& r, M make, B body)
    {
        bool constructed = false, done = false;
        u64 f0 = faults(), before = f0;
        std::exception_ptr ep;
        try {
            make([&](G& g) {
                constructed = true;
                Sentinel sentinel { before };
                body(g);
                verify(r, "at the end of the life of a guard");
                done = true;
            });
        }
        catch (...) { ep = std::current_exception(); }
        unwinding[sim::self() & 63] = 0;
        bool faulted = faults() != before;
        sim::NoPreempt np;
        if (!constructed) {
            EXPECT(faulted, "spurious-failure", "construction of a guard for %s failed, but nothing went wrong in the file system", r.path.c_str());
            sim::count("probe.guard_not_constructed");
            wipe(r.path);
            r.want.clear();
            std::rethrow_exception(ep);
        }
        Tree left = snapshot(r.path);
        if (r.moved) {
            EXPECT(left == r.want, "moved-from-cleans", "a guard for %s, from which another guard was moved, has removed a file that was made later", r.path.c_str());
            wipe(r.path);
            r.want.clear();
            r.moved = false;
        }
        else if (w.keep) {
            EXPECT(left == r.want, "not-kept", "files are to be kept, so %s was expected after the end of the guard, but there is %s", show(r.want).c_str(), show(left).c_str());
            sim::count("probe.files_kept");
        }
        else if (!left.empty()) {
            EXPECT(faulted, "left-behind", "after the end of the guard for %s, there is %s", r.path.c_str(), show(left).c_str());
            EXPECT(!done || ep, "silent-failure", "a guard was unable to remove %s, but did not say so", show(left).c_str());
            sim::count("probe.cleanup_failed");
            wipe(r.path);
            r.want.clear();
        }
        else {
            r.want.clear();
        }
        if (done && ep) {
            EXPECT(faulted, "spurious-failure", "the end of the guard for %s failed, but nothing went wrong in the file system", r.path.c_str());
            sim::count("probe.guard_threw_at_end");
        }
        if (!done && faulted) sim::count("probe.cleanup_failed_while_unwinding");
        if (ep) std::rethrow_exception(ep);
    }

    Res prepare(const Node& n, const std::string& suffix)
    {
        std::string path = c.make_test_path(suffix).string();
        sim::NoPreempt np;
        Res r;
        r.path = lexical(path);
        std::string dir = r.path.substr(0, r.path.rfind('/'));
        EXPECT(dir == w.dir, "wrong-directory", "test path %s is not in the configured directory %s", path.c_str(), w.dir.c_str());
        EXPECT(w.paths.insert(r.path).second, "path-clash", "test path %s was handed out twice", r.path.c_str());
        if (!fs::is_dir(dir)) return r;
        if (n.leftover == 1) fs::put(r.path, "left over");
        if (n.leftover >= 2) {
            fs::mkdir(r.path);
            fs::put(r.path + "/one", "left over 1");
            fs::mkdir(r.path + "/sub");
            if (n.leftover == 3) { fs::put(r.path + "/sub/two", "left over 2"); fs::mkdir(r.path + "/sub/sub"); }
        }
        if (n.leftover) sim::count("probe.leftover");
        return r;
    }
    template<class G> void fresh(const Node& n, const G& g, Res& r)
    {
        const std::filesystem::path& p = g;
        EXPECT(lexical(p.string()) == r.path, "wrong-path", "a guard for %s claims to guard %s", r.path.c_str(), p.string().c_str());
        if (n.dir) r.want = { { r.path, is_dir } };
        Tree t = snapshot(r.path);
        EXPECT(t == r.want, "not-fresh", "a guard for the %s %s was made, and there is %s", n.dir ? "directory" : "file", r.path.c_str(), show(t).c_str());
        trace("  guard %s", r.path.c_str());
    }

    void run_guard(const Node& n)
    {
        if (n.dir) run_guard_2<check::TestDirGuard>(n); else run_guard_2<check::TestFileGuard>(n);
    }
    template<class G> void run_guard_2(const Node& n)
    {
        ++e.guards;
        std::string sfx = suffix();
        Res r = prepare(n, sfx);
        try {
            guarded<G>(r, [&](auto body) { G g(c, sfx); body(g); }, [&](G& g) { fresh(n, g, r); use(g, r, n, 0); });
        }
        catch (...) { finish(r); throw; }
        finish(r);
    }
    void finish(Res& r)
    {
        sim::NoPreempt np;
        if (w.keep) w.kept.insert(r.want.begin(), r.want.end());
    }

    void put(Res& r, const std::string& path, const std::string& data)
    {
        core::File::save(std::filesystem::path(path), data);
        sim::NoPreempt np;
        r.want[path] = data;
    }

    template<class G> void use(G& g, Res& r, const Node& n, std::size_t i)
    {
        for (; i < n.kids.size(); ++i) {
            const Node& k = n.kids[i];
            switch (k.kind) {
                case Kind::write:
                    if (n.dir) {
                        std::string in = r.path;
                        if (r.want.count(r.path + "/d")) in += k.text.size() % 2 ? "/d" : "";
                        put(r, in + "/f" + std::to_string(k.text.size()), k.text);
                    }
                    else put(r, r.path, k.text);
                    break;
                case Kind::mkdir:
                    if (n.dir && !r.want.count(r.path + "/d")) { sim::NoPreempt np; fs::mkdir(r.path + "/d"); r.want[r.path + "/d"] = is_dir; }
                    break;
                case Kind::verify: {
                    verify(r, "in the middle of the test");
                    for (auto& [p, d] : r.want)
                        if (d != is_dir) { std::string s = core::File::load(std::filesystem::path(p)); EXPECT(s == d, "contents-differ", "%s was read back with other contents", p.c_str()); }
                    break;
                }
                case Kind::move_construct: {
                    sim::count("probe.move_constructed");
                    guarded<G>(r, [&](auto body) { G b(std::move(g)); body(b); },
                               [&](G& b) {
                                   const std::filesystem::path& p = b;
                                   EXPECT(lexical(p.string()) == r.path, "wrong-path", "a guard for %s was moved, and claims to guard %s", r.path.c_str(), p.string().c_str());
                                   use(b, r, n, i + 1);
                               });
                    // Now another test file with the same name, and the guard that was moved from must leave it alone
                    {
                        sim::NoPreempt np;
                        wipe(r.path);
                        fs::put(r.path, "somebody else's");
                        r.want = { { r.path, "somebody else's" } };
                    }
                    r.moved = true;
                    return;
                }
                case Kind::move_assign: {
                    sim::count("probe.move_assigned");
                    ++e.guards;
                    std::string sfx = suffix();
                    Res r2 = prepare(k, sfx);
                    Node k2 = k; k2.dir = n.dir;
                    assign(g, r, r2, k2, sfx);
                    break;
                }
                default: step(k);
            }
        }
    }
    template<class G> void assign(G& g, Res& r, Res& r2, const Node& k, const std::string& sfx)
    {
        bool constructed = false, assigned = false;
        u64 f0 = faults(), f1 = f0;
        try {
            G h(c, sfx);
            constructed = true;
            u64 dummy = 0;
            Sentinel sentinel { dummy };
            fresh(k, h, r2);
            put(r2, k.dir ? r2.path + "/g" : r2.path, k.text);
            f1 = faults();
            g = std::move(h);
            assigned = true;
        }
        catch (...) {
            unwinding[sim::self() & 63] = 0;
            sim::NoPreempt np;
            EXPECT(faults() != (constructed ? f1 : f0), "spurious-failure", "%s failed, but nothing went wrong in the file system", constructed ? "assignment of a guard" : "construction of a guard");
            if (!constructed) wipe(r2.path);
            else {
                EXPECT(!assigned, "moved-from-cleans", "a guard that was moved from failed to clean up");
                sim::count("probe.move_assignment_failed");
                // The target goes on as before, and the source has ended
                r.want = snapshot(r.path);
                Tree t = snapshot(r2.path);
                if (w.keep) { EXPECT(t == r2.want, "not-kept", "files are to be kept"); w.kept.insert(t.begin(), t.end()); }
                wipe(w.keep ? "/sim/none" : r2.path);
            }
            throw;
        }
        sim::NoPreempt np;
        Tree old = snapshot(r.path), now = snapshot(r2.path);
        if (w.keep) { EXPECT(old == r.want, "not-kept", "files are to be kept, but %s is left of %s after the guard was replaced", show(old).c_str(), show(r.want).c_str()); w.kept.insert(old.begin(), old.end()); }
        else EXPECT(old.empty(), "left-behind", "the guard of %s was replaced, and there is still %s", r.path.c_str(), show(old).c_str());
        EXPECT(now == r2.want, "contents-differ", "after the guard of %s was moved, there is %s", r2.path.c_str(), show(now).c_str());
        r = r2;
        const std::filesystem::path& p = g;
        EXPECT(lexical(p.string()) == r.path, "wrong-path", "a guard for %s was moved, and claims to guard %s", r.path.c_str(), p.string().c_str());
    }

    void step(const Node& k)
    {
        switch (k.kind) {
            case Kind::guard: run_guard(k); break;
            case Kind::yield: sim::yield(); break;
            case Kind::log: {
                std::string token;
                { sim::NoPreempt np; token = "token-" + std::to_string(e.test) + "-" + std::to_string(e.rep) + "-" + std::to_string(e.tokens++) + "-end"; w.token_thread[token] = c.thread_context.thread_index; }
                c.logger.info("%s", token);
                break;
            }
            case Kind::boom: trace("  boom"); throw Boom(k.text);
            case Kind::boom_int: trace("  boom"); throw 7;
            case Kind::data: {
                bool top = k.text.size() % 2;
                std::string p = c.get_data_path(top ? "" : "some/dir", "file.bin").string();
                EXPECT(lexical(p) == w.data_dir + (top ? "/file.bin" : "/some/dir/file.bin"), "wrong-data-path", "the data path is %s", p.c_str());
                break;
            }
            default: break;
        }
    }
};

Node gen(int depth, bool in_guard)
{
    Node n {};
    static const Kind ks[] = { Kind::guard, Kind::write, Kind::write, Kind::yield, Kind::log, Kind::mkdir, Kind::verify, Kind::guard, Kind::data, Kind::boom,
                               Kind::boom_int, Kind::move_construct, Kind::move_assign };
    n.kind = ks[choose(13)];
    if (!in_guard && n.kind != Kind::yield && n.kind != Kind::log && n.kind != Kind::data && n.kind != Kind::boom) n.kind = Kind::guard;
    if (n.kind == Kind::guard && depth > 3) n.kind = Kind::yield;
    if ((n.kind == Kind::boom || n.kind == Kind::boom_int) && choose(2) == 0) n.kind = Kind::log;
    n.dir = choose(2);
    n.leftover = int(choose(4));
    n.text = std::string(choose(3) ? choose(20) : choose(3000), char('a' + choose(26)));
    if (n.kind == Kind::guard)
        while (n.kids.size() < 6 && sim::more(3)) n.kids.push_back(gen(depth + 1, true));
    return n;
}

SIM_SCENARIO("C33", "runs", 1, sim::f_threads | sim::f_leakcheck | sim::f_faults)
{
    g_nprocs = 1 + int(choose(4));
    sim::set_switch_rate(1 + choose(4));
    sim::set_preempt(choose(3) != 0);
    World w;
    int reps = choose(3) ? 1 : 2;
    int num_threads = int(choose(5));
    bool many = choose(16) == 1;
    if (many) num_threads = 11;
    int n = many ? 12 : int(choose(6));
    for (u64& u : unwinding) u = 0;
    std::set_terminate(&on_terminate);
    w.keep = choose(5) == 1;
    w.to_files = choose(3) == 1;
    check::TestList list;
    for (int i = 0; i < n; ++i) {
        for (int r = 1; r <= reps; ++r) {
            Exec e { i, r };
            if (many) { e.body.kids.push_back(gen(3, false)); Node l {}; l.kind = Kind::log; e.body.kids.push_back(l); }
            else while (e.body.kids.size() < 5 && sim::more(3)) e.body.kids.push_back(gen(0, false));
            w.execs[{ i, r }] = e;
        }
        static const char* const names[] = { "Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "Mu" };
        list.add(names[i], "/source/test.cpp", 10 + i, [&w, i](check::TestContext& c) {
            Exec* e;
            {
                sim::NoPreempt np;
                auto j = w.execs.find({ i, c.repetition_no });
                if (j == w.execs.end()) sim::give_up("unexpected execution");
                e = &j->second;
                ++e->runs;
                int t = c.thread_context.thread_index;
                const check::RootContext& root = c.thread_context.root_context;
                w.threads = root.num_threads;
                if (root.log_paths) w.log_paths[t] = root.log_paths[t];
                else EXPECT(!w.to_files, "no-log-path", "logging to files, but the paths are not made known");
            }
            Env env { w, *e, c };
            try {
                for (auto& k : e->body.kids) env.step(k);
            }
            catch (...) { { sim::NoPreempt np; e->escaped = true; } throw; }
        }, nullptr, choose(4) != 1);
    }

    // Where files go
    static const struct { const char* spec; const char* norm; bool ok; } subdirs[] = {
        { "", "", true }, { "a", "/a", true }, { "a/b", "/a/b", true }, { "a/", "/a", true }, { "./a//b/.", "/a/b", true }, { "a/../b", "/b", true }, { "a/b/../c/", "/a/c", true },
        { "../x", "", false }, { "a/../../x", "", false }, { "/sim/base/x", "", false }, { "..", "", false }, { "a/../..", "", false } };
    auto& sub = subdirs[choose(10) == 1 ? 7 + choose(5) : choose(7)];
    static const struct { const char* spec; const char* norm; bool ok; } logs[] = {
        { "@n.log", "/@.log", true }, { "logs/@N.log", "/logs/@.log", true }, { "a/logs/thread-@i", "/a/logs/thread-#", true }, { "logs/../@I/log", "/#/log", true }, { "logs/@T/thread_@N.log", nullptr, true },
        { "logs/@t_@n.log", nullptr, true }, { "a@@/@n/@n.log", "/a@/@/@.log", true },
        { "../@n.log", "", false }, { "logs/common.log", "", false }, { "logs/@t.log", "", false }, { "/sim/base/@n.log", "", false }, { "logs/../../@n", "", false }, { "@q/@n.log", "", false } };
    auto& lg = logs[choose(10) == 1 ? 7 + choose(6) : choose(7)];
    bool base_missing = choose(20) == 1 && *sub.spec != 0;
    bool blocked = choose(20) == 1; // A file is in the way
    bool slash = choose(4) == 1;
    fs::mkdir("/sim/data");
    fs::put("/sim/precious", "keep");
    if (!base_missing) {
        fs::mkdir("/sim/base");
        fs::put("/sim/base/precious", "keep");
        if (blocked) fs::put("/sim/base/a", "in the way");
        else if (choose(2)) { fs::mkdir("/sim/base/a"); fs::put("/sim/base/a/precious", "keep"); fs::put("/sim/base/1.log", "an earlier line\n"); }
    }
    w.dir = "/sim/base" + std::string(sub.norm);
    w.data_dir = "/sim/data";

    bool no_threads = n == 0; // no log files then
    bool want_reject = !sub.ok || (w.to_files && !lg.ok && (!no_threads || std::string_view(lg.spec) == "logs/common.log" || std::string_view(lg.spec) == "logs/@t.log" || lg.spec[0] == '@'));
    std::string_view spec = sub.spec, lspec = lg.spec;
    bool logs_used = w.to_files && lg.ok && !no_threads;
    bool logs_subdir = logs_used && lspec.find('/') != std::string_view::npos;
    bool must_fail = want_reject;
    if (base_missing && (spec != "" || logs_used)) must_fail = true;
    if (blocked && !base_missing && (spec.find('a') != std::string_view::npos || (logs_used && lspec.substr(0, 2) == "a/"))) must_fail = true;
    (void)logs_subdir;

    std::ostringstream log_out;
    log_out.imbue(std::locale::classic());
    log::StreamLogger logger(log_out);
    check::TestConfig config;
    config.num_repetitions = reps;
    config.num_threads = num_threads;
    config.shuffle = choose(4) == 1;
    config.test_list = &list;
    config.logger = &logger;
    config.log_to_files = w.to_files;
    config.log_timestamps = choose(4) == 1;
    config.log_file_base_dir = slash ? "/sim/base/" : "/sim/base";
    config.log_path_template = lg.spec;
    config.test_file_subdir = sub.spec;
    config.test_file_base_dir = slash ? "/sim/base/" : "/sim/base";
    config.data_file_base_dir = slash ? "/sim/data/" : "/sim/data";
    config.keep_test_files = w.keep;
    config.inner_log_level_limit = log::LogLevel::all;

    Tree initial = snapshot("/sim");
    static const u64 rates[] = { 0, 0, 4, 10, 40 };
    fs::config.dir_error = rates[choose(5)];
    fs::config.eintr = choose(2) ? 0 : 6;
    fs::config.short_io = choose(2) ? 0 : 3;
    fs::config.yield = choose(2);
    u64 f0 = faults();
    trace("run reps=%d threads=%d n=%d keep=%d files=%d '%s' '%s' missing=%d blocked=%d", reps, num_threads, n, w.keep, w.to_files, sub.spec, lg.spec, base_missing, blocked);

    bool verdict = false, thrown = false;
    try {
        check::TestRunner runner(std::locale::classic(), std::move(config));
        verdict = runner.run();
    }
    catch (std::exception& x) {
        thrown = true;
        trace("run() threw %s", x.what());
    }
    fs::config = {};
    sim::set_preempt(false);
    trace("verdict %d", verdict);

    Tree now = snapshot("/sim");
    for (auto& [p, d] : now) {
        bool inside = p.compare(0, 10, "/sim/base/") == 0;
        EXPECT(inside || initial.count(p), "outside", "%s was made, which is outside of the configured directories", p.c_str());
    }
    for (auto& [p, d] : initial)
        EXPECT(now.count(p) && (now[p] == d || p == "/sim/base/1.log"), "touched", "%s, which does not belong to the test run, was changed or removed", p.c_str());

    int runs = 0;
    for (auto& [k, e] : w.execs) runs += e.runs;
    if (thrown) {
        EXPECT(must_fail || faults() != f0, "spurious-failure", "run() failed, but nothing was wrong with the configuration or the file system");
        EXPECT(runs == 0, "tests-executed", "%d tests were executed, although the run was rejected", runs);
        sim::count(must_fail ? "probe.run_rejected" : "probe.run_failed");
        return;
    }
    EXPECT(!must_fail, "not-rejected", "run() accepted test directory '%s' and log path '%s'%s%s", sub.spec, w.to_files ? lg.spec : "", base_missing ? " without a base directory" : "", blocked ? " with a file in the way" : "");

    bool ok = true;
    for (auto& [k, e] : w.execs) {
        if (e.escaped) ok = false;
        if (e.runs != 1) sim::give_up("executed %d times", e.runs);
    }
    EXPECT(verdict == ok, "wrong-verdict", "run() returned %s, but %s", verdict ? "success" : "failure", ok ? "no test failed" : "a test failed");

    // What is left
    std::set<std::string> dirs;
    for (std::string p = w.dir; p.size() > 9; p = p.substr(0, p.rfind('/'))) dirs.insert(p);
    for (auto& [t, p] : w.log_paths) dirs.insert(lexical(p));
    for (auto& [p, d] : now) {
        if (initial.count(p) || d == is_dir) continue;
        if (dirs.count(p)) continue;
        if (w.kept.count(p)) continue;
        bool log = false; // of a thread that did not get to execute tests
        if (w.to_files) log = d.empty() || d.find("token-") == std::string::npos;
        EXPECT(log && w.paths.count(p) == 0, "left-behind", "%s was left behind by the test run", p.c_str());
    }
    for (auto& [p, d] : w.kept)
        EXPECT(now.count(p) && now[p] == d, "not-kept", "files are to be kept, but %s is gone or has changed", p.c_str());

    // Logs
    std::map<std::string, std::string> texts;
    std::set<std::string> distinct;
    if (w.to_files) {
        for (auto& [t, p] : w.log_paths) {
            std::string q = lexical(p);
            EXPECT(q.compare(0, 10, "/sim/base/") == 0, "wrong-log-path", "log path %s is outside of the base directory", p.c_str());
            EXPECT(distinct.insert(q).second, "shared-log", "two threads have the same log file %s", p.c_str());
            if (lg.norm) {
                std::string e = "/sim/base";
                std::string num = std::to_string(t + 1), idx = std::to_string(t);
                if (lspec.find("@N") != std::string_view::npos) while (num.size() < std::to_string(w.threads).size()) num = "0" + num;
                if (lspec.find("@I") != std::string_view::npos) while (idx.size() < std::to_string(w.threads - 1).size()) idx = "0" + idx;
                for (const char* c = lg.norm; *c; ++c) e += *c == '@' && (c[1] == '/' || c[1] == '.') && c[-1] == '/' ? num : *c == '#' ? idx : std::string(1, *c);
                EXPECT(q == e, "wrong-log-path", "the log file of thread %d is %s instead of %s", t, q.c_str(), e.c_str());
            }
            EXPECT(now.count(q), "no-log", "the log file %s of thread %d does not exist", q.c_str(), t);
            texts[q] = now[q];
        }
        auto i = now.find("/sim/base/1.log");
        if (i != now.end() && initial.count(i->first))
            EXPECT(i->second.compare(0, 16, "an earlier line\n") == 0, "log-truncated", "the earlier contents of a log file were lost");
        texts["the logger"] = log_out.str();
    }
    else texts["the logger"] = log_out.str();
    std::map<std::string, int> seen;
    for (auto& [q, s] : texts) {
        std::istringstream in(s);
        for (std::string l; std::getline(in, l);) {
            std::size_t i = l.find("token-");
            if (i == std::string::npos) continue;
            std::string token = l.substr(i);
            EXPECT(w.token_thread.count(token), "log-wrong", "the line '%s' was not logged", l.c_str());
            EXPECT(++seen[token] == 1, "log-wrong", "message %s was logged twice", token.c_str());
            if (w.to_files) EXPECT(q == lexical(w.log_paths[w.token_thread[token]]), "log-wrong", "message %s is in %s, but was logged by thread %d", token.c_str(), q.c_str(), w.token_thread[token]);
        }
    }
    for (auto& [t, i] : w.token_thread) EXPECT(seen[t] == 1, "log-wrong", "message %s is not in the log", t.c_str());
    if (w.to_files && !w.token_thread.empty()) sim::count("probe.logged_to_files");
    sim::state(sim::mix(now.size() * 64 + w.paths.size(), w.threads * 8 + ok * 4 + w.keep * 2 + w.to_files));
}

sim::Info i33("C33", "A run is one seeded test suite whose tests use test files, test directories, moves of guards, exceptions and logging, executed by the real test runner under one seeded schedule in a simulated file system with faults.",
    { "archon::check test runner and test file and directory guards", "archon::core files and paths", "archon::log loggers", "std::filesystem of libstdc++" },
    { "threads, mutexes and clocks (simulated scheduler)", "file system (simulated, with directories)" });

} // unnamed namespace
