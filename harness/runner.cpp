// C12 exactly-once execution, C13 verdict and totals, C14 reporter history, C34 the test command
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <locale>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <sys/utsname.h>

#include <archon/core/span.hpp>
#include <archon/core/file.hpp>
#include <archon/log.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/core/build_environment.hpp>
#include <archon/check.hpp>
#include <archon/check/command.hpp>
#include <archon/check/run.hpp>
#include <archon/check/test_list.hpp>
#include <archon/check/test_runner.hpp>
#include <archon/check/test_config.hpp>
#include <archon/check/test_context.hpp>
#include <archon/check/test_trail.hpp>
#include <archon/check/fail_context.hpp>
#include <archon/check/reporter.hpp>
#include <archon/check/xml_reporter.hpp>
#include <archon/check/simple_reporter.hpp>
#include <archon/check/duplicating_reporter.hpp>
#include <archon/check/wildcard_filter.hpp>
#include <archon/check/pattern_based_test_order.hpp>

#include "sim.hpp"

using namespace archon;
namespace fs = sim::fs;
using sim::u64;
using sim::choose;
using sim::trace;

namespace { int g_nprocs = 2; }
extern "C" int __wrap_get_nprocs() { return g_nprocs; }
namespace { std::string& g_cwd = sim::fs::cwd; std::string g_program; } // when simulated
extern "C" char* __real_getcwd(char* buf, std::size_t n);
extern "C" char* __wrap_getcwd(char* buf, std::size_t n)
{
    if (g_cwd.empty()) return __real_getcwd(buf, n);
    if (buf && g_cwd.size() >= n) { errno = ERANGE; return nullptr; }
    if (!buf) { buf = static_cast<char*>(std::malloc(g_cwd.size() + 1)); if (!buf) return nullptr; }
    return std::strcpy(buf, g_cwd.c_str());
}
extern "C" char* __real_realpath(const char* path, char* buf);
extern "C" char* __wrap_realpath(const char* path, char* buf)
{
    if (g_program.empty()) return __real_realpath(path, buf);
    if (path != g_program) { errno = ENOENT; return nullptr; }
    if (!buf) { buf = static_cast<char*>(std::malloc(g_program.size() + 1)); if (!buf) return nullptr; }
    return std::strcpy(buf, path);
}
extern "C" int __wrap_uname(struct utsname* u)
{
    *u = {};
    std::strcpy(u->sysname, "Linux"); std::strcpy(u->nodename, "simulated"); std::strcpy(u->release, "1.0"); std::strcpy(u->version, "#1"); std::strcpy(u->machine, "x86_64");
    return 0;
}

namespace {

// Which property is being decided by the current scenario
unsigned g_prop;
enum { p12 = 1, p13 = 2, p14 = 4, p34 = 8 };
#define EXPECT(p, cond, key, ...) do { if ((g_prop & (p)) != 0 && !(cond)) { sim::NoPreempt np_; sim::fail(key, __VA_ARGS__); } } while (0)

const char* const files[] = { "/source/tree/alpha/test_alpha.cpp", "/source/tree/beta/test_beta.cpp",
                              "/source/tree/in&clude/<odd \"names\">.hpp", "/source/tree/common/helper_functions.hpp" };
const char* const test_names[] = { "T0", "T1", "T2", "T3", "T4", "T5", "T6", "T7", "T<&>8", "T\"9'" };

struct Fail { std::string file; long line; std::string message; bool whole; // `message` is the whole message
    bool operator<(const Fail& o) const { return std::tie(file, line, message) < std::tie(o.file, o.line, o.message); } };

enum class Kind { pass, fail, trail_fail, throw_check_ok, throw_check_bad, equal_bad, spawn, yield, sleep, log, throw_std, throw_int };
struct Op { Kind kind; int file; long line; std::string text; std::vector<std::vector<Op>> threads; };
using Script = std::vector<Op>;

struct World;
struct Test {
    int id;
    std::string name;
    int file;
    long line;
    int enabled; // 0: no function, 1: function says yes, 2: function says no
    bool concur;
    bool included;
    int order_key;
    std::map<int, Script> scripts; // by repetition
};

bool yes() { return true; }
bool no() { return false; }

struct Event {
    enum Type { root_begin, thread_begin, begin, fail, end, thread_end, root_end } type;
    int sim_thread, thread_index = -1;
    std::size_t test_index = 0;
    int rep = 0;
    std::string name, file, mapped, message;
    long line = 0;
    double elapsed = 0;
    sim::i64 time;
    check::Summary summary {};
    bool same(const Event& o) const
    {
        return type == o.type && thread_index == o.thread_index && test_index == o.test_index && rep == o.rep && name == o.name &&
            file == o.file && mapped == o.mapped && message == o.message && line == o.line && elapsed == o.elapsed;
    }
};

struct Exec { int test, rep; int runs = 0; std::multiset<Fail> fails; long long checks = 0, failed = 0; bool threw = false;
    sim::i64 t0 = 0, t1 = 0; std::vector<unsigned> seed; int sim_thread = -1; bool running = false; sim::i64 seq = 0; };

struct World {
    std::vector<Test> tests;
    std::map<std::pair<int, int>, Exec> execs; // (id, rep)
    int reps, num_threads, effective;
    int active = 0, active_nonconcur = 0, max_active = 0;
    sim::i64 seq = 0;
    bool mapper;
    int main_thread;
    std::map<std::string, int> by_name;

    std::string strip, base; // prefix removed from paths, and what replaces it
    bool catch_errors = false; // injected faults may surface as exceptions in tests

    std::string map_path(const std::string& s) const { return mapper ? "M" + s : s.compare(0, strip.size(), strip) == 0 ? base + s.substr(strip.size()) : s; }
};

struct Recorder : check::Reporter {
    World* w;
    bool inside = false;
    std::vector<Event> events;
    bool slow;

    template<class F> void call(F f)
    {
        {
            sim::NoPreempt np;
            EXPECT(p14, !inside, "reporter-overlap", "two reporter functions are executing at the same time");
            inside = true;
            f();
            events.back().sim_thread = sim::self();
            events.back().time = sim::now_mono();
            const Event& e = events.back();
            static const char* const names[] = { "root_begin", "thread_begin", "begin", "fail", "end", "thread_end", "root_end" };
            trace("  report %s thread=%d %s#%d %s:%ld %s", names[e.type], e.thread_index, e.name.c_str(), e.rep, e.mapped.c_str(), e.line, e.message.c_str());
        }
        if (slow) { sim::yield(); sim::yield(); }
        inside = false;
    }
    static void context(Event& e, const check::TestContext& c)
    {
        e.thread_index = c.thread_context.thread_index;
        e.test_index = c.test_index;
        e.rep = c.repetition_no;
        e.name = std::string(c.test_details.name);
    }
    void root_begin(const check::RootContext& c) override
    {
        call([&] { Event e {}; e.type = Event::root_begin; e.test_index = c.num_tests; e.rep = c.num_repetitions; e.thread_index = c.num_threads; e.line = long(c.num_test_executions); events.push_back(e); });
    }
    void thread_begin(const check::ThreadContext& c) override
    {
        call([&] { Event e {}; e.type = Event::thread_begin; e.thread_index = c.thread_index; events.push_back(e); });
    }
    void begin(const check::TestContext& c, log::Logger&) override
    {
        call([&] { Event e {}; e.type = Event::begin; context(e, c); e.mapped = std::string(c.mapped_file_path); events.push_back(e); });
    }
    void fail(const check::FailContext& c, std::string_view message, log::Logger&) override
    {
        call([&] { Event e {}; e.type = Event::fail; context(e, c.test_context); e.message = std::string(message); e.file = std::string(c.location.file_path);
                 e.line = c.location.line_number; e.mapped = std::string(c.mapped_file_path); events.push_back(e); });
    }
    void end(const check::TestContext& c, double elapsed, log::Logger&) override
    {
        call([&] { Event e {}; e.type = Event::end; context(e, c); e.elapsed = elapsed; events.push_back(e); });
    }
    void thread_end(const check::ThreadContext& c) override
    {
        call([&] { Event e {}; e.type = Event::thread_end; e.thread_index = c.thread_index; events.push_back(e); });
    }
    void root_end(const check::RootContext& c, const check::Summary& s) override
    {
        call([&] { Event e {}; e.type = Event::root_end; e.test_index = c.num_tests; e.summary = s; events.push_back(e); });
    }
};

// --- scripts
Op gen_op(int depth, bool in_thread)
{
    static long line = 0;
    Op op;
    op.file = int(choose(4));
    op.line = 10 + long(choose(90));
    (void)line;
    switch (choose(in_thread ? 8 : 12)) {
        case 0: case 1: op.kind = Kind::pass; break;
        case 2: op.kind = Kind::fail; break;
        case 3: op.kind = Kind::yield; break;
        case 4: op.kind = Kind::trail_fail; break;
        case 5: op.kind = Kind::throw_check_ok; break;
        case 6: op.kind = Kind::throw_check_bad; break;
        case 7: op.kind = Kind::equal_bad; break;
        case 8: op.kind = Kind::sleep; break;
        case 9: op.kind = Kind::log; break;
        case 10: op.kind = choose(3) == 0 ? Kind::throw_std : choose(2) ? Kind::throw_int : Kind::pass; break;
        default:
            op.kind = Kind::pass;
            if (depth == 0 && choose(2)) {
                op.kind = Kind::spawn;
                u64 n = 2 + choose(2);
                for (u64 i = 0; i < n; ++i) {
                    Script s;
                    do s.push_back(gen_op(depth + 1, true)); while (s.size() < 6 && sim::more(3));
                    op.threads.push_back(s);
                }
            }
    }
    op.text = std::string(1, char('a' + choose(26))) + (choose(4) == 0 ? " < b && \"c\" > 'd'" : " is true");
    return op;
}
Script gen_script()
{
    Script s;
    while (s.size() < 8 && sim::more(2)) s.push_back(gen_op(0, false));
    return s;
}

struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };

void note(Exec& e, bool ok, const std::string& file, long line, const std::string& msg, bool whole)
{
    sim::NoPreempt np;
    ++e.checks;
    if (!ok) { ++e.failed; e.fails.insert({ file, line, msg, whole }); }
}

void run_op(World& w, Exec& e, const Op& op, check::TestContext& test_context)
{
    const char* f = files[op.file];
    switch (op.kind) {
        case Kind::pass:
            test_context.check_general_cond(true, f, op.line, "CHECK_X", op.text);
            note(e, true, f, op.line, "", true);
            break;
        case Kind::fail:
            note(e, false, f, op.line, "CHECK_X(" + op.text + ") failed", true);
            test_context.check_general_cond(false, f, op.line, "CHECK_X", op.text);
            break;
        case Kind::trail_fail: {
            note(e, false, f, op.line, "CHECK_Y(" + op.text + ") failed", true);
            auto& parent = test_context;
            ARCHON_TEST_TRAIL(parent, "trail");
            test_context.check_general_cond(false, f, op.line, "CHECK_Y", op.text);
            break;
        }
        case Kind::throw_check_ok:
            ARCHON_CHECK_THROW(throw Boom("x"), Boom);
            note(e, true, f, op.line, "", true);
            break;
        case Kind::throw_check_bad: {
            long l = __LINE__ + 2;
            note(e, false, __FILE__, l, "", false);
            ARCHON_CHECK_THROW((void)0, Boom);
            break;
        }
        case Kind::equal_bad: {
            long l = __LINE__ + 2;
            note(e, false, __FILE__, l, "ARCHON_CHECK_EQUAL(1, op.line) failed with (1, " + std::to_string(op.line) + ")", true);
            ARCHON_CHECK_EQUAL(1, op.line);
            break;
        }
        case Kind::yield: sim::yield(); break;
        case Kind::sleep: sim::sleep_ns(1000000 * (1 + op.line)); break;
        case Kind::log: test_context.logger.info("note %s", op.text); break;
        case Kind::throw_std: {
            { sim::NoPreempt np; e.threw = true; e.fails.insert({ files[w.tests[e.test].file], w.tests[e.test].line, op.text, false }); }
            throw Boom(op.text);
        }
        case Kind::throw_int:
            { sim::NoPreempt np; e.threw = true; e.fails.insert({ files[w.tests[e.test].file], w.tests[e.test].line, "", false }); }
            throw 7;
        case Kind::spawn: {
            std::vector<std::thread> ts;
            sim::count("probe.checks_from_spawned_threads");
            for (auto& s : op.threads) {
                try { ts.emplace_back([&w, &e, &s, &test_context] { for (auto& o : s) run_op(w, e, o, test_context); }); }
                catch (std::system_error&) {} // Injected failure of thread creation
            }
            for (auto& t : ts) t.join();
            break;
        }
    }
}

void run_test(World& w, int id, check::TestContext& c)
{
    Exec* ep;
    {
        sim::NoPreempt np;
        Test& t = w.tests[id];
        int rep = c.repetition_no;
        trace("run %s#%d", t.name.c_str(), rep);
        EXPECT(p12, c.test_details.name == t.name, "wrong-test", "the test context names another test");
        auto i = w.execs.find({ id, rep });
        EXPECT(p12 | p34, i != w.execs.end(), "unexpected-execution", "test %s was executed for repetition %d, but should not have been", t.name.c_str(), rep);
        static Exec dummy;
        ep = i != w.execs.end() ? &i->second : &dummy;
        Exec& e = *ep;
        ++e.runs;
        e.seq = ++w.seq;
        e.running = true;
        e.sim_thread = sim::self();
        EXPECT(p12 | p34, e.runs == 1, "executed-twice", "test %s was executed twice for repetition %d", t.name.c_str(), rep);
        ++w.active;
        if (!t.concur) ++w.active_nonconcur;
        w.max_active = std::max(w.max_active, w.active);
        EXPECT(p12, w.active <= std::max(1, w.effective), "too-many-threads", "%d tests execute concurrently, but the number of threads is limited to %d", w.active, w.effective);
        EXPECT(p12, w.active_nonconcur == 0 || w.active == 1, "nonconcurrent-overlap", "a nonconcurrent test executes concurrently with another test");
        if (!t.concur)
            EXPECT(p12, sim::self() == w.main_thread, "nonconcurrent-thread", "a nonconcurrent test was executed by another thread than the one calling run()");
        e.t0 = sim::now_mono();
        if (w.active > 1) sim::count("probe.concurrent_tests");
    }
    struct Leave { World& w; Exec& e; bool concur;
        ~Leave() { sim::NoPreempt np; e.t1 = sim::now_mono(); --w.active; e.running = false; if (!concur) --w.active_nonconcur; } } leave { w, *ep, w.tests[id].concur };
    if (g_prop & p12) {
        std::vector<unsigned> v(4);
        const auto& ss = c.seed_seq();
        std::vector<core::SeedSeq::result_type> out(4);
        ss.generate(out.begin(), out.end());
        for (int i = 0; i < 4; ++i) v[i] = unsigned(out[i]);
        sim::NoPreempt np;
        ep->seed = v;
    }
    auto i = w.tests[id].scripts.find(c.repetition_no);
    if (i != w.tests[id].scripts.end())
        for (auto& op : i->second) {
            if (!w.catch_errors) { run_op(w, *ep, op, c); continue; }
            try { run_op(w, *ep, op, c); }
            catch (Boom&) { throw; }
            catch (std::exception& e) { sim::NoPreempt np; trace("  fault surfaces in test: %s", e.what()); ep->threw = true; throw; }
        }
}

struct MaskFilter : check::Filter {
    World* w;
    bool include(const check::TestDetails& d) const noexcept override { auto i = w->by_name.find(std::string(d.name)); return i != w->by_name.end() && w->tests[i->second].included; }
};
struct KeyOrder : check::TestOrder {
    World* w;
    int key(const check::TestDetails& d) const { auto i = w->by_name.find(std::string(d.name)); return i == w->by_name.end() ? 0 : w->tests[i->second].order_key; }
    bool less(const check::TestDetails& a, const check::TestDetails& b) const noexcept override { return key(a) < key(b); }
};
struct Mapper : check::SourcePathMapper {
    bool map(std::filesystem::path& p) const override { p = "M" + p.string(); return true; }
};

// --- small XML reader
struct Xml {
    std::string s; std::size_t i = 0;
    struct El { std::string tag; std::map<std::string, std::string> attr; std::vector<El> kids; };
    [[noreturn]] void bad(const char* what) { sim::NoPreempt np; sim::fail("xml-malformed", "XML report: %s at offset %zu: %s", what, i, sim::quote(s.substr(i > 60 ? i - 60 : 0, 120), 200).c_str()); }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) ++i; }
    std::string name() { std::size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '-' || s[i] == '_')) ++i; if (b == i) bad("name expected"); return s.substr(b, i - b); }
    std::string value()
    {
        if (i >= s.size() || s[i] != '"') bad("quoted value expected");
        ++i;
        std::string r;
        for (;;) {
            if (i >= s.size()) bad("unterminated value");
            char c = s[i];
            if (c == '"') { ++i; return r; }
            if (c == '<') bad("'<' inside of attribute value");
            if (c == '&') {
                std::size_t e = s.find(';', i);
                std::string n = e == std::string::npos ? "" : s.substr(i + 1, e - i - 1);
                if (n == "amp") r += '&'; else if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\'';
                else bad("bad entity");
                i = e + 1;
                continue;
            }
            r += c; ++i;
        }
    }
    El element()
    {
        El e;
        if (i >= s.size() || s[i] != '<') bad("element expected");
        ++i;
        e.tag = name();
        for (;;) {
            ws();
            if (i < s.size() && s[i] == '/') { ++i; if (i >= s.size() || s[i] != '>') bad("'>' expected"); ++i; return e; }
            if (i < s.size() && s[i] == '>') { ++i; break; }
            std::string n = name();
            if (i >= s.size() || s[i] != '=') bad("'=' expected");
            ++i;
            if (!e.attr.emplace(n, value()).second) bad("duplicate attribute");
        }
        for (;;) {
            ws();
            if (s.compare(i, 2, "</") == 0) { i += 2; if (name() != e.tag) bad("mismatched end tag"); ws(); if (i >= s.size() || s[i] != '>') bad("'>' expected"); ++i; return e; }
            e.kids.push_back(element());
        }
    }
    El document()
    {
        if (s.compare(0, 5, "<?xml") != 0) bad("XML declaration expected");
        i = s.find("?>");
        if (i == std::string::npos) { i = 0; bad("unterminated XML declaration"); }
        i += 2;
        ws();
        El e = element();
        ws();
        if (i != s.size()) bad("trailing data");
        return e;
    }
};

bool match(const Fail& f, const std::string& file, long line, const std::string& msg)
{
    return f.file == file && f.line == line && (f.whole ? msg == f.message : msg.find(f.message) != std::string::npos);
}

void check_xml(unsigned p, World& w, const std::string& text, std::size_t num_execs, long failed_execs, long long checks, long long failed, const char* suite, bool exact, double max_time = 1e9)
{
    Xml x; x.s = text;
    if (sim::tracing()) trace("xml: %s", x.s.c_str());
    Xml::El root = x.document();
    auto time = [&](const std::string& s, double lo) {
        char* end = nullptr;
        double t = std::strtod(s.c_str(), &end);
        EXPECT(p, !s.empty() && *end == 0 && s.find_first_not_of("0123456789.e+-") == std::string::npos, "xml-wrong", "'%s' is not a number of seconds", s.c_str());
        EXPECT(p, t >= lo * (1 - 1e-5) - 1e-6 && t <= max_time * (1 + 1e-5) + 1e-6, "xml-wrong", "a duration of %s seconds is out of range (%f to %f)", s.c_str(), lo, max_time);
    };
    EXPECT(p, root.tag == "unittest-results", "xml-wrong", "bad root element");
    EXPECT(p, root.attr["tests"] == std::to_string(num_execs) && root.attr["failedtests"] == std::to_string(failed_execs), "xml-wrong", "wrong totals in the XML report");
    if (exact) EXPECT(p, root.attr["checks"] == std::to_string(checks) && root.attr["failures"] == std::to_string(failed), "xml-wrong", "wrong totals in the XML report");
    time(root.attr["time"], 0);
    struct Left { const Exec* e; std::multiset<Fail> fails; };
    std::map<std::string, Left> left;
    for (auto& [k, e] : w.execs) {
        std::string nm = w.tests[k.first].name + (w.reps > 1 ? "#" + std::to_string(k.second) : "");
        left[nm] = { &e, e.fails };
    }
    EXPECT(p, root.kids.size() == left.size(), "xml-wrong", "the XML report holds %zu tests, but %zu were executed", root.kids.size(), left.size());
    for (auto& t : root.kids) {
        auto i = left.find(t.attr["name"]);
        EXPECT(p, t.tag == "test" && i != left.end(), "xml-wrong", "unexpected test '%s' in the XML report", t.attr["name"].c_str());
        if (suite) EXPECT(p, t.attr["suite"] == suite, "xml-wrong", "the XML report attributes a test to suite '%s'", t.attr["suite"].c_str());
        const Exec& e = *i->second.e;
        time(t.attr["time"], double(e.t1 - e.t0) / 1e9);
        auto& fails = i->second.fails;
        if (!exact) { EXPECT(p, t.kids.empty() == (!e.threw && e.failed == 0), "xml-wrong", "test '%s' is reported with %zu failures", t.attr["name"].c_str(), t.kids.size()); left.erase(i); continue; }
        for (auto& f : t.kids) {
            const std::string& m = f.attr["message"];
            auto it = std::find_if(fails.begin(), fails.end(), [&](const Fail& g) {
                std::string prefix = w.map_path(g.file) + "(" + std::to_string(g.line) + ") : ";
                return m.compare(0, prefix.size(), prefix) == 0 && (g.whole ? m.substr(prefix.size()) == g.message : m.find(g.message, prefix.size()) != std::string::npos);
            });
            EXPECT(p, f.tag == "failure" && it != fails.end(), "xml-wrong", "the XML report holds failure '%s' for test '%s', which did not happen", m.c_str(), t.attr["name"].c_str());
            fails.erase(it);
        }
        EXPECT(p, fails.empty(), "xml-wrong", "a failure of test '%s' is missing in the XML report", t.attr["name"].c_str());
        left.erase(i);
    }
}

void check_log(unsigned p, World& w, const std::string& all)
{
    std::vector<std::string> lines;
    std::istringstream in(all);
    for (std::string l; std::getline(in, l);) lines.push_back(l);
    EXPECT(p, all.empty() || all.back() == '\n', "log-wrong", "the log ends in the middle of a line");
    for (auto& [k, e] : w.execs) {
        for (auto& f : e.fails) {
            std::string where = w.map_path(f.file) + ":" + std::to_string(f.line) + ": " + w.tests[k.first].name + (w.reps > 1 ? "#" + std::to_string(k.second) : "") + ": ";
            auto it = std::find_if(lines.begin(), lines.end(), [&](const std::string& l) {
                std::size_t i = l.find(where);
                if (i == std::string::npos) return false;
                std::size_t j = l.find(f.message, i + where.size());
                return j != std::string::npos && (!f.whole || j + f.message.size() == l.size());
            });
            EXPECT(p, it != lines.end(), "log-wrong", "failure '%s' of test %s is not in the log with its location", f.message.c_str(), w.tests[k.first].name.c_str());
            lines.erase(it);
        }
    }
}

void world(unsigned prop, bool thread_failure)
{
    g_prop = prop;
    g_nprocs = 1 + int(choose(4));
    sim::set_switch_rate(1 + choose(4));
    sim::set_preempt(choose(3) != 0);
    World w;
    w.main_thread = sim::self();
    w.reps = choose(4) ? 1 + int(choose(3)) : int(choose(2));
    w.num_threads = int(choose(5));
    w.effective = w.num_threads ? w.num_threads : g_nprocs;
    w.mapper = choose(2);
    int n = int(sim::range(0, 8));
    check::TestList list;
    int mode = int(choose(3)); // 0: mixed, 1: all concurrent, 2: mostly nonconcurrent
    for (int i = 0; i < n; ++i) {
        Test t;
        t.id = i;
        t.name = test_names[choose(6) == 1 ? 8 + i % 2 : i];
        if (w.by_name.count(t.name)) t.name = test_names[i];
        t.file = int(choose(4));
        t.line = 100 + i;
        t.enabled = int(choose(5)); if (t.enabled > 2) t.enabled = 0;
        t.concur = mode == 1 ? true : choose(mode == 0 ? 3 : 2) != 1;
        t.included = true;
        t.order_key = int(choose(3));
        for (int r = 1; r <= w.reps; ++r) t.scripts[r] = gen_script();
        w.by_name[t.name] = i;
        w.tests.push_back(t);
    }
    // Filter
    MaskFilter mask; mask.w = &w;
    std::optional<check::WildcardFilter> wild;
    u64 filter = choose(4);
    if (filter == 1) {
        for (auto& t : w.tests) t.included = choose(2);
    }
    else if (filter == 2) {
        std::string inc, exc;
        std::vector<bool> in(10), ex(10);
        u64 k = choose(4);
        bool all = k == 0;
        for (u64 i = 0; i < k; ++i) { if (choose(4) == 0) { inc += " T*"; all = true; } else { int j = int(choose(8)); inc += " T" + std::to_string(j); in[j] = true; } }
        u64 m = choose(3);
        if (m > 0) { exc = " -"; for (u64 i = 0; i < m; ++i) { int j = int(choose(8)); exc += " T" + std::to_string(j); ex[j] = true; } }
        wild.emplace(inc + exc, std::locale::classic());
        trace("filter '%s'", (inc + exc).c_str());
        for (auto& t : w.tests) {
            bool plain = t.name.size() == 2;
            int j = plain ? t.name[1] - '0' : 9;
            t.included = (all || (plain && in[j])) && !(plain && ex[j]);
        }
    }
    for (auto& t : w.tests) {
        trace("test %d %s file=%d enabled=%d concur=%d included=%d key=%d", t.id, t.name.c_str(), t.file, t.enabled, t.concur, t.included, t.order_key);
        list.add(t.name, files[t.file], t.line, [&w, id = t.id](check::TestContext& c) { run_test(w, id, c); },
                 t.enabled == 0 ? nullptr : t.enabled == 1 ? yes : no, t.concur);
    }
    // Expected executions
    std::vector<int> order;
    long disabled = 0, excluded = 0;
    for (auto& t : w.tests) {
        if (t.enabled == 2) ++disabled;
        else if (!t.included) ++excluded;
        else order.push_back(t.id);
    }
    KeyOrder key; key.w = &w;
    bool sorted = choose(3) == 1;
    if (sorted) std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return w.tests[a].order_key < w.tests[b].order_key; });
    std::vector<std::pair<int, int>> expected;
    for (int r = 1; r <= w.reps; ++r)
        for (int id : order) { expected.push_back({ id, r }); Exec e; e.test = id; e.rep = r; w.execs[{ id, r }] = e; }

    // Configuration
    check::TestConfig config;
    config.num_repetitions = w.reps;
    config.num_threads = w.num_threads;
    config.shuffle = choose(4) == 1;
    config.test_list = &list;
    if (filter == 1) config.filter = &mask;
    if (filter == 2) config.filter = &*wild;
    if (sorted) config.test_order = &key;
    Mapper mapper;
    if (w.mapper) config.source_path_mapper = &mapper;
    Recorder rec, rec2;
    rec.w = rec2.w = &w;
    rec.slow = choose(2); rec2.slow = false;
    std::ostringstream xml_out, log_out;
    xml_out.imbue(std::locale::classic());
    log_out.imbue(std::locale::classic());
    check::XmlReporter xml(xml_out, choose(2) ? "default" : "su<i>te & \"co\"");
    check::SimpleReporter simple(choose(2));
    log::StreamLogger logger(log_out);
    bool to_files = choose(4) == 1;
    config.logger = &logger;
    config.log_to_files = to_files;
    config.log_timestamps = choose(4) == 1;
    config.log_file_base_dir = "/sim";
    config.log_path_template = "thread_@n.log";
    config.test_file_subdir = "";
    config.test_file_base_dir = "/sim";
    config.inner_log_level_limit = choose(2) ? log::LogLevel::all : log::LogLevel::off;
    if (choose(2)) { std::vector<check::SeedSeq::result_type> v = { 17, 4, 99 }; config.random_seed = check::RandomSeed(core::Span<const check::SeedSeq::result_type>(v.data(), v.size())); }
    config.rseed_rep_no_override = choose(3) == 1 ? (choose(4) ? 1 + int(choose(4)) : 1000000) : 0;
    bool with_xml = (prop & p14) && choose(2), with_simple = (prop & p14) && choose(2);
    std::optional<check::DuplicatingReporter> dup;
    if (with_xml || with_simple || choose(3) == 1) {
        std::vector<check::Reporter*> rs = { &rec };
        if (with_xml) rs.push_back(&xml);
        if (with_simple) rs.push_back(&simple);
        rs.push_back(&rec2);
        dup.emplace(core::Span<check::Reporter* const>(rs.data(), rs.size()));
        config.reporter = &*dup;
    }
    else
        config.reporter = &rec;
    trace("run reps=%d threads=%d/%d shuffle=%d xml=%d simple=%d files=%d", w.reps, w.num_threads, w.effective, config.shuffle, with_xml, with_simple, to_files);
    if (thread_failure) sim::set_thread_create_failure(1 + choose(5));

    // The sequences offered to the repetitions of a single test with the same seed
    std::map<int, std::vector<unsigned>> reference;
    if ((prop & p12) != 0 && !thread_failure && choose(3) == 1) {
        check::TestList single;
        single.add("reference", files[0], 1, [&](check::TestContext& c) {
            std::vector<core::SeedSeq::result_type> out(4);
            c.seed_seq().generate(out.begin(), out.end());
            reference[c.repetition_no].assign(out.begin(), out.end());
        });
        check::TestConfig config_2;
        config_2.num_repetitions = 4;
        config_2.num_threads = 1;
        config_2.test_list = &single;
        config_2.logger = &log::Logger::get_null();
        config_2.random_seed = config.random_seed;
        config_2.test_file_subdir = "";
        config_2.test_file_base_dir = "/sim";
        check::TestRunner(std::locale::classic(), std::move(config_2)).run();
        sim::count("probe.seed_reference");
    }

    bool verdict = false, thrown = false;
    bool shuffle = config.shuffle;
    int rseed_override = config.rseed_rep_no_override;
    try {
        if (choose(2)) {
            check::TestRunner runner(std::locale::classic(), std::move(config));
            verdict = runner.run();
        }
        else
            verdict = check::run(std::move(config));
    }
    catch (std::system_error& e) {
        thrown = true;
        if (!thread_failure) sim::fail("spurious-failure", "run() threw %s", e.what());
    }
    trace("verdict %d thrown %d", verdict, thrown);
    sim::set_preempt(false);
    if (thrown) {
        sim::count("probe.run_failed");
        for (auto& [k, e] : w.execs) EXPECT(p12, e.runs <= 1 && !e.running, "executed-twice", "test executed %d times", e.runs);
        return;
    }

    // ---- C12
    for (auto& [k, e] : w.execs)
        EXPECT(p12, e.runs == 1, "not-executed", "test %s was executed %d times for repetition %d", w.tests[k.first].name.c_str(), e.runs, k.second);
    if ((prop & p12) != 0) {
        std::map<int, std::vector<unsigned>> seeds;
        for (auto& [k, e] : w.execs) {
            int r = rseed_override ? rseed_override : k.second;
            auto p = seeds.emplace(r, e.seed);
            EXPECT(p12, p.first->second == e.seed, "seed-differs", "executions with the same seed and repetition number were offered different random seed sequences");
        }
        for (auto& [r, v] : seeds)
            if (auto i = reference.find(r); i != reference.end())
                EXPECT(p12, v == i->second, "seed-differs", "the random seed sequence offered with repetition number %d depends on something else than the seed and the repetition number", r);
        for (auto& a : seeds) for (auto& b : seeds)
            EXPECT(p12, a.first == b.first || a.second != b.second, "seed-same", "two repetitions were offered the same random seed sequence");
        if (!shuffle) {
            std::vector<std::pair<int, int>> got;
            for (auto& e : rec.events) if (e.type == Event::begin) got.push_back({ w.by_name[e.name], e.rep });
            if (w.effective == 1)
                EXPECT(p12, got == expected, "wrong-order", "a single thread did not execute the tests in the configured order");
            for (bool c : { false, true }) {
                std::vector<std::pair<int, int>> a, b;
                for (auto& x : got) if (w.tests[x.first].concur == c) a.push_back(x);
                for (auto& x : expected) if (w.tests[x.first].concur == c) b.push_back(x);
                EXPECT(p12, a == b, "wrong-order", "the executions were not initiated in the configured order");
            }
        }
    }

    // ---- C13
    long failed_execs = 0;
    long long checks = 0, failed = 0;
    for (auto& [k, e] : w.execs) { failed_execs += e.threw || e.failed > 0; checks += e.checks; failed += e.failed; }
    EXPECT(p13, verdict == (failed_execs == 0), "wrong-verdict", "run() returned %s, but %ld test executions failed", verdict ? "success" : "failure", failed_execs);
    if (rec.events.empty() || rec.events.back().type != Event::root_end)
        EXPECT(p13 | p14, false, "no-root-end", "the run ended without the reporter being told");
    else {
        const check::Summary& s = rec.events.back().summary;
        struct { const char* what; long long got, want; } t[] = {
            { "disabled tests", s.num_disabled_tests, disabled }, { "excluded tests", s.num_excluded_tests, excluded },
            { "selected tests", s.num_selected_tests, (long long)order.size() }, { "test executions", s.num_test_executions, (long long)expected.size() },
            { "failed test executions", s.num_failed_test_executions, failed_execs }, { "checks", s.num_checks, checks }, { "failed checks", s.num_failed_checks, failed } };
        for (auto& x : t)
            EXPECT(p13, x.got == x.want, "wrong-total", "the summary reports %lld %s, but there were %lld", x.got, x.what, x.want);
    }
    const Event& rb = rec.events.front();
    if (rb.type == Event::root_begin) {
        EXPECT(p13, rb.test_index == order.size() && rb.line == long(expected.size()) && rb.rep == w.reps, "wrong-total", "the root context announces wrong numbers");
        EXPECT(p12, rb.thread_index <= w.effective, "too-many-threads", "the root context announces %d threads, but at most %d are allowed", rb.thread_index, w.effective);
    }

    // ---- C14
    if ((prop & p14) == 0) return;
    auto check_history = [&](Recorder& r) {
        std::size_t N = r.events.size();
        EXPECT(p14, N >= 2 && r.events[0].type == Event::root_begin && r.events[N - 1].type == Event::root_end, "bad-history", "the history does not begin with root_begin or end with root_end");
        int threads = r.events[0].thread_index;
        std::vector<int> st(threads, 0); // 0 not begun, 1 idle, 2 in test, 3 ended
        std::vector<const Event*> cur(threads);
        std::map<std::pair<int, int>, int> begun, ended;
        std::map<std::pair<int, int>, std::multiset<Fail>> left;
        for (auto& [k, e] : w.execs) left[k] = e.fails;
        for (std::size_t i = 1; i + 1 < N; ++i) {
            const Event& e = r.events[i];
            EXPECT(p14, e.type != Event::root_begin && e.type != Event::root_end, "bad-history", "root_begin or root_end in the middle of the run");
            EXPECT(p14, e.thread_index >= 0 && e.thread_index < threads, "bad-history", "report for thread %d, but there are only %d", e.thread_index, threads);
            int& s = st[e.thread_index];
            std::pair<int, int> k { e.name.empty() ? -1 : w.by_name[e.name], e.rep };
            switch (e.type) {
                case Event::thread_begin: EXPECT(p14, s == 0, "bad-history", "thread %d began twice", e.thread_index); s = 1; break;
                case Event::thread_end: EXPECT(p14, s == 1, "bad-history", "thread %d ended %s", e.thread_index, s == 3 ? "twice" : s == 2 ? "in the middle of a test" : "before it began"); s = 3; break;
                case Event::begin:
                    EXPECT(p14, s == 1, "bad-history", "a test began on thread %d %s", e.thread_index, s == 0 ? "before the thread began" : s == 3 ? "after the thread ended" : "inside of another test");
                    s = 2; cur[e.thread_index] = &e;
                    EXPECT(p14, ++begun[k] == 1, "bad-history", "test %s#%d began twice", e.name.c_str(), e.rep);
                    EXPECT(p14, e.mapped == w.map_path(files[w.tests[k.first].file]), "wrong-location", "test %s is presented with file path %s", e.name.c_str(), e.mapped.c_str());
                    break;
                case Event::end: {
                    EXPECT(p14, s == 2 && cur[e.thread_index]->name == e.name && cur[e.thread_index]->rep == e.rep, "bad-history", "test %s#%d ended on thread %d without having begun there", e.name.c_str(), e.rep, e.thread_index);
                    s = 1;
                    ++ended[k];
                    const Exec& x = w.execs[k];
                    double lo = double(x.t1 - x.t0) / 1e9, hi = double(e.time - cur[e.thread_index]->time) / 1e9;
                    EXPECT(p14, e.elapsed >= lo - 1e-6 && e.elapsed <= hi + 1e-6, "wrong-elapsed", "test %s#%d took %f to %f seconds, but %f is reported", e.name.c_str(), e.rep, lo, hi, e.elapsed);
                    break;
                }
                case Event::fail: {
                    EXPECT(p14, s == 2 && cur[e.thread_index]->name == e.name && cur[e.thread_index]->rep == e.rep, "bad-history", "a failure was reported for test %s#%d while it was not executing on thread %d", e.name.c_str(), e.rep, e.thread_index);
                    auto& l = left[k];
                    auto it = std::find_if(l.begin(), l.end(), [&](const Fail& f) { return match(f, e.file, e.line, e.message); });
                    EXPECT(p14, it != l.end(), "wrong-failure", "failure '%s' at %s:%ld is reported for test %s#%d, but no such failure happened (or it was reported before)", e.message.c_str(), e.file.c_str(), e.line, e.name.c_str(), e.rep);
                    l.erase(it);
                    EXPECT(p14, e.mapped == w.map_path(e.file), "wrong-location", "a failure in %s is reported with mapped path %s", e.file.c_str(), e.mapped.c_str());
                    break;
                }
                default: break;
            }
        }
        for (int i = 0; i < threads; ++i) EXPECT(p14, st[i] == 3, "bad-history", "thread %d did not %s", i, st[i] == 0 ? "begin" : "end");
        for (auto& [k, l] : left) EXPECT(p14, l.empty(), "failure-lost", "failure '%s' at %s:%ld of test %s#%d was not reported", l.begin()->message.c_str(), l.begin()->file.c_str(), l.begin()->line, w.tests[k.first].name.c_str(), k.second);
        for (auto& [k, e] : w.execs) EXPECT(p14, begun[k] == 1 && ended[k] == 1, "bad-history", "test %s#%d was reported to begin %d times and end %d times", w.tests[k.first].name.c_str(), k.second, begun[k], ended[k]);
        EXPECT(p14, begun.size() == w.execs.size(), "bad-history", "tests were reported that should not have been executed");
    };
    check_history(rec);
    if (dup) {
        EXPECT(p14, rec.events.size() == rec2.events.size(), "duplicate-differs", "the branches of the duplicating reporter received %zu and %zu reports", rec.events.size(), rec2.events.size());
        for (std::size_t i = 0; i < rec.events.size(); ++i)
            EXPECT(p14, rec.events[i].same(rec2.events[i]), "duplicate-differs", "the branches of the duplicating reporter received different reports");
    }
    if (with_xml) {
        sim::count("probe.xml_report");
        check_xml(p14, w, xml_out.str(), expected.size(), failed_execs, checks, failed, nullptr, true);
    }
    if (with_simple) {
        // Every failure is logged on a line of its own
        sim::count("probe.log_report");
        std::string all = log_out.str();
        if (to_files) for (int i = 1; i <= 8; ++i) { std::string p = "/sim/thread_" + std::to_string(i) + ".log"; if (fs::exists(p)) all += fs::get(p); }
        check_log(p14, w, all);
    }
    sim::state(sim::mix(expected.size() * 16 + w.effective, failed_execs * 64 + w.max_active));
}

// --- the test command
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
};

const char* const command_names[] = { "Foo", "Foo_A", "Foo_B", "Bar", "Bar_A", "Bar_Foo", "Baz", "Qux_A" };
const char* const patterns[] = { "*", "Foo", "Foo*", "*_A", "*Foo", "B*", "Bar_*", "Nothing", "*a*", "Qux_A", "" };

bool wild(const char* p, const char* s)
{
    if (*p == 0) return *s == 0;
    if (*p == '*') { for (;; ++s) { if (wild(p + 1, s)) return true; if (*s == 0) return false; } }
    return *p == *s && wild(p + 1, s + 1);
}

void command(bool faults)
{
    const unsigned prop = p34;
    g_prop = prop;
    g_nprocs = 1 + int(choose(4));
    sim::set_switch_rate(1 + choose(4));
    World w;
    w.main_thread = sim::self();
    w.mapper = false;
    w.catch_errors = faults;
    w.num_threads = 0;
    w.reps = 1;
    check::TestConfig defaults;
    fs::remap_std(true);
    fs::mkdir("/sim/base");

    // Suite
    int n = int(sim::range(0, 8));
    struct Reset { ~Reset() { sim::NoPreempt np; check::TestList::get_default_list() = check::TestList(); } } reset;
    check::TestList& list = check::TestList::get_default_list();
    u64 layout = choose(3); // 0: no detection of the path prefix, 1: everything is below the prefix, 2: likewise, other anchor
    bool twice = n >= 2 && choose(12) == 1;
    for (int i = 0; i < n; ++i) {
        Test t;
        t.id = i;
        t.name = command_names[i];
        if (twice && i == n - 1) t.name = command_names[choose(n - 1)];
        t.file = int(choose(4));
        t.line = 100 + i;
        t.enabled = int(choose(6)); if (t.enabled > 2) t.enabled = 0;
        t.concur = choose(3) != 1;
        w.by_name[t.name] = i;
        w.tests.push_back(t);
    }
    // Command line
    std::vector<std::string> args = { "no-such-program-of-a-simulated-run" };
    core::BuildEnvironment::Params params;
    params.file_path = layout == 0 ? "main.cpp" : layout == 1 ? "/source/tree/alpha/test/main.cpp" : "/source/tree/main.cpp";
    params.bin_path = "alpha/test/main";
    params.src_path = layout == 0 ? "alpha/test/main.cpp" : layout == 1 ? "alpha/test/main.cpp" : "main.cpp";
    params.src_root = "src";
    if (layout != 0) w.strip = "/source/tree/";
    std::string src_path(params.src_path), root_from_build = choose(2) ? "../../src" : "../../src/";
    struct Forget { ~Forget() { g_cwd = std::string(); g_program = std::string(); } } forget;
    bool found = false;
    if (choose(2)) { // program and sources in a project directory
        static const char* const cwds[] = { "/sim/proj", "/sim/proj/src", "/sim/proj/build/src/alpha", "/sim/elsewhere", "/" };
        sim::NoFault nf;
        g_cwd = cwds[choose(5)];
        g_program = "/sim/proj/build/src/alpha/test/main";
        args[0] = g_program;
        params.source_from_build_path = root_from_build;
        fs::mkdir("/sim/elsewhere");
        for (const char* d : { "/sim/proj", "/sim/proj/src", "/sim/proj/build", "/sim/proj/build/src", "/sim/proj/build/src/alpha" }) fs::mkdir(d);
        found = choose(4) != 1;
        if (!found && g_cwd == "/") g_cwd = "/sim/elsewhere";
        if (found) fs::put("/sim/proj/src/" + src_path, "int main() {}");
        if (found && layout != 0) w.base = std::filesystem::path("/sim/proj/src").lexically_relative(g_cwd).string();
        if (w.base == ".") w.base.clear();
        if (!w.base.empty()) w.base += "/";
        trace("project cwd=%s found=%d base=%s", g_cwd.c_str(), found, w.base.c_str());
        sim::count("probe.command_in_project");
    }
    else {
        sim::NoFault nf;
        g_cwd = "/sim/elsewhere";
        fs::mkdir(g_cwd);
    }
    const std::string root = found ? "/sim/proj" : g_cwd; // of files made by default

    bool opt_help = false, subdir = false, xml = false, to_files = false, describe = false, progress = false;
    std::string bad, suite = "default", filter, xml_path;
    auto add = [&](const char* s, const char* l, const std::string& v) {
        switch (choose(3)) {
            case 0: args.push_back(s); args.push_back(v); break;
            case 1: args.push_back(l); args.push_back(v); break;
            default: args.push_back(l + ("=" + v)); break;
        }
    };
    auto flag = [&](const char* s, const char* l) { args.push_back(choose(2) ? s : l); };
    std::string log_dir = "/tmp";
    bool refuse = false, bad_template = false; // understood, but cannot be carried out
    std::string test_base = "/sim/base", log_base = "/sim/base";
    if (choose(3) == 1) test_base = root; else add("-E", "--test-file-base-dir", "/sim/base");
    if (choose(3) == 1) log_base = root; else add("-L", "--log-file-base-dir", choose(2) ? "/sim/base" : "/sim/base/");
    if (choose(2)) { w.reps = int(choose(4)); add("-n", "--num-repetitions", std::to_string(w.reps)); }
    if (choose(2)) { w.num_threads = int(choose(5)); add("-t", "--num-threads", std::to_string(w.num_threads)); }
    else w.num_threads = defaults.num_threads;
    w.effective = w.num_threads ? w.num_threads : g_nprocs;
    std::vector<std::string> inc, exc;
    if (choose(2)) {
        bool dash = choose(2);
        for (u64 i = choose(3); i > 0; --i) inc.push_back(patterns[choose(10)]);
        if (dash) for (u64 i = choose(3); i > 0; --i) exc.push_back(patterns[choose(10)]);
        if (choose(4) == 1) filter += "  ";
        for (auto& s : inc) filter += s + (choose(4) == 1 ? "   " : " ");
        if (dash) filter += "- ";
        for (auto& s : exc) filter += s + " ";
        if (!filter.empty() && choose(2)) filter.pop_back();
        add("-f", "--filter", filter);
    }
    bool shuffle = choose(6) == 1;
    if (shuffle) flag("-s", "--shuffle");
    if (choose(6) == 1) add("-R", "--seed-rep-no", std::to_string(1 + choose(3)));
    if (choose(2)) {
        xml = true;
        bool first = choose(2);
        if (first) flag("-x", "--xml");
        xml_path = choose(2) ? "/sim/result.xml" : "/sim/out/result.xml";
        fs::mkdir("/sim/out");
        if (g_cwd != "/" && choose(3) == 1) {
            bool def = choose(2);
            xml_path = g_cwd + (def ? "/test_results.xml" : "/out.xml");
            if (!def) add("-m", "--xml-path", "out.xml");
        }
        else
            add("-m", "--xml-path", xml_path);
        if (!first) flag("-x", "--xml");
        if (choose(2)) fs::put(xml_path, std::string(sim::range(0, 6000), 'z'));
        if (choose(2)) { suite = choose(2) ? "main" : "a<b> & \"c'"; add("-u", "--suite-name", suite); }
    }
    if (choose(3) == 1) { progress = true; flag("-p", "--progress"); }
    if (choose(4) == 1) flag("-T", "--log-timestamps");
    if (choose(4) == 1) {
        to_files = true;
        flag("-F", "--log-to-files");
        u64 k = choose(12);
        if (k == 1) { add("-P", "--log-path-template", choose(2) ? "same.log" : "@q.log"); bad_template = true; }
        else if (k == 2) { add("-P", "--log-path-template", "../thread_@n.log"); bad_template = true; }
        else if (choose(2)) { add("-P", "--log-path-template", "logs/thread_@n.log"); log_dir = "/logs"; }
    }
    if (choose(4) == 1) flag("-k", "--keep-test-files");
    if (choose(4) == 1) { static const char* const l[] = { "off", "error", "info", "all" }; add("-l", "--log-level", l[choose(4)]); }
    if (choose(8) == 1) { describe = true; flag("-b", "--describe-build-env"); }
    if (choose(4) == 1) {
        u64 k = choose(4);
        add("-e", "--test-file-subdir", k == 0 ? "../up" : k == 1 ? "" : "a/b");
        refuse = refuse || k == 0;
        subdir = true;
    }
    u64 wrong = choose(6);
    if (wrong == 0) { opt_help = true; flag("-h", "--help"); }
    if (wrong == 1) {
        switch (choose(9)) {
            case 0: args.push_back("-y"); break;
            case 1: args.push_back("--nonsense"); break;
            case 2: args.push_back("-n"); args.push_back("-1"); break;
            case 3: args.push_back("--num-threads=two"); break;
            case 4: args.push_back("--log-level=loud"); break;
            case 5: args.push_back("stray"); break;
            case 6: args.push_back("--xml=yes"); break;
            case 7: args.push_back("-f"); break;
            default: args.push_back("-n99999999999999999999"); break;
        }
        bad = args.back();
    }
    std::string all_args;
    for (auto& a : args) all_args += " '" + a + "'";
    trace("arguments%s", all_args.c_str());
    std::vector<std::string> args2 = args;
    std::vector<char*> argv;
    for (auto& a : args2) argv.push_back(a.data());
    argv.push_back(nullptr);

    for (int i = 0; i < n; ++i) {
        Test& t = w.tests[i];
        auto any = [&](const std::vector<std::string>& v) { return std::any_of(v.begin(), v.end(), [&](const std::string& p) { return wild(p.c_str(), t.name.c_str()); }); };
        t.included = (inc.empty() || any(inc)) && !any(exc);
        for (int r = 1; r <= w.reps; ++r) {
            t.scripts[r] = gen_script();
            for (Op& op : t.scripts[r]) if (layout != 0 || faults) // all locations must be below the prefix; exceptions must not escape from spawned threads
                if (op.kind == Kind::throw_check_bad || op.kind == Kind::equal_bad || op.kind == Kind::spawn) op.kind = Kind::fail;
        }
        trace("test %d %s file=%d enabled=%d concur=%d included=%d", t.id, t.name.c_str(), t.file, t.enabled, t.concur, t.included);
        list.add(t.name, files[t.file], t.line, [&w, id = t.id](check::TestContext& c) { run_test(w, id, c); }, t.enabled == 0 ? nullptr : t.enabled == 1 ? yes : no, t.concur);
    }
    // Order
    std::vector<std::string_view> test_order;
    std::vector<int> order;
    for (u64 i = choose(2) ? choose(4) : 0; i > 0; --i) test_order.push_back(patterns[choose(10)]);
    long excluded = 0;
    for (auto& t : w.tests) {
        t.order_key = 0;
        while (t.order_key < int(test_order.size()) && !wild(std::string(test_order[t.order_key]).c_str(), t.name.c_str())) ++t.order_key;
        if (t.enabled == 2) {}
        else if (!t.included) ++excluded;
        else order.push_back(t.id);
    }
    if (!test_order.empty()) std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return w.tests[a].order_key < w.tests[b].order_key; });
    bool idle = bad_template && (order.empty() || w.reps == 0); // may not need the log files
    refuse = refuse || bad_template;
    bool none = !bad.empty() || opt_help || twice || refuse; // nothing is to be executed
    std::vector<std::pair<int, int>> expected;
    if (!none)
        for (int r = 1; r <= w.reps; ++r)
            for (int id : order) { expected.push_back({ id, r }); Exec e; e.test = id; e.rep = r; w.execs[{ id, r }] = e; }

    bool comma = choose(3) == 1;
    std::locale loc = comma ? std::locale(std::locale::classic(), new Comma) : std::locale::classic();

    if (faults) {
        switch (choose(6)) {
            case 0: fs::config.io_error = 2 + choose(30); break;
            case 1: fs::config.disk_capacity = choose(2) ? choose(3000) : choose(200); break;
            case 2: fs::config.open_error = 2; break;
            case 3: fs::config.dir_error = 3; break;
            case 4: sim::set_thread_create_failure(1 + choose(5)); break;
            default: fs::config.io_error = 20; fs::config.open_error = 6; break;
        }
        if (choose(2)) fs::config.short_io = 3;
    }
    if (choose(2)) fs::config.eintr = 3;
    std::vector<std::string> before = fs::list();
    bool preset = xml && fs::exists(xml_path);
    std::string old_xml = preset ? fs::get(xml_path) : "";
    sim::set_preempt(choose(3) != 0);

    bool thrown = false;
    std::string what;
    int status = -1;
    sim::i64 t0 = sim::now_mono();
    try {
        status = check::command("suite", int(args.size()), argv.data(), params, core::Span<const std::string_view>(test_order.data(), test_order.size()), loc);
    }
    catch (std::exception& e) { thrown = true; what = e.what(); }
    double total = double(sim::now_mono() - t0) / 1e9;
    sim::set_preempt(false);
    fs::config = {};
    sim::NoFault nf;
    trace("status %d thrown %d %s", status, thrown, what.c_str());
    std::string out = fs::get("/sim/stdout"), err = fs::get("/sim/stderr");
    if (sim::tracing()) trace("stdout: %s\nstderr: %s", out.c_str(), err.c_str());

    long failed_execs = 0;
    long long checks = 0, failed = 0;
    for (auto& [k, e] : w.execs) {
        failed_execs += e.threw || e.failed > 0; checks += e.checks; failed += e.failed;
        EXPECT(p34, !e.running, "still-running", "the command ended while a test was still executing");
    }
    // Files and directories appear only where they belong
    for (auto& p : fs::list()) {
        auto below = [&](const std::string& d) { return p.compare(0, d.size() + 1, d + "/") == 0; };
        if (std::find(before.begin(), before.end(), p) != before.end() || (xml && p == xml_path)) continue;
        EXPECT(p34, below(test_base + "/tmp") || p == test_base + "/tmp" || (subdir && (below(test_base + "/a") || p == test_base + "/a")) || (to_files && (p == log_base + log_dir || below(log_base + log_dir))), "unexpected-file", "%s was created", p.c_str());
    }
    if (none) {
        // Any execution is reported by run_test()
        bool other = opt_help && bad.empty();
        if (other) {
            if (!faults) EXPECT(p34, !thrown && status == EXIT_SUCCESS, "help-fails", "the command ended with status %d (%s) when asked for help", status, what.c_str());
            if (!faults) EXPECT(p34, out.find("--num-repetitions") != std::string::npos && out.find("--xml-path") != std::string::npos, "help-missing", "no help on standard output");
        }
        else if (!idle || !bad.empty() || twice)
            EXPECT(p34, thrown || status != EXIT_SUCCESS, "bad-request-succeeds", "the command succeeded with arguments%s", all_args.c_str());
        if (!bad.empty() && !opt_help && !faults)
            EXPECT(p34, !thrown && !err.empty(), "bad-request-silent", "no message on standard error for arguments%s", all_args.c_str());
        if ((!bad.empty() || opt_help) && xml)
            EXPECT(p34, fs::exists(xml_path) == preset && (!preset || fs::get(xml_path) == old_xml), "xml-touched", "the XML file was modified although no test run was asked for");
        sim::count(opt_help ? "probe.command_help" : "probe.command_refused");
        return;
    }
    if (thrown) {
        sim::count("probe.command_thrown");
        EXPECT(p34, faults, "spurious-failure", "the command ended with an exception (%s)", what.c_str());
        return;
    }
    EXPECT(p34, status == EXIT_SUCCESS || status == EXIT_FAILURE, "wrong-status", "the command ended with status %d", status);
    for (auto& [k, e] : w.execs)
        EXPECT(p34, e.runs == 1, "not-executed", "test %s was executed %d times for repetition %d", w.tests[k.first].name.c_str(), e.runs, k.second);
    EXPECT(p34, (status == EXIT_SUCCESS) == (failed_execs == 0), "wrong-status", "the command ended with status %d, but %ld test executions failed", status, failed_execs);
    sim::count(failed_execs ? "probe.command_failure" : "probe.command_success");
    if (xml) {
        sim::count("probe.command_xml");
        EXPECT(p34, fs::exists(xml_path), "xml-missing", "no XML file was written");
        check_xml(p34, w, fs::get(xml_path), expected.size(), failed_execs, checks, failed, suite.c_str(), !faults, total);
    }
    if (!faults) {
        std::string all = out;
        if (to_files) for (auto& p : fs::list()) if (p.compare(0, log_base.size() + 1, log_base + "/") == 0 && p.size() > 4 && p.substr(p.size() - 4) == ".log") all += fs::get(p);
        if (!comma) check_log(p34, w, all);
        EXPECT(p34, (out.find("Success: ") != std::string::npos) == (failed_execs == 0) && (out.find("FAILURE: ") != std::string::npos) == (failed_execs != 0),
               "output-wrong", "the summary on standard output contradicts that %ld test executions failed", failed_execs);
        if (!comma && failed_execs != 0) {
            std::string a = "FAILURE: " + std::to_string(failed_execs) + " out of " + std::to_string(expected.size()) + " ", b = "(" + std::to_string(failed) + " out of " + std::to_string(checks) + " ";
            EXPECT(p34, out.find(a) != std::string::npos && out.find(b) != std::string::npos, "output-wrong", "the summary on standard output has wrong numbers (expected '%s...%s')", a.c_str(), b.c_str());
        }
        if (excluded > 1 && !comma) EXPECT(p34, out.find(std::to_string(excluded) + " test cases were excluded") != std::string::npos, "output-wrong", "the exclusion of %ld tests is not announced", excluded);
        EXPECT(p34, (out.find("excluded!") != std::string::npos) == (excluded > 0), "output-wrong", "the exclusion of %ld tests is announced wrongly", excluded);
        EXPECT(p34, err.empty(), "output-wrong", "unexpected output on standard error");
        // Order of execution
        if (w.effective == 1 && !shuffle) {
            sim::i64 prev = -1;
            for (auto& k : expected) { const Exec& e = w.execs[k]; EXPECT(p34, e.seq > prev, "wrong-order", "test %s#%d was executed too early", w.tests[k.first].name.c_str(), k.second); prev = e.seq; }
        }
    }
    (void)describe; (void)progress;
    sim::state(sim::mix(expected.size() * 16 + w.effective, failed_execs * 64 + w.max_active));
}

sim::Info i12("C12", "A run is one seeded test suite (tests with scripts, filter, order, repetitions, threads) executed by the real test runner under one seeded schedule.",
    { "archon::check test runner, thread and root contexts, reporters, filters", "archon::log loggers", "archon::core thread guard, timer" },
    { "threads, mutexes and clocks (simulated scheduler)", "number of processors", "file system (log files)" });
sim::Info i13("C13", "A run is one seeded test suite executed by the real test runner under one seeded schedule; the verdict and totals are compared with what the tests actually did.",
    { "archon::check test runner, thread and root contexts, check macros", "archon::core thread guard, timer" },
    { "threads, mutexes and clocks (simulated scheduler)", "number of processors", "file system (log files)" });
sim::Info i14("C14", "A run is one seeded test suite executed by the real test runner under one seeded schedule; the history of reporter calls, the XML report and the log are checked.",
    { "archon::check test runner, duplicating, XML and simple reporters", "archon::log loggers", "archon::core thread guard, timer" },
    { "threads, mutexes and clocks (simulated scheduler)", "number of processors", "file system (log files)" });

sim::Info i34("C34", "A run is one seeded test suite and command line executed by the real test command under one seeded schedule; its status, output, log files and XML file are compared with what the tests did.",
    { "archon::check test command, runner, reporters, filter, order, path mapper", "archon::cli command line processor", "archon::log loggers", "archon::core files, text file streams, build environment" },
    { "threads, mutexes and clocks (simulated scheduler)", "number of processors", "file system, standard streams (simulated)" });

SIM_SCENARIO("C12", "runs", 4, sim::f_threads | sim::f_leakcheck) { world(p12, false); }
SIM_SCENARIO("C12", "thread-creation-failure", 1, sim::f_threads | sim::f_leakcheck | sim::f_faults) { world(p12, true); }
SIM_SCENARIO("C13", "runs", 1, sim::f_threads | sim::f_leakcheck) { world(p13, false); }
SIM_SCENARIO("C14", "runs", 1, sim::f_threads | sim::f_leakcheck) { world(p14, false); }
SIM_SCENARIO("C34", "commands", 3, sim::f_threads | sim::f_leakcheck) { command(false); }
SIM_SCENARIO("C34", "failing-commands", 2, sim::f_threads | sim::f_leakcheck | sim::f_faults) { command(true); }

} // unnamed namespace
