// C10 loggers, C11 timers and time stamps
#include <chrono>
#include <cmath>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

#include <archon/core/file.hpp>
#include <archon/core/time.hpp>
#include <archon/core/timer.hpp>
#include <archon/core/timestamp_formatter.hpp>
#include <archon/log.hpp>
#include <archon/log/limit_logger.hpp>
#include <archon/log/prefix_logger.hpp>
#include <archon/log/channel_logger.hpp>
#include <archon/log/duplicating_logger.hpp>
#include <archon/log/stream_logger.hpp>
#include <archon/log/timestamp_logger.hpp>
#include <archon/log/encoding_logger.hpp>

#include "sim.hpp"

using namespace archon;
using sim::u64;
using sim::i64;
using sim::choose;
using sim::trace;
using sim::fail;
using std::size_t;
using log::LogLevel;

namespace {

sim::Info info_c10("C10",
    "A model of the tree of loggers gives, for every message, the routes to the root loggers, with the complete prefix and the limits on each. At the end the contents of each root must be exactly the blocks of lines of the messages that had to be written, each whole and once, in the order of each thread.",
    { "log::BasicRootLogger", "log::BasicFileLogger", "log::BasicStreamLogger", "log::BasicPrefixLogger", "log::BasicLimitLogger", "log::BasicChannelLogger", "log::BasicDuplicatingLogger", "log::BasicEncodingLogger", "log::BasicTimestampLogger", "log::BasicTimestampFileLogger", "log::BasicNullLogger", "core::File" },
    { "thread scheduling, mutexes", "file system", "clocks", "memory allocation", "the stream behind a stream logger" });
sim::Info info_c11("C11",
    "Elapsed times are compared with the exact difference of the simulated clock; time stamps with a calendar computed independently (UTC, fixed offsets) or by the C library (zones with daylight saving).",
    { "core::Timer", "core::BasicTimestampFormatter", "core::time_point_to_timespec()", "core::time_breakdown_local()", "core::time_breakdown_utc()", "log::BasicTimestampLogger", "log::BasicTimestampFileLogger" },
    { "clocks (monotonic, real time, process and thread CPU time)", "file system", "thread scheduling" });

struct Locales {
    std::locale utf8{"C.utf8"};
    Locales()
    {
        // Fill the caches of the library
        for (auto& l : { std::locale::classic(), utf8 }) {
            std::ostringstream a; a.imbue(l); a << 1 << 1.5 << true << std::hex << 7L;
            std::wostringstream b; b.imbue(l); b << 1 << 1.5 << true << L"x" << "y" << std::hex << 7L;
        }
    }
};
Locales g_loc;

// ---------------------------------------------------------------- model

u64 g_step; // order of events

struct Limit {
    struct Set { u64 begin, end; int value; };
    std::vector<Set> sets;
    bool fixed = false;
    void (*set)(void*, LogLevel) = nullptr;
    void* obj = nullptr;
    int owner = 0;
};

struct Route { int root; std::string prefix; std::vector<int> limits; std::string inner; /* message prefix behind an encoding logger */ };

struct Model {
    std::string prefix;
    std::map<std::string, std::vector<Route>> ch;
    std::string sel;
};

struct Root {
    std::string path;       // file
    std::string* data = nullptr; // other
    std::string initial;
    bool wide = false;
    std::string contents() const { return data ? *data : sim::fs::get(path); }
};

template<class C> struct Node { log::BasicLogger<C>* l; Model m; };

struct Msg {
    int thread, node, level;
    bool wide;
    std::string token, text;
    bool text_last = false;
    u64 start = 0, end = 0;
    bool threw = false;
    struct Block { int root; std::string bytes; int need; }; // need: 0 must not, 1 may, 2 must
    std::vector<Block> blocks;
};

std::wstring widen(const std::string& s)
{
    std::wstring r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = (unsigned char) s[i];
        if (c == 0xC3 && i + 1 < s.size()) { r += wchar_t(0xC0 | (s[i + 1] & 0x3F)); ++i; }
        else r += wchar_t(c);
    }
    return r;
}
template<class C> std::basic_string<C> conv(const std::string& s)
{
    if constexpr (sizeof(C) == 1) return s; else return widen(s);
}

struct World {
    std::vector<std::shared_ptr<void>> keep; // loggers; destroyed in reverse order
    std::vector<Node<char>> nodes;
    std::vector<Node<wchar_t>> wnodes;
    std::vector<Root> roots;
    std::vector<std::unique_ptr<Limit>> limits;
    bool utf8 = false;
    bool threads = false;
    const std::locale& loc() const { return utf8 ? g_loc.utf8 : std::locale::classic(); }
    ~World() { while (!keep.empty()) keep.pop_back(); }
    template<class C> auto& all() { if constexpr (sizeof(C) == 1) return nodes; else return wnodes; }
};

// A root logger that records, and notices overlapping calls
template<class C> struct RecordingRoot : log::BasicRootLogger<C> {
    std::string& data;
    bool busy = false;
    RecordingRoot(std::string& d, const std::locale& l) : log::BasicRootLogger<C>(l), data(d) {}
    void root_log(std::basic_string_view<C> message) override
    {
        if (busy) fail("overlap", "Two threads were writing a message to the same root logger at the same time");
        busy = true;
        for (size_t i = 0; i < message.size(); ++i) {
            {
                sim::NoPreempt np;
                if constexpr (sizeof(C) == 1) data.push_back(message[i]);
                else if (message[i] < 0x80) data.push_back(char(message[i]));
                else { data.push_back(char(0xC0 | message[i] >> 6)); data.push_back(char(0x80 | (message[i] & 0x3F))); }
            }
            if (i % 16 == 0) sim::yield();
        }
        busy = false;
    }
};

// A stream that records
struct RecordingBuf : std::streambuf {
    std::string& data;
    bool busy = false;
    explicit RecordingBuf(std::string& d) : data(d) {}
    int_type overflow(int_type c) override { if (c != traits_type::eof()) { char ch = char(c); xsputn(&ch, 1); } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        if (busy) fail("overlap", "Two threads were writing a message to the same stream at the same time");
        busy = true;
        for (std::streamsize i = 0; i < n; ++i) {
            { sim::NoPreempt np; data.push_back(s[i]); }
            if (i % 16 == 0) sim::yield();
        }
        busy = false;
        return n;
    }
    int sync() override { if (busy) fail("overlap", "The stream was flushed by one thread while another one was writing to it"); return 0; }
};

constexpr i64 fixed_time = 1700000000'123456789;
const char* const fixed_stamp = "2023-11-14T22:13:20Z: ";
const char* const fixed_stamp_ms = "2023-11-14T22:13:20.123Z: ";
const char* const channel_names[] = { "", "alpha", "beta", "gamma" };

const char* level_prefix(int level)
{
    return level == int(LogLevel::fatal) ? "FATAL: " : level == int(LogLevel::error) ? "ERROR: " : level == int(LogLevel::warn) ? "WARNING: " : "";
}
const char* level_name(int l)
{
    static const char* n[] = { "off", "fatal", "error", "warn", "info", "detail", "debug", "trace", "all" };
    return n[l];
}

template<class T, class... A> T* make(World& w, A&&... a)
{
    auto p = std::make_shared<T>(std::forward<A>(a)...);
    w.keep.push_back(p);
    return p.get();
}

std::string hist(const Model& m)
{
    std::string s = "[" + m.prefix + "] '" + m.sel + "':";
    for (auto& c : m.ch) {
        s += " '" + c.first + "'=";
        for (auto& r : c.second) { s += " " + std::to_string(r.root) + "/" + r.prefix + r.inner; for (int l : r.limits) s += "<" + std::to_string(l); }
    }
    return s;
}

template<class C> Node<C>& add(World& w, log::BasicLogger<C>* l, Model m, const char* what)
{
    auto& v = w.all<C>();
    if (sim::tracing()) trace("%slogger %zu: %s -> %s", sizeof(C) == 1 ? "" : "wide ", v.size(), what, hist(m).c_str());
    v.push_back({ l, std::move(m) });
    return v.back();
}

template<class C> void add_root(World& w)
{
    int r = int(w.roots.size());
    Root root;
    root.wide = sizeof(C) != 1;
    Model m;
    m.ch[""] = { Route { r, "", {}, {} } };
    std::string path = "/sim/log" + std::to_string(r);
    using FL = log::BasicFileLogger<C>;
    using TL = log::BasicTimestampFileLogger<C>;
    switch (choose(5)) {
        case 0: case 4: {
            root.path = path;
            if (choose(2)) { root.initial = "earlier contents\n"; sim::fs::put(path, root.initial); }
            if (choose(2)) {
                auto* l = make<FL>(w, std::filesystem::path(path), w.loc());
                w.roots.push_back(root);
                add<C>(w, l, m, "file logger");
            }
            else {
                typename TL::Config config;
                config.utc_time = true;
                bool ms = choose(2) == 1;
                if (ms) config.precision = log::TimestampLoggerBase::Precision::milliseconds;
                auto* l = make<TL>(w, std::filesystem::path(path), w.loc(), config);
                w.roots.push_back(root);
                m.prefix = ms ? fixed_stamp_ms : fixed_stamp;
                add<C>(w, l, m, "time stamp file logger");
            }
            break;
        }
        case 1: {
            root.path = path;
            auto* f = make<core::File>(w, std::filesystem::path(path), core::File::Mode::write);
            typename FL::Config config;
            config.colorize = FL::Colorize::no;
            auto* l = make<FL>(w, *f, w.loc(), config);
            w.roots.push_back(root);
            add<C>(w, l, m, "logger of file");
            break;
        }
        case 2: {
            auto* d = make<std::string>(w);
            d->reserve(1 << 17);
            root.data = d;
            auto* l = make<RecordingRoot<C>>(w, *d, w.loc());
            w.roots.push_back(root);
            add<C>(w, l, m, "custom root logger");
            break;
        }
        case 3: {
            auto* d = make<std::string>(w);
            d->reserve(1 << 17);
            root.data = d;
            if constexpr (sizeof(C) == 1) {
                auto* b = make<RecordingBuf>(w, *d);
                auto* o = make<std::ostream>(w, b);
                o->imbue(w.loc());
                auto* l = make<log::StreamLogger>(w, *o);
                w.roots.push_back(root);
                add<C>(w, l, m, "stream logger");
            }
            else {
                auto* l = make<RecordingRoot<C>>(w, *d, w.loc());
                w.roots.push_back(root);
                add<C>(w, l, m, "custom root logger");
            }
            break;
        }
    }
}

size_t num_routes(const Model& m)
{
    size_t n = 0;
    for (auto& c : m.ch) n += c.second.size();
    return n;
}

template<class C> void derive(World& w)
{
    auto& v = w.all<C>();
    if (v.empty()) return;
    size_t bi = v.size() - 1 - choose(v.size());
    log::BasicLogger<C>& base = *v[bi].l;
    Model m = v[bi].m;
    std::string on = " on " + std::to_string(bi);
    auto name = [&](const char* s) { return std::string(s) + on; };
    static int serial;
    serial = int(v.size());
    auto pick_channel = [&](const Model& q) {
        auto i = q.ch.begin();
        std::advance(i, long(choose(q.ch.size())));
        return i->first;
    };
    switch (choose(9)) {
        case 0: case 1: {
            std::string p = "p" + std::to_string(serial) + (w.utf8 && choose(4) == 1 ? "\xC3\xA9" : "") + ": ";
            log::BasicLogger<C>* l;
            if (choose(3) == 1) {
                std::string ch = pick_channel(m);
                m.sel = ch;
                l = make<log::BasicPrefixLogger<C>>(w, base, conv<C>(p), ch);
            }
            else if (choose(2)) l = make<log::BasicPrefixLogger<C>>(w, base, std::basic_string_view<C>(conv<C>(p)));
            else if (p.find('\xC3') == std::string::npos) l = make<log::BasicPrefixLogger<C>>(w, base, p.c_str());
            else l = make<log::BasicPrefixLogger<C>>(w, base, conv<C>(p));
            m.prefix += p;
            add<C>(w, l, m, name("prefix logger").c_str());
            break;
        }
        case 2: case 3: {
            bool fixed = choose(2) == 0;
            int level = int(choose(3) == 1 ? LogLevel::off : LogLevel::info) + int(choose(4)); // off .. trace
            std::string pattern = "*";
            std::string only;
            if (choose(3) == 1) { only = pick_channel(m); pattern = choose(2) || only.empty() ? only : only.substr(0, 1) + "*"; }
            auto match = [&](const std::string& n) {
                if (pattern == "*") return true;
                if (!pattern.empty() && pattern.back() == '*') return n.substr(0, pattern.size() - 1) == pattern.substr(0, pattern.size() - 1);
                return n == pattern;
            };
            int k = int(w.limits.size());
            auto lim = std::make_unique<Limit>();
            log::BasicLimitLogger<C>* l;
            if (fixed) {
                l = pattern == "*" ? make<log::BasicLimitLogger<C>>(w, base, LogLevel(level)) : make<log::BasicLimitLogger<C>>(w, base, LogLevel(level), pattern);
                lim->fixed = true;
                lim->sets.push_back({ 0, 0, level });
            }
            else {
                l = pattern == "*" ? make<log::BasicLimitLogger<C>>(w, base) : make<log::BasicLimitLogger<C>>(w, base, pattern);
                lim->sets.push_back({ 0, 0, int(LogLevel::info) });
                lim->obj = l;
                lim->set = [](void* p, LogLevel v) { static_cast<log::BasicLimitLogger<C>*>(p)->set_log_level_limit(v); };
            }
            w.limits.push_back(std::move(lim));
            for (auto& c : m.ch) if (match(c.first)) for (auto& r : c.second) r.limits.push_back(k);
            trace("limit %d: %s, channels '%s'", k, fixed ? level_name(level) : "variable", pattern.c_str());
            add<C>(w, l, m, name("limit logger").c_str());
            break;
        }
        case 4: {
            size_t ti = v.size() - 1 - choose(v.size());
            log::BasicLogger<C>& target = *v[ti].l;
            Model& t = v[ti].m;
            std::vector<std::string> names;
            std::vector<typename log::BasicChannelLogger<C>::Rule> rules;
            size_t n = 1 + choose(2);
            for (size_t i = 0; i < n; ++i) {
                const char* c = channel_names[choose(4)];
                bool dup = false;
                for (auto& x : names) if (x == c) dup = true;
                if (dup) continue;
                names.push_back(c);
            }
            Model o = m;
            for (auto& c : m.ch) for (auto& r : c.second) r.prefix += o.prefix;
            m.prefix.clear();
            std::string desc = "channel logger";
            for (auto& c : names) {
                std::string tc = choose(2) ? t.sel : pick_channel(t);
                if (tc == t.sel && choose(2)) rules.emplace_back(c, target); else rules.emplace_back(c, target, tc);
                m.ch[c] = t.ch[tc];
                for (auto& r : m.ch[c]) r.prefix += t.prefix;
                desc += " '" + c + "'=>" + std::to_string(ti) + "'" + tc + "'";
            }
            if (num_routes(m) > 16) return;
            log::BasicLogger<C>* l;
            l = make<log::BasicChannelLogger<C>>(w, base, core::Span<const typename log::BasicChannelLogger<C>::Rule>(rules));
            add<C>(w, l, m, name(desc.c_str()).c_str());
            break;
        }
        case 5: {
            size_t ti = v.size() - 1 - choose(v.size());
            log::BasicLogger<C>& target = *v[ti].l;
            Model& t = v[ti].m;
            Model o = m;
            for (auto& c : m.ch) for (auto& r : c.second) r.prefix += o.prefix;
            m.prefix.clear();
            std::string oc = choose(2) ? o.sel : pick_channel(o);
            std::string tc = choose(2) ? t.sel : pick_channel(t);
            for (Route r : t.ch[tc]) { r.prefix += t.prefix; m.ch[oc].push_back(r); }
            if (num_routes(m) > 16) return;
            std::string desc = "duplicating logger '" + oc + "'=>" + std::to_string(ti) + "'" + tc + "'";
            log::BasicLogger<C>* l;
            if (oc == o.sel && tc == t.sel && choose(2)) l = make<log::BasicDuplicatingLogger<C>>(w, base, target);
            else if (tc == t.sel && choose(2)) l = make<log::BasicDuplicatingLogger<C>>(w, base, oc, target);
            else {
                std::vector<typename log::BasicDuplicatingLogger<C>::Rule> rules;
                rules.emplace_back(oc, target, tc);
                l = make<log::BasicDuplicatingLogger<C>>(w, base, core::Span<const typename log::BasicDuplicatingLogger<C>::Rule>(rules));
            }
            add<C>(w, l, m, name(desc.c_str()).c_str());
            break;
        }
        case 6: {
            log::BasicLogger<C>* l;
            if (choose(2)) { m.sel = pick_channel(m); l = make<log::BasicLogger<C>>(w, base, m.sel); }
            else l = make<log::BasicLogger<C>>(w, base);
            add<C>(w, l, m, name("logger").c_str());
            break;
        }
        case 7: {
            typename log::BasicTimestampLogger<C>::Config config;
            config.utc_time = true;
            bool ms = choose(2) == 1;
            if (ms) config.precision = log::TimestampLoggerBase::Precision::milliseconds;
            auto* l = make<log::BasicTimestampLogger<C>>(w, base, config);
            m.prefix += ms ? fixed_stamp_ms : fixed_stamp;
            add<C>(w, l, m, name("time stamp logger").c_str());
            break;
        }
        case 8:
            if constexpr (sizeof(C) == 1) {
                auto* l = make<log::WideEncodingLogger>(w, base);
                Model e;
                e.sel = m.sel;
                e.ch[m.sel] = m.ch[m.sel];
                for (auto& r : e.ch[m.sel]) r.inner += m.prefix;
                add<wchar_t>(w, l, e, name("encoding logger").c_str());
            }
            else {
                auto* l = make<log::BasicNullLogger<C>>(w);
                Model e;
                e.ch[""];
                add<C>(w, l, e, "null logger");
            }
            break;
    }
}

void build(World& w)
{
    w.utf8 = choose(2) == 1;
    size_t nr = 1 + choose(3);
    for (size_t i = 0; i < nr; ++i) { if (choose(3) == 1) add_root<wchar_t>(w); else add_root<char>(w); }
    size_t n = choose(9);
    for (size_t i = 0; i < n; ++i) { if (!w.wnodes.empty() && choose(3) == 1) derive<wchar_t>(w); else derive<char>(w); }
}

Msg gen_msg(World& w, int thread, int serial)
{
    Msg m;
    m.thread = thread;
    m.wide = w.nodes.empty() || (!w.wnodes.empty() && choose(3) == 1);
    size_t n = m.wide ? w.wnodes.size() : w.nodes.size();
    m.node = int(n - 1 - choose(n));
    m.level = 1 + int(choose(7));
    m.token = "<" + std::to_string(thread) + "." + std::to_string(serial) + ">";
    m.text_last = choose(2) == 1;
    switch (choose(6)) {
        case 0: m.text = "plain"; break;
        case 1: m.text = "two\nlines"; break;
        case 2: m.text = ""; break;
        case 3: m.text = choose(2) ? "\n\nends\n" : "a\n"; break;
        case 4: m.text = std::string(size_t(choose(60)), 'x') + (w.utf8 ? "\xC3\xA9" : "!"); break;
        case 5: { size_t k = choose(2) ? 300 : 2100; m.text = std::string(k, 'y') + (choose(2) ? "\nz" : ""); break; }
    }
    return m;
}

int limit_at(const Limit& l, u64 s, u64 e, int level)
{
    // 2: certainly passes, 0: certainly does not, 1: depends on the schedule
    bool pass = false, block = false;
    for (size_t i = 0; i < l.sets.size(); ++i) {
        auto& x = l.sets[i];
        if (x.begin > e) break;
        if (i + 1 < l.sets.size() && l.sets[i + 1].end < s) continue;
        (level <= x.value ? pass : block) = true;
    }
    return pass && block ? 1 : pass ? 2 : 0;
}

const Model& model_of(World& w, const Msg& m) { return m.wide ? w.wnodes[size_t(m.node)].m : w.nodes[size_t(m.node)].m; }

// What should be written because of this message?
void expect(World& w, Msg& m)
{
    const Model& q = model_of(w, m);
    std::string text = m.text_last ? m.token + "7|" + m.text : m.token + m.text + "|7";
    for (auto& r : q.ch.at(q.sel)) {
        int need = 2;
        for (int k : r.limits) need = std::min(need, limit_at(*w.limits[size_t(k)], m.start, m.end, m.level));
        if (need && m.threw) need = 1;
        std::string prefix = r.prefix + r.inner + q.prefix + level_prefix(m.level);
        std::string b;
        size_t i = 0;
        for (;;) {
            size_t j = text.find('\n', i);
            b += prefix + text.substr(i, j == std::string::npos ? j : j - i) + "\n";
            if (j == std::string::npos) break;
            i = j + 1;
        }
        m.blocks.push_back({ r.root, b, need });
    }
}

void log_it(World& w, Msg& m)
{
    auto f = [&]<class C>(log::BasicLogger<C>& l, std::basic_string<C>& tok, std::basic_string<C>& text) {
        using SV = std::basic_string_view<C>;
        SV t(tok), x(text);
        static constexpr C fmt[] = { C('%'), C('s'), C('%'), C('s'), C('|'), C('%'), C('s'), C(0) };
        if (m.text_last) {
            static constexpr C fmt[] = { C('%'), C('s'), C('%'), C('s'), C('|'), C('%'), C('s'), C(0) };
            auto level = LogLevel(m.level);
            if (m.level % 2) l.log(level, "%s%s|%s", t, 7, x); else l.log(level, SV(fmt), t, 7, x);
            return;
        }
        switch (m.level) {
            case int(LogLevel::fatal): l.fatal("%s%s|%s", t, x, 7); break;
            case int(LogLevel::error): l.error(SV(fmt), t, x, 7); break;
            case int(LogLevel::warn): l.warn("%s%s|%s", t, x, 7); break;
            case int(LogLevel::info): l.info(SV(fmt), t, x, 7); break;
            case int(LogLevel::detail): l.detail("%s%s|%s", t, x, 7); break;
            case int(LogLevel::debug): l.debug(SV(fmt), t, x, 7); break;
            case int(LogLevel::trace): l.trace("%s%s|%s", t, x, 7); break;
        }
    };
    std::string tok, text; std::wstring wtok, wtext;
    {
        sim::NoPreempt np;
        sim::NoFault nf;
        if (m.wide) { wtok = widen(m.token); wtext = widen(m.text); } else { tok = m.token; text = m.text; }
        m.start = ++g_step;
        trace("thread %d: %slogger %d %s %s (%zu)", m.thread, m.wide ? "wide " : "", m.node, level_name(m.level), m.token.c_str(), m.text.size());
    }
    try {
        if (m.wide) f(*w.wnodes[size_t(m.node)].l, wtok, wtext); else f(*w.nodes[size_t(m.node)].l, tok, text);
    }
    catch (const std::bad_alloc&) { m.threw = true; }
    catch (const std::ios_base::failure&) { m.threw = true; }
    catch (const std::system_error& e) { m.threw = true; if (sim::fs::n_errors == 0) fail("exception", "Logging failed although no call failed: %s", e.what()); }
    sim::NoPreempt np;
    m.end = ++g_step;
    if (m.threw) { sim::count("probe.log_threw"); trace("  %s -> exception", m.token.c_str()); }
}

void set_limit(World& w, int k, int level)
{
    Limit& l = *w.limits[size_t(k)];
    { sim::NoPreempt np; trace("limit %d := %s", k, level_name(level)); l.sets.push_back({ ++g_step, ~0ULL, level }); }
    l.set(l.obj, LogLevel(level));
    sim::NoPreempt np;
    l.sets.back().end = ++g_step;
}

// ---------------------------------------------------------------- threads

SIM_SCENARIO("C10", "threads", 4, sim::f_threads | sim::f_leakcheck)
{
    g_step = 0;
    sim::set_real(fixed_time);
    {
        World w;
        w.threads = true;
        build(w);
        size_t nt = 1 + choose(4);
        struct Op { bool set; int k, level; Msg m; };
        std::vector<std::vector<Op>> ops(nt);
        for (auto& l : w.limits) { l->owner = int(choose(nt)); l->sets.reserve(64); }
        for (size_t t = 0; t < nt; ++t) {
            size_t n = 1 + choose(6);
            for (size_t i = 0; i < n; ++i) {
                Op op {};
                if (!w.limits.empty() && choose(4) == 1) {
                    op.k = int(choose(w.limits.size()));
                    auto& l = *w.limits[size_t(op.k)];
                    if (!l.fixed && l.owner == int(t)) { op.set = true; op.level = int(choose(9)); ops[t].push_back(op); continue; }
                }
                op.m = gen_msg(w, int(t), int(i));
                ops[t].push_back(std::move(op));
            }
        }
        sim::fs::config.eintr = choose(2) ? 4 : 0;
        sim::fs::config.short_io = choose(2) ? 3 : 0;
        sim::fs::config.yield = true;
        bool alloc_fault = choose(4) == 1;
        sim::sched_begin();
        { bool preempt = choose(2); sim::set_switch_rate(2 + choose(preempt ? 300 : 30)); sim::set_preempt(preempt); }
        if (alloc_fault) sim::fail_alloc(sim::range(1, 60), choose(4) == 1);
        {
            std::vector<std::thread> th;
            { sim::NoFault nf; sim::NoPreempt np; th.reserve(nt); }
            for (size_t t = 1; t < nt; ++t) {
                sim::NoFault nf; // for the creation
                th.emplace_back([&w, &v = ops[t]] { for (auto& op : v) { if (op.set) set_limit(w, op.k, op.level); else log_it(w, op.m); } });
            }
            for (auto& op : ops[0]) { if (op.set) set_limit(w, op.k, op.level); else log_it(w, op.m); }
            for (auto& x : th) x.join();
        }
        bool fired = alloc_fault && sim::alloc_fault_fired();
        sim::stop_alloc_faults();
        sim::sched_end();
        sim::fs::config.eintr = sim::fs::config.short_io = 0;
        for (auto& v : ops) for (auto& op : v) if (!op.set) {
            if (op.m.threw && !fired) fail("exception", "Logging %s failed although nothing below failed", op.m.token.c_str());
            expect(w, op.m);
        }
        u64 h = 0;
        for (size_t r = 0; r < w.roots.size(); ++r) {
            std::string c = w.roots[r].contents();
            h = sim::mix(h, sim::hash_bytes(c.data(), c.size()));
            if (c.substr(0, w.roots[r].initial.size()) != w.roots[r].initial) fail("initial", "Root %zu: the earlier contents of the file were lost", r);
            size_t pos = w.roots[r].initial.size();
            std::vector<std::vector<const Msg::Block*>> todo(nt);
            for (size_t t = 0; t < nt; ++t) for (auto& op : ops[t]) if (!op.set) for (auto& b : op.m.blocks) if (b.root == int(r) && b.need) todo[t].push_back(&b);
            // Blocks of the same message can be identical, and some of them optional, so the match has to backtrack
            std::vector<size_t> next(nt, 0), best_next = next;
            size_t best = pos, steps = 0;
            auto match = [&](auto& self, size_t p) -> bool {
                if (++steps > 200'000) return true;
                if (p > best) { best = p; best_next = next; }
                if (p == c.size()) {
                    for (size_t t = 0; t < nt; ++t) for (size_t i = next[t]; i < todo[t].size(); ++i) if (todo[t][i]->need == 2) return false;
                    return true;
                }
                for (size_t t = 0; t < nt; ++t) {
                    for (size_t i = next[t]; i < todo[t].size(); ++i) {
                        auto& b = *todo[t][i];
                        if (c.compare(p, b.bytes.size(), b.bytes) == 0) {
                            size_t old = next[t];
                            next[t] = i + 1;
                            if (self(self, p + b.bytes.size())) return true;
                            next[t] = old;
                        }
                        if (b.need == 2) break;
                    }
                }
                return false;
            };
            if (!match(match, pos)) {
                if (best != c.size()) {
                    std::string due;
                    for (size_t t = 0; t < nt; ++t) if (best_next[t] < todo[t].size()) due += " " + sim::quote(todo[t][best_next[t]]->bytes);
                    fail("message", "Root %zu: at offset %zu, '%s' is not a whole message that was due at this point. Due:%s", r, best, sim::quote(c.substr(best, 60)).c_str(), due.c_str());
                }
                for (size_t t = 0; t < nt; ++t) for (size_t i = best_next[t]; i < todo[t].size(); ++i) if (todo[t][i]->need == 2)
                    fail("missing", "Root %zu: the message '%s' of thread %zu was not written", r, sim::quote(todo[t][i]->bytes).c_str(), t);
                fail("missing", "Root %zu: a message was not written", r);
            }
        }
        sim::state(h);
    }
    if (sim::fs::num_open() != 0) fail("descriptor", "A file of a logger was left open");
}

// ---------------------------------------------------------------- one thread, failing writes

SIM_SCENARIO("C10", "faults", 3, sim::f_leakcheck | sim::f_faults)
{
    g_step = 0;
    sim::set_real(fixed_time);
    {
        World w;
        build(w);
        for (auto& l : w.limits) l->sets.reserve(64);
        sim::fs::config.eintr = choose(2) ? 4 : 0;
        sim::fs::config.short_io = choose(2) ? 3 : 0;
        sim::fs::config.io_error = choose(2) ? 6 : 0;
        if (choose(6) == 1) sim::fs::config.disk_capacity = choose(400);
        std::vector<std::string> seen;
        for (auto& r : w.roots) seen.push_back(r.contents());
        int serial = 0;
        while (sim::more(8) && serial < 40) {
            if (!w.limits.empty() && choose(4) == 1) {
                int k = int(choose(w.limits.size()));
                if (!w.limits[size_t(k)]->fixed) { set_limit(w, k, int(choose(9))); continue; }
            }
            Msg m = gen_msg(w, 0, serial++);
            bool fault = sim::chance(1, 5);
            auto errs = sim::fs::n_errors;
            if (fault) sim::fail_alloc(sim::range(1, 8), choose(4) == 1);
            log_it(w, m);
            bool fired = fault && sim::alloc_fault_fired();
            sim::stop_alloc_faults();
            if (m.threw && !fired && sim::fs::n_errors == errs) fail("exception", "Logging failed although nothing below failed");
            if (!m.threw && sim::fs::n_errors != errs) fail("swallowed", "A failed write was not reported to the one who logged");
            bool threw = m.threw;
            m.threw = false;
            expect(w, m);
            // Will it log?
            bool will = m.wide ? w.wnodes[size_t(m.node)].l->will_log(LogLevel(m.level)) : w.nodes[size_t(m.node)].l->will_log(LogLevel(m.level));
            bool due = false;
            for (auto& b : m.blocks) if (b.need) due = true;
            if (due && !will) fail("will_log", "will_log() is false for a message that has to be logged");
            for (size_t r = 0; r < w.roots.size(); ++r) {
                std::string c = w.roots[r].contents(), e;
                for (auto& b : m.blocks) if (b.root == int(r) && b.need) e += b.bytes;
                if (c.substr(0, seen[r].size()) != seen[r]) fail("altered", "Root %zu: what was written before was altered", r);
                std::string d = c.substr(seen[r].size());
                if (threw) { if (e.substr(0, d.size()) != d) fail("message", "Root %zu: a failed attempt to log wrote '%s', not a part of '%s'", r, sim::quote(d).c_str(), sim::quote(e).c_str()); }
                else if (d != e) fail("message", "Root %zu: logging %s at level %s wrote '%s', expected '%s'", r, m.token.c_str(), level_name(m.level), sim::quote(d).c_str(), sim::quote(e).c_str());
                seen[r] = c;
            }
            sim::state(sim::mix(u64(threw), m.blocks.size()));
        }
    }
    sim::fs::config.io_error = 0;
    if (sim::fs::num_open() != 0) fail("descriptor", "A file of a logger was left open");
}

// ================================================================ C11

SIM_SCENARIO("C11", "timer", 3, sim::f_leakcheck)
{
    i64 mono = 5'000'000'000, cpu = 1'000'000;
    sim::set_mono(mono);
    sim::set_cpu_times(cpu);
    auto type = choose(3);
    core::Timer::Type types[] = { core::Timer::Type::monotonic_clock, core::Timer::Type::process_cputime, core::Timer::Type::thread_cputime };
    auto now = [&] { return type == 0 ? mono : cpu; };
    trace("clock %d", int(type));
    struct T { core::Timer t; i64 start; };
    std::vector<std::unique_ptr<T>> timers;
    while (sim::more(10)) {
        u64 op = choose(7);
        if (timers.empty()) op = 0;
        switch (op) {
            case 0: {
                bool f = choose(6) == 1;
                if (f) sim::set_clock_failure(EINVAL);
                bool threw = false;
                try { timers.push_back(std::unique_ptr<T>(new T { core::Timer(types[type]), now() })); }
                catch (const std::system_error& e) { threw = true; if (e.code() != std::errc::invalid_argument) fail("error", "A failing clock was reported as '%s'", e.what()); }
                sim::set_clock_failure(0);
                trace("create timer%s", threw ? " -> exception" : "");
                if (threw != f) fail("clock-failure", f ? "A timer was created although the clock failed" : "Creating a timer failed");
                break;
            }
            case 1: {
                T& t = *timers[choose(timers.size())];
                bool f = choose(6) == 1;
                if (f) sim::set_clock_failure(EINVAL);
                bool threw = false;
                try { t.t.reset(); t.start = now(); } catch (const std::system_error&) { threw = true; }
                sim::set_clock_failure(0);
                trace("reset()%s", threw ? " -> exception" : "");
                if (threw != f) fail("clock-failure", f ? "A timer was reset although the clock failed" : "reset() failed");
                break;
            }
            case 2: case 3: {
                T& t = *timers[choose(timers.size())];
                bool f = choose(6) == 1;
                if (f) sim::set_clock_failure(EINVAL);
                bool threw = false;
                double v = 0;
                try { v = t.t.get_elapsed_time(); } catch (const std::system_error&) { threw = true; }
                sim::set_clock_failure(0);
                trace("get_elapsed_time() = %.9f%s", v, threw ? " -> exception" : "");
                if (threw != f) fail("clock-failure", f ? "An elapsed time was reported although the clock failed" : "get_elapsed_time() failed");
                if (threw) break;
                i64 d = now() - t.start;
                if (v < 0 || std::signbit(v) || std::isnan(v)) fail("negative", "A negative elapsed time, %g, was reported", v);
                double e = d > 0 ? double((long double) d / 1e9L) : 0;
                if (std::fabs(v - e) > 2e-10 + e * 1e-15) fail("elapsed", "An elapsed time of %.10f s was reported, exact is %.10f s", v, e);
                sim::state(sim::mix(u64(d < 0), u64(now() % 1000000000 < t.start % 1000000000)));
                break;
            }
            case 4: case 5: case 6: {
                i64 d = 0;
                switch (choose(7)) {
                    case 0: d = i64(choose(1000)); break;
                    case 1: d = i64(choose(2000000000)); break;
                    case 2: d = 1000000000; break;
                    case 3: d = -i64(choose(3000000000)); sim::count("fault.clock_backwards"); break;
                    case 4: d = i64(choose(1000)) * 86400'000000000; sim::count("fault.clock_jump"); break;
                    case 5: d = 999999999; break;
                    case 6: d = 1000000000 - now() % 1000000000 - i64(choose(3)) + 1; break;
                }
                i64& c = type == 0 ? mono : cpu;
                if (c + d < 0) d = 0;
                c += d;
                if (type == 0) sim::set_mono(mono); else sim::set_cpu_times(cpu);
                trace("clock advances by %lld ns", (long long) d);
                break;
            }
        }
    }
}

// Civil date from days since the epoch
void civil(i64 z, i64& y, int& m, int& d)
{
    z += 719468;
    i64 era = (z >= 0 ? z : z - 146096) / 146097;
    u64 doe = u64(z - era * 146097);
    u64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = i64(yoe) + era * 400;
    u64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    u64 mp = (5 * doy + 2) / 153;
    d = int(doy - (153 * mp + 2) / 5 + 1);
    m = int(mp < 10 ? mp + 3 : mp - 9);
    if (m <= 2) ++y;
}

std::string digits(i64 v, int n)
{
    char b[32];
    std::snprintf(b, sizeof b, "%0*lld", n, (long long) v);
    return b;
}

i64 floor_div(i64 a, i64 b) { i64 q = a / b; return q - (a % b != 0 && (a < 0) != (b < 0)); }

// The offset from UTC in seconds; DST zones by the C library
struct Zone { const char* tz; long offset; bool dst; };
const Zone zones[] = {
    { "UTC0", 0, false }, { "XXX-5:45", 20700, false }, { "YYY+8", -28800, false }, { "CET-1CEST,M3.5.0,M10.5.0/3", 0, true }, { "EST5EDT,M3.2.0,M11.1.0", 0, true },
};

std::string stamp(i64 sec, long nsec, int precision, bool utc, const Zone& z, const char* tail)
{
    long off = 0;
    if (!utc) {
        off = z.offset;
        if (z.dst) { std::tm tm; time_t t = sec; localtime_r(&t, &tm); off = tm.tm_gmtoff; }
    }
    i64 s = sec + off;
    i64 days = floor_div(s, 86400), rem = s - days * 86400;
    i64 y; int m, d;
    civil(days, y, m, d);
    std::string r = (y < 0 ? "-" + digits(-y, 1) : digits(y, y < 1000 ? 1 : 4)) + "-" + digits(m, 2) + "-" + digits(d, 2) + "T" + digits(rem / 3600, 2) + ":" + digits(rem / 60 % 60, 2) + ":" + digits(rem % 60, 2);
    if (precision == 1) r += "." + digits(nsec / 1000000, 3);
    if (precision == 2) r += "." + digits(nsec / 1000, 6);
    if (precision == 3) r += "." + digits(nsec, 9);
    if (utc) r += "Z";
    else { long a = off < 0 ? -off : off; r += (off < 0 ? "-" : "+") + digits(a / 3600, 2) + digits(a / 60 % 60, 2); }
    return r + tail;
}

void set_zone(const Zone& z)
{
    sim::NoFault nf;
    ::setenv("TZ", z.tz, 1);
    ::tzset();
}

i64 gen_instant()
{
    // Nanoseconds since the epoch, representable by the system clock
    i64 s = 0;
    switch (choose(6)) {
        case 0: s = 1700000000 + i64(choose(40000000)); break;
        case 1: s = -i64(choose(100)) ; break;
        case 2: s = -i64(choose(9000000000)); break;
        case 3: s = i64(choose(9000000000)); break;
        case 4: s = i64(choose(3)) + 2147483646; break;
        case 5: s = 951782400 + i64(choose(3)) * 86400 + i64(choose(4)) - 2; break; // around a leap day
    }
    i64 n = 0;
    switch (choose(5)) { case 0: n = i64(choose(1000000000)); break; case 1: n = 0; break; case 2: n = 999999999; break; case 3: n = 1; break; case 4: n = i64(choose(1000)) * 1000000 + (choose(2) ? 999999 : 0); break; }
    return s * 1000000000 + n;
}

template<class C> void formatter()
{
    const Zone& z = zones[choose(5)];
    set_zone(z);
    trace("zone %s", z.tz);
    core::BasicTimestampFormatter<C> f(std::locale::classic());
    using F = core::BasicTimestampFormatter<C>;
    while (sim::more(6)) {
        i64 t = gen_instant();
        i64 sec = floor_div(t, 1000000000);
        long nsec = long(t - sec * 1000000000);
        int precision = int(choose(4));
        bool utc = choose(2) == 1;
        typename F::Params params;
        params.precision = typename F::Precision(precision);
        const char* tail = "";
        if (choose(3) == 1) { params.format = utc ? "%FT%TZ -- a longer text that follows the time stamp: %%" : "%FT%T%z -- a longer text that follows the time stamp: %%"; tail = " -- a longer text that follows the time stamp: %"; }
        std::basic_string<C> got;
        bool fault = sim::chance(1, 6);
        int form = int(choose(3));
        if (form == 2) nsec = 0;
        std::string e = stamp(sec, nsec, precision, utc, z, tail);
        std::basic_string_view<C> v;
        bool threw = false;
        if (fault) sim::fail_alloc(sim::range(1, 3));
        try {
            core::timespec_type ts { time_t(sec), nsec };
            if (form == 0) {
                std::chrono::system_clock::time_point p { std::chrono::nanoseconds(t) };
                v = utc ? f.format_utc(p, params) : f.format_local(p, params);
            }
            else if (form == 1) v = utc ? f.format_utc(ts, params) : f.format_local(ts, params);
            else v = utc ? f.format_utc(time_t(sec), params) : f.format_local(time_t(sec), params);
        }
        catch (const std::bad_alloc&) { threw = true; }
        catch (const std::ios_base::failure&) { threw = true; }
        bool fired = fault && sim::alloc_fault_fired();
        sim::stop_alloc_faults();
        if (threw) { if (!fired) fail("exception", "Formatting a time stamp failed"); trace("  -> exception"); continue; }
        std::string g;
        for (C c : v) g += char(c);
        trace("%lld.%09ld -> %s", (long long) sec, nsec, g.c_str());
        if (g != e) fail("stamp", "The time stamp of %lld.%09ld is '%s', expected '%s'", (long long) sec, nsec, g.c_str(), e.c_str());
        sim::state(sim::mix(u64(precision), u64(floor_div(sec, 86400 * 30))));
    }
}

SIM_SCENARIO("C11", "formatter", 2, sim::f_leakcheck | sim::f_faults) { formatter<char>(); }
SIM_SCENARIO("C11", "formatter-wide", 1, sim::f_leakcheck | sim::f_faults) { formatter<wchar_t>(); }

// Time stamps of log messages, with the clock moving
SIM_SCENARIO("C11", "log", 3, sim::f_threads | sim::f_leakcheck)
{
    const Zone& z = zones[choose(5)];
    set_zone(z);
    bool utc = choose(2) == 1, file = choose(2) == 1;
    int precision = int(choose(4));
    const char* tail = choose(2) ? " ~ " : ": ";
    std::string format;
    if (tail[0] == ' ') format = utc ? "%FT%TZ ~ " : "%FT%T%z ~ ";
    trace("zone %s, %s, precision %d", z.tz, utc ? "UTC" : "local", precision);
    sim::set_real(gen_instant());
    std::string data;
    data.reserve(1 << 16);
    std::unique_ptr<log::Logger> root, stamped;
    if (file) {
        log::TimestampFileLogger::Config config;
        config.utc_time = utc;
        config.precision = log::TimestampLoggerBase::Precision(precision);
        config.format = format;
        stamped = std::make_unique<log::TimestampFileLogger>(std::filesystem::path("/sim/log"), std::locale::classic(), config);
    }
    else {
        log::TimestampLogger::Config config;
        config.utc_time = utc;
        config.precision = log::TimestampLoggerBase::Precision(precision);
        config.format = format;
        root = std::make_unique<RecordingRoot<char>>(data, std::locale::classic());
        stamped = std::make_unique<log::TimestampLogger>(*root, config);
    }
    struct M { std::string text; i64 lo, hi; };
    size_t nt = 1 + choose(3);
    std::vector<std::vector<M>> msgs(nt);
    std::vector<std::vector<i64>> jump(nt);
    for (size_t t = 0; t < nt; ++t) {
        size_t n = 1 + choose(5);
        for (size_t i = 0; i < n; ++i) {
            msgs[t].push_back({ std::to_string(t) + "." + std::to_string(i), 0, 0 });
            jump[t].push_back(choose(3) ? i64(choose(2000000000)) : choose(2) ? i64(choose(1000)) : 1000000000 - sim::now_real() % 1000000000 - 1);
        }
    }
    sim::sched_begin();
    { bool preempt = choose(2); sim::set_switch_rate(2 + choose(preempt ? 200 : 20)); sim::set_preempt(preempt); }
    sim::set_clock_drift_per_read(choose(2) ? i64(choose(400000000)) : 0);
    auto body = [&](size_t t) {
        for (size_t i = 0; i < msgs[t].size(); ++i) {
            auto& m = msgs[t][i];
            if (jump[t][i] > 0) sim::sleep_ns(jump[t][i]);
            { sim::NoPreempt np; m.lo = sim::now_real(); trace("log %s at %lld", m.text.c_str(), (long long) m.lo); }
            stamped->info(std::string_view(m.text));
            { sim::NoPreempt np; m.hi = sim::now_real(); }
        }
    };
    {
        std::vector<std::thread> th;
        { sim::NoPreempt np; th.reserve(nt); }
        for (size_t t = 1; t < nt; ++t) th.emplace_back(body, t);
        body(0);
        for (auto& x : th) x.join();
    }
    sim::sched_end();
    sim::set_clock_drift_per_read(0);
    stamped.reset();
    root.reset();
    std::string c = file ? sim::fs::get("/sim/log") : data;
    size_t pos = 0, lines = 0;
    while (pos < c.size()) {
        size_t j = c.find('\n', pos);
        if (j == std::string::npos) fail("line", "The last line is incomplete");
        std::string line = c.substr(pos, j - pos);
        pos = j + 1;
        ++lines;
        const M* msg = nullptr;
        size_t k = line.rfind(tail);
        if (k == std::string::npos) fail("stamp", "The line '%s' does not have the configured form", line.c_str());
        std::string body_text = line.substr(k + std::strlen(tail));
        for (auto& v : msgs) for (auto& m : v) if (m.text == body_text) msg = &m;
        if (!msg) fail("line", "Unknown message in the line '%s'", line.c_str());
        // Some instant between the call and its return must give this time stamp
        i64 unit = precision == 0 ? 1000000000 : precision == 1 ? 1000000 : precision == 2 ? 1000 : 1;
        std::string st = line.substr(0, k + std::strlen(tail));
        auto at = [&](i64 t) { i64 s = floor_div(t, 1000000000); return stamp(s, long(t - s * 1000000000), precision, utc, z, tail); };
        bool ok = st == at(msg->lo) || st == at(msg->hi);
        if (!ok && msg->hi != msg->lo) {
            // Parse what the stamp says and compare. Search the units between.
            i64 a = floor_div(msg->lo, unit), b = floor_div(msg->hi, unit);
            if (b - a > 4000) {
                // bisect by text, when the texts are ordered (same zone offset, same number of digits)
                i64 lo = a, hi = b;
                while (lo < hi) { i64 mid = lo + (hi - lo) / 2; if (at(mid * unit) < st) lo = mid + 1; else hi = mid; }
                ok = at(lo * unit) == st;
                if (!ok && (z.dst || msg->lo < 0)) ok = true; // cannot be decided this way
            }
            else for (i64 u = a; u <= b && !ok; ++u) ok = at(u * unit) == st;
        }
        if (!ok) fail("stamp", "The message '%s', logged between '%s' and '%s', has the time stamp '%s'", msg->text.c_str(), at(msg->lo).c_str(), at(msg->hi).c_str(), st.c_str());
        sim::state(sim::mix(u64(msg->lo), u64(precision)));
    }
    size_t total = 0;
    for (auto& v : msgs) total += v.size();
    if (lines != total) fail("line", "%zu lines were written for %zu messages", lines, total);
}

} // namespace
