// C28 memory streams and text composition
#include <cstring>
#include <iomanip>
#include <limits>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include <archon/core/memory_output_stream.hpp>
#include <archon/core/seed_memory_output_stream.hpp>
#include <archon/core/memory_input_stream.hpp>
#include <archon/core/value_formatter.hpp>
#include <archon/core/value_parser.hpp>
#include <archon/core/string_formatter.hpp>
#include <archon/core/stream_output.hpp>
#include <archon/core/format.hpp>
#include <archon/core/format_enc.hpp>
#include <archon/core/quote.hpp>
#include <archon/core/as_list.hpp>

#include "sim.hpp"

using namespace archon;
using sim::u64;
using sim::choose;
using sim::trace;
using sim::fail;
using std::size_t;

namespace {

sim::Info info_c28("C28",
    "After every operation the contents, size, position and state of the stream are compared with a model; what an operation writes is what std::basic_ostringstream writes for it. An operation that had room and memory succeeds; one that did not leaves what was there, plus a prefix of its own text, and reports it. Guard zones and the address sanitiser watch the memory around the buffers.",
    { "core::BasicSeedMemoryOutputStream", "core::BasicSeedMemoryStreambuf", "core::BasicMemoryOutputStream", "core::BasicMemoryInputStream", "core::BasicValueFormatter", "core::BasicValueParser", "core::BasicStringFormatter", "core::BasicStreamOutputHelper", "core::BasicStreamOutputAltHelper", "core::format()", "core::format_enc()", "core::quoted()", "core::as_list()" },
    { "memory allocation (fails at the points that the simulator chooses)" });

template<class C> using Str = std::basic_string<C>;
template<class C> using SV = std::basic_string_view<C>;

template<class C> std::string show(SV<C> s)
{
    std::string r;
    for (C c : s) {
        if (unsigned(c) >= 32 && unsigned(c) < 127) r += char(c);
        else { char b[16]; std::snprintf(b, sizeof b, "<%x>", unsigned(c)); r += b; }
        if (r.size() > 150) { r += "..."; break; }
    }
    return r;
}
template<class C> std::string show(const Str<C>& s) { return show(SV<C>(s)); }

// Memory of exactly the given size with guard zones
template<class C> struct Block {
    static constexpr size_t pad = 8;
    std::unique_ptr<C[]> mem;
    size_t n;
    explicit Block(size_t size) : n(size)
    {
        sim::NoFault nf;
        mem.reset(new C[n + 2 * pad]);
        for (size_t i = 0; i < n + 2 * pad; ++i) mem[i] = C(0x5a);
    }
    C* data() { return mem.get() + pad; }
    core::Span<C> span() { return core::Span<C>(data(), n); }
    void check()
    {
        for (size_t i = 0; i < pad; ++i) if (mem[i] != C(0x5a) || mem[pad + n + i] != C(0x5a)) fail("overrun", "Memory outside the given buffer was written to");
    }
};

u64 g_serial;

template<class C> Str<C> gen_text(size_t n)
{
    sim::NoFault nf;
    Str<C> s;
    for (size_t i = 0; i < n; ++i) {
        u64 v = g_serial++;
        s.push_back(v % 11 == 10 ? C('\n') : v % 37 == 36 ? C(0) : v % 29 == 28 ? C(0x81) : v % 23 == 22 && sizeof(C) > 1 ? C(0x20ac) : C('a' + v % 26));
    }
    return s;
}

size_t gen_size()
{
    switch (choose(6)) {
        case 0: return choose(4);
        case 1: return choose(16);
        case 2: return choose(70);
        case 3: return choose(200);
        case 4: return choose(20);
        default: return choose(1100);
    }
}

// A piece of output, written in the same way to any stream
template<class C> struct Piece {
    int kind = 0;
    Str<C> text;
    long num = 0;
    double dbl = 0;
    bool flag = false;
    std::vector<int> list;
    std::vector<Str<C>> words;
    size_t max = size_t(-1);
    std::string desc;

    void gen()
    {
        sim::NoFault nf;
        kind = int(choose(12));
        flag = choose(2) == 1;
        switch (kind) {
            case 0: case 1: case 2: case 3: case 10:
                text = gen_text<C>(kind == 1 ? 1 : gen_size());
                desc = (kind == 0 ? "text " : kind == 1 ? "put " : kind == 2 ? "write " : kind == 3 ? "c-string " : "sputn ") + show(text);
                if (kind == 3) for (C& c : text) if (!c) c = C('0');
                break;
            case 4: num = long(choose(20)) - 3; if (choose(3) == 1) num *= 1000003; if (choose(8) == 1) num = std::numeric_limits<long>::min(); desc = "integer " + std::to_string(num); break;
            case 5: dbl = double(choose(1000)) / 8 - 20; if (choose(8) == 1) dbl = 1e300; if (choose(16) == 1) dbl = std::numeric_limits<double>::infinity(); desc = "float " + std::to_string(dbl); break;
            case 6: desc = flag ? "true" : "false"; break;
            case 7: for (size_t i = choose(12); i > 0; --i) list.push_back(int(choose(300)) - 20); if (choose(6) == 1) for (int i = 0; i < 90; ++i) list.push_back(i * 1001); desc = "list of " + std::to_string(list.size()); break;
            case 8: text = gen_text<C>(gen_size()); if (choose(3) == 1) max = choose(text.size() + 8); desc = "quoted " + show(text); break;
            case 9: text = gen_text<C>(gen_size()); num = long(choose(1000)); desc = "formatted " + show(text); break;
            case 11: { size_t n = choose(5); for (size_t i = 0; i < n; ++i) words.push_back(gen_text<C>(choose(6))); desc = "list of " + std::to_string(n) + " strings"; break; }
        }
    }
    // Written through the facilities under test
    void write(std::basic_ostream<C>& out) const
    {
        switch (kind) {
            case 0: out << SV<C>(text); break;
            case 1: out.put(text[0]); break;
            case 2: out.write(text.data(), std::streamsize(text.size())); break;
            case 3: out << text.c_str(); break;
            case 4: out << num; break;
            case 5: out << dbl; break;
            case 6: out << flag; break;
            case 7: out << core::as_sbr_list(list); break;
            case 8: if (flag) out << core::quoted(SV<C>(text), max); else out << core::smart_quoted_s(SV<C>(text), max); break;
            case 9: out << core::formatted("<%s|%s%%%s>", SV<C>(text), num, dbl); break;
            case 10: {
                typename std::basic_ostream<C>::sentry s(out);
                if (s && out.rdbuf()->sputn(text.data(), std::streamsize(text.size())) != std::streamsize(text.size())) out.setstate(std::ios_base::badbit);
                break;
            }
            case 11: out << core::as_list(words, [](const Str<C>& w) { return core::quoted(SV<C>(w)); }); break;
        }
    }
    bool composed() const { return kind == 7 || kind == 8 || kind == 9 || kind == 11; }
    // With a field width, the composed forms are written as one string
    Str<C> expect(const std::basic_ios<C>& fmt) const
    {
        sim::NoFault nf;
        std::basic_ostringstream<C> out;
        out.copyfmt(fmt);
        out.exceptions(std::ios_base::goodbit);
        if (!composed()) { write(out); return out.str(); }
        std::streamsize w = out.width(0);
        std::basic_ostringstream<C> in;
        in.copyfmt(out);
        ref(in);
        if (w == 0) return in.str();
        out.width(w);
        out << in.str();
        return out.str();
    }
    // Composed forms by other means
    void ref(std::basic_ostream<C>& out) const
    {
        switch (kind) {
            case 7: {
                out << '[';
                bool first = true;
                for (int v : list) { if (!first) out << ',' << ' '; first = false; out << v; }
                out << ']';
                break;
            }
            case 8: if (max == size_t(-1) && flag) ref_quote(out, text); else write(out); break;
            case 9: out << '<' << text << '|' << num << '%' << dbl << '>'; break;
            case 11: { bool first = true; for (auto& w : words) { if (!first) out << ',' << ' '; first = false; ref_quote(out, w); } break; }
        }
    }
    static void ref_quote(std::basic_ostream<C>& out, const Str<C>& s)
    {
        // Only the characters that gen_text() makes
        std::basic_ostringstream<C> o;
        o << core::quoted(SV<C>(s));
        out << o.str();
    }
};

template<class C> void gen_format(std::basic_ostream<C>& out)
{
    sim::NoFault nf;
    if (choose(3) == 1) out.width(std::streamsize(choose(4) == 1 ? choose(300) : choose(30)));
    switch (choose(12)) {
        case 1: out << std::hex; break;
        case 2: out << std::dec; break;
        case 3: out << std::left; break;
        case 4: out << std::internal; break;
        case 5: out << std::showpos; break;
        case 6: out << std::boolalpha; break;
        case 7: out.fill(C('*')); break;
        case 8: out.precision(int(choose(20))); break;
        case 9: out << std::fixed; break;
    }
}

bool maybe_fault()
{
    if (!sim::chance(1, 4)) return false;
    sim::fail_alloc(sim::range(1, 5), choose(4) == 1);
    return true;
}

bool g_threw; // did the last operation throw?

// Perform an operation on a stream. Returns false if the stream ended up failed.
template<class S, class F> bool perform(S& out, bool fault, const char* what, bool& fired, F&& f)
{
    g_threw = false;
    bool& threw = g_threw;
    if (fault) sim::fail_alloc(sim::range(1, 4), choose(4) == 1);
    try { f(); }
    catch (const std::bad_alloc&) {
        bool fd = fault && sim::alloc_fault_fired();
        sim::stop_alloc_faults();
        if (!fd) fail("exception", "%s: unexpected exception (bad_alloc)", what);
        threw = true;
    }
    catch (const std::ios_base::failure&) {
        sim::stop_alloc_faults();
        if (out.exceptions() == 0) fail("exception", "%s: the stream threw although exceptions are not enabled for it", what);
        threw = true;
    }
    catch (const std::length_error&) {
        sim::stop_alloc_faults();
        fail("exception", "%s: unexpected exception (length_error)", what);
    }
    fired = fault && sim::alloc_fault_fired();
    sim::stop_alloc_faults();
    if (threw) { sim::count("probe.threw"); trace("  -> exception"); }
    return !threw && out.good();
}

// ================================================================ growing stream

template<class C> void seeded()
{
    using S = core::BasicSeedMemoryOutputStream<C>;
    g_serial = 0;
    size_t seed_size = choose(4) == 0 ? 0 : gen_size();
    std::optional<Block<C>> seed;
    if (seed_size) seed.emplace(seed_size);
    std::optional<S> so;
    if (seed) so.emplace(seed->span()); else so.emplace();
    S& out = *so;
    auto& buf = out.streambuf();
    trace("stream of %s with %zu characters of seed memory", sizeof(C) == 1 ? "char" : "wchar_t", seed_size);
    if (choose(3) == 1) out.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    Str<C> m;
    auto check = [&](const char* what, const Str<C>& piece, bool ok, bool may_fail) {
        sim::NoFault nf;
        if (seed) seed->check();
        SV<C> v = out.view();
        if (v.size() != buf.size() || v.data() != buf.data() || buf.view() != v) fail("view", "%s: the views of the stream and of its buffer disagree", what);
        if (ok) m += piece;
        else {
            if (!may_fail) fail("refused", "%s: the stream failed although memory was available", what);
            sim::count("probe.write_failed");
            size_t n = v.size() < m.size() ? 0 : v.size() - m.size();
            if (v.size() < m.size() || v.substr(0, m.size()) != m) fail("lost", "%s: failed, and the text accepted before is not intact: has '%s', should begin with '%s'", what, show(v).c_str(), show(m).c_str());
            if (n > piece.size() || v.substr(m.size()) != SV<C>(piece).substr(0, n)) fail("garbage", "%s: failed, and added text that was not written: has '%s', expected a prefix of '%s' after %zu characters", what, show(v).c_str(), show(piece).c_str(), m.size());
            m.assign(v.data(), v.size());
        }
        if (v != m) fail("contents", "%s: the stream holds %zu characters '%s', expected %zu characters '%s'", what, v.size(), show(v).c_str(), m.size(), show(m).c_str());
        sim::state(sim::mix(m.size(), out.rdstate()));
    };
    while (sim::more(10)) {
        bool fired = false, ok;
        if (!out.good()) {
            switch (choose(3)) {
                case 0: trace("clear()"); out.clear(); break;
                case 1: trace("full_clear()"); out.full_clear(); m.clear(); if (!out.good()) fail("clear", "full_clear() left the stream in a failed state"); break;
                case 2: {
                    trace("write while failed");
                    perform(out, false, "write", fired, [&] { out << C('x'); });
                    break;
                }
            }
            check("clear()", {}, true, false);
            continue;
        }
        switch (choose(9)) {
            default: {
                Piece<C> p;
                p.gen();
                gen_format(out);
                Str<C> e = p.expect(out);
                trace("<< %s (%zu)", p.desc.c_str(), e.size());
                bool fault = sim::chance(1, 4);
                ok = perform(out, fault, "<<", fired, [&] { p.write(out); });
                { sim::NoFault nf; if (!ok) out.width(0); }
                check("<<", e, ok, fired);
                break;
            }
            case 4: {
                size_t n = gen_size();
                Str<C> t = gen_text<C>(n);
                bool fault = sim::chance(1, 4);
                trace("append(%zu characters)", n);
                ok = perform(out, fault, "append()", fired, [&] { buf.append(t.data(), t.size()); });
                if (!ok && buf.size() != m.size()) fail("strong", "append() failed and added %zu characters", buf.size() - m.size());
                check("append()", t, ok, fired);
                break;
            }
            case 5: {
                size_t n = gen_size();
                Str<C> t;
                { sim::NoFault nf; t.assign(n, C('z')); }
                bool fault = sim::chance(1, 4);
                trace("append(%zu x 'z')", n);
                ok = perform(out, fault, "append()", fired, [&] { buf.append(n, C('z')); });
                if (!ok && buf.size() != m.size()) fail("strong", "append() failed and added %zu characters", buf.size() - m.size());
                check("append()", t, ok, fired);
                break;
            }
            case 6: {
                bool huge = choose(4) == 1;
                size_t n = huge ? size_t(-1) - choose(1200) : gen_size();
                bool fault = !huge && sim::chance(1, 4);
                trace("reserve_extra(%zu)", n);
                bool len = false;
                ok = false;
                try { ok = perform(out, fault, "reserve_extra()", fired, [&] { try { buf.reserve_extra(n); } catch (const std::length_error&) { len = true; } catch (const std::bad_alloc&) { if (!huge) throw; len = true; } }); }
                catch (...) { throw; }
                if (huge && !len) fail("reserve", "reserve_extra() accepted a size that cannot be represented or allocated");
                if (len && !huge) fail("reserve", "reserve_extra() reported a length error for a small size");
                check("reserve_extra()", {}, ok, fired);
                if (ok && !len) {
                    // The room is there: appending does not move the contents
                    const C* p = buf.data();
                    Str<C> t = gen_text<C>(n);
                    sim::fail_alloc(1, true);
                    bool bad = false;
                    try { buf.append(t.data(), t.size()); } catch (...) { bad = true; }
                    sim::stop_alloc_faults();
                    if (bad || buf.data() != p) fail("reserve", "append() needed memory although the room had been reserved");
                    check("append()", t, true, false);
                }
                break;
            }
            case 7:
                trace("full_clear()");
                out.full_clear();
                m.clear();
                check("full_clear()", {}, true, false);
                break;
            case 8:
                trace("clear_contents()");
                buf.clear_contents();
                m.clear();
                check("clear_contents()", {}, true, false);
                break;
        }
    }
    so.reset();
    if (seed) seed->check();
}

// ================================================================ fixed size stream

template<class C> void fixed()
{
    using S = core::BasicMemoryOutputStream<C>;
    g_serial = 0;
    std::vector<std::unique_ptr<Block<C>>> blocks;
    std::optional<S> so;
    Str<C> mem;          // model of the whole memory
    size_t pos = 0, size = 0;
    Block<C>* b = nullptr;
    auto attach = [&](bool reset) {
        sim::NoFault nf;
        size_t cap = gen_size();
        size_t init = choose(2) ? choose(cap + 1) : 0;
        blocks.push_back(std::make_unique<Block<C>>(cap));
        b = blocks.back().get();
        mem = gen_text<C>(cap);
        std::copy(mem.begin(), mem.end(), b->data());
        trace("%s(capacity %zu, size %zu)", reset ? "reset" : "construct", cap, init);
        if (reset) so->reset(b->span(), init); else so.emplace(b->span(), init);
        pos = 0;
        size = init;
    };
    if (choose(4) == 1) {
        so.emplace();
        trace("default construct");
        if (so->get_size() || so->get_capacity() || so->get_base()) fail("default", "A default constructed stream claims to have memory");
    }
    else attach(false);
    bool exc = choose(3) == 1;
    if (exc) so->exceptions(std::ios_base::badbit | std::ios_base::failbit);
    auto check = [&](const char* what) {
        sim::NoFault nf;
        S& out = *so;
        for (auto& x : blocks) x->check();
        if (!b) { if (out.get_size() || out.get_capacity()) fail("size", "%s: a stream without memory has a size", what); return; }
        if (out.get_base() != b->data() || out.get_capacity() != b->n) fail("base", "%s: the base or capacity of the stream changed", what);
        if (out.get_size() != size) fail("size", "%s: the size is %zu, expected %zu", what, out.get_size(), size);
        if (out.view() != SV<C>(mem).substr(0, size)) fail("contents", "%s: the stream holds '%s', expected '%s'", what, show(out.view()).c_str(), show(SV<C>(mem).substr(0, size)).c_str());
        if (SV<C>(b->data(), b->n) != mem) fail("stray", "%s: the memory beyond the contents was changed", what);
        auto st = out.rdstate();
        // Not always, because tellp() may change the internal state
        if (!out.fail() && choose(3) == 1) {
            auto p = out.tellp();
            if (p != typename S::pos_type(typename S::off_type(pos))) fail("position", "%s: the position is %ld, expected %zu", what, long(p), pos);
        }
        if (out.rdstate() != st) fail("state", "tellp() changed the state");
        sim::state(sim::mix(sim::mix(pos, size), sim::mix(b->n, st)));
    };
    check("construct");
    while (sim::more(12)) {
        S& out = *so;
        bool fired = false;
        if (!out.good() && choose(2)) { trace("clear()"); out.clear(); check("clear()"); continue; }
        bool was_good = out.good();
        switch (choose(8)) {
            default: {
                Piece<C> p;
                p.gen();
                gen_format(out);
                if (p.composed() && p.kind == 9 && !was_good) break;   // would throw or write depending on state
                Str<C> e = p.expect(out);
                trace("<< %s (%zu)", p.desc.c_str(), e.size());
                bool fault = sim::chance(1, 5);
                bool ok = perform(out, fault, "<<", fired, [&] { p.write(out); });
                { sim::NoFault nf; if (!ok) out.width(0); }
                sim::NoFault nf;
                size_t room = mem.size() - pos;
                if (!was_good) { check("<< on a failed stream"); break; }
                if (ok) {
                    if (e.size() > room) fail("accepted", "A write of %zu characters succeeded with room for %zu", e.size(), room);
                    std::copy(e.begin(), e.end(), mem.begin() + long(pos));
                    pos += e.size();
                    size = std::max(size, pos);
                }
                else {
                    if (e.size() <= room && !fired) fail("refused", "A write of %zu characters failed with room for %zu", e.size(), room);
                    if (out.good() && !g_threw) fail("silent", "A failed write is not reported in the state of the stream");
                    sim::count(fired ? "probe.alloc_failed" : "probe.buffer_full");
                    // A prefix of the text was written
                    out.clear();
                    auto end = long(out.tellp());
                    out.setstate(std::ios_base::goodbit);
                    if (end < long(pos) || size_t(end) - pos > e.size() || size_t(end) > mem.size()) fail("position", "After a failed write of %zu characters at %zu, the position is %ld", e.size(), pos, end);
                    size_t n = size_t(end) - pos;
                    std::copy(e.begin(), e.begin() + long(n), mem.begin() + long(pos));
                    pos += n;
                    size = std::max(size, pos);
                }
                check("<<");
                break;
            }
            case 4: case 5: {
                using off = typename S::off_type;
                off o = 0;
                std::ios_base::seekdir dir = std::ios_base::beg;
                bool abs = choose(2) == 0;
                switch (choose(6)) {
                    case 0: o = off(choose(mem.size() + 1)); break;
                    case 1: o = off(mem.size()) - off(choose(3)) + 1; break;
                    case 2: o = -off(choose(30)); break;
                    case 3: o = off(choose(30)); break;
                    case 4: o = choose(2) ? std::numeric_limits<off>::max() - off(choose(3)) : std::numeric_limits<off>::min() + off(choose(3)); break;
                    case 5: o = off(size) + off(choose(5)) - 2; break;
                }
                size_t base = 0;
                if (!abs) {
                    static constexpr std::ios_base::seekdir dirs[] = { std::ios_base::beg, std::ios_base::cur, std::ios_base::end };
                    int d = int(choose(3));
                    dir = dirs[d];
                    base = d == 0 ? 0 : d == 1 ? pos : size;
                }
                trace("seekp(%ld%s)", long(o), abs ? "" : dir == std::ios_base::beg ? ", beg" : dir == std::ios_base::cur ? ", cur" : ", end");
                bool failed_before = out.fail();
                __int128 target = __int128(base) + o;
                bool valid = target >= 0 && target <= __int128(mem.size());
                bool ok = perform(out, false, "seekp()", fired, [&] { if (abs) out.seekp(typename S::pos_type(o)); else out.seekp(o, dir); });
                if (failed_before) { check("seekp() on a failed stream"); break; }
                if (ok != (valid && was_good)) fail("seek", "seekp() %s, although the position %ld is %s", ok ? "succeeded" : "failed", long(target), valid ? "valid" : "invalid");
                if (valid) {
                    sim::NoFault nf;
                    pos = size_t(target);
                    if (pos > size) { for (size_t i = size; i < pos; ++i) mem[i] = C(); size = pos; sim::count("probe.seek_beyond_end"); }
                }
                check("seekp()");
                break;
            }
            case 6:
                if (choose(3) == 1) {
                    attach(true);
                    if (!so->good()) fail("reset", "reset() left the stream in a failed state");
                    check("reset()");
                }
                break;
            case 7: {
                trace("seek by input mode");
                using off = typename S::off_type;
                auto r = out.rdbuf()->pubseekoff(off(0), std::ios_base::beg, std::ios_base::in);
                if (r != typename S::pos_type(off(-1))) fail("seek", "Seeking the input position of an output stream succeeded");
                check("pubseekoff()");
                break;
            }
        }
    }
    so.reset();
    for (auto& x : blocks) x->check();
}

// ================================================================ input stream

template<class C> void input()
{
    using S = core::BasicMemoryInputStream<C>;
    using R = std::basic_istringstream<C>;
    g_serial = 0;
    auto gen = [&] {
        sim::NoFault nf;
        Str<C> t;
        if (choose(3) == 1) { std::basic_ostringstream<C> o; for (size_t i = choose(12); i > 0; --i) { switch (choose(3)) { case 0: o << long(choose(100000)) - 500; break; case 1: o << double(choose(10000)) / 16; break; case 2: o << "true"; break; } o << (choose(3) ? C(' ') : C('\n')); } t = o.str(); }
        else t = gen_text<C>(gen_size());
        return t;
    };
    std::vector<std::unique_ptr<Block<C>>> blocks;
    std::optional<S> so;
    std::optional<R> ro;
    Str<C> text;
    Block<C>* b = nullptr;
    auto attach = [&](bool reset) {
        sim::NoFault nf;
        text = gen();
        blocks.push_back(std::make_unique<Block<C>>(text.size()));
        b = blocks.back().get();
        std::copy(text.begin(), text.end(), b->data());
        trace("%s '%s' (%zu)", reset ? "reset" : "construct", show(text).c_str(), text.size());
        core::StringSpan<C> span(b->data(), text.size());
        if (reset) { so->reset(span); ro->clear(); ro->str(text); } else { so.emplace(span); ro.emplace(text); }
        if (!so->good()) fail("reset", "The stream is in a failed state after reset()");
    };
    attach(false);
    if (choose(4) == 1) { so->unsetf(std::ios_base::skipws); ro->unsetf(std::ios_base::skipws); trace("noskipws"); }
    auto check = [&](const char* what) {
        sim::NoFault nf;
        for (auto& x : blocks) x->check();
        if (so->view() != SV<C>(text) || (b->n && so->view().data() != b->data())) fail("view", "%s: view() is not the memory given", what);
        if (SV<C>(b->data(), b->n) != text) fail("stray", "%s: the memory read from was changed", what);
        if (so->rdstate() != ro->rdstate()) fail("state", "%s: state is%s%s%s, expected%s%s%s", what, so->bad() ? " bad" : "", so->rdstate() & std::ios_base::failbit ? " fail" : "", so->eof() ? " eof" : "", ro->bad() ? " bad" : "", ro->rdstate() & std::ios_base::failbit ? " fail" : "", ro->eof() ? " eof" : "");
        if (so->gcount() != ro->gcount()) fail("count", "%s: %ld characters extracted, expected %ld", what, long(so->gcount()), long(ro->gcount()));
        auto p = so->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in), q = ro->rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
        if (p != q) fail("position", "%s: the position is %ld, expected %ld", what, long(p), long(q));
        sim::state(sim::mix(sim::mix(u64(p), so->rdstate()), text.size()));
    };
    check("construct");
    while (sim::more(14)) {
        S& in = *so;
        R& ref = *ro;
        u64 op = choose(16);
        switch (op) {
            case 0: { trace("get()"); auto x = in.get(), y = ref.get(); if (x != y) fail("read", "get() returned %ld, expected %ld", long(x), long(y)); check("get()"); break; }
            case 1: { trace("peek()"); auto x = in.peek(), y = ref.peek(); if (x != y) fail("read", "peek() returned %ld, expected %ld", long(x), long(y)); check("peek()"); break; }
            case 2: case 3: {
                size_t n = gen_size();
                trace("read(%zu)", n);
                Block<C> x(n), y(n);
                in.read(x.data(), std::streamsize(n)); ref.read(y.data(), std::streamsize(n));
                x.check();
                if (SV<C>(x.data(), n) != SV<C>(y.data(), n)) fail("read", "read() delivered '%s', expected '%s'", show(SV<C>(x.data(), n)).c_str(), show(SV<C>(y.data(), n)).c_str());
                check("read()");
                break;
            }
            case 4: {
                trace("getline()");
                Str<C> x, y;
                bool fired;
                bool fault = maybe_fault();
                auto st = in.rdstate();
                auto before = in.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
                std::getline(in, x);
                fired = fault && sim::alloc_fault_fired();
                sim::stop_alloc_faults();
                sim::NoFault nf;
                if (fired) {
                    sim::count("probe.alloc_failed");
                    if (!in.bad()) fail("silent", "Reading a line ran out of memory without reporting it");
                    // Retry from where it began
                    in.clear(); ref.clear();
                    in.rdbuf()->pubseekpos(before, std::ios_base::in);
                    in.setstate(st & ~std::ios_base::badbit); ref.setstate(st & ~std::ios_base::badbit);
                    std::getline(in, x);
                }
                std::getline(ref, y);
                if (x != y) fail("read", "getline() delivered '%s', expected '%s'", show(x).c_str(), show(y).c_str());
                check("getline()");
                break;
            }
            case 5: { size_t n = choose(30); trace("ignore(%zu)", n); in.ignore(std::streamsize(n)); ref.ignore(std::streamsize(n)); check("ignore()"); break; }
            case 6: { trace("unget()"); in.unget(); ref.unget(); check("unget()"); break; }
            case 7: {
                bool right = choose(2) == 0;
                long p = long(ref.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
                C c = right && p > 0 ? text[size_t(p) - 1] : C('#');
                trace("putback('%s')", show(SV<C>(&c, 1)).c_str());
                in.putback(c); ref.putback(c);
                check("putback()");
                break;
            }
            case 8: case 9: {
                using off = typename S::off_type;
                off o = 0;
                switch (choose(5)) {
                    case 0: o = off(choose(text.size() + 1)); break;
                    case 1: o = -off(choose(30)); break;
                    case 2: o = off(choose(30)); break;
                    case 3: o = off(text.size()) + 1 - off(choose(3)); break;
                    case 4: o = choose(2) ? std::numeric_limits<off>::max() - off(choose(3)) : std::numeric_limits<off>::min() + off(choose(3)); break;
                }
                static constexpr std::ios_base::seekdir dirs[] = { std::ios_base::beg, std::ios_base::cur, std::ios_base::end };
                int d = int(choose(4));
                trace("seekg(%ld, %s)", long(o), d == 0 ? "beg" : d == 1 ? "cur" : d == 2 ? "end" : "absolute");
                // The reference is given the target as a number that cannot overflow
                bool failed = in.rdstate() & (std::ios_base::failbit | std::ios_base::badbit);
                long cur = long(ref.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
                __int128 t = __int128(d == 1 ? cur : d == 2 ? long(text.size()) : 0) + o;
                bool valid = t >= 0 && t <= __int128(text.size());
                if (d == 3) in.seekg(typename S::pos_type(o)); else in.seekg(o, dirs[d]);
                if (valid) ref.seekg(typename S::pos_type(off(t)));
                else if (!failed) { ref.clear(ref.rdstate() & ~std::ios_base::eofbit); ref.setstate(std::ios_base::failbit); }
                else ref.seekg(0);   // without effect on the position
                check("seekg()");
                break;
            }
            case 10: { trace(">> long"); long x = 7, y = 7; in >> x; ref >> y; if (x != y) fail("read", "Extraction gave %ld, expected %ld", x, y); check(">>"); break; }
            case 11: { trace(">> double"); double x = 7, y = 7; in >> x; ref >> y; if (!(x == y)) fail("read", "Extraction gave %g, expected %g", x, y); check(">>"); break; }
            case 12: {
                trace(">> string");
                sim::NoFault nf;
                Str<C> x, y; in >> x; ref >> y;
                if (x != y) fail("read", "Extraction gave '%s', expected '%s'", show(x).c_str(), show(y).c_str());
                check(">>");
                break;
            }
            case 13: { trace("clear()"); in.clear(); ref.clear(); check("clear()"); break; }
            case 14: { trace("tellg()"); auto x = in.tellg(), y = ref.tellg(); if (x != y) fail("position", "tellg() returned %ld, expected %ld", long(x), long(y)); check("tellg()"); break; }
            case 15: if (choose(4) == 1) { attach(true); check("reset()"); } break;
        }
    }
}

// ================================================================ formatters and parsers

template<class C> struct Val {
    const Piece<C>& p;
    friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& out, const Val& v) { v.p.write(out); return out; }
};

template<class C> void formatter()
{
    using VF = core::BasicValueFormatter<C>;
    using SF = core::BasicStringFormatter<C>;
    g_serial = 0;
    size_t seed_size = choose(4) == 0 ? 0 : 1 + choose(100);
    Block<C> seed1(seed_size), seed2(seed_size);
    std::optional<VF> vf;
    std::optional<SF> sf;
    std::optional<core::BasicValueParser<C>> vp;
    std::locale loc;
    {
        // Not subject to faults: done before any text is composed
        if (seed_size) { vf.emplace(seed1.span(), loc); sf.emplace(seed2.span(), loc); } else { vf.emplace(loc); sf.emplace(loc); }
        vp.emplace(loc);
    }
    trace("formatters of %s with %zu characters of seed memory", sizeof(C) == 1 ? "char" : "wchar_t", seed_size);
    std::basic_ostringstream<C> plain;
    while (sim::more(10)) {
        Piece<C> p;
        p.gen();
        Str<C> lit = gen_text<C>(gen_size());
        Str<C> expect;
        SV<C> got;
        bool fault = maybe_fault(), threw = false, fired;
        Str<C> result;
        std::string bytes;
        u64 op = choose(5);
        if (sizeof(C) != 1 && op == 3) op = 0;
        const char* what = "";
        Str<C> pattern;
        {
            sim::NoFault nf;
            Str<C> one = p.expect(plain);
            Str<C> head = lit;
            for (C& c : head) if (c == C('%')) c = C('x');
            for (C c : SV<C>(head)) { pattern += c; expect += c; }
            auto add = [&](const char* s) { for (; *s; ++s) pattern += C(*s); };
            add("%s%%[%s]");
            expect += one; expect += C('%'); expect += C('[');
            expect += one; expect += C(']');
            if (op == 0 || op == 4) expect = one;
        }
        Val<C> val { p };
        try {
            switch (op) {
                case 0: what = "ValueFormatter::format()"; trace("%s %s", what, p.desc.c_str()); got = vf->format(val); break;
                case 1: what = "StringFormatter::format()"; trace("%s %s", what, p.desc.c_str()); got = sf->format(SV<C>(pattern), val, val); break;
                case 2: what = "format()"; trace("%s %s", what, p.desc.c_str()); result = core::format(loc, SV<C>(pattern), val, val); got = result; break;
                case 3:
                    if constexpr (sizeof(C) == 1) {
                        what = "format_enc()";
                        trace("%s %s", what, p.desc.c_str());
                        result = core::format_enc(loc, SV<C>(pattern), val, val);
                        got = result;
                    }
                    break;
                case 4: {
                    what = "ValueParser::parse()";
                    trace("%s of %ld", what, p.num);
                    Str<C> s;
                    { sim::NoFault nf; std::basic_ostringstream<C> o; o << p.num; s = o.str(); }
                    long v = 7;
                    bool r = vp->parse(SV<C>(s), v);
                    sim::stop_alloc_faults();
                    if (!r || v != p.num) fail("parse", "Parsing the text of %ld gave %ld", p.num, v);
                    unsigned long w = 7;
                    r = vp->parse(SV<C>(s), w);
                    if (r != (p.num >= 0) || (r && w != (unsigned long)(p.num))) fail("parse", "Parsing the text of %ld as unsigned gave %lu", p.num, w);
                    { sim::NoFault nf; s += C('x'); }
                    if (vp->parse(SV<C>(s), v)) fail("parse", "Parsing a number followed by a letter succeeded");
                    Str<C> t;
                    if (!vp->parse(SV<C>(lit), t) || t != lit) fail("parse", "Parsing text as a string did not give the text");
                    got = expect;
                    break;
                }
            }
        }
        catch (const std::bad_alloc&) { threw = true; }
        catch (const std::ios_base::failure&) { threw = true; }
        fired = fault && sim::alloc_fault_fired();
        sim::stop_alloc_faults();
        sim::NoFault nf;
        seed1.check(); seed2.check();
        if (threw && !fired) fail("exception", "%s failed although memory was available", what);
        if (threw) { sim::count("probe.format_failed"); trace("  -> exception"); continue; }
        if (got != SV<C>(expect)) fail("text", "%s produced '%s' (%zu), expected '%s' (%zu)", what, show(got).c_str(), got.size(), show(expect).c_str(), expect.size());
        sim::state(sim::mix(op, expect.size()));
    }
}

SIM_SCENARIO("C28", "growing", 3, sim::f_leakcheck | sim::f_faults) { seeded<char>(); }
SIM_SCENARIO("C28", "growing-wide", 2, sim::f_leakcheck | sim::f_faults) { seeded<wchar_t>(); }
SIM_SCENARIO("C28", "fixed", 3, sim::f_leakcheck | sim::f_faults) { fixed<char>(); }
SIM_SCENARIO("C28", "fixed-wide", 2, sim::f_leakcheck | sim::f_faults) { fixed<wchar_t>(); }
SIM_SCENARIO("C28", "input", 3, sim::f_leakcheck | sim::f_faults) { input<char>(); }
SIM_SCENARIO("C28", "input-wide", 2, sim::f_leakcheck | sim::f_faults) { input<wchar_t>(); }
SIM_SCENARIO("C28", "formatters", 3, sim::f_leakcheck | sim::f_faults) { formatter<char>(); }
SIM_SCENARIO("C28", "formatters-wide", 2, sim::f_leakcheck | sim::f_faults) { formatter<wchar_t>(); }

} // namespace
