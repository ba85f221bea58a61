// C09 incremental codecs
#include <array>
#include <cstring>
#include <new>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

#include <archon/core/span.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/base64.hpp>
#include <archon/core/newline_codec.hpp>
#include <archon/core/char_codec.hpp>
#include <archon/core/text_codec.hpp>
#include <archon/core/string_codec.hpp>

#include "sim.hpp"
#include "encodings.hpp"

using namespace archon;
namespace base64 = core::base64;
using sim::u64;
using sim::choose;
using sim::trace;
using sim::fail;
using std::size_t;

namespace {

std::string str(const std::string& s) { return sim::quote(s, 120); }

// Sizes of the pieces in which something is offered
struct Pieces {
    int style = int(choose(4));
    size_t next(size_t remain)
    {
        if (remain == 0) return 0;
        switch (style) {
            case 0: return remain;
            case 1: return std::min(remain, size_t(sim::range(1, 4)));
            case 2: return std::min(remain, size_t(choose(3)));
            default: return size_t(sim::range(0, remain));
        }
    }
    size_t room()
    {
        switch (style) {
            case 0: return 100000;
            case 1: return size_t(sim::range(1, 4));
            case 2: return size_t(choose(3));
            default: return size_t(choose(40));
        }
    }
};

std::string gen_bytes(size_t n)
{
    std::string s;
    int style = int(choose(3));
    for (size_t i = 0; i < n; ++i) s += style == 0 ? char('a' + choose(3)) : style == 1 ? char(choose(256)) : "\x00\xff\x80\x7f\n\r=A"[choose(8)];
    return s;
}

size_t gen_size() { return choose(10) == 1 ? sim::range(20, 700) : choose(12); }

// ---------------------------------------------------------------- base64

const char std_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const char url_chars[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

std::string ref_base64(const std::string& s, base64::EncodeConfig c)
{
    const char* t = c.url_safe_variant ? url_chars : std_chars;
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = 0;
        size_t n = std::min<size_t>(3, s.size() - i);
        for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? (unsigned char)s[i + k] : 0);
        for (size_t k = 0; k < 4; ++k) {
            if (k <= n) o += t[v >> (18 - 6 * k) & 63];
            else if (c.use_padding) o += '=';
        }
    }
    if (c.line_size == 0) return o;
    std::string r;
    for (size_t i = 0; i < o.size(); i += c.line_size) { r += o.substr(i, c.line_size); r += '\n'; }
    return r;
}

struct RefDecode {
    bool ok = false;
    size_t where = 0; // offset of the offending character, or the size
    std::string out;
};
RefDecode ref_unbase64(const std::string& s, base64::DecodeConfig c)
{
    const char* t = c.url_safe_variant ? url_chars : std_chars;
    RefDecode r;
    int held = 0, pad = 0;
    bool done = false; // padding is complete
    unsigned v = 0;
    auto partial_ok = [&] { return (held == 2 && !(v & 15)) || (held == 3 && !(v & 3)); };
    auto put = [&] (int n) { // n held characters
        unsigned w = v << (6 * (4 - n));
        for (int k = 0; k < n - 1; ++k) r.out += char(w >> (16 - 8 * k) & 255);
    };
    for (size_t i = 0; i < s.size(); ++i) {
        char ch = s[i];
        r.where = i;
        const char* p = ch ? std::strchr(t, ch) : nullptr;
        if (p) {
            if (pad) return r;
            v = v << 6 | unsigned(p - t);
            if (++held == 4) { put(4); held = 0; v = 0; }
        }
        else if (ch == ' ' || ch == '\t' || ch == '\n') {
            if (!c.allow_whitespace) return r;
        }
        else if (ch == '=') {
            if (c.padding == base64::DecodeConfig::Padding::reject || done || !partial_ok()) return r;
            if (held + ++pad == 4) { put(held); done = true; }
        }
        else return r;
    }
    r.where = s.size();
    if (pad) { r.ok = done; return r; }
    if (held) {
        if (c.padding == base64::DecodeConfig::Padding::require || !partial_ok()) return r;
        put(held);
    }
    r.ok = true;
    return r;
}

// Drive an incremental coder step by step
template<class Coder> void drive(Coder step, const std::string& in, const RefDecode& exp, const char* what)
{
    Pieces pi, po;
    size_t avail = 0, off = 0;
    std::string out;
    int idle = 0;
    bool failed = false;
    for (;;) {
        avail += pi.next(in.size() - avail);
        bool end = avail == in.size() && (idle > 0 || choose(3) != 1);
        size_t room = idle > 4 ? 8 : po.room();
        if (room > 4096) room = 4096;
        std::vector<char> buf(room + 2, '!');
        // Exactly what is offered, so that the memory checker sees any access to more
        std::vector<char> piece(in.begin() + off, in.begin() + avail);
        const char* db = piece.data();
        const char* de = db + piece.size();
        char* bb = buf.data() + 1;
        char* be = bb + room;
        bool done = step(db, de, end, bb, be);
        if (db < piece.data() || db > de) fail("overrun", "%s consumed more than it was offered", what);
        if (bb < buf.data() + 1 || bb > buf.data() + 1 + room || buf[0] != '!' || buf[room + 1] != '!') fail("overrun", "%s produced more than there was room for", what);
        size_t consumed = size_t(db - piece.data()), produced = size_t(bb - buf.data() - 1);
        if (sim::tracing()) trace("step in=%zu%s room=%zu -> %s consumed=%zu produced=%zu %s", piece.size(), end ? " (end)" : "", room, done ? "done" : "not done", consumed, produced, str(std::string(buf.data() + 1, produced)).c_str());
        off += consumed;
        out.append(buf.data() + 1, produced);
        if (out.size() > exp.out.size() || exp.out.compare(0, out.size(), out) != 0)
            fail("wrong-output", "%s of %s produced %s, expected %s", what, str(in).c_str(), str(out).c_str(), str(exp.out).c_str());
        sim::state(sim::mix(sim::mix(off, out.size()), in.size()));
        if (done) {
            if (!end) fail("premature-end", "%s reported completion before the end of the input", what);
            if (off != in.size()) fail("premature-end", "%s reported completion with %zu of %zu bytes consumed", what, off, in.size());
            if (!exp.ok) fail("missed-error", "%s of %s succeeded, but there is an error at %zu", what, str(in).c_str(), exp.where);
            if (out != exp.out) fail("wrong-output", "%s of %s produced %s, expected %s", what, str(in).c_str(), str(out).c_str(), str(exp.out).c_str());
            return;
        }
        bool full = produced == room;
        if (!full && (off < avail || end)) {
            // Stopped with room left and input left or at the end of input: an error
            if (exp.ok) fail("spurious-error", "%s of valid input %s stopped at %zu", what, str(in).c_str(), off);
            if (off != exp.where) fail("wrong-error-place", "%s of %s stopped at %zu, but the error is at %zu", what, str(in).c_str(), off, exp.where);
            if (out != exp.out) fail("wrong-output", "%s of %s produced %s before the error, expected %s", what, str(in).c_str(), str(out).c_str(), str(exp.out).c_str());
            sim::count("probe.error_reported");
            if (failed || choose(2)) return;
            failed = true; // Once more
        }
        if (consumed == 0 && produced == 0) {
            ++idle;
            if (idle > 40) fail("no-progress", "%s of %s makes no progress at %zu although there is room", what, str(in).c_str(), off);
        }
        else idle = 0;
    }
}

base64::EncodeConfig gen_econf()
{
    base64::EncodeConfig c;
    c.url_safe_variant = choose(2);
    c.use_padding = choose(2);
    c.line_size = choose(2) ? choose(20) == 1 ? 76 : choose(10) : 0;
    return c;
}
base64::DecodeConfig gen_dconf()
{
    base64::DecodeConfig c;
    c.url_safe_variant = choose(2);
    c.padding = base64::DecodeConfig::Padding(choose(3));
    c.allow_whitespace = choose(2);
    return c;
}
void note(const base64::EncodeConfig& c) { trace("encode: url_safe=%d padding=%d line_size=%zu", c.url_safe_variant, c.use_padding, c.line_size); }
void note(const base64::DecodeConfig& c) { trace("decode: url_safe=%d padding=%s whitespace=%d", c.url_safe_variant, c.padding == 0 ? "allow" : c.padding == 1 ? "reject" : "require", c.allow_whitespace); }

std::string gen_base64(base64::DecodeConfig c)
{
    base64::EncodeConfig e;
    e.url_safe_variant = choose(10) == 1 ? choose(2) : c.url_safe_variant;
    e.use_padding = choose(4) == 1 ? choose(2) : c.padding != base64::DecodeConfig::Padding::reject;
    e.line_size = c.allow_whitespace && choose(2) ? 1 + choose(9) : 0;
    std::string s = ref_base64(gen_bytes(gen_size()), e);
    int edits = choose(2) ? 0 : int(1 + choose(3));
    while (edits--) {
        size_t i = choose(s.size() + 1);
        char ch = "= \n\tA/_+-!\x80\r=="[choose(14)];
        switch (choose(3)) {
            case 0: s.insert(i, 1, ch); break;
            case 1: if (i < s.size()) s[i] = ch; break;
            case 2: if (i < s.size()) s.erase(i, 1); break;
        }
    }
    return s;
}

SIM_SCENARIO("C09", "base64-encode", 2, sim::f_leakcheck)
{
    auto c = gen_econf();
    note(c);
    std::string s = gen_bytes(gen_size());
    trace("data %s", str(s).c_str());
    RefDecode exp{ true, s.size(), ref_base64(s, c) };
    base64::IncrementalEncoder enc(c);
    drive([&] (auto&... a) { return enc.encode(a...); }, s, exp, "base64 encoding");
}

SIM_SCENARIO("C09", "base64-decode", 3, sim::f_leakcheck)
{
    auto c = gen_dconf();
    note(c);
    std::string s = gen_base64(c);
    trace("text %s", str(s).c_str());
    base64::IncrementalDecoder dec(c);
    drive([&] (auto&... a) { return dec.decode(a...); }, s, ref_unbase64(s, c), "base64 decoding");
}

SIM_SCENARIO("C09", "base64-whole", 2, sim::f_leakcheck | sim::f_faults)
{
    bool enc = choose(2);
    base64::EncodeConfig ec = gen_econf();
    base64::DecodeConfig dc = gen_dconf();
    std::string in;
    RefDecode exp;
    if (enc) { note(ec); in = gen_bytes(gen_size()); exp = { true, 0, ref_base64(in, ec) }; }
    else { note(dc); in = gen_base64(dc); exp = ref_unbase64(in, dc); }
    trace("input %s", str(in).c_str());
    if (choose(2)) {
        // Into a given amount of space
        size_t room = choose(4) == 1 ? exp.out.size() + choose(5) : choose(exp.out.size() + 3);
        std::vector<char> buf(room + 1, '!');
        size_t n = 777777;
        bool insufficient = choose(2), before = insufficient;
        bool ok = enc ? base64::encode(core::Span<const char>(in.data(), in.size()), core::Span<char>(buf.data(), room), n, insufficient, ec) :
            base64::decode(in, core::Span<char>(buf.data(), room), n, insufficient, dc);
        trace("room %zu -> %d n=%zu insufficient=%d", room, ok, n, insufficient);
        if (buf[room] != '!') fail("overrun", "more was produced than there was room for");
        bool fits = exp.out.size() <= room;
        if (ok != (exp.ok && fits)) fail(ok ? "missed-error" : "spurious-error", "conversion of %s into %zu bytes %s", str(in).c_str(), room, ok ? "succeeded" : "failed");
        if (ok) {
            if (insufficient != before) fail("flag", "a flag was set by a conversion that succeeded");
            if (n != exp.out.size() || exp.out != std::string(buf.data(), n)) fail("wrong-output", "conversion of %s produced %s, expected %s", str(in).c_str(), str(std::string(buf.data(), std::min(n, room))).c_str(), str(exp.out).c_str());
        }
        else {
            if (n != 777777) fail("flag", "the size was set by a conversion that failed");
            if (insufficient == fits) fail("flag", "failure to convert %s into %zu bytes was %s reported as lack of space", str(in).c_str(), room, insufficient ? "wrongly" : "not");
        }
        return;
    }
    size_t seed = choose(40);
    std::vector<char> mem(seed);
    core::Buffer<char> buffer{ core::Span<char>(mem.data(), mem.size()) };
    for (int i = 0; i < 2; ++i) {
        if (i == 0 && choose(3) == 1) sim::fail_alloc(1);
        std::string out;
        bool ok = true, oom = false;
        try {
            if (enc) out = std::string(base64::encode<char>(core::Span<const char>(in.data(), in.size()), buffer, ec));
            else {
                auto span = base64::decode(std::string_view(in), buffer, dc);
                out = std::string(span.data(), span.size());
            }
        }
        catch (const std::bad_alloc&) { oom = true; }
        catch (const std::runtime_error&) { ok = false; }
        sim::stop_alloc_faults();
        if (oom) {
            if (i != 0) fail("spurious-error", "conversion failed for lack of memory");
            sim::count("fault.alloc");
            continue;
        }
        if (ok != exp.ok) fail(ok ? "missed-error" : "spurious-error", "conversion of %s %s", str(in).c_str(), ok ? "succeeded" : "failed");
        if (ok && out != exp.out) fail("wrong-output", "conversion of %s produced %s, expected %s", str(in).c_str(), str(out).c_str(), str(exp.out).c_str());
    }
}

// ---------------------------------------------------------------- newline codec

std::string gen_nl(size_t n)
{
    std::string s;
    for (size_t i = 0; i < n; ++i) s += "\r\na\r\nb"[choose(6)];
    return s;
}

SIM_SCENARIO("C09", "newline-decode", 2, 0)
{
    std::string in = gen_nl(gen_size());
    trace("data %s", str(in).c_str());
    Ref ref{ k_bytes, true, false };
    std::string exp;
    std::vector<size_t> ends{ 0 }; // input offset after each output byte
    std::vector<bool> nl;
    { long i = 0, n; int v; while ((v = ref.byte(in, i, n)) >= 0) { exp += char(v); nl.push_back(n - i == 2); i = n; ends.push_back(size_t(n)); } }
    Pieces pi, po;
    size_t off = 0, avail = 0, clear = choose(5);
    std::string out;
    for (int idle = 0;;) {
        avail += pi.next(in.size() - avail);
        bool end = avail == in.size() && (idle > 0 || choose(2));
        size_t pre = choose(4), post = choose(3), room = idle > 4 ? 8 : po.room();
        if (room > 4096) room = 4096;
        std::vector<char> data(in.begin() + (off - std::min(off, pre)), in.begin() + avail);
        pre = std::min(off, pre);
        std::vector<char> buf(post + room, '!');
        size_t d = pre, b = post, c = clear, clear_offset = out.size() - 0;
        core::newline_codec::decode(core::Span<const char>(data.data(), data.size()), d, end, core::Span<char>(buf.data(), buf.size()), b, clear_offset, c);
        if (d < pre || d > data.size() || b < post || b > buf.size()) fail("overrun", "newline decoding exceeded what it was offered");
        size_t m = b - post;
        out.append(buf.data() + post, m);
        trace("step in=%zu%s room=%zu -> consumed %zu produced %zu clear=%zu", data.size() - pre, end ? " (end)" : "", room, d - pre, m, c);
        if (exp.compare(0, out.size(), out) != 0 || out.size() > exp.size()) fail("wrong-output", "newline decoding of %s produced %s, expected %s", str(in).c_str(), str(out).c_str(), str(exp).c_str());
        off += d - pre;
        if (off != ends[out.size()]) fail("wrong-output", "newline decoding of %s consumed %zu bytes for %zu characters", str(in).c_str(), off, out.size());
        // The last decoded newline in this step
        size_t want = clear;
        for (size_t k = out.size() - m; k < out.size(); ++k) if (nl[k]) want = clear_offset + post + (k - (out.size() - m)) + 1;
        if (c != want) fail("wrong-clear", "newline decoding reported %zu as the position following the last decoded newline, but it is %zu", c, want);
        clear = c;
        // Must have gotten as far as possible
        size_t left = avail - off;
        if (m < room && left > 0 && !(left == 1 && in[off] == '\r' && !end)) fail("no-progress", "newline decoding stopped with room and %zu bytes of input left", left);
        if (end && left == 0 && off == in.size()) break;
        idle = m == 0 ? idle + 1 : 0;
        if (idle > 100) fail("no-progress", "newline decoding makes no progress");
    }
    if (out != exp) fail("wrong-output", "newline decoding of %s produced %s, expected %s", str(in).c_str(), str(out).c_str(), str(exp).c_str());
    // Measuring
    for (int i = 0; i < 3; ++i) {
        size_t start = choose(exp.size() + 1);
        size_t n = choose(exp.size() + 3);
        size_t d = ends[start];
        bool ok = core::newline_codec::simul_decode(core::Span<const char>(in.data(), in.size()), d, n);
        trace("measure %zu from %zu -> %d %zu", n, ends[start], ok, d);
        bool fits = start + n <= exp.size();
        if (ok != fits || d != (fits ? ends[start + n] : ends[start])) fail("wrong-measure", "simulated decoding of %zu characters of %s from %zu gave %d, %zu", n, str(in).c_str(), ends[start], ok, d);
    }
}

SIM_SCENARIO("C09", "newline-encode", 2, 0)
{
    std::string in = gen_nl(gen_size());
    trace("data %s", str(in).c_str());
    std::string exp;
    std::vector<size_t> ends{ 0 }; // output offset after each input byte
    for (char c : in) { if (c == '\n') exp += '\r'; exp += c; ends.push_back(exp.size()); }
    Pieces pi, po;
    size_t off = 0, avail = 0;
    std::string out;
    for (int idle = 0; off < in.size();) {
        avail += pi.next(in.size() - avail);
        size_t pre = std::min<size_t>(off, choose(4)), post = choose(3), room = idle > 4 ? 8 : po.room();
        if (room > 4096) room = 4096;
        std::vector<char> data(in.begin() + (off - pre), in.begin() + avail);
        std::vector<char> buf(post + room, '!');
        size_t d = pre, b = post;
        core::newline_codec::encode(core::Span<const char>(data.data(), data.size()), d, core::Span<char>(buf.data(), buf.size()), b);
        if (d < pre || d > data.size() || b < post || b > buf.size()) fail("overrun", "newline encoding exceeded what it was offered");
        size_t m = b - post;
        trace("step in=%zu room=%zu -> consumed %zu produced %zu", data.size() - pre, room, d - pre, m);
        out.append(buf.data() + post, m);
        off += d - pre;
        if (exp.compare(0, out.size(), out) != 0 || out.size() != ends[off]) fail("wrong-output", "newline encoding of %s produced %s, expected %s", str(in).c_str(), str(out).c_str(), str(exp).c_str());
        if (off < avail && room - m >= (in[off] == '\n' ? 2u : 1u)) fail("no-progress", "newline encoding stopped with enough room");
        idle = d == pre ? idle + 1 : 0;
        if (idle > 100) fail("no-progress", "newline encoding makes no progress");
    }
}

// ---------------------------------------------------------------- character codecs

template<class C> std::basic_string<C> widen(const std::vector<long>& v) { std::basic_string<C> s; for (long c : v) s += C(c); return s; }
template<class C> std::vector<long> longs(std::basic_string_view<C> s)
{
    std::vector<long> v;
    for (C c : s) { if constexpr (sizeof(C) == 1) v.push_back((unsigned char)c); else v.push_back(long(c)); }
    return v;
}

std::vector<long> gen_text(Kind k, size_t n)
{
    static const long tb[] = { 'a', 'b', 0xE4, '\n', '\r', 0, 0xFF, 'x' };
    static const long tu[] = { 'a', 'b', 0xE9, 0x4E2D, 0x1F600, '\n', '\r', 0x7FF, 0x800, 0xFFFD };
    static const long ts[] = { 'a', 'B', 'c', 'D', '7', '\n', '\r', 'Z', 'z', '0' };
    std::vector<long> v;
    for (size_t i = 0; i < n; ++i) v.push_back(k == k_bytes ? sim::pick(tb) : k == k_utf8 ? sim::pick(tu) : sim::pick(ts));
    return v;
}
std::string gen_encoded(const Ref& ref, size_t n, bool bad)
{
    std::string s;
    int st = 0;
    for (long c : gen_text(ref.kind, n)) {
        ref.encode(s, st, c);
        if (bad && choose(12) == 1) {
            if (ref.kind == k_utf8) s += sim::pick(std::vector<std::string>{ "\xFF", "\x80", "\xE2\x82", "\xC3", "\xF0\x9F\x98", "\xC0\x80" });
            if (ref.kind == k_shift) s += sim::pick(std::vector<std::string>{ "\x7F", "\x10z", "\x10" });
        }
        if (ref.kind == k_shift && choose(12) == 1) { st = !st; s += st ? '\x0E' : '\x0F'; }
        if (ref.kind == k_shift && choose(20) == 1) { s += st ? '\x0E' : '\x0F'; }
    }
    if (bad && !s.empty() && choose(3) == 1) s.pop_back();
    return s;
}
int shift_state(Kind k, const std::mbstate_t& s) { return k == k_shift ? s.__count : 0; }

// A partial sequence at `off` that more input could complete?
bool incomplete(const Ref& ref, const std::string& b, Pos p)
{
    Ref dyn = ref;
    dyn.dyn = true;
    Pos q = p;
    long c;
    return dyn.next(b, q, c) == Ref::eof;
}

template<class Codec> void char_decode(Kind kind, bool strict_errors)
{
    using C = typename Codec::char_type;
    Ref ref{ kind, false, false };
    std::string in = gen_encoded(ref, gen_size(), choose(3) == 1);
    trace("encoding %d data %s", kind, str(in).c_str());
    Codec codec(locale_of(kind));
    if (codec.is_stateless() != (kind != k_shift)) fail("flag", "wrong report of being stateless");
    std::mbstate_t state{};
    Pieces pi, po;
    size_t off = 0, avail = 0;
    Pos pos;
    int idle = 0;
    for (;;) {
        avail += pi.next(in.size() - avail);
        bool end = avail == in.size() && (idle > 0 || choose(2));
        size_t pre = std::min<size_t>(off, choose(4)), post = choose(3), room = idle > 4 ? 8 : po.room();
        if (room > 2000) room = 2000;
        std::vector<char> data(in.begin() + (off - pre), in.begin() + avail);
        std::vector<C> buf(post + room, C('!'));
        size_t d = pre, b = post;
        bool error = choose(2), before = error;
        std::mbstate_t old_state = state;
        bool complete = codec.decode(state, core::Span<const char>(data.data(), data.size()), d, end, core::Span<C>(buf.data(), buf.size()), b, error);
        if (d < pre || d > data.size() || b < post || b > buf.size()) fail("overrun", "decoding exceeded what it was offered");
        size_t m = b - post;
        size_t off_2 = off + (d - pre);
        trace("step in=%zu%s room=%zu -> %s consumed=%zu produced=%zu error=%d state=%d", data.size() - pre, end ? " (end)" : "", room, complete ? "complete" : "stopped", d - pre, m, complete ? -1 : int(error), shift_state(kind, state));
        std::string seen = in.substr(0, avail);
        for (size_t k = 0; k < m; ++k) {
            long want, got = buf[post + k];
            if constexpr (sizeof(C) == 1) got = (unsigned char)got;
            if (ref.next(seen, pos, want) != Ref::ch) fail("wrong-output", "decoding of %s produced a character that is not there, at offset %ld", str(in).c_str(), pos.off);
            if (got != want) fail("wrong-output", "decoding of %s produced character %ld instead of %ld before offset %ld", str(in).c_str(), got, want, pos.off);
        }
        bool match = false;
        for (Pos e : ref.equivalents(seen, pos)) if (size_t(e.off) == off_2 && e.st == shift_state(kind, state)) { match = true; pos = e; break; }
        if (!match) fail("wrong-position", "decoding of %s stopped at offset %zu in shift state %d, but what it produced ends at offset %ld in shift state %d", str(in).c_str(), off_2, shift_state(kind, state), pos.off, pos.st);
        off = off_2;
        sim::state(sim::mix(sim::mix(off, avail), m));
        Pos q = pos;
        long c;
        auto r = ref.next(seen, q, c);
        bool inc = r == Ref::bad && incomplete(ref, seen, pos);
        bool all = off == avail;
        bool full = m == room;
        if (complete) {
            if (error != before) fail("flag", "the error flag was changed by a step that did not stop");
            if (end ? !all : !all && !inc && r != Ref::eof) fail("wrong-stop", "decoding of %s reported completion at offset %zu of %zu", str(in).c_str(), off, avail);
        }
        else {
            if (all) fail("wrong-stop", "decoding of %s reported to have stopped, but consumed everything", str(in).c_str());
            if (error) {
                // Trailing shift sequences may not have been skipped before the error
                bool really = r == Ref::bad && (!inc || end);
                if (!really) fail("spurious-error", "decoding of %s reported an error at offset %zu", str(in).c_str(), off);
                bool at = false;
                Pos e = pos;
                for (Pos x : ref.equivalents(seen, pos)) { e = x; at = x.off == pos.off; }
                (void)at;
                if (strict_errors && e.off != pos.off) fail("wrong-error-place", "decoding of %s reported an error at offset %ld, which is valid", str(in).c_str(), pos.off);
                sim::count("probe.error_reported");
                return;
            }
            if (!full) fail("wrong-stop", "decoding of %s stopped at offset %zu claiming lack of room, but there was room for %zu more", str(in).c_str(), off, room - m);
        }
        if (end && all) break;
        idle = m == 0 && d == pre ? idle + 1 : 0;
        if (idle > 100) fail("no-progress", "decoding of %s makes no progress at offset %zu", str(in).c_str(), off);
        (void)old_state;
    }
    Pos q = pos;
    long c;
    if (ref.next(in, q, c) == Ref::ch) fail("wrong-output", "decoding of %s ended early", str(in).c_str());
    // Measuring
    for (int i = 0; i < 3; ++i) {
        Pos start;
        size_t k = choose(gen_size() + 1), n = choose(gen_size() + 1);
        while (k-- && ref.next(in, start, c) == Ref::ch) {}
        std::mbstate_t s{};
        if (kind == k_shift) s.__count = start.st;
        size_t d = size_t(start.off);
        codec.simul_decode(s, core::Span<const char>(in.data(), in.size()), d, n);
        Pos e = start;
        size_t got = 0;
        while (got < n && ref.next(in, e, c) == Ref::ch) ++got;
        trace("measure %zu from %ld -> %zu", n, start.off, d);
        bool match = false;
        for (Pos x : ref.equivalents(in, e)) if (size_t(x.off) == d && x.st == shift_state(kind, s)) match = true;
        if (!match && got == n) fail("wrong-measure", "simulated decoding of %zu characters of %s from %ld ended at %zu in shift state %d instead of %ld in shift state %d", n, str(in).c_str(), start.off, d, shift_state(kind, s), e.off, e.st);
    }
}

template<class Codec> void char_encode(Kind kind)
{
    using C = typename Codec::char_type;
    Ref ref{ kind, false, false };
    std::vector<long> in = gen_text(kind, gen_size());
    if (kind != k_bytes && !in.empty() && choose(4) == 1) in[choose(in.size())] = kind == k_utf8 ? 0xD800 : '#';
    std::basic_string<C> text = widen<C>(in);
    trace("encoding %d text %s", kind, show(in).c_str());
    Codec codec(locale_of(kind));
    std::mbstate_t state{};
    Pieces pi, po;
    size_t off = 0, avail = 0;
    std::string out, exp; // exp: encoding of what was consumed
    int st = 0, idle = 0;
    for (;;) {
        avail += pi.next(text.size() - avail);
        size_t pre = std::min<size_t>(off, choose(4)), post = choose(3), room = idle > 4 ? 12 : po.room();
        if (room > 4000) room = 4000;
        std::vector<C> data(text.begin() + (off - pre), text.begin() + avail);
        std::vector<char> buf(post + room, '!');
        size_t d = pre, b = post;
        bool error = choose(2), before = error;
        bool complete = codec.encode(state, core::Span<const C>(data.data(), data.size()), d, core::Span<char>(buf.data(), buf.size()), b, error);
        if (d < pre || d > data.size() || b < post || b > buf.size()) fail("overrun", "encoding exceeded what it was offered");
        size_t m = b - post;
        trace("step in=%zu room=%zu -> %s consumed=%zu produced=%zu error=%d state=%d", data.size() - pre, room, complete ? "complete" : "stopped", d - pre, m, complete ? -1 : int(error), shift_state(kind, state));
        out.append(buf.data() + post, m);
        for (size_t k = pre; k < d; ++k) if (!ref.encode(exp, st, in[off++])) fail("missed-error", "an unencodable character was consumed");
        sim::state(sim::mix(sim::mix(off, avail), m));
        if (out != exp) {
            // A shift sequence ahead of its character
            std::string more = exp;
            int st2 = st;
            bool ok = off < in.size() && ref.encode(more, st2, in[off]) && more.compare(0, out.size(), out) == 0 && out.size() > exp.size() && shift_state(kind, state) != st;
            if (!ok) fail("wrong-output", "encoding of %s produced %s for %zu characters, expected %s", show(in).c_str(), str(out).c_str(), off, str(exp).c_str());
            exp = out;
            st = shift_state(kind, state);
        }
        if (shift_state(kind, state) != st) fail("wrong-position", "encoding of %s left shift state %d instead of %d", show(in).c_str(), shift_state(kind, state), st);
        std::string need;
        int st2 = st;
        bool enc = off >= in.size() || ref.encode(need, st2, in[off]);
        if (complete) {
            if (off != avail) fail("wrong-stop", "encoding reported completion with %zu of %zu characters consumed", off, avail);
            if (error != before) fail("flag", "the error flag was changed by a step that did not stop");
        }
        else {
            if (off >= avail) fail("wrong-stop", "encoding reported to have stopped, but consumed everything");
            if (error) {
                if (enc) fail("spurious-error", "encoding of %s reported an error at character %zu", show(in).c_str(), off);
                sim::count("probe.error_reported");
                return;
            }
            if (room - m >= 8) fail("wrong-stop", "encoding stopped claiming lack of room, but there was room for %zu bytes", room - m);
        }
        if (off == text.size()) break;
        idle = d == pre ? idle + 1 : 0;
        if (idle > 100) fail("no-progress", "encoding makes no progress");
    }
    // Unshift
    for (int i = 0; i < 4; ++i) {
        size_t post = choose(3), room = i == 3 ? 8 : choose(3);
        std::vector<char> buf(post + room, '!');
        size_t b = post;
        bool complete = codec.unshift(state, core::Span<char>(buf.data(), buf.size()), b);
        trace("unshift room=%zu -> %s produced=%zu", room, complete ? "complete" : "stopped", b - post);
        if (b < post || b > buf.size()) fail("overrun", "unshifting exceeded the room");
        out.append(buf.data() + post, b - post);
        if (complete) {
            if (st) { exp += '\x0F'; st = 0; }
            if (out != exp) fail("wrong-output", "unshifting after %s produced %s, expected %s", show(in).c_str(), str(out).c_str(), str(exp).c_str());
            if (shift_state(kind, state) != 0) fail("wrong-position", "unshifting did not lead to the initial shift state");
            if (choose(2)) break;
        }
        else if (i == 3 || room >= 1) fail("wrong-stop", "unshifting stopped with enough room");
    }
}

// ---------------------------------------------------------------- text codecs

template<class Codec> void text_codec(Kind kind, bool win)
{
    using C = typename Codec::char_type;
    Ref ref{ kind, win, false };
    Codec codec(locale_of(kind));
    auto seed = [] { return size_t(choose(3) == 0 ? 300 : choose(12)); };
    if (choose(2)) {
        std::string in = gen_encoded(ref, gen_size(), choose(3) == 1);
        if (win && choose(2)) for (size_t i = choose(4); i > 0; --i) in.insert(choose(in.size() + 1), 1, "\r\n"[choose(2)]);
        trace("encoding %d windows %d data %s", kind, win, str(in).c_str());
        std::vector<long> exp;
        Pos pos;
        long c;
        Ref::Res r;
        while ((r = ref.next(in, pos, c)) == Ref::ch) exp.push_back(c);
        for (int i = 0; i < 2; ++i) {
            std::vector<C> mem(seed());
            core::Buffer<C> buffer{ core::Span<C>(mem.data(), mem.size()) };
            size_t offset = 0;
            std::basic_string<C> prefix;
            if (choose(3) == 1) { // Append
                prefix = widen<C>(gen_text(kind, choose(6)));
                buffer.append(core::Span<const C>(prefix.data(), prefix.size()), offset);
            }
            bool oom = false, ok = false;
            if (i == 0 && choose(3) == 1) sim::fail_alloc(1 + choose(4));
            try { ok = codec.try_decode(std::string_view(in), buffer, offset); }
            catch (const std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_fault_fired();
            sim::stop_alloc_faults();
            trace("seed %zu prefix %zu -> %s offset=%zu", mem.size(), prefix.size(), oom ? "out of memory" : ok ? "ok" : "failed", offset);
            if (oom) {
                if (!fired) fail("spurious-error", "decoding failed for lack of memory");
                sim::count("fault.alloc");
                continue;
            }
            if (ok != (r == Ref::eof)) fail(ok ? "missed-error" : "spurious-error", "decoding of %s %s", str(in).c_str(), ok ? "succeeded" : "failed");
            if (!ok) { sim::count("probe.error_reported"); continue; }
            if (offset > buffer.size()) fail("overrun", "decoding reported more than the size of the buffer");
            std::basic_string<C> got(buffer.data(), offset);
            if (got != prefix + widen<C>(exp)) fail("wrong-output", "decoding of %s produced %s, expected %s", str(in).c_str(), show(longs<C>(std::basic_string_view<C>(got).substr(std::min(prefix.size(), got.size())))).c_str(), show(exp).c_str());
            // And back
            if (kind != k_shift && !(win && in.find('\r') != in.npos) && in.find('\n') == in.npos) {
                core::Buffer<char> buffer_2;
                size_t o = 0;
                if (!codec.try_encode(std::basic_string_view<C>(got).substr(prefix.size()), buffer_2, o)) fail("spurious-error", "encoding of what was decoded failed");
                if (std::string(buffer_2.data(), o) != in) fail("round-trip", "%s became %s", str(in).c_str(), str(std::string(buffer_2.data(), o)).c_str());
            }
        }
    }
    else {
        std::vector<long> in = gen_text(kind, gen_size());
        if (kind != k_bytes && !in.empty() && choose(4) == 1) in[choose(in.size())] = kind == k_utf8 ? 0xD800 : '#';
        std::basic_string<C> text = widen<C>(in);
        trace("encoding %d windows %d text %s", kind, win, show(in).c_str());
        std::string exp;
        int st = 0;
        bool good = true;
        for (long c : in) if (!ref.encode(exp, st, c)) { good = false; break; }
        if (st) exp += '\x0F';
        for (int i = 0; i < 2; ++i) {
            std::vector<char> mem(seed());
            core::Buffer<char> buffer{ core::Span<char>(mem.data(), mem.size()) };
            size_t offset = 0;
            std::string prefix;
            if (choose(3) == 1) {
                prefix = gen_bytes(choose(6));
                buffer.append(core::Span<const char>(prefix.data(), prefix.size()), offset);
            }
            bool oom = false, ok = false;
            if (i == 0 && choose(3) == 1) sim::fail_alloc(1 + choose(4));
            try { ok = codec.try_encode(std::basic_string_view<C>(text), buffer, offset); }
            catch (const std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_fault_fired();
            sim::stop_alloc_faults();
            trace("seed %zu prefix %zu -> %s offset=%zu", mem.size(), prefix.size(), oom ? "out of memory" : ok ? "ok" : "failed", offset);
            if (oom) {
                if (!fired) fail("spurious-error", "encoding failed for lack of memory");
                sim::count("fault.alloc");
                continue;
            }
            if (ok != good) fail(ok ? "missed-error" : "spurious-error", "encoding of %s %s", show(in).c_str(), ok ? "succeeded" : "failed");
            if (!ok) { sim::count("probe.error_reported"); continue; }
            if (offset > buffer.size()) fail("overrun", "encoding reported more than the size of the buffer");
            std::string got(buffer.data(), offset);
            if (got != prefix + exp) fail("wrong-output", "encoding of %s produced %s, expected %s", show(in).c_str(), str(got).c_str(), str(prefix + exp).c_str());
        }
    }
}

// In lenient mode, the result must not depend on how the input is cut up
void lenient()
{
    using Codec = core::WideCharCodec;
    Kind kind = choose(2) ? k_shift : k_utf8;
    Ref ref{ kind, false, false };
    Codec::Config conf;
    conf.lenient = true;
    conf.use_fallback_replacement_char = choose(3) == 1;
    Codec codec(locale_of(kind), conf);
    if (choose(3) != 1) {
        std::string in = gen_encoded(ref, gen_size(), true);
        trace("encoding %d data %s", kind, str(in).c_str());
        std::wstring out[2];
        for (int i = 0; i < 2; ++i) {
            std::mbstate_t state{};
            Pieces pi, po;
            if (i == 0) pi.style = po.style = 0;
            size_t off = 0, avail = 0;
            for (int idle = 0;;) {
                avail += pi.next(in.size() - avail);
                bool end = avail == in.size();
                size_t room = idle > 4 ? 8 : std::min<size_t>(po.room(), 2000);
                std::vector<char> data(in.begin() + off, in.begin() + avail);
                std::vector<wchar_t> buf(room);
                size_t d = 0, b = 0;
                bool error = false;
                bool complete = codec.decode(state, core::Span<const char>(data.data(), data.size()), d, end, core::Span<wchar_t>(buf.data(), buf.size()), b, error);
                if (d > data.size() || b > buf.size()) fail("overrun", "decoding exceeded what it was offered");
                trace("step in=%zu%s room=%zu -> %s consumed=%zu produced=%zu error=%d", data.size(), end ? " (end)" : "", room, complete ? "complete" : "stopped", d, b, int(error));
                if (!complete && error) fail("spurious-error", "an error was reported in lenient mode at %zu of %s", off + d, str(in).c_str());
                out[i].append(buf.data(), b);
                off += d;
                if (complete && end) {
                    if (off != in.size()) fail("wrong-stop", "decoding reported completion too early");
                    break;
                }
                if (!complete && b < room) fail("wrong-stop", "decoding stopped with room left");
                idle = d == 0 && b == 0 ? idle + 1 : 0;
                if (idle > 100) fail("no-progress", "decoding makes no progress");
            }
        }
        if (out[0] != out[1]) fail("chunking", "decoding of %s in pieces produced %s, but %s in one piece", str(in).c_str(), show(longs<wchar_t>(out[1])).c_str(), show(longs<wchar_t>(out[0])).c_str());
    }
    else {
        std::vector<long> in = gen_text(kind, gen_size());
        for (size_t i = choose(4); i > 0 && !in.empty(); --i) in[choose(in.size())] = kind == k_utf8 ? 0xD800 : '#';
        if (kind == k_shift) return; // The replacement character cannot be encoded
        long repl = conf.use_fallback_replacement_char || kind == k_shift ? '?' : 0xFFFD;
        std::wstring text = widen<wchar_t>(in);
        trace("encoding %d text %s", kind, show(in).c_str());
        std::string exp, out;
        int st = 0;
        for (long c : in) if (!ref.encode(exp, st, c)) ref.encode(exp, st, repl);
        std::mbstate_t state{};
        Pieces pi, po;
        size_t off = 0, avail = 0;
        for (int idle = 0; off < text.size();) {
            avail += pi.next(text.size() - avail);
            size_t room = idle > 4 ? 8 : std::min<size_t>(po.room(), 4000);
            std::vector<char> buf(room);
            size_t d = 0, b = 0;
            bool error = false;
            bool complete = codec.encode(state, core::Span<const wchar_t>(text.data() + off, avail - off), d, core::Span<char>(buf.data(), buf.size()), b, error);
            if (d > avail - off || b > room) fail("overrun", "encoding exceeded what it was offered");
            trace("step in=%zu room=%zu -> %s consumed=%zu produced=%zu", avail - off, room, complete ? "complete" : "stopped", d, b);
            if (!complete && error) fail("spurious-error", "an error was reported in lenient mode");
            if (complete && d != avail - off) fail("wrong-stop", "encoding reported completion too early");
            out.append(buf.data(), b);
            off += d;
            if (exp.compare(0, out.size(), out) != 0) fail("wrong-output", "encoding of %s produced %s, expected %s", show(in).c_str(), str(out).c_str(), str(exp).c_str());
            idle = d == 0 ? idle + 1 : 0;
            if (idle > 100) fail("no-progress", "encoding makes no progress");
        }
        if (out != exp) fail("wrong-output", "encoding of %s produced %s, expected %s", show(in).c_str(), str(out).c_str(), str(exp).c_str());
    }
}

const std::vector<const char*> REAL{ "archon::core base64, newline_codec, char_codec, text_codec", "the C++ library's UTF-8 and classic codecvt facets", "archon::core::Buffer" };
const std::vector<const char*> STUB{ "a state dependent codecvt facet", "memory allocator (may fail)" };
sim::Info info9("C09", "A run feeds a random input (valid, damaged, truncated) to one codec in random pieces with random amounts of output room, and compares every step (output, consumed and produced amounts, state, errors and their place) with a reference coder.", REAL, STUB);


SIM_SCENARIO("C09", "char-decode", 3, 0)
{
    if (choose(4) == 1) char_decode<core::CharCodec>(k_bytes, true);
    else char_decode<core::WideCharCodec>(choose(2) ? k_shift : k_utf8, true);
}
SIM_SCENARIO("C09", "char-encode", 2, 0)
{
    if (choose(4) == 1) char_encode<core::CharCodec>(k_bytes);
    else char_encode<core::WideCharCodec>(choose(2) ? k_shift : k_utf8);
}
SIM_SCENARIO("C09", "lenient", 2, 0) { lenient(); }
SIM_SCENARIO("C09", "text-codec", 3, sim::f_leakcheck | sim::f_faults)
{
    switch (choose(4)) {
        case 0: text_codec<core::WidePosixTextCodec>(choose(2) ? k_shift : k_utf8, false); break;
        case 1: text_codec<core::WideWindowsTextCodec>(choose(2) ? k_shift : k_utf8, true); break;
        case 2: text_codec<core::PosixTextCodec>(k_bytes, false); break;
        case 3: text_codec<core::WindowsTextCodec>(k_bytes, true); break;
    }
}

} // namespace
