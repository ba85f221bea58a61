// Reference encodings shared by the text file and codec harnesses
#ifndef VERIF_ENCODINGS_HPP
#define VERIF_ENCODINGS_HPP

#include <cwchar>
#include <locale>
#include <string>
#include <vector>

#include "sim.hpp"

namespace {

// ---------------------------------------------------------------- encodings

// A state dependent encoding. SO / SI switch between lower and upper case letters. A digit is
// two bytes. '#' cannot be encoded. Follows the conventions of the platform library for
// incomplete input (the result is `ok`).
class ShiftCodec : public std::codecvt<wchar_t, char, std::mbstate_t> {
public:
    using S = std::mbstate_t;
protected:
    result do_out(S& s, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const override
    {
        for (; f != fe; ++f) {
            char b[4];
            int n = 0;
            int st = s.__count;
            wchar_t c = *f;
            if (c >= L'a' && c <= L'z') { if (st) b[n++] = 0x0F, st = 0; b[n++] = char(c); }
            else if (c >= L'A' && c <= L'Z') { if (!st) b[n++] = 0x0E, st = 1; b[n++] = char(c - L'A' + 'a'); }
            else if (c >= L'0' && c <= L'9') { b[n++] = 0x10; b[n++] = char(c); }
            else if (c == L'\n' || c == L'\r') b[n++] = char(c);
            else { fn = f; tn = t; return error; }
            if (te - t < n) { fn = f; tn = t; return partial; }
            for (int i = 0; i < n; ++i) *t++ = b[i];
            s.__count = st;
        }
        fn = f; tn = t;
        return ok;
    }
    result do_unshift(S& s, char* t, char* te, char*& tn) const override
    {
        tn = t;
        if (!s.__count) return noconv;
        if (t == te) return partial;
        *t++ = 0x0F;
        s.__count = 0;
        tn = t;
        return ok;
    }
    // Decode at most `max` characters into `t` (may be null)
    result run(S& s, const char* f, const char* fe, const char*& fn, wchar_t* t, std::size_t max, std::size_t& n) const
    {
        n = 0;
        for (;;) {
            fn = f;
            if (f == fe) return ok;
            char b = *f;
            if (b == 0x0E) { s.__count = 1; ++f; continue; }
            if (b == 0x0F) { s.__count = 0; ++f; continue; }
            wchar_t c;
            int len = 1;
            if (b >= 'a' && b <= 'z') c = s.__count ? wchar_t(b - 'a' + L'A') : wchar_t(b);
            else if (b == '\n' || b == '\r') c = wchar_t(b);
            else if (b == 0x10) {
                if (fe - f < 2) return ok;
                if (f[1] < '0' || f[1] > '9') return error;
                c = wchar_t(f[1]);
                len = 2;
            }
            else return error;
            if (n == max) return partial;
            if (t) t[n] = c;
            ++n;
            f += len;
        }
    }
    result do_in(S& s, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const override
    {
        std::size_t n = 0;
        result r = run(s, f, fe, fn, t, std::size_t(te - t), n);
        tn = t + n;
        return r;
    }
    int do_length(S& s, const char* f, const char* fe, std::size_t max) const override
    {
        std::size_t n = 0;
        const char* fn = f;
        run(s, f, fe, fn, nullptr, max, n);
        return int(fn - f);
    }
    int do_encoding() const noexcept override { return -1; }
    bool do_always_noconv() const noexcept override { return false; }
    int do_max_length() const noexcept override { return 3; }
};

enum Kind { k_bytes, k_utf8, k_shift };
const std::locale loc_classic = std::locale::classic();
const std::locale loc_utf8("C.utf8");
const std::locale loc_shift(std::locale::classic(), new ShiftCodec);
const std::locale& locale_of(Kind k) { return k == k_bytes ? loc_classic : k == k_utf8 ? loc_utf8 : loc_shift; }

struct Pos { long off = 0; int st = 0; };
bool operator==(const Pos& a, const Pos& b) { return a.off == b.off && a.st == b.st; }

// Reference decoder and encoder
struct Ref {
    Kind kind;
    bool win;
    bool dyn;

    // Byte after newline decoding. -1: end of file, -2: incomplete
    int byte(const std::string& b, long i, long& next) const
    {
        if (i >= long(b.size())) return -1;
        unsigned char c = b[i];
        next = i + 1;
        if (win && c == '\r') {
            if (i + 1 < long(b.size())) {
                if (b[i + 1] == '\n') { next = i + 2; return '\n'; }
            }
            else if (dyn) return -1;
        }
        return c;
    }

    enum Res { ch, eof, bad };
    Res next(const std::string& b, Pos& pos, long& c) const
    {
        for (;;) {
            long i = pos.off, n = i;
            int v = byte(b, i, n);
            if (v < 0) return eof;
            switch (kind) {
                case k_bytes: c = v; pos.off = n; return ch;
                case k_shift:
                    if (v == 0x0E || v == 0x0F) { pos.st = v == 0x0E; pos.off = n; continue; }
                    if (v >= 'a' && v <= 'z') c = pos.st ? v - 'a' + 'A' : v;
                    else if (v == '\n' || v == '\r') c = v;
                    else if (v == 0x10) {
                        int v2 = byte(b, n, n);
                        if (v2 < 0) return dyn ? eof : bad;
                        if (v2 < '0' || v2 > '9') return bad;
                        c = v2;
                    }
                    else return bad;
                    pos.off = n;
                    return ch;
                case k_utf8: {
                    int len = v < 0x80 ? 1 : v < 0xC2 ? 0 : v < 0xE0 ? 2 : v < 0xF0 ? 3 : v < 0xF5 ? 4 : 0;
                    if (len == 0) return bad;
                    c = len == 1 ? v : v & (0x7F >> len);
                    for (int k = 1; k < len; ++k) {
                        int v2 = byte(b, n, n);
                        if (v2 < 0) return dyn ? eof : bad;
                        int lo = 0x80, hi = 0xBF;
                        if (k == 1) {
                            if (v == 0xE0) lo = 0xA0;
                            if (v == 0xED) hi = 0x9F;
                            if (v == 0xF0) lo = 0x90;
                            if (v == 0xF4) hi = 0x8F;
                        }
                        if (v2 < lo || v2 > hi) return bad;
                        c = c << 6 | (v2 & 0x3F);
                    }
                    pos.off = n;
                    return ch;
                }
            }
        }
    }
    void put(std::string& out, int v) const
    {
        if (win && v == '\n') out += '\r';
        out += char(v);
    }
    bool encode(std::string& out, int& st, long c) const
    {
        switch (kind) {
            case k_bytes: put(out, int(c)); return true;
            case k_shift:
                if (c >= 'a' && c <= 'z') { if (st) put(out, 0x0F); st = 0; put(out, int(c)); }
                else if (c >= 'A' && c <= 'Z') { if (!st) put(out, 0x0E); st = 1; put(out, int(c) - 'A' + 'a'); }
                else if (c >= '0' && c <= '9') { put(out, 0x10); put(out, int(c)); }
                else if (c == '\n' || c == '\r') put(out, int(c));
                else return false;
                return true;
            case k_utf8:
                if (c >= 0xD800 && c < 0xE000) return false;
                if (c < 0x80) put(out, int(c));
                else if (c < 0x800) { put(out, int(0xC0 | c >> 6)); put(out, int(0x80 | (c & 63))); }
                else if (c < 0x10000) { put(out, int(0xE0 | c >> 12)); put(out, int(0x80 | (c >> 6 & 63))); put(out, int(0x80 | (c & 63))); }
                else { put(out, int(0xF0 | c >> 18)); put(out, int(0x80 | (c >> 12 & 63))); put(out, int(0x80 | (c >> 6 & 63))); put(out, int(0x80 | (c & 63))); }
                return true;
        }
        return false;
    }
    // Positions that are equivalent as far as reading is concerned
    std::vector<Pos> equivalents(const std::string& b, Pos p) const
    {
        std::vector<Pos> v{ p };
        if (kind == k_shift) {
            // Backwards across shift sequences that lead to this state
            while (p.off < long(b.size()) && (b[p.off] == 0x0E || b[p.off] == 0x0F)) {
                p.st = b[p.off] == 0x0E;
                ++p.off;
                v.push_back(p);
            }
        }
        return v;
    }
};

std::string show(const std::string& s) { return sim::quote(s, 160); }
std::string show(const std::vector<long>& v)
{
    std::string s;
    for (long c : v) { Ref r{ k_utf8, false, false }; int st = 0; if (c >= 0x80 && c < 0x100) { s += char(c); continue; } if (!r.encode(s, st, c)) s += "<bad>"; }
    return sim::quote(s, 160);
}

} // namespace
#endif
