// C16 vector, C17 deque, C18 buffers, C19 flat maps and sets, C29 slabs
#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <forward_list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include <archon/core/vector.hpp>
#include <archon/core/deque.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/array_seeded_buffer.hpp>
#include <archon/core/buffer_contents.hpp>
#include <archon/core/string_buffer_contents.hpp>
#include <archon/core/memory.hpp>
#include <archon/core/flat_map.hpp>
#include <archon/core/flat_multimap.hpp>
#include <archon/core/flat_set.hpp>
#include <archon/core/flat_multiset.hpp>

#include "sim.hpp"

using namespace archon;
using sim::u64;
using sim::choose;
using sim::trace;
using sim::fail;
using std::size_t;

namespace {

// ---------------------------------------------------------------- tracked elements

struct Boom {};

struct Registry {
    static constexpr size_t n = 1 << 14;
    const void* slot[n];
    u64 live = 0;
    u64 serial = 0;
    long last_value = 0;
    u64 fuse = 0;       // construction that throws (0: none)
    bool blown = false;
    bool order = false; // record destructions
    std::vector<u64> destroyed;

    size_t find(const void* p) const
    {
        size_t i = (reinterpret_cast<std::uintptr_t>(p) >> 3) * 0x9E3779B1u % n;
        while (slot[i] && slot[i] != p) i = (i + 1) % n;
        return i;
    }
    bool has(const void* p) const { return slot[find(p)] == p; }
    void add(const void* p)
    {
        size_t i = find(p);
        if (slot[i] == p) fail("overwrite", "An element was constructed on top of a living element");
        if (++live > n / 2) sim::harness_error("registry full");
        slot[i] = p;
    }
    void remove(const void* p)
    {
        size_t i = find(p);
        if (slot[i] != p) fail("destroy_dead", "A destroyed, or never constructed element was destroyed");
        --live;
        slot[i] = nullptr;
        for (size_t j = (i + 1) % n; slot[j]; j = (j + 1) % n) {
            const void* q = slot[j];
            slot[j] = nullptr;
            slot[find(q)] = q;
        }
    }
    void reset()
    {
        std::memset(slot, 0, sizeof slot);
        live = serial = fuse = 0;
        blown = order = false;
        last_value = 0;
        sim::NoFault nf;
        destroyed = {};
    }
    void burn()
    {
        if (fuse && --fuse == 0) {
            blown = true;
            sim::count("fault.constructor_throws");
            throw Boom{};
        }
    }
} reg;

// An element that owns memory and knows whether it is alive and where it lives.
struct Core {
    long* p;
    u64 id;
    const Core* me = this;

    explicit Core(long v)
    {
        reg.burn();
        p = new long(v); // may throw
        reg.add(this);
        id = ++reg.serial;
    }
    Core(const Core& o)
    {
        o.verify();
        if (!o.p) fail("copy_moved", "A moved-from element was copied");
        reg.burn();
        p = new long(*o.p);
        reg.add(this);
        id = ++reg.serial;
    }
    struct Steal {};
    Core(Core& o, Steal) noexcept
    {
        o.verify();
        p = o.p;
        o.p = nullptr;
        id = ++reg.serial;
        reg.add(this);
    }
    ~Core()
    {
        reg.remove(this);
        verify_me();
        if (reg.order) { sim::NoFault nf; reg.destroyed.push_back(id); }
        delete p;
        me = nullptr;
    }
    void verify_me() const
    {
        if (me != this) fail("relocated", "An element was relocated without being constructed there");
    }
    void verify() const
    {
        if (!reg.has(this)) fail("use_dead", "An element was used before it was constructed, or after it was destroyed");
        verify_me();
    }
    long get() const
    {
        verify();
        if (!p) fail("moved", "An element in the container has been moved from");
        return *p;
    }
    void set(const Core& o)
    {
        verify();
        long v = o.get();
        if (p) *p = v; else p = new long(v);
    }
    void set(Core& o, Steal)
    {
        verify();
        o.verify();
        if (&o == this) return;
        delete p;
        p = o.p;
        o.p = nullptr;
    }
};

// Copyable, non-throwing move
struct Elem {
    Core c;
    Elem() : c(0) {}
    explicit Elem(long v) : c(v) {}
    Elem(const Elem& o) : c(o.c) {}
    Elem(Elem&& o) noexcept : c(o.c, Core::Steal()) {}
    Elem& operator=(const Elem& o) { c.set(o.c); return *this; }
    Elem& operator=(Elem&& o) noexcept { c.set(o.c, Core::Steal()); return *this; }
};

// Copyable only (moving means copying, and may throw)
struct CopyElem {
    Core c;
    CopyElem() : c(0) {}
    explicit CopyElem(long v) : c(v) {}
    CopyElem(const CopyElem& o) : c(o.c) {}
    CopyElem& operator=(const CopyElem& o) { c.set(o.c); return *this; }
};

// Move only
struct MoveElem {
    Core c;
    MoveElem() : c(0) {}
    explicit MoveElem(long v) : c(v) {}
    MoveElem(MoveElem&& o) noexcept : c(o.c, Core::Steal()) {}
    MoveElem& operator=(MoveElem&& o) noexcept { c.set(o.c, Core::Steal()); return *this; }
};

// Trivial, with a size that is not a power of two
struct Pod {
    short v;
    char x[4];
    bool operator==(const Pod&) const = default;
};

template<class T> constexpr bool tracked = std::is_same_v<T, Elem> || std::is_same_v<T, CopyElem> || std::is_same_v<T, MoveElem>;
template<class T> constexpr bool copyable = std::is_copy_constructible_v<T>;
template<class T> constexpr bool nt_move = std::is_nothrow_move_constructible_v<T>;

template<class T> long get(const T& e)
{
    if constexpr (tracked<T>) return e.c.get();
    else if constexpr (std::is_same_v<T, Pod>) return e.v;
    else return long(e);
}
template<class T> T mk(long v)
{
    if constexpr (std::is_same_v<T, Pod>) return Pod { short(v), {} };
    else return T(v);
}
template<class T> u64 id(const T& e)
{
    if constexpr (tracked<T>) return e.c.id;
    else return 0;
}

bool operator==(const Elem& a, const Elem& b) { return get(a) == get(b); }
bool operator==(const CopyElem& a, const CopyElem& b) { return get(a) == get(b); }
bool operator==(const MoveElem& a, const MoveElem& b) { return get(a) == get(b); }
bool operator<(const Elem& a, const Elem& b) { return get(a) < get(b); }
bool operator<(const CopyElem& a, const CopyElem& b) { return get(a) < get(b); }
bool operator<(const MoveElem& a, const MoveElem& b) { return get(a) < get(b); }
bool operator<(const Pod& a, const Pod& b) { return a.v < b.v; }

long gen_value()
{
    long& n = reg.last_value;
    return 1 + (n = (n * 7 + long(choose(40)) + 1) % 2000);
}

std::string show(const std::vector<long>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? " " : "") + std::to_string(v[i]);
    if (v.size() > 24) s += " ...";
    return s + "]";
}

// An input iterator, and a random access iterator, over integers that make elements
template<class T, class Cat> struct Gen {
    using iterator_category = Cat;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = const T*;
    using reference = T;
    const long* p = nullptr;
    T operator*() const { return mk<T>(*p); }
    Gen& operator++() { ++p; return *this; }
    Gen operator++(int) { auto r = *this; ++p; return r; }
    Gen& operator--() { --p; return *this; }
    Gen& operator+=(std::ptrdiff_t n) { p += n; return *this; }
    Gen operator+(std::ptrdiff_t n) const { return { p + n }; }
    Gen operator-(std::ptrdiff_t n) const { return { p - n }; }
    std::ptrdiff_t operator-(const Gen& o) const { return p - o.p; }
    bool operator==(const Gen& o) const { return p == o.p; }
    bool operator!=(const Gen& o) const { return p != o.p; }
};

enum class Out { ok, threw, length };

// Perform an operation with possible faults
template<class F> Out attempt(const char* what, bool may_exceed, F&& f)
{
    bool a = false, c = false;
    reg.fuse = 0;
    reg.blown = false;
    if (sim::chance(1, 4)) {
        u64 n = sim::range(1, 9);
        if (choose(2)) { sim::fail_alloc(n, choose(4) == 1); a = true; }
        else { reg.fuse = n; c = true; }
    }
    Out o = Out::ok;
    try {
        f();
    }
    catch (const std::bad_array_new_length&) {
        if (!may_exceed) { reg.fuse = 0; sim::stop_alloc_faults(); fail("exception", "%s: unexpected exception (bad_array_new_length)", what); }
        o = Out::length;
    }
    catch (const std::bad_alloc&) {
        bool fired = a && sim::alloc_fault_fired();
        sim::stop_alloc_faults();
        if (!fired && !may_exceed) fail("exception", "%s: unexpected exception (bad_alloc)", what);
        o = fired ? Out::threw : Out::length;
    }
    catch (const Boom&) {
        if (!c) fail("exception", "%s: unexpected exception", what);
        o = Out::threw;
    }
    catch (const std::length_error&) {
        sim::stop_alloc_faults();
        if (!may_exceed) fail("exception", "%s: unexpected exception (length_error)", what);
        o = Out::length;
    }
    bool fired = (a && sim::alloc_fault_fired()) || reg.blown;
    sim::stop_alloc_faults();
    reg.fuse = 0;
    if (o == Out::ok && fired) fail("swallowed", "%s: the failure of an allocation or construction was not passed on", what);
    if (o != Out::ok) { sim::count("probe.operation_threw"); trace("  -> exception%s", o == Out::length ? " (size)" : ""); }
    return o;
}

// ================================================================ vector

template<class T, size_t N> struct VecTest {
    using V = core::Vector<T, N>;
    struct Box { char front[16]; V v; char back[16]; Box() noexcept { seal(); } template<class... A> explicit Box(int, A&&... a) : v(std::forward<A>(a)...) { seal(); }
        void seal() { std::memset(front, 0x5a, 16); std::memset(back, 0x5a, 16); }
        void check() const { for (int i = 0; i < 16; ++i) if (front[i] != 0x5a || back[i] != 0x5a) fail("overrun", "Memory next to the vector object was overwritten"); } };
    struct Slot { std::unique_ptr<Box> b; std::vector<long> m; bool heap = false; };
    Slot s[2];

    static std::vector<long> contents(const V& v)
    {
        sim::NoFault nf;
        std::vector<long> r;
        if (v.size() > 100000) fail("size", "The vector claims to hold %zu elements", v.size());
        for (size_t i = 0; i < v.size(); ++i) r.push_back(get(v.data()[i]));
        return r;
    }
    static std::vector<u64> ids(const V& v)
    {
        sim::NoFault nf;
        std::vector<u64> r;
        for (size_t i = 0; i < v.size(); ++i) r.push_back(id(v.data()[i]));
        return r;
    }
    void check(const char* what)
    {
        sim::NoFault nf;
        u64 total = 0;
        for (auto& x : s) {
            if (!x.b) continue;
            x.b->check();
            V& v = x.b->v;
            const V& cv = v;
            if (v.size() > v.capacity()) fail("capacity", "%s: size %zu exceeds capacity %zu", what, v.size(), v.capacity());
            auto c = contents(v);
            if (c != x.m) fail("contents", "%s: vector holds %s, expected %s", what, show(c).c_str(), show(x.m).c_str());
            if (v.empty() != c.empty() || size_t(v.end() - v.begin()) != c.size() || size_t(cv.end() - cv.begin()) != c.size()) fail("range", "%s: wrong range", what);
            if (v.span().size() != c.size() || v.span().data() != v.data()) fail("range", "%s: wrong span", what);
            size_t k = c.size();
            for (auto i = v.rbegin(); i != v.rend(); ++i) if (get(*i) != c[--k]) fail("range", "%s: wrong reverse range", what);
            if (!c.empty() && (get(v.front()) != c.front() || get(v.back()) != c.back())) fail("range", "%s: wrong front or back", what);
            for (size_t i : { c.size() / 2, c.size() }) {
                bool thrown = false;
                try { if (get(v.at(i)) != c[i]) fail("at", "%s: wrong element", what); } catch (const std::out_of_range&) { thrown = true; }
                if (thrown != (i >= c.size())) fail("at", "%s: at(%zu) with %zu elements", what, i, c.size());
            }
            total += c.size();
        }
        if (tracked<T> && reg.live != total) fail("leak", "%s: %llu elements are alive, but %llu are held", what, (unsigned long long)reg.live, (unsigned long long)total);
    }

    // kind: how contents may look after an exception
    enum Kind { strong, prefix };

    void fresh(int i)
    {
        Slot& x = s[i];
        {
            sim::NoFault nf;
            x.b.reset();
            x.m.clear();
        }
        check("destroy");
        int k = int(choose(5));
        std::vector<long> vals;
        { sim::NoFault nf; for (size_t n = size_t(choose(9)); n > 0; --n) vals.push_back(gen_value()); }
        size_t n = vals.size();
        trace("v%d = construct kind %d, %zu elements", i, k, n);
        std::unique_ptr<Box> nb;
        std::vector<long> m;
        Out o = attempt("construct", false, [&] {
            if (k == 0) nb = std::make_unique<Box>();
            else if (k == 1) { sim::NoFault nf; m.assign(n, 0); }
            else if (k == 3 && copyable<T>) { sim::NoFault nf; m.assign(n, 77); }
            else { sim::NoFault nf; m = vals; }
            if (k == 1) nb = std::make_unique<Box>(0, n);
            if constexpr (copyable<T>) {
                if (k == 2) nb = std::make_unique<Box>(0, Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n});
                if (k == 3) { T e = mk<T>(77); nb = std::make_unique<Box>(0, n, e); }
                if (k == 4) nb = std::make_unique<Box>(0, Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
            }
            else if (k > 1) {
                nb = std::make_unique<Box>(0, Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
            }
        });
        sim::NoFault nf;
        if (o != Out::ok) { nb = std::make_unique<Box>(); m.clear(); }
        x.b = std::move(nb);
        x.m = std::move(m);
        if (x.b->v.capacity() < std::max(N, x.m.size())) fail("capacity", "Capacity %zu of a new vector", x.b->v.capacity());
        check("construct");
    }

    void step()
    {
        int i = int(choose(2));
        Slot& x = s[i];
        if (!x.b) return fresh(i);
        V& v = x.b->v;
        const size_t size = v.size(), cap = v.capacity();
        const T* data = v.data();
        auto old_ids = ids(v);
        std::vector<long> want;
        { sim::NoFault nf; want = x.m; }
        size_t stable = size;   // elements before this position are not affected
        size_t final_size = size;
        bool grow_only = true;  // capacity cannot shrink, no reallocation when it fits
        bool all_or_nothing = true;
        const char* what = "";
        Out o = Out::ok;
        int op = int(choose(16));
        switch (op) {
            case 0: case 1: {
                long val = gen_value();
                what = "push_back";
                trace("v%d.push_back(%ld)", i, val);
                { sim::NoFault nf; want.push_back(val); }
                final_size = size + 1;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (op == 0) { T e = mk<T>(val); T& r = v.push_back(e); if (&r != v.data() + size) fail("return", "Wrong element returned"); return; }
                    }
                    T& r = v.push_back(mk<T>(val));
                    if (&r != v.data() + size) fail("return", "Wrong element returned");
                });
                break;
            }
            case 2: {
                long val = gen_value();
                what = "emplace_back";
                trace("v%d.emplace_back(%ld)", i, val);
                { sim::NoFault nf; want.push_back(val); }
                final_size = size + 1;
                o = attempt(what, false, [&] {
                    if constexpr (tracked<T>) v.emplace_back(val);
                    else v.emplace_back(mk<T>(val));
                });
                break;
            }
            case 3: {
                if (size == 0) return;
                what = "pop_back";
                trace("v%d.pop_back()", i);
                { sim::NoFault nf; want.pop_back(); }
                v.pop_back();
                stable = final_size = size - 1;
                break;
            }
            case 4: case 5: {
                std::vector<long> vals;
                size_t n = choose(6) == 1 ? sim::range(6, 30) : choose(6);
                { sim::NoFault nf; for (size_t k = 0; k < n; ++k) vals.push_back(gen_value()); want.insert(want.end(), vals.begin(), vals.end()); }
                what = "append";
                int kind = copyable<T> ? int(choose(3)) : 1;
                trace("v%d.append kind %d %s", i, kind, show(vals).c_str());
                final_size = size + n;
                all_or_nothing = false;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (kind == 0) { v.append(Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n}); return; }
                        if (kind == 2) {
                            { sim::NoFault nf; for (size_t k = 0; k < n; ++k) want[size + k] = 55; }
                            T e = mk<T>(55);
                            v.append(n, e);
                            return;
                        }
                    }
                    v.append(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
                });
                if (o != Out::ok && kind == 2) { sim::NoFault nf; for (size_t k = 0; k < n; ++k) want[size + k] = 55; }
                break;
            }
            case 6: {
                if constexpr (nt_move<T>) {
                    size_t pos = choose(size + 1);
                    long val = gen_value();
                    what = "emplace";
                    trace("v%d.emplace(%zu, %ld)", i, pos, val);
                    { sim::NoFault nf; want.insert(want.begin() + std::ptrdiff_t(pos), val); }
                    final_size = size + 1;
                    stable = pos;
                    o = attempt(what, false, [&] {
                        typename V::iterator r;
                        if constexpr (tracked<T>) r = v.emplace(v.begin() + pos, val);
                        else r = v.emplace(v.begin() + pos, mk<T>(val));
                        if (r != v.data() + pos) fail("return", "Wrong position returned");
                    });
                }
                else return;
                break;
            }
            case 7: case 8: {
                if constexpr (nt_move<T>) {
                    size_t b = choose(size + 1), n = choose(size - b + 1);
                    bool one = (op == 7 && size > 0);
                    if (one) { b = std::min(b, size - 1); n = 1; }
                    what = "erase";
                    trace("v%d.erase(%zu, +%zu)", i, b, n);
                    { sim::NoFault nf; want.erase(want.begin() + std::ptrdiff_t(b), want.begin() + std::ptrdiff_t(b + n)); }
                    auto r = one ? v.erase(v.begin() + b) : v.erase(v.begin() + b, v.begin() + b + n);
                    if (r != v.data() + b) fail("return", "Wrong position returned");
                    final_size = size - n;
                    stable = b;
                }
                else return;
                break;
            }
            case 9: {
                what = "clear";
                trace("v%d.clear()", i);
                v.clear();
                { sim::NoFault nf; want.clear(); }
                stable = final_size = 0;
                break;
            }
            case 10: case 11: {
                size_t n = choose(3) == 1 ? size_t(sim::range(0, size + 12)) : size_t(std::max<long>(0, long(size) - 3 + long(choose(7))));
                what = "resize";
                bool val = copyable<T> && op == 11;
                trace("v%d.resize(%zu%s) from size %zu, capacity %zu", i, n, val ? ", 33" : "", size, cap);
                { sim::NoFault nf; want.resize(n, val ? 33 : 0); }
                final_size = n;
                stable = std::min(size, n);
                all_or_nothing = false;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (val) { T e = mk<T>(33); v.resize(n, e); return; }
                    }
                    v.resize(n);
                });
                break;
            }
            case 12: {
                bool huge = choose(6) == 1;
                size_t n = huge ? size_t(-1) - choose(3) - size * choose(2) : choose(30);
                bool extra = choose(2);
                what = extra ? "reserve_extra" : "reserve";
                trace("v%d.%s(%zu) size %zu capacity %zu", i, what, n, size, cap);
                o = attempt(what, huge, [&] { if (extra) v.reserve_extra(n); else v.reserve(n); });
                if (o == Out::ok) {
                    if (extra ? v.capacity() - v.size() < n : v.capacity() < n) fail("reserve", "%s(%zu) with size %zu left capacity %zu", what, n, size, v.capacity());
                    if ((extra ? n <= cap - size : n <= cap) && (v.capacity() != cap || v.data() != data)) fail("realloc", "%s() reallocated needlessly", what);
                }
                final_size = size_t(-1);
                if (v.capacity() < cap) fail("capacity", "%s() reduced the capacity from %zu to %zu", what, cap, v.capacity());
                if (o == Out::ok && choose(4) == 1) {
                    // Documented: reserve_extra(n) has the same effect as reserve(size() + n)
                    sim::NoFault nf;
                    V a(size), b(size);
                    size_t extra = choose(20);
                    a.reserve(size + extra);
                    b.reserve_extra(extra);
                    if (a.capacity() != b.capacity()) fail("reserve", "reserve(%zu) with size %zu gave capacity %zu, but reserve_extra(%zu) gave %zu", size + extra, size, a.capacity(), extra, b.capacity());
                }
                break;
            }
            case 13: {
                what = "shrink_to_fit";
                trace("v%d.shrink_to_fit() size %zu capacity %zu", i, size, cap);
                bool inside = (reinterpret_cast<const char*>(v.data()) >= reinterpret_cast<const char*>(&v) && reinterpret_cast<const char*>(v.data()) < reinterpret_cast<const char*>(&v + 1));
                o = attempt(what, false, [&] { v.shrink_to_fit(); });
                if (o == Out::ok && !inside && v.capacity() != size) fail("shrink", "shrink_to_fit() left capacity %zu for size %zu", v.capacity(), size);
                if (o == Out::ok && inside && (v.capacity() != cap || v.data() != data)) fail("shrink", "shrink_to_fit() affected a vector in static memory");
                grow_only = false;
                break;
            }
            case 14: {
                if constexpr (nt_move<T>) {
                    int j = 1 - i;
                    sim::NoFault nf;
                    if (!s[j].b) return;
                    V& w = s[j].b->v;
                    trace("move v%d to v%d", i, j);
                    if (choose(2)) {
                        what = "move assign";
                        w = std::move(v);
                        s[j].m = std::move(x.m);
                    }
                    else {
                        what = "move construct";
                        size_t c = v.capacity();
                        s[j].b = std::make_unique<Box>(0, std::move(v));
                        s[j].m = std::move(x.m);
                        if (s[j].b->v.capacity() != c) fail("capacity", "Capacity changed by move from %zu to %zu", c, s[j].b->v.capacity());
                    }
                    // The origin is left in a valid state: destroy it, or empty it and go on
                    if (choose(2)) x.b.reset();
                    else v.clear();
                    x.m.clear();
                    check(what);
                    return;
                }
                else return;
            }
            default: {
                if (choose(3) == 1) return fresh(i);
                std::vector<long> vals;
                size_t n = choose(12);
                { sim::NoFault nf; for (size_t k = 0; k < n; ++k) vals.push_back(gen_value()); }
                what = "assign";
                int kind = copyable<T> ? int(choose(3)) : 1;
                if (kind == 2) for (auto& e : vals) e = 44;
                trace("v%d.assign kind %d %s", i, kind, show(vals).c_str());
                { sim::NoFault nf; want = vals; }
                stable = 0;
                final_size = n;
                all_or_nothing = false;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (kind == 0) { v.assign(Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n}); return; }
                        if (kind == 2) { T e = mk<T>(44); v.assign(n, e); return; }
                    }
                    v.assign(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
                });
                if (o != Out::ok) {
                    sim::NoFault nf;
                    auto c = contents(v);
                    bool same = (c == x.m);
                    bool pre = c.size() <= vals.size() && std::equal(c.begin(), c.end(), vals.begin());
                    if (!same && !pre) fail("contents", "After a failed assign, the vector holds %s", show(c).c_str());
                    want = c;
                    stable = 0;
                }
                x.m = want;
                goto post;
            }
        }
        if (o == Out::ok) { sim::NoFault nf; x.m = want; }
        else if (!all_or_nothing) {
            sim::NoFault nf;
            auto c = contents(v);
            bool ok = c == x.m || (c.size() >= stable && c.size() <= want.size() && std::equal(c.begin(), c.end(), want.begin()));
            if (!ok) fail("contents", "After a failed %s, the vector holds %s; before %s; aim %s", what, show(c).c_str(), show(x.m).c_str(), show(want).c_str());
            x.m = c;
        }
      post:
        check(what);
        if (grow_only) {
            if (v.capacity() < cap) fail("capacity", "%s reduced the capacity from %zu to %zu", what, cap, v.capacity());
            if (final_size <= cap) {
                if (v.capacity() != cap || v.data() != data) fail("realloc", "%s caused reallocation although the result fits (size %zu, capacity %zu)", what, final_size, cap);
                auto now = ids(v);
                for (size_t k = 0; k < stable && k < now.size(); ++k)
                    if (now[k] != old_ids[k]) fail("moved", "%s moved element %zu, which should not be affected", what, k);
            }
        }
        if (sim::chance(1, 8) && s[1 - i].b) {
            const V& w = s[1 - i].b->v;
            const auto& a = x.m, & b = s[1 - i].m;
            if ((v == w) != (a == b) || (v != w) != (a != b) || (v < w) != (a < b) || (v > w) != (a > b) || (v <= w) != (a <= b) || (v >= w) != (a >= b))
                fail("compare", "Wrong comparison of %s and %s", show(a).c_str(), show(b).c_str());
        }
        sim::state(sim::mix(sim::mix(v.size(), v.capacity()), u64(op) << 2 | u64(o)));
    }
};

template<class T, size_t N> void vec_history()
{
    reg.reset();
    VecTest<T, N> t;
    trace("vector of kind %s, static capacity %zu", tracked<T> ? nt_move<T> ? copyable<T> ? "copyable" : "move-only" : "copy-only" : sizeof(T) == 6 ? "pod" : "trivial", N);
    for (int n = 0; n < 60 && sim::more(22); ++n) t.step();
    {
        sim::NoFault nf;
        for (auto& x : t.s) { x.b.reset(); x.m = {}; }
    }
    t.check("destruction");
}

SIM_SCENARIO("C16", "vector", 3, sim::f_leakcheck)
{
    switch (choose(8)) {
        case 0: return vec_history<Elem, 0>();
        case 1: return vec_history<Elem, 3>();
        case 2: return vec_history<CopyElem, 0>();
        case 3: return vec_history<CopyElem, 4>();
        case 4: return vec_history<MoveElem, 0>();
        case 5: return vec_history<MoveElem, 2>();
        case 6: return vec_history<int, 2>();
        default: return vec_history<Pod, 0>();
    }
}

sim::Info info16("C16", "Each operation must leave the vector with the elements of the model; after an exception the contents must be those from before (single element, reserve) or a prefix of the intended ones. Elements know whether they are alive; all living elements must be accounted for after every operation.",
                 {"core::Vector", "impl::VectorImpl", "core/memory.hpp"}, {"element types"});

// ================================================================ deque

template<class T> struct DequeTest {
    using D = core::Deque<T>;
    struct Slot { std::unique_ptr<D> b; std::vector<long> m; };
    Slot s[2];

    static std::vector<long> contents(const D& v)
    {
        sim::NoFault nf;
        std::vector<long> r;
        if (v.size() > 100000) fail("size", "The queue claims to hold %zu elements", v.size());
        for (size_t i = 0; i < v.size(); ++i) r.push_back(get(v[i]));
        return r;
    }
    void check(const char* what)
    {
        sim::NoFault nf;
        u64 total = 0;
        for (auto& x : s) {
            if (!x.b) continue;
            D& v = *x.b;
            const D& cv = v;
            if (v.size() > v.capacity()) fail("capacity", "%s: size %zu exceeds capacity %zu", what, v.size(), v.capacity());
            auto c = contents(v);
            if (c != x.m) fail("contents", "%s: queue holds %s, expected %s", what, show(c).c_str(), show(x.m).c_str());
            if (v.empty() != c.empty() || size_t(v.end() - v.begin()) != c.size() || size_t(cv.end() - cv.begin()) != c.size()) fail("range", "%s: wrong range", what);
            size_t k = 0;
            for (auto& e : cv) if (k >= c.size() || get(e) != c[k++]) fail("range", "%s: wrong iteration", what);
            if (k != c.size()) fail("range", "%s: wrong iteration", what);
            for (auto i = v.rbegin(); i != v.rend(); ++i) if (get(*i) != c[--k]) fail("range", "%s: wrong reverse iteration", what);
            if (!c.empty() && (get(v.front()) != c.front() || get(v.back()) != c.back())) fail("range", "%s: wrong front or back", what);
            for (size_t i : { c.size() / 2, c.size() }) {
                bool thrown = false;
                try { if (get(v.at(i)) != c[i]) fail("at", "%s: wrong element", what); } catch (const std::out_of_range&) { thrown = true; }
                if (thrown != (i >= c.size())) fail("at", "%s: at(%zu) with %zu elements", what, i, c.size());
            }
            total += c.size();
        }
        if (tracked<T> && reg.live != total) fail("leak", "%s: %llu elements are alive, but %llu are held", what, (unsigned long long)reg.live, (unsigned long long)total);
    }

    void fresh(int i)
    {
        Slot& x = s[i];
        { sim::NoFault nf; x.b.reset(); x.m.clear(); }
        check("destroy");
        int k = int(choose(6));
        std::vector<long> vals, m;
        { sim::NoFault nf; for (size_t n = size_t(choose(9)); n > 0; --n) vals.push_back(gen_value()); }
        size_t n = vals.size();
        if (k == 5 && !(copyable<T> && s[1 - i].b)) k = 0;
        if (!copyable<T> && k > 1) k = 4;
        trace("q%d = construct kind %d, %zu elements", i, k, n);
        { sim::NoFault nf; if (k == 1) m.assign(n, 0); else if (k == 3) m.assign(n, 77); else if (k == 5) m = s[1 - i].m; else if (k) m = vals; }
        std::unique_ptr<D> nb;
        Out o = attempt("construct", false, [&] {
            if (k == 0) nb = std::make_unique<D>();
            if (k == 1) nb = std::make_unique<D>(n);
            if constexpr (copyable<T>) {
                if (k == 2) nb = std::make_unique<D>(Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n});
                if (k == 3) { T e = mk<T>(77); nb = std::make_unique<D>(n, e); }
                if (k == 5) nb = std::make_unique<D>(*s[1 - i].b);
            }
            if (k == 4) nb = std::make_unique<D>(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
        });
        sim::NoFault nf;
        if (o != Out::ok) { nb = std::make_unique<D>(); m.clear(); }
        x.b = std::move(nb);
        x.m = std::move(m);
        check("construct");
    }

    void step()
    {
        int i = int(choose(2));
        Slot& x = s[i];
        if (!x.b) return fresh(i);
        D& v = *x.b;
        const size_t size = v.size(), cap = v.capacity();
        std::vector<long> want;
        std::vector<std::pair<const T*, u64>> where; // addresses of the elements
        { sim::NoFault nf; want = x.m; for (auto& e : v) where.emplace_back(&e, id(e)); }
        size_t keep_b = 0, keep_e = size; // elements that must not be affected when memory is not reallocated
        size_t front_gain = 0;            // number of elements added in front (or -removed)
        bool front_lost = false;
        size_t final_size = size;
        bool all_or_nothing = true, cap_may_shrink = false, modifies = true;
        const char* what = "";
        Out o = Out::ok;
        int op = int(choose(20));
        switch (op) {
            case 0: case 1: case 2: case 3: {
                bool front = op & 1;
                long val = gen_value();
                int kind = int(choose(3));
                what = front ? "push_front" : "push_back";
                trace("q%d.%s(%ld)", i, what, val);
                { sim::NoFault nf; want.insert(front ? want.begin() : want.end(), val); }
                final_size = size + 1;
                front_gain = front;
                o = attempt(what, false, [&] {
                    T* r = nullptr;
                    if (kind == 2) {
                        if constexpr (tracked<T>) r = front ? &v.emplace_front(val) : &v.emplace_back(val);
                    }
                    if constexpr (copyable<T>) {
                        if (kind == 1) { T e = mk<T>(val); r = front ? &v.push_front(e) : &v.push_back(e); }
                    }
                    if (!r) r = front ? &v.push_front(mk<T>(val)) : &v.push_back(mk<T>(val));
                    if (r != (front ? &v.front() : &v.back())) fail("return", "Wrong element returned");
                });
                break;
            }
            case 4: case 5: case 6: {
                if (size == 0) return;
                bool front = op != 4;
                what = front ? "pop_front" : "pop_back";
                trace("q%d.%s()", i, what);
                { sim::NoFault nf; want.erase(front ? want.begin() : want.end() - 1); }
                if (front) { v.pop_front(); keep_b = 1; front_lost = true; }
                else { v.pop_back(); keep_e = size - 1; }
                final_size = size - 1;
                break;
            }
            case 7: case 8: case 9: {
                std::vector<long> vals;
                size_t n = choose(6) == 1 ? sim::range(6, 30) : choose(6);
                int kind = copyable<T> ? int(choose(3)) : 1;
                { sim::NoFault nf; for (size_t k = 0; k < n; ++k) vals.push_back(kind == 2 ? 55 : gen_value()); want.insert(want.end(), vals.begin(), vals.end()); }
                what = "append";
                trace("q%d.append kind %d %s", i, kind, show(vals).c_str());
                final_size = size + n;
                all_or_nothing = false;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (kind == 0) { v.append(Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n}); return; }
                        if (kind == 2) { T e = mk<T>(55); v.append(n, e); return; }
                    }
                    v.append(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
                });
                break;
            }
            case 10: case 11: case 12: case 13: {
                if constexpr (nt_move<T>) {
                    size_t b = choose(size + 1), n = choose(size - b + 1);
                    bool one = (op == 10 && size > 0);
                    if (one) { b = std::min(b, size - 1); n = 1; }
                    what = "erase";
                    trace("q%d.erase(%zu, +%zu) from size %zu, capacity %zu", i, b, n, size, cap);
                    { sim::NoFault nf; want.erase(want.begin() + std::ptrdiff_t(b), want.begin() + std::ptrdiff_t(b + n)); }
                    auto p = v.begin() + std::ptrdiff_t(b);
                    auto r = one ? v.erase(p) : v.erase(p, p + std::ptrdiff_t(n));
                    final_size = size - n;
                    if (final_size != v.size()) fail("size", "Size %zu after erase, expected %zu", v.size(), final_size);
                    keep_b = keep_e = 0;
                    x.m.swap(want);
                    check(what);
                    if (r - v.begin() != std::ptrdiff_t(b)) fail("return", "erase() at position %zu returned an iterator to position %td", b, r - v.begin());
                    x.m.swap(want);
                }
                else return;
                break;
            }
            case 14: {
                what = "clear";
                trace("q%d.clear()", i);
                v.clear();
                { sim::NoFault nf; want.clear(); }
                final_size = keep_e = 0;
                break;
            }
            case 15: {
                size_t n = choose(3) == 1 ? size_t(sim::range(0, size + 12)) : size_t(std::max<long>(0, long(size) - 3 + long(choose(7))));
                what = "resize";
                bool val = copyable<T> && choose(2);
                trace("q%d.resize(%zu%s)", i, n, val ? ", 33" : "");
                { sim::NoFault nf; want.resize(n, val ? 33 : 0); }
                final_size = n;
                keep_e = std::min(size, n);
                all_or_nothing = false;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (val) { T e = mk<T>(33); v.resize(n, e); return; }
                    }
                    v.resize(n);
                });
                break;
            }
            case 16: {
                bool huge = choose(6) == 1;
                size_t n = huge ? size_t(-1) - choose(3) - size * choose(2) : choose(30);
                bool extra = choose(2);
                what = extra ? "reserve_extra" : "reserve";
                trace("q%d.%s(%zu) size %zu capacity %zu", i, what, n, size, cap);
                o = attempt(what, huge, [&] { if (extra) v.reserve_extra(n); else v.reserve(n); });
                if (o == Out::ok && (extra ? v.capacity() - v.size() < n : v.capacity() < n)) fail("reserve", "%s(%zu) with size %zu left capacity %zu", what, n, size, v.capacity());
                modifies = false;
                break;
            }
            case 17: {
                what = "shrink_to_fit";
                trace("q%d.shrink_to_fit()", i);
                o = attempt(what, false, [&] { v.shrink_to_fit(); });
                cap_may_shrink = true;
                modifies = false;
                break;
            }
            case 18: {
                int j = 1 - i;
                if (!s[j].b) return;
                D& w = *s[j].b;
                int kind = int(choose(5));
                if (!copyable<T> && kind >= 3) kind = 1;
                trace("q%d %s q%d", i, kind == 0 ? "swap with" : kind == 1 ? "move assign to" : kind == 2 ? "move construct" : kind == 3 ? "copy assign to" : "copy assign to itself, not", j);
                what = "assignment";
                if (kind < 3) {
                    sim::NoFault nf;
                    if (kind == 0) {
                        size_t wc = w.capacity();
                        if (choose(2)) v.swap(w); else swap(v, w);
                        x.m.swap(s[j].m);
                        if (v.capacity() != wc || w.capacity() != cap) fail("capacity", "Swapping did not exchange the capacities");
                    }
                    else {
                        if (kind == 1) w = std::move(v);
                        else s[j].b = std::make_unique<D>(std::move(v));
                        s[j].m = std::move(x.m);
                        if (choose(2)) x.b.reset();
                        else if (choose(2)) v.clear();
                        else if (v.size() != 0) v.clear();
                        x.m.clear();
                    }
                    check(what);
                    return;
                }
                if constexpr (copyable<T>) {
                    D& to = kind == 3 ? w : v;
                    Slot& ts = kind == 3 ? s[j] : x;
                    o = attempt(what, false, [&] { to = static_cast<const D&>(v); });
                    sim::NoFault nf;
                    auto c = contents(to);
                    if (o != Out::ok) {
                        if (kind == 4 ? c != x.m : c != ts.m && !(c.size() <= x.m.size() && std::equal(c.begin(), c.end(), x.m.begin())))
                            fail("contents", "After a failed assignment, the queue holds %s", show(c).c_str());
                        ts.m = c;
                    }
                    else if (kind == 3) ts.m = x.m;
                    check(what);
                }
                return;
            }
            default: {
                if (choose(3) == 1) return fresh(i);
                std::vector<long> vals;
                size_t n = choose(12);
                int kind = copyable<T> ? int(choose(4)) : 1;
                { sim::NoFault nf; for (size_t k = 0; k < n; ++k) vals.push_back(kind == 2 ? 44 : gen_value()); }
                if (kind == 3) { sim::NoFault nf; vals = { 5, 6, 7 }; n = 3; }
                what = "assign";
                trace("q%d.assign kind %d %s", i, kind, show(vals).c_str());
                keep_e = 0;
                final_size = n;
                o = attempt(what, false, [&] {
                    if constexpr (copyable<T>) {
                        if (kind == 0) { v.assign(Gen<T, std::random_access_iterator_tag>{vals.data()}, Gen<T, std::random_access_iterator_tag>{vals.data() + n}); return; }
                        if (kind == 2) { T e = mk<T>(44); v.assign(n, e); return; }
                        if (kind == 3) { v = { mk<T>(5), mk<T>(6), mk<T>(7) }; return; }
                    }
                    v.assign(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + n});
                });
                { sim::NoFault nf; want = vals; }
                if (o != Out::ok) {
                    sim::NoFault nf;
                    auto c = contents(v);
                    if (c != x.m && !(c.size() <= vals.size() && std::equal(c.begin(), c.end(), vals.begin()))) fail("contents", "After a failed assign, the queue holds %s", show(c).c_str());
                    x.m = c;
                    o = Out::threw;
                    want = c;
                }
                break;
            }
        }
        if (o == Out::ok) { sim::NoFault nf; x.m = want; }
        else if (!all_or_nothing) {
            sim::NoFault nf;
            auto c = contents(v);
            bool ok = c == x.m || (c.size() >= size && c.size() <= want.size() && std::equal(c.begin(), c.end(), want.begin()));
            if (!ok) fail("contents", "After a failed %s, the queue holds %s; before %s; aim %s", what, show(c).c_str(), show(x.m).c_str(), show(want).c_str());
            x.m = c;
        }
        check(what);
        if (!cap_may_shrink && v.capacity() < cap) fail("capacity", "%s reduced the capacity from %zu to %zu", what, cap, v.capacity());
        if (modifies && final_size <= cap) {
            if (v.capacity() != cap) fail("realloc", "%s changed the capacity from %zu to %zu although the result fits (size %zu)", what, cap, v.capacity(), final_size);
            for (size_t k = keep_b; k < keep_e && o == Out::ok; ++k) {
                size_t now = front_lost ? k - 1 : k + front_gain;
                if (now >= v.size()) break;
                if (&v[now] != where[k].first || id(v[now]) != where[k].second) fail("moved", "%s moved element %zu although the result fits", what, k);
            }
        }
        if (sim::chance(1, 8) && s[1 - i].b) {
            const D& w = *s[1 - i].b;
            const auto& a = x.m, & b = s[1 - i].m;
            if ((v == w) != (a == b) || (v != w) != (a != b) || (v < w) != (a < b) || (v > w) != (a > b) || (v <= w) != (a <= b) || (v >= w) != (a >= b))
                fail("compare", "Wrong comparison of %s and %s", show(a).c_str(), show(b).c_str());
        }
        if (sim::chance(1, 6) && v.size()) iterators(v, x.m);
        u64 pos = v.size() ? u64(&v.front() < &v.back()) : 2;
        sim::state(sim::mix(sim::mix(v.size(), v.capacity()), u64(op) << 4 | pos << 2 | u64(o)));
    }

    // Iterators agree with positions
    void iterators(D& v, const std::vector<long>& m)
    {
        size_t a = choose(m.size() + 1), b = choose(m.size() + 1);
        auto i = v.begin() + std::ptrdiff_t(a);
        typename D::const_iterator j = v.cbegin();
        j += std::ptrdiff_t(b);
        if (i - j != std::ptrdiff_t(a) - std::ptrdiff_t(b) || (i == j) != (a == b) || (i != j) != (a != b) || (i < j) != (a < b) || (i > j) != (a > b) || (i <= j) != (a <= b) || (i >= j) != (a >= b))
            fail("iterator", "Iterators at %zu and %zu of %zu compare wrongly", a, b, m.size());
        auto k = i;
        k -= std::ptrdiff_t(a);
        if (k != v.begin()) fail("iterator", "Iterator arithmetic is wrong");
        if (a < m.size() && get(*i) != m[a]) fail("iterator", "Wrong element");
        if (a < m.size()) { auto n = i; ++n; --n; if (n != i || get(*n) != m[a]) fail("iterator", "Wrong element"); auto q = n++; if (q != i || n != i + 1) fail("iterator", "Wrong post-increment"); }
        if (b < m.size() && get(i[std::ptrdiff_t(b) - std::ptrdiff_t(a)]) != m[b]) fail("iterator", "Wrong element by index");
    }
};

template<class T> void deque_history()
{
    reg.reset();
    DequeTest<T> t;
    trace("queue of kind %s", tracked<T> ? nt_move<T> ? copyable<T> ? "copyable" : "move-only" : "copy-only" : sizeof(T) == 6 ? "pod" : "trivial");
    for (int n = 0; n < 60 && sim::more(25); ++n) t.step();
    {
        sim::NoFault nf;
        for (auto& x : t.s) { x.b.reset(); x.m = {}; }
    }
    t.check("destruction");
}

SIM_SCENARIO("C17", "deque", 3, sim::f_leakcheck)
{
    switch (choose(5)) {
        case 0: return deque_history<Elem>();
        case 1: return deque_history<CopyElem>();
        case 2: return deque_history<MoveElem>();
        case 3: return deque_history<int>();
        default: return deque_history<Pod>();
    }
}

sim::Info info17("C17", "As for vectors, at both ends, with the position of the contents in the circular storage moved around by the history.",
                 {"core::Deque", "core/memory.hpp"}, {"element types"});

// ================================================================ buffers

template<class T> struct BufTest {
    // The seed memory is inside guards
    struct Seed { T front[8]; T mem[12]; T back[8]; } seed;
    size_t seed_size = 0;
    std::optional<core::Buffer<T>> buf;
    std::vector<T> m; // reference contents of the used part
    size_t begin = 0; // of the used part

    static T val() { return T(1 + choose(100)); }
    void guards(const char* what)
    {
        for (int i = 0; i < 8; ++i) if (seed.front[i] != T(42) || seed.back[i] != T(42)) fail("overrun", "%s: memory outside the buffer was overwritten", what);
        for (size_t i = seed_size; i < 12; ++i) if (seed.mem[i] != T(42)) fail("overrun", "%s: memory outside the buffer was overwritten", what);
    }
    void check(const char* what)
    {
        guards(what);
        if (buf->size() < begin + m.size()) fail("size", "%s: buffer size %zu, contents end at %zu", what, buf->size(), begin + m.size());
        for (size_t i = 0; i < m.size(); ++i) if ((*buf)[begin + i] != m[i]) fail("contents", "%s: element %zu has changed", what, i);
        if (buf->span().size() != buf->size() || buf->span().data() != buf->data() || size_t(buf->end() - buf->begin()) != buf->size() || size_t(buf->cend() - buf->cbegin()) != buf->size()) fail("range", "%s: wrong range", what);
    }
};

template<class T> void buffer_history()
{
    BufTest<T> t;
    for (auto& e : t.seed.front) e = T(42);
    for (auto& e : t.seed.mem) e = T(42);
    for (auto& e : t.seed.back) e = T(42);
    std::vector<T> extra;
    switch (choose(4)) {
        case 0: t.buf.emplace(); break;
        case 1: t.seed_size = choose(13); t.buf.emplace(core::Span<T>(t.seed.mem, t.seed_size)); break;
        case 2: {
            size_t n = choose(30);
            if (attempt("construct", false, [&] { t.buf.emplace(n); }) != Out::ok) t.buf.emplace();
            else if (t.buf->size() != n) fail("size", "Size %zu instead of %zu", t.buf->size(), n);
            break;
        }
        default: {
            size_t n = choose(20);
            { sim::NoFault nf; for (size_t i = 0; i < n; ++i) t.m.push_back(BufTest<T>::val()); }
            t.seed_size = choose(13);
            if (attempt("construct", false, [&] { t.buf.emplace(core::Span<T>(t.seed.mem, t.seed_size), core::BufferDataTag(), core::Span<const T>(t.m)); }) != Out::ok) { t.buf.emplace(); t.m.clear(); t.seed_size = 0; }
            else if (t.buf->size() != n) fail("size", "Size %zu instead of %zu", t.buf->size(), n);
            break;
        }
    }
    t.check("construct");
    // "front" use keeps the contents at the beginning, "back" use at the end of the buffer
    bool back = false;
    for (int n = 0; n < 50 && sim::more(16); ++n) {
        auto& b = *t.buf;
        size_t size = b.size();
        const T* data = b.data();
        size_t used = t.m.size();
        size_t max = choose(6) == 1 ? size + choose(20) : size_t(-1);
        bool huge = choose(8) == 1;
        size_t amount = huge ? size_t(-1) - choose(3) - (choose(2) ? used : 0) : choose(24);
        std::vector<T> vals;
        { sim::NoFault nf; for (size_t k = choose(12); k > 0; --k) vals.push_back(BufTest<T>::val()); }
        int op = int(choose(13));
        const char* what = "";
        Out o = Out::ok;
        size_t offset = 0, need = size, new_used = used;
        bool prefix_known = !back; // contents lie at offset 0
        bool no_change_expected = false;
        std::vector<T> old;
        { sim::NoFault nf; old.assign(b.data(), b.data() + size); }
        if (!prefix_known && op < 9 && op != 8) op = 9 + int(choose(2));
        switch (op) {
            case 0: what = "reserve"; need = amount; if (amount <= size) no_change_expected = true;
                trace("reserve(%zu, used %zu, max %zu) size %zu", amount, used, max, size);
                o = attempt(what, need > max || huge, [&] { b.reserve(amount, used, max); }); break;
            case 1: what = "reserve_extra"; need = used + amount; if (!huge && need <= size) no_change_expected = true;
                trace("reserve_extra(%zu, used %zu, max %zu) size %zu", amount, used, max, size);
                o = attempt(what, huge || need > max, [&] { b.reserve_extra(amount, used, max); }); break;
            case 2: what = "expand"; need = size + 1;
                trace("expand(used %zu, max %zu) size %zu", used, max, size);
                o = attempt(what, need > max, [&] { b.expand(used, max); }); break;
            case 3: what = "expand_a"; need = size + amount; if (amount == 0) no_change_expected = true;
                trace("expand_a(%zu, used %zu, max %zu) size %zu", amount, used, max, size);
                o = attempt(what, huge || need > max, [&] { b.expand_a(amount, used, max); }); break;
            case 4: {
                what = "reserve_f";
                need = amount;
                if (amount <= size) no_change_expected = true;
                bool thrower = choose(3) == 1;
                trace("reserve_f(%zu, used %zu) size %zu%s", amount, used, size, thrower ? ", throwing" : "");
                int calls = 0;
                bool thrown = false;
                o = attempt(what, huge || need > max, [&] {
                    try {
                        b.reserve_f(amount, used, [&](core::Span<T> mem) {
                            ++calls;
                            if (mem.size() < amount || b.data() != data || b.size() != size) fail("func", "Function called with memory of size %zu for minimum %zu", mem.size(), amount);
                            if (thrower) throw 17;
                        }, max);
                    }
                    catch (int) { thrown = true; }
                });
                if (thrown) { o = Out::threw; sim::count("probe.function_threw"); }
                if (thrower && calls && !thrown) fail("swallowed", "An exception thrown by the function was swallowed");
                if (calls != (o == Out::ok && need > size) && !thrown) fail("func", "Function called %d times", calls);
                break;
            }
            case 5: what = "append"; offset = used; need = used + vals.size(); new_used = need;
                trace("append(%zu elements at %zu) size %zu", vals.size(), used, size);
                o = attempt(what, false, [&] { b.append(core::Span<const T>(vals), offset); });
                if (o == Out::ok) { sim::NoFault nf; t.m.insert(t.m.end(), vals.begin(), vals.end()); if (offset != new_used) fail("offset", "Offset %zu after append, expected %zu", offset, new_used); }
                else if (offset != used) fail("offset", "Offset changed by failing append");
                break;
            case 6: {
                what = "append_a";
                T v = BufTest<T>::val();
                size_t k = huge ? amount : choose(12);
                offset = used;
                need = used + k;
                trace("append_a(%zu at %zu) size %zu", k, used, size);
                o = attempt(what, huge, [&] { b.append_a(v, offset, k); });
                if (o == Out::ok) { sim::NoFault nf; t.m.insert(t.m.end(), k, v); if (offset != need) fail("offset", "Offset %zu after append, expected %zu", offset, need); }
                else if (offset != used) fail("offset", "Offset changed by failing append");
                break;
            }
            case 7: {
                bool one = choose(2);
                what = "assign";
                need = one ? choose(20) : vals.size();
                T v = BufTest<T>::val();
                trace("assign(%zu) size %zu", need, size);
                o = attempt(what, false, [&] { if (one) b.assign_a(v, need); else b.assign(core::Span<const T>(vals)); });
                if (o == Out::ok) { sim::NoFault nf; if (one) t.m.assign(need, v); else t.m = vals; }
                break;
            }
            case 8: {
                // Start over with the contents at the other end
                back = !back;
                { sim::NoFault nf; t.m.clear(); }
                t.begin = back ? size : 0;
                trace("contents now at the %s", back ? "end" : "beginning");
                continue;
            }
            case 9: case 10: {
                if (!back) { back = true; sim::NoFault nf; t.m.clear(); t.begin = size; used = 0; }
                T v = BufTest<T>::val();
                size_t k = op == 9 ? vals.size() : huge ? amount : choose(12);
                offset = t.begin;
                what = op == 9 ? "prepend" : "prepend_a";
                trace("%s(%zu at %zu) size %zu", what, k, offset, size);
                if (k <= offset) no_change_expected = true;
                o = attempt(what, huge && op == 10, [&] { if (op == 9) b.prepend(core::Span<const T>(vals), offset); else b.prepend_a(v, offset, k); });
                need = used + k;
                if (o == Out::ok) {
                    sim::NoFault nf;
                    if (op == 9) t.m.insert(t.m.begin(), vals.begin(), vals.end()); else t.m.insert(t.m.begin(), k, v);
                    if (offset != b.size() - t.m.size()) fail("offset", "Offset %zu after prepending, buffer size %zu, contents %zu", offset, b.size(), t.m.size());
                }
                else if (offset != t.begin) fail("offset", "Offset changed by failing prepend");
                t.begin = offset;
                break;
            }
            case 11: {
                trace("move");
                what = "move";
                if (choose(2)) {
                    core::Buffer<T> c(std::move(b));
                    t.buf.emplace();
                    *t.buf = std::move(c);
                    if (c.size() != 0) fail("size", "Moved-from buffer has size %zu", c.size());
                }
                else {
                    core::Buffer<T> c(std::move(b));
                    t.buf.emplace(std::move(c));
                }
                if (t.buf->size() != size || t.buf->data() != data) fail("move", "Moving changed the memory");
                need = 0;
                no_change_expected = true;
                break;
            }
            default: {
                size_t i = choose(4) == 1 ? size : choose(size + 3);
                bool thrown = false;
                what = "at";
                trace("at(%zu) size %zu", i, size);
                try { if (static_cast<const core::Buffer<T>&>(b).at(i) != old[i]) fail("at", "Wrong element"); } catch (const std::out_of_range&) { thrown = true; }
                if (thrown != (i >= size)) fail("at", "at(%zu) with buffer size %zu %s", i, size, thrown ? "threw" : "did not throw");
                need = 0;
                no_change_expected = true;
            }
        }
        core::Buffer<T>& c = *t.buf;
        if (o != Out::ok) {
            if (c.size() != size || c.data() != data) fail("strong", "Failing %s changed the buffer", what);
            for (size_t k = 0; k < size; ++k) if (c[k] != old[k]) fail("strong", "Failing %s changed the contents of the buffer", what);
        }
        else {
            if (c.size() < need) fail("size", "%s left buffer size %zu, at least %zu needed", what, c.size(), need);
            if (c.size() < size) fail("size", "%s reduced the size of the buffer", what);
            if (no_change_expected && (c.size() != size || c.data() != data)) fail("realloc", "%s reallocated needlessly", what);
            if (op < 5 && need > size && c.size() > max) fail("size", "%s left buffer size %zu beyond maximum %zu", what, c.size(), max);
        }
        t.check(what);
        sim::state(sim::mix(sim::mix(c.size(), t.m.size()), u64(op) << 2 | u64(o)));
    }
}

SIM_SCENARIO("C18", "buffer", 3, sim::f_leakcheck)
{
    reg.reset();
    switch (choose(3)) {
        case 0: return buffer_history<char>();
        case 1: return buffer_history<long>();
        default: return buffer_history<wchar_t>();
    }
}

template<class T, size_t N> void contents_history()
{
    core::ArraySeededBuffer<T, N> b;
    std::vector<T> m;
    core::BufferContents<T> c(b);
    for (int n = 0; n < 60 && sim::more(20); ++n) {
        size_t size = m.size();
        std::vector<T> want, vals;
        { sim::NoFault nf; want = m; for (size_t k = choose(14); k > 0; --k) vals.push_back(T(1 + choose(100))); }
        int op = int(choose(6));
        T v = T(1 + choose(100));
        bool huge = choose(10) == 1;
        size_t k = huge ? size_t(-1) - choose(3) : choose(9);
        Out o;
        trace("contents op %d size %zu buffer %zu", op, size, b.size());
        o = attempt("contents", huge && op == 3, [&] {
            switch (op) {
                case 0: c.push_back(v); break;
                case 1: { T w = v; c.push_back(std::move(w)); break; }
                case 2: c.append(core::Span<const T>(vals)); break;
                case 3: c.append(k, v); break;
                case 4: if (choose(4) == 1) c.clear(); break;
                default: c.append(core::Span<const T>(vals)); break;
            }
        });
        sim::NoFault nf;
        if (o == Out::ok) {
            if (op < 2) m.push_back(v);
            else if (op == 2 || op == 5) m.insert(m.end(), vals.begin(), vals.end());
            else if (op == 3) m.insert(m.end(), k, v);
            else if (op == 4 && c.size() == 0) m.clear();
        }
        if (c.size() != m.size() || c.empty() != m.empty() || !std::equal(m.begin(), m.end(), c.begin(), c.end()) || c.data() != b.data())
            fail("contents", "Contents view differs from what was put in (op %d, %zu, expected %zu)", op, c.size(), m.size());
        for (size_t i = 0; i < m.size(); ++i) if (c[i] != m[i]) fail("contents", "Contents view differs from what was put in");
        if (b.size() < c.size()) fail("size", "Buffer smaller than contents");
        sim::state(sim::mix(sim::mix(c.size(), b.size()), u64(op) << 2 | u64(o)));
    }
}

template<class C> void string_contents_history()
{
    C seed[10];
    core::Buffer<C> b(core::Span<C>(seed, choose(11)));
    std::basic_string<C> m;
    core::BasicStringBufferContents<C> c(b);
    for (int n = 0; n < 60 && sim::more(20); ++n) {
        std::basic_string<C> s;
        { sim::NoFault nf; for (size_t k = choose(14); k > 0; --k) s += C('a' + choose(26)); }
        bool huge = choose(10) == 1;
        size_t k = huge ? size_t(-1) - choose(3) : choose(9);
        int op = int(choose(4));
        size_t cut = choose(m.size() + 1);
        trace("string contents op %d size %zu buffer %zu", op, m.size(), b.size());
        Out o = attempt("string contents", huge && op == 1, [&] {
            switch (op) {
                case 0: c.append(core::StringSpan<C>(s)); break;
                case 1: c.append(k, C('x')); break;
                case 2: c.set_size(cut); break;
                default: c.append(core::StringSpan<C>(s)); break;
            }
        });
        if (choose(12) == 1) { c.clear(); sim::NoFault nf; m.clear(); o = Out::threw; }
        sim::NoFault nf;
        if (o == Out::ok) {
            if (op == 1) m.append(k, C('x'));
            else if (op == 2) m.resize(cut);
            else m += s;
        }
        if (c.size() != m.size() || c.empty() != m.empty() || !std::equal(m.begin(), m.end(), c.begin(), c.end()) || c.data() != b.data() || &c.buffer() != &b)
            fail("contents", "String contents differ from what was put in");
        sim::state(sim::mix(sim::mix(c.size(), b.size()), u64(op) << 2 | u64(o)));
    }
}

SIM_SCENARIO("C18", "contents", 2, sim::f_leakcheck)
{
    reg.reset();
    switch (choose(4)) {
        case 0: return contents_history<char, 8>();
        case 1: return contents_history<long, 3>();
        case 2: return string_contents_history<char>();
        default: return string_contents_history<wchar_t>();
    }
}

sim::Info info18("C18", "Contents, size, address, and offsets are compared with a model after every operation, also the failing ones; seed memory is surrounded by guards.",
                 {"core::Buffer", "core::ArraySeededBuffer", "core::BufferContents", "core::BasicStringBufferContents"}, {});

// ================================================================ flat maps and sets

// Keys: cheap to copy without failure, but living elements are tracked
struct Key {
    long v;
    const Key* me = this;
    static inline u64 less_fuse = 0;
    Key(long x) noexcept : v(x) { reg.add(this); }
    Key(const Key& o) noexcept : v(o.get()) { reg.add(this); }
    Key& operator=(const Key& o) noexcept { v = o.get(); return *this; }
    ~Key() { get(); reg.remove(this); me = nullptr; }
    long get() const noexcept { if (me != this) fail("key_dead", "A key was used before it was constructed, or after it was destroyed"); return v; }
    bool operator<(const Key& o) const
    {
        if (less_fuse && --less_fuse == 0) { sim::count("fault.comparison_throws"); reg.blown = true; throw Boom{}; }
        return get() < o.get();
    }
};
struct NtKey : Key {
    using Key::Key;
    bool operator<(const NtKey& o) const noexcept { return get() < o.get(); }
};

template<class F> Out attempt_less(const char* what, F&& f)
{
    Key::less_fuse = sim::chance(1, 8) ? sim::range(1, 6) : 0;
    bool c = Key::less_fuse;
    Out o;
    if (c) {
        reg.blown = false;
        o = Out::ok;
        try { f(); } catch (const Boom&) { o = Out::threw; }
        if (o == Out::ok && reg.blown) fail("swallowed", "%s: exception from comparison not passed on", what);
        reg.blown = false;
    }
    else o = attempt(what, false, f);
    Key::less_fuse = 0;
    return o;
}

template<class M, class K, bool is_map, bool multi> struct FlatTest {
    std::unique_ptr<M> b[2];
    using Model = std::vector<std::pair<long, long>>; // sorted by key, in order of insertion
    Model m[2];

    template<class E> static long key(const E& e) { if constexpr (is_map) return e.first.get(); else return e.get(); }
    template<class E> static long value(const E& e) { if constexpr (is_map) return get(e.second); else { (void)e; return 0; } }

    static Model contents(const M& x)
    {
        sim::NoFault nf;
        Model r;
        if (x.size() > 100000) fail("size", "The container claims to hold %zu elements", x.size());
        for (auto& e : x) r.emplace_back(key(e), value(e));
        return r;
    }
    static std::string show(const Model& m)
    {
        std::string s = "[";
        for (auto& e : m) s += (s.size() > 1 ? " " : "") + std::to_string(e.first) + (is_map ? ":" + std::to_string(e.second) : "");
        return s + "]";
    }
    void check(const char* what)
    {
        sim::NoFault nf;
        u64 total = 0;
        for (int i = 0; i < 2; ++i) {
            if (!b[i]) continue;
            const M& x = *b[i];
            auto c = contents(x);
            if (c != m[i]) fail("contents", "%s: container holds %s, expected %s", what, show(c).c_str(), show(m[i]).c_str());
            if (x.empty() != c.empty() || x.size() != c.size() || x.capacity() < x.size()) fail("size", "%s: wrong size", what);
            size_t k = c.size();
            for (auto j = x.rbegin(); j != x.rend(); ++j) if (key(*j) != c[--k].first) fail("range", "%s: wrong reverse order", what);
            total += c.size() * (is_map ? 2 : 1);
        }
        if (reg.live != total) fail("leak", "%s: %llu keys and values are alive, but %llu are held", what, (unsigned long long)reg.live, (unsigned long long)total);
    }
    static size_t lower(const Model& m, long k) { return size_t(std::lower_bound(m.begin(), m.end(), k, [](auto& a, long b) { return a.first < b; }) - m.begin()); }
    static size_t upper(const Model& m, long k) { return size_t(std::upper_bound(m.begin(), m.end(), k, [](long b, auto& a) { return b < a.first; }) - m.begin()); }

    template<class R> static void check_inserted(M& x, R r, bool expect_new, size_t pos)
    {
        if constexpr (multi) { if (r - x.begin() != std::ptrdiff_t(pos)) fail("return", "Wrong position returned"); (void)expect_new; }
        else {
            if (r.second != expect_new) fail("return", "Insertion reported as %s", r.second ? "new" : "existing");
            if (r.first - x.begin() != std::ptrdiff_t(pos)) fail("return", "Wrong position returned");
        }
    }

    void step()
    {
        int i = int(choose(2));
        if (!b[i]) {
            { sim::NoFault nf; b[i] = std::make_unique<M>(); }
            if (choose(4) == 1) {
                trace("f%d = construct from list", i);
                std::unique_ptr<M> n;
                Model w;
                long a = long(choose(12)), c = long(choose(12));
                Out o = attempt("construct", false, [&] {
                    if constexpr (is_map) { using P = typename M::value_type; n = std::make_unique<M>(std::initializer_list<P> { P(K(a), Elem(1)), P(K(c), Elem(2)), P(K(a), Elem(3)) }); }
                    else n = std::make_unique<M>(std::initializer_list<K> { K(a), K(c), K(a) });
                });
                if (o == Out::ok) {
                    sim::NoFault nf;
                    long v = 0;
                    for (long k : { a, c, a }) { ++v; if (multi || lower(w, k) == upper(w, k)) w.insert(w.begin() + std::ptrdiff_t(upper(w, k)), { k, is_map ? v : 0 }); }
                    b[i] = std::move(n);
                    m[i] = w;
                }
            }
            check("construct");
            return;
        }
        M& x = *b[i];
        const M& cx = x;
        Model& mm = m[i];
        long k = long(choose(12));
        long v = gen_value();
        size_t lo = lower(mm, k), up = upper(mm, k);
        size_t size = mm.size(), cap = x.capacity();
        bool fits = size < cap;
        const void* data = size ? static_cast<const void*>(&*cx.begin()) : nullptr;
        int op = int(choose(14));
        const char* what = "";
        Out o = Out::ok;
        size_t pos = multi ? up : lo;
        bool fresh = multi || lo == up;
        switch (op) {
            case 0: case 1: case 2: case 3: case 4: {
                what = op == 0 ? "emplace" : "insert";
                trace("f%d.%s(%ld, %ld)", i, what, k, v);
                o = attempt_less(what, [&] {
                    if constexpr (is_map) {
                        if (op == 0) check_inserted(x, x.emplace(K(k), v_elem(v)), fresh, pos);
                        else if (op == 1) { const typename M::value_type e{K(k), Elem(v)}; check_inserted(x, x.insert(e), fresh, pos); }
                        else check_inserted(x, x.insert(typename M::value_type(K(k), Elem(v))), fresh, pos);
                    }
                    else {
                        if (op == 0) check_inserted(x, x.emplace(k), fresh, pos);
                        else if (op == 1) { const K e(k); check_inserted(x, x.insert(e), fresh, pos); }
                        else check_inserted(x, x.insert(K(k)), fresh, pos);
                    }
                });
                sim::NoFault nf;
                if (o == Out::ok && fresh) mm.insert(mm.begin() + std::ptrdiff_t(pos), { k, is_map ? v : 0 });
                break;
            }
            case 5: {
                // A range
                what = "insert range";
                std::vector<std::pair<long, long>> vals;
                { sim::NoFault nf; for (u64 n = choose(6); n > 0; --n) vals.emplace_back(long(choose(12)), gen_value()); }
                trace("f%d.insert(range of %zu)", i, vals.size());
                using E = std::conditional_t<is_map, core::Pair<const K, Elem>, K>;
                std::vector<E> elems;
                {
                    sim::NoFault nf;
                    for (auto& e : vals) { if constexpr (is_map) elems.emplace_back(K(e.first), Elem(e.second)); else elems.emplace_back(e.first); }
                }
                o = attempt(what, false, [&] { x.insert(elems.begin(), elems.end()); });
                sim::NoFault nf;
                elems.clear();
                // All of the first n elements have been inserted for some n
                Model w = mm;
                size_t n = 0;
                for (;;) {
                    if (o == Out::ok ? n == vals.size() : w.size() == x.size()) break;
                    if (n == vals.size()) fail("contents", "After a failed insertion of a range, the container holds %s", show(contents(x)).c_str());
                    auto& e = vals[n++];
                    if (multi || lower(w, e.first) == upper(w, e.first)) w.insert(w.begin() + std::ptrdiff_t(upper(w, e.first)), { e.first, is_map ? e.second : 0 });
                }
                mm = w;
                check(what);
                return;
            }
            case 6: case 7: {
                what = "erase";
                trace("f%d.erase(%ld)", i, k);
                size_t r = 0;
                o = attempt_less(what, [&] { r = x.erase(K(k)); });
                sim::NoFault nf;
                if (o == Out::ok) {
                    if (r != up - lo) fail("return", "erase() removed %zu elements, expected %zu", r, up - lo);
                    mm.erase(mm.begin() + std::ptrdiff_t(lo), mm.begin() + std::ptrdiff_t(up));
                }
                break;
            }
            case 8: {
                what = "look-up";
                trace("f%d look up %ld", i, k);
                o = attempt_less(what, [&] {
                    K key(k);
                    bool has = lo != up;
                    if (x.contains(key) != has || x.count(key) != up - lo) fail("lookup", "contains() or count() is wrong for key %ld", k);
                    auto f = cx.find(key);
                    if (has ? f - cx.begin() < std::ptrdiff_t(lo) || f - cx.begin() >= std::ptrdiff_t(up) : f != cx.end()) fail("lookup", "find() is wrong for key %ld", k);
                    if (x.find(key) - x.begin() != f - cx.begin()) fail("lookup", "find() is wrong for key %ld", k);
                    if (x.lower_bound(key) - x.begin() != std::ptrdiff_t(lo) || cx.upper_bound(key) - cx.begin() != std::ptrdiff_t(up)) fail("lookup", "Bounds are wrong for key %ld", k);
                    if (cx.lower_bound(key) - cx.begin() != std::ptrdiff_t(lo) || x.upper_bound(key) - x.begin() != std::ptrdiff_t(up)) fail("lookup", "Bounds are wrong for key %ld", k);
                    auto r = x.equal_range(key);
                    if (r.first - x.begin() != std::ptrdiff_t(lo) || r.second - x.begin() != std::ptrdiff_t(up)) fail("lookup", "equal_range() is wrong for key %ld", k);
                    auto cr = cx.equal_range(key);
                    if (cr.first - cx.begin() != std::ptrdiff_t(lo) || cr.second - cx.begin() != std::ptrdiff_t(up)) fail("lookup", "equal_range() is wrong for key %ld", k);
                    if constexpr (is_map && !multi) {
                        bool thrown = false;
                        try { if (get(x.at(key)) != mm[lo].second || get(cx.at(key)) != mm[lo].second) fail("lookup", "at() is wrong for key %ld", k); } catch (const std::out_of_range&) { thrown = true; }
                        if (thrown == has) fail("lookup", "at() is wrong for key %ld", k);
                    }
                });
                break;
            }
            case 9: {
                if constexpr (is_map && !multi) {
                    what = "index";
                    trace("f%d[%ld] = %ld", i, k, v);
                    Elem* p = nullptr;
                    o = attempt_less(what, [&] { p = &x[K(k)]; });
                    sim::NoFault nf;
                    if (o == Out::ok) {
                        if (fresh) mm.insert(mm.begin() + std::ptrdiff_t(pos), { k, 0 });
                        if (get(*p) != mm[pos].second) fail("lookup", "Wrong value by index");
                        *p = Elem(v);
                        mm[pos].second = v;
                    }
                }
                else return;
                break;
            }
            case 10: {
                bool huge = choose(6) == 1;
                size_t n = huge ? size_t(-1) - choose(3) : choose(20);
                bool extra = choose(2);
                what = extra ? "reserve_extra" : "reserve";
                trace("f%d.%s(%zu)", i, what, n);
                o = attempt(what, huge, [&] { if (extra) x.reserve_extra(n); else x.reserve(n); });
                if (o == Out::ok && (extra ? x.capacity() - x.size() < n : x.capacity() < n)) fail("reserve", "%s(%zu) left capacity %zu", what, n, x.capacity());
                fits = false;
                break;
            }
            case 11: {
                what = "shrink_to_fit";
                trace("f%d.shrink_to_fit()", i);
                o = attempt(what, false, [&] { x.shrink_to_fit(); });
                fits = false;
                break;
            }
            case 12: {
                sim::NoFault nf;
                if (choose(2)) { what = "clear"; trace("f%d.clear()", i); x.clear(); mm.clear(); }
                else {
                    int j = 1 - i;
                    what = "move";
                    trace("move f%d to f%d", i, j);
                    if (b[j] && choose(2)) *b[j] = std::move(x);
                    else b[j] = std::make_unique<M>(std::move(x));
                    m[j] = mm;
                    mm.clear();
                    if (choose(2)) b[i].reset(); else x.clear();
                    check(what);
                    return;
                }
                break;
            }
            default: {
                sim::NoFault nf;
                if (choose(4) == 1) { what = "destroy"; b[i].reset(); mm.clear(); check(what); }
                return;
            }
        }
        check(what);
        if (fits && (x.capacity() != cap || (data && x.size() && data != static_cast<const void*>(&*cx.begin())))) fail("realloc", "%s reallocated although there was room", what);
        sim::state(sim::mix(sim::mix(x.size(), x.capacity()), u64(op) << 2 | u64(o)));
    }
    static Elem v_elem(long v) { return Elem(v); }
};

template<class M, class K, bool is_map, bool multi> void flat_history(const char* name)
{
    reg.reset();
    trace("%s", name);
    FlatTest<M, K, is_map, multi> t;
    for (int n = 0; n < 60 && sim::more(22); ++n) t.step();
    { sim::NoFault nf; for (auto& x : t.b) x.reset(); for (auto& x : t.m) x = {}; }
    t.check("destruction");
}

SIM_SCENARIO("C19", "flat", 3, sim::f_leakcheck)
{
    switch (choose(9)) {
        case 0: return flat_history<core::FlatMap<NtKey, Elem>, NtKey, true, false>("map");
        case 1: return flat_history<core::FlatMap<Key, Elem, 3>, Key, true, false>("map, static capacity 3, throwing comparison");
        case 2: return flat_history<core::FlatMultimap<NtKey, Elem>, NtKey, true, true>("multimap");
        case 3: return flat_history<core::FlatMultimap<Key, Elem, 2>, Key, true, true>("multimap, static capacity 2, throwing comparison");
        case 4: return flat_history<core::FlatSet<NtKey>, NtKey, false, false>("set");
        case 5: return flat_history<core::FlatSet<Key, 3>, Key, false, false>("set, static capacity 3, throwing comparison");
        case 6: return flat_history<core::FlatMultiset<NtKey>, NtKey, false, true>("multiset");
        case 7: return flat_history<core::FlatMultiset<Key, 4>, Key, false, true>("multiset, static capacity 4, throwing comparison");
        default: return flat_history<core::FlatMap<Key, Elem>, Key, true, false>("map, throwing comparison");
    }
}

sim::Info info19("C19", "Contents and results of look-ups are compared with a sorted list kept in order of insertion; failed single insertions must leave everything as it was.",
                 {"core::FlatMap", "core::FlatMultimap", "core::FlatSet", "core::FlatMultiset", "impl::FlatMapImpl"}, {"key and value types"});

// ================================================================ slabs

template<class T> void slab_history()
{
    using S = core::Slab<T>;
    reg.reset();
    std::optional<S> s[2];
    std::vector<long> m[2];
    std::vector<const T*> addr[2];
    size_t cap[2] = {};
    auto check = [&](const char* what) {
        sim::NoFault nf;
        u64 total = 0;
        for (int i = 0; i < 2; ++i) {
            if (!s[i]) continue;
            S& x = *s[i];
            if (x.size() != m[i].size() || x.empty() != m[i].empty() || size_t(x.end() - x.begin()) != x.size()) fail("size", "%s: slab has %zu objects, expected %zu", what, x.size(), m[i].size());
            for (size_t k = 0; k < x.size(); ++k) {
                if (get(x[k]) != m[i][k]) fail("contents", "%s: object %zu of the slab is %ld, expected %ld", what, k, get(x[k]), m[i][k]);
                if (addr[i].size() > k && addr[i][k] != &x[k]) fail("moved", "%s: object %zu has moved", what, k);
            }
            addr[i].clear();
            for (auto& e : x) addr[i].push_back(&e);
            total += x.size();
        }
        if (tracked<T> && reg.live != total) fail("leak", "%s: %llu objects are alive, but %llu are held", what, (unsigned long long)reg.live, (unsigned long long)total);
    };
    // Objects of a slab that dies are destroyed in reverse order of creation
    std::vector<u64> dying;
    auto watch = [&](S& x) { sim::NoFault nf; dying.clear(); if (tracked<T>) for (auto& e : x) dying.push_back(id(e)); reg.destroyed.clear(); reg.order = true; };
    auto watched = [&](const char* what) {
        sim::NoFault nf;
        reg.order = false;
        std::vector<u64> d;
        for (u64 x : reg.destroyed) if (std::find(dying.begin(), dying.end(), x) != dying.end()) d.push_back(x);
        std::reverse(d.begin(), d.end());
        if (d != dying) fail("order", "%s: the objects of the slab were not destroyed in reverse order of creation", what);
    };
    for (int n = 0; n < 50 && sim::more(16); ++n) {
        int i = int(choose(2));
        if (!s[i]) {
            int kind = copyable<T> ? int(choose(4)) : int(choose(2));
            size_t c = choose(9);
            bool huge = kind == 1 && choose(6) == 1;
            if (huge) c = size_t(-1) / (choose(2) ? 1 : sizeof(T)) - choose(3);
            std::vector<T> src;
            std::vector<long> vals;
            if constexpr (copyable<T>) {
                sim::NoFault nf;
                if (kind == 3) { src.reserve(c); for (size_t k = 0; k < c; ++k) { vals.push_back(gen_value()); src.push_back(mk<T>(vals.back())); } }
                if (kind == 2) vals.assign(c, 66);
            }
            trace("slab %d: construct kind %d, %zu", i, kind, c);
            u64 before = reg.live;
            { sim::NoFault nf; reg.destroyed.clear(); }
            Out o = attempt("construct", huge, [&] {
                if (kind == 0) s[i].emplace();
                if (kind == 1) s[i].emplace(c);
                if constexpr (copyable<T>) {
                    if (kind == 2) { T f = mk<T>(66); reg.order = true; s[i].emplace(c, std::move(f)); }
                    if (kind == 3) { reg.order = true; s[i].emplace(core::Span<const T>(src)); }
                }
            });
            reg.order = false;
            if (o == Out::threw && kind >= 2) {
                // Whatever was created was destroyed in reverse order: serial numbers decrease,
                // leaving aside the fill value itself
                sim::NoFault nf;
                auto d = reg.destroyed;
                if (kind == 3) for (size_t k = 1; k < d.size(); ++k) if (d[k] > d[k - 1]) fail("order", "The objects of a slab that could not be completed were not destroyed in reverse order of creation");
            }
            if (o != Out::ok) { s[i].reset(); if (reg.live != before) fail("leak", "Objects are left over after a failed construction"); continue; }
            if (huge) sim::harness_error("huge slab");
            sim::NoFault nf;
            cap[i] = kind == 0 ? 0 : c;
            m[i] = vals;
            addr[i].clear();
            src.clear();
            check("construct");
            continue;
        }
        S& x = *s[i];
        int op = int(choose(9));
        const char* what = "";
        switch (op) {
            case 0: case 1: case 2: case 3: {
                if (m[i].size() >= cap[i]) continue;
                long v = gen_value();
                what = "add";
                trace("slab %d: add %ld", i, v);
                Out o = attempt(what, false, [&] { T& r = x.add(v); if (&r != x.data() + m[i].size()) fail("return", "Wrong object returned"); });
                sim::NoFault nf;
                if (o == Out::ok) m[i].push_back(v);
                break;
            }
            case 4: {
                what = "destroy";
                trace("slab %d: destroy", i);
                watch(x);
                { sim::NoFault nf; s[i].reset(); m[i].clear(); addr[i].clear(); }
                watched(what);
                break;
            }
            case 5: case 6: {
                int j = 1 - i;
                sim::NoFault nf;
                trace("slab %d: move to %d", i, j);
                what = "move";
                if (s[j] && op == 5) {
                    watch(*s[j]);
                    *s[j] = std::move(x);
                    watched("move assignment");
                }
                else {
                    s[j].reset();
                    s[j].emplace(std::move(x));
                }
                m[j] = m[i]; addr[j] = addr[i]; cap[j] = cap[i];
                m[i].clear(); addr[i].clear(); cap[i] = 0;
                if (choose(2)) s[i].reset();
                break;
            }
            default: {
                int kind = copyable<T> ? int(choose(3)) : 0;
                size_t c = choose(9);
                trace("slab %d: recreate kind %d, %zu", i, kind, c);
                what = "recreate";
                std::vector<T> src;
                std::vector<long> vals;
                if constexpr (copyable<T>) {
                    sim::NoFault nf;
                    if (kind == 2) { src.reserve(c); for (size_t k = 0; k < c; ++k) { vals.push_back(gen_value()); src.push_back(mk<T>(vals.back())); } }
                    if (kind == 1) vals.assign(c, 66);
                }
                watch(x);
                Out o = attempt(what, false, [&] {
                    if (kind == 0) x.recreate(c);
                    if constexpr (copyable<T>) {
                        if (kind == 1) x.recreate(c, mk<T>(66));
                        if (kind == 2) x.recreate(core::Span<const T>(src));
                    }
                });
                reg.order = false;
                sim::NoFault nf;
                src.clear();
                if (o == Out::ok) { watched(what); m[i] = vals; addr[i].clear(); cap[i] = c; }
                break;
            }
        }
        check(what);
        sim::state(sim::mix(sim::mix(m[i].size(), cap[i]), u64(op)));
    }
    for (auto& x : s) {
        if (!x) continue;
        watch(*x);
        { sim::NoFault nf; x.reset(); }
        watched("destruction");
    }
    check("destruction");
    sim::NoFault nf;
    reg.destroyed = {};
}

// Primitive operations on uninitialised memory: all or nothing
template<class T> void uninit_history()
{
    reg.reset();
    constexpr size_t cap = 24;
    struct Mem { alignas(T) unsigned char bytes[cap * sizeof(T)]; };
    auto mem = std::make_unique<Mem>();
    auto mem2 = std::make_unique<Mem>();
    T* a = reinterpret_cast<T*>(mem->bytes);
    T* b = reinterpret_cast<T*>(mem2->bytes);
    size_t at = 0, n = 0; // the living objects are a[at, at + n)
    std::vector<long> m;
    auto check = [&](const char* what) {
        sim::NoFault nf;
        if (tracked<T> && reg.live != n) fail("leak", "%s: %llu objects are alive, expected %zu", what, (unsigned long long)reg.live, n);
        for (size_t k = 0; k < n; ++k) if (get(a[at + k]) != m[k]) fail("contents", "%s: object %zu is %ld, expected %ld", what, k, get(a[at + k]), m[k]);
    };
    for (int k = 0; k < 40 && sim::more(10); ++k) {
        int op = int(choose(7));
        const char* what = "";
        if (n == 0) {
            size_t c = choose(10), p = choose(cap - c + 1);
            int kind = copyable<T> ? int(choose(4)) : int(choose(2));
            std::vector<long> vals;
            { sim::NoFault nf; for (size_t q = 0; q < (kind == 1 ? 1 : c); ++q) vals.push_back(kind == 0 ? 0 : kind == 2 ? 88 : gen_value()); }
            what = kind == 0 ? "fill with defaults" : kind == 1 ? "create" : kind == 2 ? "fill" : "copy";
            trace("%s %zu at %zu", what, c, p);
            if (kind == 1 && p == cap) continue;
            Out o = attempt(what, false, [&] {
                if (kind == 0) core::uninit_safe_fill(c, a + p);
                if (kind == 1) core::uninit_create(a + p, vals[0]);
                if constexpr (copyable<T>) {
                    if (kind == 2) { T f = mk<T>(88); core::uninit_safe_fill(c, f, a + p); }
                    if (kind == 3) core::uninit_safe_copy(Gen<T, std::input_iterator_tag>{vals.data()}, Gen<T, std::input_iterator_tag>{vals.data() + c}, a + p);
                }
            });
            sim::NoFault nf;
            if (o == Out::ok) { at = p; m = vals; n = vals.size(); }
            check(what);
            continue;
        }
        switch (op) {
            case 0: case 1: {
                what = "move to other memory";
                size_t p = choose(cap - n + 1);
                trace("%s, %zu objects to %zu", what, n, p);
                Out o = attempt(what, false, [&] { core::uninit_safe_move(a + at, n, b + p); });
                if (o == Out::ok) { std::swap(a, b); at = p; }
                break;
            }
            case 2: {
                what = "move, keeping the originals";
                size_t p = choose(cap - n + 1);
                trace("%s, %zu objects to %zu", what, n, p);
                Out o = attempt(what, false, [&] { core::uninit_safe_move_a(a + at, n, b + p); });
                if (o == Out::ok) {
                    if (tracked<T> && reg.live != 2 * n) fail("leak", "%s: originals should remain", what);
                    core::uninit_destroy(a + at, n);
                    std::swap(a, b);
                    at = p;
                }
                break;
            }
            case 3: case 4: {
                if constexpr (nt_move<T>) {
                    if (op == 3 && at > 0) { size_t d = 1 + choose(at); what = "move downwards"; trace("%s by %zu", what, d); core::uninit_move_downwards(a + at, n, d); at -= d; }
                    else if (at + n < cap) { size_t d = 1 + choose(cap - at - n); what = "move upwards"; trace("%s by %zu", what, d); core::uninit_move_upwards(a + at, n, d); at += d; }
                }
                break;
            }
            default: {
                what = "destroy";
                trace("destroy");
                core::uninit_destroy(a + at, n);
                n = 0;
                sim::NoFault nf;
                m.clear();
            }
        }
        check(what);
        sim::state(sim::mix(sim::mix(n, at), u64(op)));
    }
    core::uninit_destroy(a + at, n);
    n = 0;
    check("destruction");
}

SIM_SCENARIO("C29", "slab", 2, sim::f_leakcheck)
{
    switch (choose(5)) {
        case 0: return slab_history<Elem>();
        case 1: return slab_history<CopyElem>();
        case 2: return slab_history<MoveElem>();
        case 3: return slab_history<long>();
        default: return slab_history<Pod>();
    }
}

SIM_SCENARIO("C29", "uninit", 1, sim::f_leakcheck)
{
    switch (choose(5)) {
        case 0: return uninit_history<Elem>();
        case 1: return uninit_history<CopyElem>();
        case 2: return uninit_history<MoveElem>();
        case 3: return uninit_history<long>();
        default: return uninit_history<Pod>();
    }
}

sim::Info info29("C29", "Objects know whether they are alive and carry the serial number of their creation; the order of destruction is recorded and compared.",
                 {"core::Slab", "core/memory.hpp"}, {"element types"});

} // namespace
