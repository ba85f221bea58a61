// C22, C23, C32: font loaders and faces, and the regeneration of the fallback font, with failing
// I/O, failing allocations, damaged resource files and several threads.
#include <sim.hpp>

#include <cmath>
#include <cstring>
#include <filesystem>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_OUTLINE_H
#include <png.h>

#include <archon/image.hpp>
#include <archon/util/colors.hpp>
#include <archon/log.hpp>
#include <archon/font/code_point.hpp>
#include <archon/font/face.hpp>
#include <archon/font/loader.hpp>
#include <archon/font/loader_fallback.hpp>
#include <archon/font/size.hpp>

using namespace archon;
using sim::choose; using sim::trace; using sim::fail; using sim::u64; using sim::i64;
namespace I = archon::image;
namespace F = archon::font;

// ---------------------------------------------------------------- seams

namespace {
long g_mapped = 0;                 // bytes of simulated files that are mapped
std::map<void*, size_t>* g_maps;
int g_in_ft = 0;                   // threads in calls that must exclude each other
void enter_ft(const char* what)
{
    if (g_in_ft++ != 0) fail("freetype_lock", "%s() was called while another thread is opening or closing a font face of the same library", what);
    if (sim::num_threads_alive() > 1) { sim::count("probe.ft_critical"); for (int i = 0; i < 3; ++i) sim::yield(); }
}
void leave_ft() { --g_in_ft; }
bool g_wrap_ft = false;            // inside of the code under test
u64 g_ft_errors = 0;               // 1 in n calls of FreeType fails
u64 g_ft_failed = 0;
bool ft_fails(const char* what)
{
    if (g_ft_errors == 0 || choose(g_ft_errors) != 1) return false;
    sim::count("fault.freetype_error");
    trace("  %s() fails", what);
    ++g_ft_failed;
    return true;
}
bool g_prewarming = false;
}

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (fd < 500000) return __real_mmap(a, len, prot, flags, fd, off);
    sim::NoFault nf; sim::NoPreempt np;
    for (auto& o : sim::fs::list_open()) if (o.fd == fd - 500000) {
        std::string data = sim::fs::get(o.path);
        if (!g_prewarming && choose(3) == 1) { sim::count("fault.mmap"); trace("  sys mmap(fd%d) -> ENODEV", o.fd); errno = ENODEV; return MAP_FAILED; }
        void* p = __real_mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(p, data.data() + off, std::min(len, data.size() - size_t(off)));
        mprotect(p, len, PROT_READ);
        (*g_maps)[p] = len;
        g_mapped += long(len);
        trace("  sys mmap(fd%d, %zu)", o.fd, len);
        return p;
    }
    fail("bad-descriptor", "mmap() on a descriptor that is not open");
}
int __wrap_munmap(void* p, size_t len)
{
    sim::NoFault nf; sim::NoPreempt np;
    if (g_maps) if (auto i = g_maps->find(p); i != g_maps->end()) { g_mapped -= long(i->second); g_maps->erase(i); }
    return __real_munmap(p, len);
}
// FreeType can crash, and degrades silently, when its own allocations fail. Therefore, its functions fail as a whole instead.
#define FT_WRAP(name, params, args, enter, leave)                 \
    FT_Error __real_##name params;                                \
    FT_Error __wrap_##name params                                 \
    {                                                             \
        if (!g_wrap_ft) return __real_##name args;                \
        sim::NoFault nf;                                          \
        if (ft_fails(#name)) return FT_Err_Out_Of_Memory;         \
        enter; auto r = __real_##name args; leave;                \
        return r;                                                 \
    }
FT_WRAP(FT_New_Face, (FT_Library l, const char* p, FT_Long i, FT_Face* f), (l, p, i, f), enter_ft("FT_New_Face"), leave_ft())
FT_WRAP(FT_Open_Face, (FT_Library l, const FT_Open_Args* a, FT_Long i, FT_Face* f), (l, a, i, f), enter_ft("FT_Open_Face"), leave_ft())
FT_WRAP(FT_New_Memory_Face, (FT_Library l, const FT_Byte* b, FT_Long n, FT_Long i, FT_Face* f), (l, b, n, i, f), enter_ft("FT_New_Memory_Face"), leave_ft())
FT_WRAP(FT_Init_FreeType, (FT_Library* l), (l), , )
FT_WRAP(FT_Load_Glyph, (FT_Face f, FT_UInt i, FT_Int32 fl), (f, i, fl), , )
FT_WRAP(FT_Load_Char, (FT_Face f, FT_ULong i, FT_Int32 fl), (f, i, fl), , )
FT_WRAP(FT_Set_Char_Size, (FT_Face f, FT_F26Dot6 w, FT_F26Dot6 h, FT_UInt x, FT_UInt y), (f, w, h, x, y), , )
FT_WRAP(FT_Request_Size, (FT_Face f, FT_Size_Request r_), (f, r_), , )
FT_WRAP(FT_Select_Size, (FT_Face f, FT_Int i), (f, i), , )
FT_WRAP(FT_Get_Kerning, (FT_Face f, FT_UInt a, FT_UInt b, FT_UInt m, FT_Vector* v), (f, a, b, m, v), , )
FT_WRAP(FT_Outline_Render, (FT_Library l, FT_Outline* o, FT_Raster_Params* p), (l, o, p), , )
FT_Error __real_FT_Done_Face(FT_Face);
FT_Error __wrap_FT_Done_Face(FT_Face f)
{
    if (!g_wrap_ft) return __real_FT_Done_Face(f);
    enter_ft("FT_Done_Face");
    auto r = __real_FT_Done_Face(f);
    leave_ft();
    return r;
}
}

namespace {

const char* dir_path = "/sim/fonts";
std::string spec_path(const char* m = "") { return std::string(dir_path) + "/fallback-font" + m + ".txt"; }
std::string image_path(const char* m = "") { return std::string(dir_path) + "/fallback-font" + m + ".png"; }
const char* ttf_path = "/sim/fonts/LiberationMono-Regular.ttf";

// ---------------------------------------------------------------- logging

class TestLogger : public log::RootLogger {
public:
    std::string text;
    TestLogger(const std::locale& loc = std::locale::classic()) : log::RootLogger(loc) {}
protected:
    void root_log(std::string_view m) override { sim::NoFault nf; sim::NoPreempt np; text += m; }
};

// ---------------------------------------------------------------- model of a font

struct GlyphM { int x, y, w, h, hbx, hby, vbx, vby, hadv, vadv; std::vector<unsigned> cps; };
struct FontM {
    std::string family;
    std::vector<std::pair<unsigned, unsigned>> ranges;
    int iw, ih;
    bool bold, italic, mono;
    double rw, rh;
    int hbo, hbs, vbo, vbs;
    std::vector<GlyphM> glyphs;
    std::vector<unsigned char> px;
    unsigned char at(int x, int y) const { return px[size_t(y) * size_t(iw) + size_t(x)]; }
    size_t find(unsigned cp) const
    {
        for (size_t i = 0; i < glyphs.size(); ++i) for (unsigned c : glyphs[i].cps) if (c == cp) return i;
        return 0;
    }
};

u64 rnd_state;
unsigned rnd(unsigned n) { rnd_state = rnd_state * 6364136223846793005ULL + 1442695040888963407ULL; return unsigned((rnd_state >> 33) % n); }

[[noreturn]] void on_png_error(png_structp p, png_const_charp m)
{
    *static_cast<std::string*>(png_get_error_ptr(p)) = m;
    longjmp(png_jmpbuf(p), 1);
}
void on_png_warning(png_structp, png_const_charp) {}
void png_mem_write(png_structp p, png_bytep d, size_t n) { static_cast<std::string*>(png_get_io_ptr(p))->append(reinterpret_cast<char*>(d), n); }
void png_mem_flush(png_structp) {}

std::string make_png(int w, int h, const std::vector<unsigned char>& px)
{
    sim::NoFault nf; sim::NoPreempt np;
    std::string data, err;
    std::vector<png_bytep> rows;
    for (int y = 0; y < h; ++y) rows.push_back(const_cast<png_bytep>(px.data()) + size_t(w) * size_t(y));
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, &err, on_png_error, on_png_warning);
    png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p)) == 0) {
        png_set_write_fn(p, &data, png_mem_write, png_mem_flush);
        png_set_compression_level(p, 1);
        png_set_IHDR(p, i, png_uint_32(w), png_uint_32(h), 8, PNG_COLOR_TYPE_GRAY, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
        png_write_info(p, i);
        png_write_image(p, rows.data());
        png_write_end(p, i);
    }
    else sim::harness_error("libpng could not write: %s", err.c_str());
    png_destroy_write_struct(&p, &i);
    return data;
}

void make_font(FontM& m)
{
    sim::NoFault nf; sim::NoPreempt np;
    static const char* names[] = { "Test", "Liberation Mono", "A  b\t c", "\xC3\xA6\xC3\xB8 12", "-", "7 8" };
    m.family = names[choose(6)];
    m.iw = 1 + int(choose(30));
    m.ih = 1 + int(choose(30));
    m.bold = choose(2); m.italic = choose(2); m.mono = choose(2);
    static const double sizes[] = { 12, 14.5, 1, 0.25, 8, 1000 };
    m.rw = sizes[choose(6)]; m.rh = sizes[choose(6)];
    m.hbo = int(choose(9)) - 2; m.hbs = int(choose(20)) - 1; m.vbo = int(choose(9)) - 2; m.vbs = int(choose(20)) - 1;
    unsigned next = 0;
    for (u64 i = 0, n = 1 + choose(4); i < n; ++i) {
        unsigned f = next + unsigned(choose(60)), l = f + unsigned(choose(i % 2 ? 60 : 3));
        if (choose(20) == 1) { f += 0x10000; l += 0x10000; }
        m.ranges.push_back({ f, l });
        next = l + 1;
    }
    rnd_state = choose(1000000) + 1;
    for (int i = 0; i < m.iw * m.ih; ++i) m.px.push_back(static_cast<unsigned char>(rnd(3) ? rnd(255) + 1 : 0));
    std::set<unsigned> used;
    u64 n = 1 + choose(8);
    for (u64 i = 0; i < n; ++i) {
        GlyphM g {};
        g.w = int(rnd(unsigned(m.iw) + 1)); if (choose(3)) g.w = std::min(g.w, 6);
        g.h = int(rnd(unsigned(m.ih) + 1)); if (choose(3)) g.h = std::min(g.h, 6);
        g.x = int(rnd(unsigned(m.iw - g.w) + 1));
        g.y = int(rnd(unsigned(m.ih - g.h) + 1));
        auto v = [] { return int(rnd(30)) - 15; };
        g.hbx = v(); g.hby = v(); g.vbx = v(); g.vby = v();
        g.hadv = int(rnd(20)); g.vadv = int(rnd(20));
        if (i > 0) {
            for (u64 k = 0, kn = 1 + choose(3); k < kn; ++k) {
                unsigned c = rnd(200);
                if (rnd(8) == 0) c += rnd(2) ? 0x10000 : 0x7fffff00;
                if (used.insert(c).second) g.cps.push_back(c);
            }
            if (g.cps.empty()) continue;
        }
        m.glyphs.push_back(g);
    }
}

struct Line { std::string text; int num = 0; };

// The lines of a specification: 0 name, 1 ranges, 2 metrics, 3.. glyphs
std::vector<Line> spec_lines(const FontM& m)
{
    sim::NoFault nf; sim::NoPreempt np;
    std::vector<Line> r;
    auto num = [](double v) { char b[50]; snprintf(b, sizeof b, "%.10g", v); return std::string(b); };
    auto join = [](const std::vector<std::string>& v) {
        std::string s;
        for (size_t i = 0; i < v.size(); ++i) { if (i) s.append(1 + rnd(2) * rnd(5), ' '); s += v[i]; }
        return s;
    };
    r.push_back({ m.family });
    std::vector<std::string> v;
    for (auto& p : m.ranges) v.push_back(p.first == p.second && rnd(2) ? std::to_string(p.first) : std::to_string(p.first) + "-" + std::to_string(p.second));
    r.push_back({ join(v) });
    r.push_back({ join({ num(m.iw), num(m.ih), num(m.bold), num(m.italic), num(m.mono), num(m.rw), num(m.rh), num(m.hbo), num(m.hbs), num(m.vbo), num(m.vbs) }) });
    for (auto& g : m.glyphs) {
        std::vector<std::string> w;
        for (int k : { g.x, g.y, g.w, g.h, g.hbx, g.hby, g.vbx, g.vby, g.hadv, g.vadv }) w.push_back(std::to_string(k));
        for (unsigned c : g.cps) w.push_back(std::to_string(c));
        r.push_back({ join(w) });
    }
    return r;
}

// Put blank lines and comments in between, and set the line numbers
std::string assemble(std::vector<Line>& lines, int* num_lines = nullptr)
{
    sim::NoFault nf; sim::NoPreempt np;
    bool noise = choose(2);
    std::string r;
    int n = 0;
    auto junk = [&] {
        static const char* j[] = { "", "   ", "# comment 1 2 3", "  #", "#" };
        while (noise && rnd(3) == 0) { r += j[rnd(5)]; r += '\n'; ++n; }
    };
    for (auto& l : lines) {
        junk();
        if (noise) r.append(rnd(3), ' ');
        r += l.text;
        if (noise) r.append(rnd(3), ' ');
        if (noise && rnd(5) == 0) r += rnd(2) ? "# 5" : "#";
        r += '\n';
        l.num = ++n;
    }
    junk();
    if (noise && rnd(4) == 0 && !r.empty()) r.pop_back(); // last line need not be terminated
    if (num_lines) *num_lines = n;
    return r;
}

// ---------------------------------------------------------------- outcomes

struct Outcome { bool ok = false, alloc = false; std::string what; bool out_of_range = false, logic = false, system = false; };

template<class Fn> Outcome attempt(Fn&& f)
{
    Outcome o;
    try { f(); o.ok = true; }
    catch (const std::bad_alloc&) { o.alloc = true; }
    catch (const std::out_of_range& e) { sim::NoFault nf; o.out_of_range = true; o.what = e.what(); }
    catch (const std::logic_error& e) { sim::NoFault nf; o.logic = true; o.what = e.what(); }
    catch (const std::system_error& e) { sim::NoFault nf; o.system = true; o.what = e.what(); }
    catch (const std::exception& e) { sim::NoFault nf; o.what = e.what(); }
    if (sim::tracing()) { sim::NoFault nf; trace("  -> %s%s", o.ok ? "ok" : o.alloc ? "bad_alloc" : "exception: ", o.what.c_str()); }
    return o;
}

void faults_on(bool io)
{
    auto& c = sim::fs::config;
    c.eintr = choose(2) ? 3 : 0;
    c.short_io = choose(2) ? 2 : 0;
    c.io_error = io && choose(2) ? 3 + choose(10) : 0;
    c.open_error = io && choose(3) == 1 ? 2 : 0;
}
void faults_off()
{
    auto& c = sim::fs::config;
    c.eintr = c.short_io = c.io_error = c.open_error = 0;
}

// ---------------------------------------------------------------- rendering

// A piece of memory with a tray in the middle, arbitrary strides, and guards everywhere else
struct Canvas {
    static constexpr unsigned char guard = 0xA5;
    std::vector<unsigned char> mem;
    int w, h;
    std::ptrdiff_t hs, vs, origin;
    Canvas(int w_, int h_) : w(w_), h(h_)
    {
        std::ptrdiff_t step = 1 + std::ptrdiff_t(choose(2));
        bool transposed = choose(5) == 1;
        std::ptrdiff_t a = transposed ? h : w, b = transposed ? w : h;
        std::ptrdiff_t pitch = a * step + std::ptrdiff_t(choose(4));
        mem.assign(size_t(pitch * b + 64), guard);
        origin = 32;
        std::ptrdiff_t s1 = step, s2 = pitch;
        bool n1 = choose(4) == 1, n2 = choose(4) == 1;
        if (n1) { origin += s1 * std::max<std::ptrdiff_t>(a - 1, 0); s1 = -s1; }
        if (n2) { origin += s2 * std::max<std::ptrdiff_t>(b - 1, 0); s2 = -s2; }
        hs = transposed ? s2 : s1;
        vs = transposed ? s1 : s2;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) at(x, y) = 0;
    }
    unsigned char& at(int x, int y) { return mem[size_t(origin + hs * x + vs * y)]; }
    F::Face::iter_type iter() { return { reinterpret_cast<I::int8_type*>(mem.data()) + origin, hs, vs }; }
    I::Size size() const { return { w, h }; }
};

struct Mask { // the pixels of a glyph. (0, 0) is the upper left one
    int w = 0, h = 0;
    std::vector<unsigned char> p;
    unsigned char at(int x, int y) const { return p[size_t(y) * size_t(w) + size_t(x)]; }
};

// Render the glyph, which must show up as `m`, placed with its upper left corner at (x, y)
void check_tray(F::Face& face, const Mask& m, int x, int y)
{
    std::optional<Canvas> c;
    { sim::NoFault nf; sim::NoPreempt np; c.emplace(1 + int(choose(24)), 1 + int(choose(24))); }
    face.render_glyph_mask_a(c->iter(), c->size());
    sim::NoFault nf; sim::NoPreempt np;
    std::vector<unsigned char> expected(c->mem.size(), Canvas::guard);
    auto at = [&](int px, int py) -> unsigned char& { return expected[size_t(c->origin + c->hs * px + c->vs * py)]; };
    for (int py = 0; py < c->h; ++py) for (int px = 0; px < c->w; ++px) {
        bool in = px >= x && py >= y && px < x + m.w && py < y + m.h;
        unsigned char e = in ? m.at(px - x, py - y) : 0;
        at(px, py) = e;
        if (c->at(px, py) != e) fail("render", "Pixel (%d,%d) of the target, which has size %d x %d, is %d instead of %d, when a glyph of size %d x %d is rendered at (%d,%d)",
                                     px, py, c->w, c->h, c->at(px, py), e, m.w, m.h, x, y);
    }
    if (c->mem != expected) fail("render_guard", "Rendering a glyph modified memory outside of the pixels of the target");
}

// Render through an image writer, and compare with what the writer does given the mask
void check_writer(F::Face& face, const Mask& m, int x, int y)
{
    std::optional<I::BufferedImage_RGBA_8> a, b;
    std::optional<I::Writer> wa, wb;
    {
        sim::NoFault nf; sim::NoPreempt np;
        I::Size size(1 + int(choose(24)), 1 + int(choose(24)));
        for (auto* i : { &a, &b }) i->emplace(size);
        bool blending = choose(2), colors = choose(2);
        int k = 0;
        for (auto* w : { &wa, &wb }) {
            w->emplace(k++ ? *b : *a);
            (*w)->set_background_color(util::colors::navy);
            (*w)->fill(I::Writer::ColorSlot::background);
            if (blending) (*w)->set_blending_enabled(true);
            (*w)->set_foreground_color(colors ? util::colors::red : util::colors::white);
            (*w)->set_background_color(colors ? util::colors::green : util::colors::transparent);
        }
    }
    face.render_glyph_mask(*wa);
    sim::NoFault nf; sim::NoPreempt np;
    if (m.w > 0 && m.h > 0) wb->put_block_mask(I::Pos(x, y), { I::Iter<const I::int8_type> { reinterpret_cast<const I::int8_type*>(m.p.data()), 1, m.w }, I::Size(m.w, m.h) });
    auto sa = a->get_buffer(), sb = b->get_buffer();
    if (!std::equal(sa.begin(), sa.end(), sb.begin(), sb.end())) {
        size_t i = 0;
        while (sa[i] == sb[i]) ++i;
        int iw = a->get_size().width;
        fail("render_writer", "Rendering a glyph of size %d x %d at (%d,%d) through an image writer differs from putting its mask at pixel (%d,%d)", m.w, m.h, x, y, int(i / 4) % iw, int(i / 4) / iw);
    }
}

// ---------------------------------------------------------------- faces

void check_metrics(F::Face& f, const FontM& m)
{
    sim::NoFault nf; sim::NoPreempt np;
    if (f.get_family_name() != m.family) fail("metrics", "The family name is %s instead of %s", sim::quote(f.get_family_name()).c_str(), sim::quote(m.family).c_str());
    if (f.is_bold() != m.bold || f.is_italic() != m.italic || f.is_monospace() != m.mono) fail("metrics", "The style is wrong");
    if (f.is_scalable() || f.get_num_fixed_sizes() != 1) fail("metrics", "A fallback font does not have exactly one size");
    auto size = [&](F::Size s, const char* what) { if (std::abs(s.width - m.rw) > 1e-5 * m.rw || std::abs(s.height - m.rh) > 1e-5 * m.rh) fail("metrics", "%s is %g x %g instead of %g x %g", what, s.width, s.height, m.rw, m.rh); };
    size(f.get_size(), "The size");
    size(f.get_fixed_size(0), "The fixed size");
    for (bool gf : { true, false }) {
        if (f.get_baseline_offset(false, gf) != m.hbo || f.get_baseline_offset(true, gf) != m.vbo) fail("metrics", "The baseline offset is wrong");
        if (f.get_baseline_spacing(false, gf) != m.hbs || f.get_baseline_spacing(true, gf) != m.vbs) fail("metrics", "The baseline spacing is wrong");
    }
}

void check_glyph_metrics(F::Face& f, const GlyphM& g, size_t i)
{
    sim::NoFault nf; sim::NoPreempt np;
    auto h = f.get_glyph_bearing(false), v = f.get_glyph_bearing(true);
    if (f.get_glyph_advance(false) != g.hadv || f.get_glyph_advance(true) != g.vadv) fail("glyph_metrics", "The advance of glyph %zu is wrong", i);
    if (h[0] != g.hbx || h[1] != g.hby || v[0] != g.vbx || v[1] != g.vby) fail("glyph_metrics", "The bearing of glyph %zu is wrong", i);
}

Mask mask_of(const FontM& m, const GlyphM& g)
{
    Mask k { g.w, g.h, {} };
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) k.p.push_back(m.at(g.x + x, g.y + y));
    return k;
}

// Use a face of a fallback font. Returns whether an allocation failed.
void use_face(F::Face& f, const FontM& m, bool faults)
{
    check_metrics(f, m);
    size_t cur = 0;
    double tx = 0, ty = 0;
    int px = 0, py = 0;
    u64 steps = 2 + choose(12);
    for (u64 s = 0; s < steps; ++s) {
        bool af = faults && choose(6) == 1;
        u64 at = af ? sim::range(1, 6) : 0;
        if (af) sim::fail_alloc(at, choose(3) == 1);
        auto done = [&](const Outcome& o, const char* what) {
            sim::stop_alloc_faults();
            if (!o.ok && !(af && sim::alloc_fault_fired() && o.alloc)) fail("spurious", "%s failed: %s", what, o.alloc ? "bad_alloc" : o.what.c_str());
            return o.ok;
        };
        switch (choose(7)) {
            case 0: {
                unsigned c = choose(2) && m.glyphs.size() > 1 ? m.glyphs[1 + choose(m.glyphs.size() - 1)].cps[0] : unsigned(choose(260));
                size_t i = 0;
                if (done(attempt([&] { i = f.find_glyph(F::CodePoint::char_type(c)); }), "find_glyph()") && i != m.find(c)) fail("find_glyph", "The glyph of code point %u is said to be %zu instead of %zu", c, i, m.find(c));
                break;
            }
            case 1: case 2: {
                size_t i = choose(m.glyphs.size());
                trace("load_glyph(%zu)", i);
                if (done(attempt([&] { f.load_glyph(i, choose(2) == 0); }), "load_glyph()")) { cur = i; tx = ty = 0; }
                break;
            }
            case 3: {
                double dx = (double(choose(200)) - 100) / 8, dy = (double(choose(200)) - 100) / 8;
                trace("translate_glyph(%g, %g)", dx, dy);
                f.translate_glyph({ dx, dy });
                tx += dx; ty += dy;
                break;
            }
            case 4:
                px = int(choose(40)) - 8; py = int(choose(40)) - 8;
                trace("set_target_pos(%d, %d)", px, py);
                f.set_target_pos({ px, py });
                break;
            case 5: {
                sim::stop_alloc_faults();
                size_t bad = m.glyphs.size() + choose(3);
                Outcome o = attempt([&] { f.load_glyph(bad); });
                if (!o.out_of_range) fail("range", "Loading glyph %zu of %zu did not throw std::out_of_range", bad, m.glyphs.size());
                o = attempt([&] { f.set_fixed_size(1); });
                if (!o.out_of_range) fail("range", "Selecting a fixed size that does not exist did not throw std::out_of_range");
                o = attempt([&] { (void) f.get_fixed_size(-1); });
                if (!o.out_of_range) fail("range", "Asking for a fixed size that does not exist did not throw std::out_of_range");
                o = attempt([&] { f.set_scaled_size(F::Size(20)); });
                if (o.ok) fail("scaled", "A font that is not scalable was scaled");
                f.set_fixed_size(0);
                f.set_approx_size(F::Size(40));
                break;
            }
            case 6: break;
        }
        sim::stop_alloc_faults();
        // Halves could be rounded either way
        auto half = [](double v) { return std::abs(v - std::floor(v) - 0.5) < 1e-9; };
        const GlyphM& g = m.glyphs[cur];
        check_glyph_metrics(f, g, cur);
        if (half(tx) || half(ty)) continue;
        int left = int(std::lround(tx)), bottom = int(std::lround(ty));
        int l = 9, r = 9, b = 9, t = 9;
        {
            sim::NoFault nf;
            f.get_glyph_pa_box(l, r, b, t);
            if (l != left || b != bottom || r != left + g.w || t != bottom + g.h) fail("pa_box", "The pixel aligned box is [%d,%d]x[%d,%d] instead of [%d,%d]x[%d,%d]", l, r, b, t, left, left + g.w, bottom, bottom + g.h);
            I::Size z = f.get_glyph_pa_size();
            if (z.width != g.w || z.height != g.h) fail("pa_box", "The pixel aligned size is %d x %d", z.width, z.height);
            I::Box box = f.get_target_glyph_box();
            if (box.pos.x != px + left || box.pos.y != py - bottom - g.h || box.size.width != g.w || box.size.height != g.h)
                fail("target_box", "The target box is at (%d,%d) instead of (%d,%d)", box.pos.x, box.pos.y, px + left, py - bottom - g.h);
        }
        if (choose(2)) {
            Mask k;
            { sim::NoFault nf; k = mask_of(m, g); }
            int x = px + left, y = py - bottom - g.h;
            bool tray = choose(2);
            bool af2 = faults && choose(5) == 1;
            if (af2) sim::fail_alloc(sim::range(1, 6), choose(3) == 1);
            Outcome o = attempt([&] { if (tray) check_tray(f, k, x, y); else check_writer(f, k, x, y); });
            sim::stop_alloc_faults();
            if (!o.ok && !(af2 && sim::alloc_fault_fired() && o.alloc)) fail("spurious", "Rendering failed: %s", o.alloc ? "bad_alloc" : o.what.c_str());
            sim::state(sim::mix(u64(o.ok) | u64(tray) << 1, u64((x < 0) | (y < 0) << 1) + u64(g.w * 32 + g.h) * 4));
        }
    }
}

const F::Loader::Implementation& impl(const char* ident)
{
    auto* i = F::Loader::lookup_implementation(ident);
    if (!i) fail("implementation", "There is no font loader implementation '%s'", ident);
    return *i;
}

std::unique_ptr<F::Loader> new_loader(const char* ident, TestLogger* logger, const std::locale& loc = std::locale::classic())
{
    sim::NoFault nf;
    F::Loader::Config config;
    config.logger = logger;
    return impl(ident).new_loader(std::filesystem::path(dir_path), loc, config);
}

std::string read_real(const char* name)
{
    const char* repo = getenv("VERIF_REPO");
    std::string path = std::string(repo ? repo : "/repo") + "/src/archon/font/" + name;
    std::string r;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) sim::harness_error("cannot read %s", path.c_str());
    char b[65536];
    for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0; ) r.append(b, n);
    fclose(f);
    return r;
}
std::string* g_mono;
std::string* g_sans;
std::string* g_odd;     // unusual ascender and descender
std::string* g_strikes; // scalable, with fixed sizes
std::string* g_bitmap;  // only fixed sizes
struct Strike { int x, y, advance; };
constexpr Strike g_strike_sizes[] = { { 20, 20, 11 }, { 9, 13, 6 }, { 12, 12, 8 }, { 30, 31, 17 } };

unsigned get16(const std::string& s, size_t i) { return unsigned(static_cast<unsigned char>(s[i])) << 8 | static_cast<unsigned char>(s[i + 1]); }
unsigned get32(const std::string& s, size_t i) { return get16(s, i) << 16 | get16(s, i + 2); }
void put16(std::string& s, unsigned v) { s += char(v >> 8); s += char(v); }
void put32(std::string& s, unsigned v) { put16(s, v >> 16); put16(s, v & 0xffff); }

using Tables = std::map<std::string, std::string>;
Tables split_sfnt(const std::string& s)
{
    Tables t;
    for (size_t i = 0, n = get16(s, 4); i < n; ++i) {
        size_t e = 12 + 16 * i;
        t[s.substr(e, 4)] = s.substr(get32(s, e + 8), get32(s, e + 12));
    }
    return t;
}
std::string join_sfnt(const Tables& t)
{
    std::string h, d;
    put32(h, 0x00010000); put16(h, unsigned(t.size())); put16(h, 128); put16(h, 3); put16(h, 64);
    size_t base = 12 + 16 * t.size();
    for (auto& [tag, data] : t) {
        h += tag;
        put32(h, 0); put32(h, unsigned(base + d.size())); put32(h, unsigned(data.size()));
        d += data;
        while (d.size() % 4) d += char(0);
    }
    return h + d;
}
void add_strikes(Tables& t, bool with_glyphs)
{
    constexpr unsigned n = std::size(g_strike_sizes);
    std::string loc, dat, sub;
    put32(loc, 0x00020000); put32(loc, n);
    put32(dat, 0x00020000);
    for (auto& k : g_strike_sizes) {
        unsigned w = unsigned(k.advance - 1), h = unsigned(k.y - 2);
        unsigned size = (w * h + 7) / 8;
        put32(loc, 8 + 48 * n + unsigned(sub.size())); put32(loc, 8 + 20); put32(loc, with_glyphs ? 1 : 0); put32(loc, 0);
        for (int v = 0; v < 2; ++v) { loc += char(k.y - 3); loc += char(-3); loc += char(w); loc.append(9, char(0)); }
        put16(loc, 0); put16(loc, 3); loc += char(k.x); loc += char(k.y); loc += char(1); loc += char(1);
        put16(sub, 0); put16(sub, 3); put32(sub, 8); // array
        put16(sub, 2); put16(sub, 5); put32(sub, unsigned(dat.size())); put32(sub, size);
        sub += char(h); sub += char(w); sub += char(0); sub += char(k.y - 3); sub += char(k.advance); sub += char(0); sub += char(0); sub += char(k.y);
        dat.append(4 * size, char(0x5A));
    }
    t["EBLC"] = loc + sub;
    t["EBDT"] = dat;
}

void prewarm()
{
    static bool done;
    if (!done) {
        sim::NoTrace nt;
        done = g_prewarming = true;
        g_maps = new std::map<void*, size_t>;
        g_mono = new std::string(read_real("LiberationMono-Regular.ttf"));
        g_sans = new std::string(read_real("LiberationSans-Regular.ttf"));
        {
            Tables t = split_sfnt(*g_mono);
            auto& hhea = t["hhea"];
            std::string v;
            put16(v, unsigned(-500) & 0xffff); put16(v, unsigned(-1501) & 0xffff);
            hhea.replace(4, 4, v);
            g_odd = new std::string(join_sfnt(t));
            t = split_sfnt(*g_sans);
            add_strikes(t, false);
            g_strikes = new std::string(join_sfnt(t));
            t = split_sfnt(*g_mono);
            for (auto* x : { "glyf", "loca", "fpgm", "prep", "cvt " }) t.erase(x);
            add_strikes(t, true);
            g_bitmap = new std::string(join_sfnt(t));
        }
        FontM m {};
        m.family = "X"; m.ranges = { { 0, 1 } }; m.iw = m.ih = 1; m.rw = m.rh = 1; m.px = { 7 };
        m.glyphs.push_back({ 0, 0, 1, 1, 0, 0, 0, 0, 1, 1, {} });
        sim::fs::mkdir(dir_path);
        std::string s;
        for (auto& l : spec_lines(m)) s += l.text + "\n";
        sim::fs::put(spec_path(), s);
        sim::fs::put(image_path(), make_png(1, 1, m.px));
        sim::fs::put(ttf_path, *g_mono);
        TestLogger logger;
        {
            auto l = new_loader("fallback", &logger);
            auto f = l->load_default_face();
            I::BufferedImage_RGBA_8 img(I::Size(2, 2));
            I::Writer w(img);
            w.set_foreground_color(util::colors::red);
            w.set_background_color(util::colors::green);
            f->set_target_pos({ 0, 1 });
            f->render_glyph_mask(w);
        }
        {
            auto l = new_loader("freetype", &logger);
            auto f = l->load_default_face();
            F::regen_fallback_font(*f, false, {}, std::filesystem::path(dir_path), std::locale::classic(), { &logger });
        }
        sim::fs::put(spec_path(), "x");
        try { new_loader("fallback", &logger)->load_default_face(); } catch (std::exception&) {}
        sim::fs::reset();
        g_prewarming = false;
    }
    sim::fs::mkdir(dir_path);
    g_in_ft = 0;
    g_mapped = 0;
    g_maps->clear();
    g_wrap_ft = false;
    g_ft_errors = g_ft_failed = 0;
}

} // namespace

// ================================================================ C23: fallback font

namespace {

struct Damage { std::set<int> must; bool any = false; bool image_bad = false; std::string what; };

std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size()) {
        if (s[i] == ' ') { ++i; continue; }
        size_t j = std::min(s.find(' ', i), s.size());
        r.push_back(s.substr(i, j - i));
        i = j;
    }
    return r;
}
std::string unwords(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& w : v) { if (!s.empty()) s += ' '; s += w; }
    return s;
}

// Damage one line. Returns false if that kind does not apply
bool damage_line(std::vector<Line>& lines, const FontM& m, size_t& line, std::string& what)
{
    sim::NoFault nf; sim::NoPreempt np;
    switch (choose(12)) {
        case 0: { // field of the metrics
            line = 2;
            auto w = words(lines[2].text);
            size_t i = choose(11);
            static const char* bad[] = { "x", "1x", "99999999999", "-", "1e", "2" };
            size_t k = choose(6);
            if (k == 5 && !(i >= 2 && i <= 4)) k = 0;
            if ((i == 5 || i == 6) && k == 2) k = 0;
            w[i] = bad[k];
            lines[2].text = unwords(w);
            what = "bad field of metrics";
            return true;
        }
        case 1: { line = 2; auto w = words(lines[2].text); w.resize(1 + choose(10)); lines[2].text = unwords(w); what = "missing field of metrics"; return true; }
        case 2: line = 2; lines[2].text += " 7"; what = "excess field of metrics"; return true;
        case 3: {
            line = 1;
            static const char* bad[] = { "7-3", "x", "1-", "-5", "1--2", "1-2-3", "99999999999", "4294967295" };
            lines[1].text = bad[choose(8)];
            what = "bad code point range";
            return true;
        }
        case 4: {
            line = 1;
            auto& r = m.ranges[choose(m.ranges.size())];
            unsigned last = m.ranges.back().second;
            lines[1].text += " " + std::to_string(choose(2) ? r.first : last) + "-" + std::to_string(last + 3);
            what = "overlapping ranges";
            return true;
        }
        case 5: { // field of a glyph
            line = 3 + choose(m.glyphs.size());
            auto w = words(lines[line].text);
            static const char* bad[] = { "x", "1x", "99999999999", "-", "1.5", "-99999999999" };
            w[choose(w.size())] = bad[choose(6)];
            lines[line].text = unwords(w);
            what = "bad field of glyph";
            return true;
        }
        case 6: {
            line = 3 + choose(m.glyphs.size());
            auto w = words(lines[line].text);
            w.resize(1 + choose(line == 3 ? 9 : 10));
            lines[line].text = unwords(w);
            what = "missing field of glyph";
            return true;
        }
        case 7: line = 3; lines[3].text += " 65"; what = "code point for replacement glyph"; return true;
        case 8: {
            line = 3 + choose(m.glyphs.size());
            auto w = words(lines[line].text);
            auto& g = m.glyphs[line - 3];
            switch (choose(6)) {
                case 0: w[0] = std::to_string(m.iw - g.w + 1 + int(choose(3))); break;
                case 1: w[1] = std::to_string(m.ih - g.h + 1 + int(choose(3))); break;
                case 2: w[0] = "-1"; break;
                case 3: w[3] = std::to_string(m.ih - g.y + 1); break;
                case 4: w[2] = std::to_string(-1 - int(choose(3))); break;
                case 5: w[3] = std::to_string(-1 - int(choose(3))); break;
            }
            lines[line].text = unwords(w);
            what = "glyph outside of image";
            return true;
        }
        case 9: {
            line = 3 + choose(m.glyphs.size());
            auto w = words(lines[line].text);
            w[8 + choose(2)] = "-3";
            lines[line].text = unwords(w);
            what = "negative advance";
            return true;
        }
        case 10: {
            if (m.glyphs.size() < 2) return false;
            line = 4 + choose(m.glyphs.size() - 1);
            auto& g = m.glyphs[1 + choose(line - 3)];
            lines[line].text += " " + std::to_string(g.cps[choose(g.cps.size())]);
            what = "code point with several glyphs";
            return true;
        }
        case 11: {
            lines.resize(choose(4));
            line = ~size_t(0);
            what = "missing part";
            return true;
        }
    }
    return false;
}

void check_error_lines(const std::string& log, const std::vector<Line>& lines, const std::set<size_t>& damaged, bool cascade)
{
    sim::NoFault nf;
    for (size_t i = 0; i < lines.size(); ++i) {
        std::string loc = spec_path() + ":" + std::to_string(lines[i].num) + ":";
        bool reported = false;
        for (size_t p = 0; (p = log.find(loc, p)) != std::string::npos; ++p) {
            size_t b = log.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            if (log.compare(b, 7, "ERROR: ") == 0) reported = true;
        }
        if (damaged.count(i) && !reported) fail("error_line", "The error in line %d (%s) was not reported. The log: %s", lines[i].num, sim::quote(lines[i].text).c_str(), sim::quote(log, 400).c_str());
        if (!damaged.count(i) && !cascade && reported) fail("error_line", "An error was reported for line %d (%s), which has none", lines[i].num, sim::quote(lines[i].text).c_str());
    }
}

} // namespace

SIM_SCENARIO("C23", "fallback", 4, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        FontM m {};
        make_font(m);
        std::vector<Line> lines = spec_lines(m);
        std::string good_png = make_png(m.iw, m.ih, m.px);
        TestLogger logger;
        auto loader = new_loader("fallback", &logger);
        sim::fs::put(image_path(), good_png);
        u64 n = choose(4);
        for (u64 i = 0; i < n; ++i) {
            std::vector<Line> l2;
            std::set<size_t> damaged;
            bool missing_part = false, cascade = false;
            bool no_spec = false, bad_image = false;
            std::set<size_t> repeats;
            sim::NoFault nf;
            l2 = lines;
            std::string desc;
            u64 d = choose(4);
            for (u64 k = 0; k < d && !missing_part; ++k) {
                size_t line = 0;
                std::vector<Line> l3 = lines;
                std::string what;
                bool dup = false;
                if (!damage_line(l3, m, line, what)) continue;
                for (size_t q : damaged) if (q == line) dup = true;
                if (dup) continue; // two damages could make a valid line
                if (line == ~size_t(0)) { if (k) continue; missing_part = true; }
                else {
                    damaged.insert(line);
                    // A broken glyph line can free or use up code points, and broken metrics invalidate the glyphs
                    cascade = cascade || line == 2;
                    if (line == 3 && what == "missing field of glyph") cascade = true;
                    if (k > 0) cascade = true;
                }
                if (what == "code point with several glyphs") repeats.insert(line);
                if (missing_part) l2 = l3; else l2[line] = l3[line];
                desc += (desc.empty() ? "" : ", ") + what;
                sim::count("fault.damaged_line");
            }
            // A line that repeats a code point is fine if the other one is in a line that is rejected
            std::set<size_t> must = damaged;
            for (size_t p : repeats) { bool other = false; for (size_t q : damaged) if (q >= 3 && q != p) other = true; if (other || damaged.count(2)) must.erase(p); }
            if (d == 0) switch (choose(8)) {
                case 6: bad_image = true; sim::fs::put(image_path(), make_png(m.iw, m.ih + 1, std::vector<unsigned char>(size_t(m.iw * (m.ih + 1))))); desc = "image of wrong height"; break;
                case 7: if (m.ih == 1) break; bad_image = true; sim::fs::put(image_path(), make_png(m.iw, m.ih - 1, std::vector<unsigned char>(size_t(m.iw * (m.ih - 1))))); desc = "image of wrong height"; break;
                case 1: no_spec = true; desc = "no specification"; break;
                case 2: bad_image = true; sim::fs::put(image_path(), make_png(m.iw + 1, m.ih, std::vector<unsigned char>(size_t((m.iw + 1) * m.ih)))); desc = "image of wrong size"; break;
                case 3: bad_image = true; sim::fs::put(image_path(), good_png.substr(0, choose(good_png.size()))); desc = "truncated image"; break;
                case 4: bad_image = true; sim::fs::put(image_path(), "nonsense"); desc = "no image"; break;
                default: break;
            }
            if (no_spec || bad_image) sim::count("fault.resource");
            std::string text = assemble(l2);
            bool missing_file = no_spec && i == 0;
            if (missing_file) ; else if (no_spec) sim::fs::put(spec_path(), ""); else sim::fs::put(spec_path(), text);
            bool valid = damaged.empty() && !missing_part && !no_spec && !bad_image;
            trace("attempt with %s", valid ? "valid resources" : desc.c_str());
            bool io = choose(3) == 1;
            bool af = choose(3) == 1;
            u64 at = af ? sim::range(1, 120) : 0;
            bool persistent = af && choose(4) == 1;
            faults_on(io);
            auto errs = sim::fs::n_errors;
            logger.text.clear();
            std::unique_ptr<F::Face> face;
            Outcome o;
            {
                sim::AllowFault allow;
                if (af) sim::fail_alloc(at, persistent);
                o = attempt([&] { face = loader->load_default_face(); });
                sim::stop_alloc_faults();
            }
            faults_off();
            bool fired = af && sim::alloc_fault_fired();
            bool failed = sim::fs::n_errors != errs;
            if (o.ok && !valid) fail("accepted", "A face was loaded from %s", desc.c_str());
            if (o.ok && !face) fail("null", "No face was returned");
            if (!o.ok && valid && !fired && !failed) fail("spurious", "A valid font was rejected: %s. Log: %s", o.what.c_str(), sim::quote(logger.text, 300).c_str());
            if (o.alloc && !fired) fail("spurious", "bad_alloc without a failed allocation");
            if (!o.ok && !fired && !failed && !missing_file) {
                if (logger.text.find("ERROR: ") == std::string::npos) fail("no_message", "Loading failed without an error message (%s)", desc.c_str());
                check_error_lines(logger.text, l2, must, cascade || missing_part || no_spec);
            }
            if (sim::fs::num_open() != 0) fail("descriptor", "A file was left open");
            sim::state(sim::mix(u64(o.ok) | u64(o.alloc) << 1 | u64(failed) << 2 | u64(fired) << 3, sim::hash_bytes(desc.data(), desc.size())));
            if (o.ok) {
                sim::AllowFault allow;
                use_face(*face, m, choose(2));
                face.reset();
                break; // the font has been loaded for good
            }
            sim::fs::put(image_path(), good_png);
            if (valid && fired) break; // the font may have been loaded, and only the face not
        }
        // Whatever happened, the same loader can load the font when the files are fine
        {
            sim::NoFault nf;
            std::vector<Line> l2 = lines;
            sim::fs::put(spec_path(), assemble(l2));
            logger.text.clear();
        }
        std::vector<std::unique_ptr<F::Face>> faces;
        { sim::NoFault nf; faces.reserve(3); }
        for (u64 k = 0, kn = 1 + choose(2); k < kn; ++k) {
            Outcome o = attempt([&] { faces.push_back(loader->load_default_face()); });
            if (!o.ok) fail("retry", "A loader could not load a valid font after earlier failures: %s. Log: %s", o.what.c_str(), sim::quote(logger.text, 300).c_str());
        }
        for (auto& f : faces) use_face(*f, m, choose(2));
    }
}

// ---------------------------------------------------------------- threads

SIM_SCENARIO("C23", "threads", 2, sim::f_leakcheck | sim::f_faults | sim::f_threads)
{
    prewarm();
    {
        FontM m {};
        make_font(m);
        bool ft = choose(3) == 1;
        TestLogger logger;
        {
            sim::NoFault nf;
            std::vector<Line> l2 = spec_lines(m);
            sim::fs::put(spec_path(), assemble(l2));
            sim::fs::put(image_path(), make_png(m.iw, m.ih, m.px));
            if (ft) sim::fs::put(ttf_path, *g_mono);
        }
        size_t nt = 2 + choose(3);
        std::vector<int> turns(nt), failures(nt);
        std::vector<int> glyph(nt);
        for (size_t t = 0; t < nt; ++t) { turns[t] = 1 + int(choose(3)); glyph[t] = int(choose(100)); }
        auto loader = new_loader(ft ? "freetype" : "fallback", &logger);
        bool io = choose(3) == 1, af = choose(4) == 1;
        sim::fs::config.yield = true;
        faults_on(io);
        auto errs = sim::fs::n_errors;
        std::vector<std::string> error(nt);
        // What a freetype face must render, single threaded
        std::vector<unsigned char> reference[2];
        auto render = [](F::Face& f, int g, std::vector<unsigned char>& mem) {
            f.load_glyph(f.find_glyph(F::CodePoint::char_type('A' + g % 26)));
            f.set_target_pos({ 1, 14 });
            f.render_glyph_mask_a({ reinterpret_cast<I::int8_type*>(mem.data()), 1, 16 }, I::Size(16, 16));
        };
        std::vector<std::vector<unsigned char>> pix(nt);
        g_wrap_ft = ft;
        if (ft && choose(3) == 1) g_ft_errors = 5 + choose(20);
        sim::sched_begin();
        bool preempt = choose(2);
        sim::set_switch_rate(2 + choose(preempt ? 200 : 20));
        sim::set_preempt(preempt);
        if (af) sim::fail_alloc(sim::range(1, 200), choose(4) == 1);
        {
            std::vector<std::thread> th;
            { sim::NoFault nf; sim::NoPreempt np; th.reserve(nt); }
            auto work = [&](size_t t) {
                for (int k = 0; k < turns[t]; ++k) {
                    std::unique_ptr<F::Face> face;
                    Outcome o = attempt([&] { face = loader->load_default_face(); });
                    if (!o.ok) {
                        sim::NoFault nf; sim::NoPreempt np;
                        ++failures[t];
                        error[t] = o.alloc ? "bad_alloc" : o.what;
                        continue;
                    }
                    if (!ft) {
                        check_metrics(*face, m);
                        size_t g = size_t(glyph[t]) % m.glyphs.size();
                        o = attempt([&] { face->load_glyph(g); });
                        if (!o.ok) { if (!af) fail("spurious", "load_glyph() failed: %s", o.what.c_str()); continue; }
                        check_glyph_metrics(*face, m.glyphs[g], g);
                        Mask k2;
                        { sim::NoFault nf; k2 = mask_of(m, m.glyphs[g]); }
                        face->set_target_pos({ 3, 12 });
                        o = attempt([&] { check_tray(*face, k2, 3, 12 - k2.h); });
                        if (!o.ok && !af) fail("spurious", "Rendering failed: %s", o.what.c_str());
                    }
                    else {
                        std::vector<unsigned char> p;
                        { sim::NoFault nf; sim::NoPreempt np; p.assign(256, 0); }
                        o = attempt([&] { render(*face, glyph[t], p); });
                        if (!o.ok) { if (!af && !g_ft_errors) fail("spurious", "Rendering failed: %s", o.what.c_str()); }
                        else { sim::NoFault nf; sim::NoPreempt np; pix[t] = p; }
                        face.reset();
                    }
                }
            };
            for (size_t t = 1; t < nt; ++t) { sim::NoFault nf; th.emplace_back([&, t] { work(t); }); }
            work(0);
            for (auto& x : th) x.join();
            sim::stop_alloc_faults();
            sim::sched_end();
            bool fired = af && sim::alloc_fault_fired();
            faults_off();
            bool failed = sim::fs::n_errors != errs || g_ft_failed;
            g_ft_errors = 0;
            for (size_t t = 0; t < nt; ++t) if (failures[t] && !fired && !failed) fail("spurious", "Loading failed in thread %zu: %s", t, error[t].c_str());
            g_wrap_ft = false;
            if (ft) for (size_t t = 0; t < nt; ++t) if (!pix[t].empty()) {
                sim::NoFault nf;
                g_wrap_ft = false;
                auto l = new_loader("freetype", &logger);
                auto f = l->load_default_face();
                std::vector<unsigned char> p(256, 0);
                render(*f, glyph[t], p);
                if (p != pix[t]) fail("threads", "A glyph was rendered differently when several threads used faces of one loader");
            }
        }
        sim::fs::config.yield = false;
        Outcome o = attempt([&] { auto f = loader->load_default_face(); if (!ft) check_metrics(*f, m); });
        if (!o.ok) fail("retry", "The loader is unusable after failures: %s", o.what.c_str());
        u64 loads = 0;
        for (size_t p = 0; (p = logger.text.find("Fallback font loaded", p)) != std::string::npos; ++p) ++loads;
        if (loads > 1) fail("loads", "The font was loaded %lu times", loads);
        if (sim::fs::num_open() != 0) fail("descriptor", "A file was left open");
        loader.reset();
        if (g_mapped != 0) fail("mapping", "%ld bytes were left mapped", g_mapped);
        sim::state(sim::mix(u64(ft) | u64(nt) << 1, loads | sim::num_switches() << 8));
    }
}

// ================================================================ C22: FreeType faces

namespace {

struct Outside { bool s = g_wrap_ft; sim::NoFault nf; sim::NoPreempt np; Outside() { g_wrap_ft = false; } ~Outside() { g_wrap_ft = s; } };

// Plain use of FreeType
struct Ref {
    FT_Library lib = nullptr;
    FT_Face face = nullptr;
    Ref(const std::string& data)
    {
        Outside o;
        FT_Error e = FT_Init_FreeType(&lib);
        if (!e) e = FT_New_Memory_Face(lib, reinterpret_cast<const FT_Byte*>(data.data()), FT_Long(data.size()), 0, &face);
        if (e) sim::harness_error("FreeType error %d", e);
    }
    ~Ref()
    {
        Outside o;
        FT_Done_Face(face);
        FT_Done_FreeType(lib);
    }
    void size(FT_F26Dot6 w, FT_F26Dot6 h) { Outside o; if (FT_Set_Char_Size(face, w, h, 0, 0)) sim::harness_error("FT_Set_Char_Size"); }
    void fixed(int i) { Outside o; if (FT_Select_Size(face, i)) sim::harness_error("FT_Select_Size"); }
    void load(unsigned i, bool gf) { Outside o; if (FT_Load_Glyph(face, i, gf ? FT_LOAD_DEFAULT : FT_LOAD_NO_HINTING)) sim::harness_error("FT_Load_Glyph"); }
};

bool integral(double v) { return v == std::floor(v); }
bool near(double a, double b, double eps) { return std::abs(a - b) <= eps; }

struct State {
    bool scalable = true;
    FT_F26Dot6 w = 0, h = 0;  // size
    int fixed = -1;           // selected fixed size
    bool loaded = false;      // current glyph is known
    unsigned glyph = 0;
    bool gf = true;
    double tx = 0, ty = 0;
    int px = 0, py = 0;
};

void check_size(F::Face& f, Ref& r, const State& s)
{
    sim::NoFault nf;
    F::Size z = f.get_size();
    if (!near(z.width, s.w / 64.0, 1 / 64.0) || !near(z.height, s.h / 64.0, 1 / 64.0)) fail("size", "The size is %g x %g instead of %g x %g", z.width, z.height, s.w / 64.0, s.h / 64.0);
    for (bool v : { false, true }) {
        if (!integral(f.get_baseline_spacing(v, true)) || !integral(f.get_baseline_offset(v, true))) fail("grid_fitting", "The grid fitted baseline spacing or offset is not a whole number of pixels");
    }
    if (!s.scalable) return;
    double upem = r.face->units_per_EM;
    double asc = r.face->ascender, desc = r.face->descender, height = r.face->height, adv = r.face->max_advance_width;
    double sx = s.w / 64.0 / upem, sy = s.h / 64.0 / upem;
    // When there are fixed sizes, FreeType rounds to one of those if one is near
    if (r.face->num_fixed_sizes) { sx = double(r.face->size->metrics.x_scale) / 65536 / 64; sy = double(r.face->size->metrics.y_scale) / 65536 / 64; }
    auto check = [&](const char* what, bool v, bool offset, double raw, double s2, double em, double parts) {
        double got = offset ? f.get_baseline_offset(v, false) : f.get_baseline_spacing(v, false);
        if (!near(got, raw * s2, 1.5 * s2 + 1 / 16.0)) fail("baseline", "The %s is %g instead of %g", what, got, raw * s2);
        double got_gf = offset ? f.get_baseline_offset(v, true) : f.get_baseline_spacing(v, true);
        double scale_error = std::abs(std::round(em) - em) * (std::abs(raw) + (offset ? std::abs(v ? adv : height) : 0)) / upem;
        if (!near(got_gf, raw * s2, scale_error + 0.5 * parts + 1.5 * s2 + 1 / 16.0)) fail("baseline_gf", "The grid fitted %s is %g although it is %g when not grid fitted", what, got_gf, raw * s2);
    };
    check("baseline spacing of horizontal layout", false, false, height, sy, s.h / 64.0, 1);
    check("baseline offset of horizontal layout", false, true, (height - asc - desc) / 2, sy, s.h / 64.0, 2);
    check("baseline spacing of vertical layout", true, false, adv, sx, s.w / 64.0, 1);
    check("baseline offset of vertical layout", true, true, adv / 2, sx, s.w / 64.0, 2);
}

void check_ft_glyph(F::Face& f, Ref& r, const State& s, Mask* mask, int& left, int& top)
{
    sim::NoFault nf;
    const FT_Glyph_Metrics& m = r.face->glyph->metrics;
    double adv = double(m.horiAdvance) / 64, l = double(m.horiBearingX) / 64, b = double(m.horiBearingY - m.height) / 64;
    double w = double(m.width) / 64, h = double(m.height) / 64;
    if (s.gf) {
        double rr = std::ceil(l + w), t = std::ceil(b + h);
        adv = std::round(adv); l = std::floor(l); b = std::floor(b);
        w = rr - l; h = t - b;
    }
    auto hb = f.get_glyph_bearing(false), vb = f.get_glyph_bearing(true);
    double ha = f.get_glyph_advance(false), va = f.get_glyph_advance(true);
    if (ha != adv) fail("advance", "The advance of glyph %u is %g instead of %g", s.glyph, ha, adv);
    if (hb[0] != -l || hb[1] != -b) fail("bearing", "The bearing of glyph %u is (%g, %g) instead of (%g, %g)", s.glyph, hb[0], hb[1], -l, -b);
    if (s.gf && !(integral(va) && integral(vb[0]) && integral(vb[1]))) fail("grid_fitting", "The metrics of a grid fitted glyph are not whole numbers of pixels");
    if (!s.scalable) return;
    // The font has no vertical metrics. They are emulated.
    if (va != f.get_baseline_spacing(false, s.gf)) fail("vertical", "The vertical advance of glyph %u is %g although the baseline spacing is %g", s.glyph, va, f.get_baseline_spacing(false, s.gf));
    if (!near(vb[0], hb[0] + adv / 2, s.gf ? 0.5 : 1e-9) || !near(vb[1], hb[1] - f.get_baseline_offset(false, s.gf), 1e-9))
        fail("vertical", "The vertical bearing of glyph %u is (%g, %g), the horizontal one is (%g, %g), and the advance is %g", s.glyph, vb[0], vb[1], hb[0], hb[1], adv);
    int bx[4] = { 99, 99, 99, 99 };
    f.get_glyph_pa_box(bx[0], bx[1], bx[2], bx[3]);
    int e[4] = { int(std::floor(s.tx)), int(std::ceil(s.tx + w)), int(std::floor(s.ty)), int(std::ceil(s.ty + h)) };
    for (int i = 0; i < 4; ++i) if (bx[i] != e[i]) fail("pa_box", "The pixel aligned box of glyph %u, at (%g, %g), with size %g x %g, is [%d,%d]x[%d,%d]", s.glyph, s.tx, s.ty, w, h, bx[0], bx[1], bx[2], bx[3]);
    I::Box box = f.get_target_glyph_box();
    left = s.px + e[0]; top = s.py - e[3];
    if (box.pos.x != left || box.pos.y != top || box.size.width != e[1] - e[0] || box.size.height != e[3] - e[2]) fail("target_box", "The target box is at (%d,%d) instead of (%d,%d)", box.pos.x, box.pos.y, left, top);
    if (!mask) return;
    mask->w = e[1] - e[0]; mask->h = e[3] - e[2];
    mask->p.assign(size_t(mask->w) * size_t(mask->h), 0);
    if (mask->p.empty()) return;
    Outside o;
    FT_Outline ol;
    auto& src = r.face->glyph->outline;
    if (FT_Outline_New(r.lib, FT_UInt(src.n_points), src.n_contours, &ol)) sim::harness_error("FT_Outline_New");
    FT_Outline_Copy(&src, &ol);
    FT_Outline_Translate(&ol, FT_Pos(std::lround(s.tx * 64)) - m.horiBearingX, FT_Pos(std::lround(s.ty * 64)) - (m.horiBearingY - m.height));
    // The FreeType rasterizer can produce slightly different levels when the outline is shifted by whole pixels
    struct Target { Mask* m; int x, top; } target { mask, e[0], e[3] };
    FT_Raster_Params par {};
    par.flags = FT_RASTER_FLAG_AA | FT_RASTER_FLAG_DIRECT | FT_RASTER_FLAG_CLIP;
    par.clip_box.xMin = e[0]; par.clip_box.xMax = e[1]; par.clip_box.yMin = e[2]; par.clip_box.yMax = e[3];
    par.user = &target;
    par.gray_spans = [](int y, int n, const FT_Span* sp, void* u) {
        auto& t = *static_cast<Target*>(u);
        for (int i = 0; i < n; ++i) for (int k = 0; k < sp[i].len; ++k) t.m->p[size_t(t.top - 1 - y) * size_t(t.m->w) + size_t(sp[i].x - t.x + k)] = sp[i].coverage;
    };
    if (FT_Outline_Render(r.lib, &ol, &par)) sim::harness_error("FT_Outline_Render");
    FT_Outline_Done(r.lib, &ol);
}

void use_ft_face(F::Face& f, Ref& r, bool scalable, bool strikes, bool faults)
{
    State s;
    s.scalable = scalable;
    int nfixed = strikes ? int(std::size(g_strike_sizes)) : 0;
    auto nearest = [&](double w, double h, int i) {
        auto d = [&](const Strike& k) { return (k.x - w) * (k.x - w) + (k.y - h) * (k.y - h); };
        for (auto& k : g_strike_sizes) if (d(k) < d(g_strike_sizes[i]) - 1e-9) return false;
        return true;
    };
    {
        sim::NoFault nf;
        if (f.get_family_name() != r.face->family_name) fail("metrics", "The family name is %s", sim::quote(f.get_family_name()).c_str());
        if (f.is_bold() || f.is_italic() || f.is_monospace() != bool(FT_IS_FIXED_WIDTH(r.face)) || f.is_scalable() != scalable) fail("metrics", "The style is wrong");
        if (f.get_num_fixed_sizes() != nfixed) fail("fixed", "There are %d fixed sizes instead of %d", f.get_num_fixed_sizes(), nfixed);
        for (int i = 0; i < nfixed; ++i) { F::Size z = f.get_fixed_size(i); if (z.width != g_strike_sizes[i].x || z.height != g_strike_sizes[i].y) fail("fixed", "Fixed size %d is %g x %g", i, z.width, z.height); }
        // initial state
        s.w = s.h = 12 * 64;
        if (strikes) s.fixed = 2;
        if (s.fixed >= 0) r.fixed(s.fixed); else r.size(s.w, s.h);
        check_size(f, r, s);
        r.load(0, true);
        s.loaded = true;
        int l, t;
        check_ft_glyph(f, r, s, nullptr, l, t);
    }
    u64 steps = 2 + choose(14);
    for (u64 k = 0; k < steps; ++k) {
        bool af = faults && choose(6) == 1;
        if (af) sim::fail_alloc(sim::range(1, 4), choose(3) == 1);
        if (faults && choose(4) == 1) g_ft_errors = 2;
        g_ft_failed = 0;
        auto done = [&](const Outcome& o, const char* what) {
            sim::stop_alloc_faults();
            bool fired = af && sim::alloc_fault_fired();
            if (o.ok && g_ft_failed) fail("error_lost", "%s succeeded although FreeType failed", what);
            if (!o.ok && !g_ft_failed && !(fired && o.alloc)) fail("spurious", "%s failed: %s", what, o.alloc ? "bad_alloc" : o.what.c_str());
            g_ft_errors = g_ft_failed = 0;
            return o.ok;
        };
        auto resized = [&] { if (s.fixed >= 0) r.fixed(s.fixed); else r.size(s.w, s.h); s.loaded = false; };
        switch (choose(8)) {
            case 0: {
                unsigned c = choose(6) == 1 ? unsigned(choose(0x120000)) : unsigned(choose(0x180));
                size_t i = 0;
                Outcome o = attempt([&] { i = f.find_glyph(F::CodePoint::char_type(c)); });
                if (done(o, "find_glyph()") && i != FT_Get_Char_Index(r.face, c)) fail("find_glyph", "The glyph of code point %u is said to be %zu instead of %u", c, i, FT_Get_Char_Index(r.face, c));
                break;
            }
            case 1: case 2: {
                unsigned i = scalable ? unsigned(choose(choose(4) ? 100 : u64(r.face->num_glyphs))) : unsigned(choose(4));
                bool gf = choose(2) == 0;
                trace("load_glyph(%u, %d)", i, gf);
                s.loaded = false;
                Outcome o = attempt([&] { f.load_glyph(i, gf); });
                if (done(o, "load_glyph()")) { s.loaded = true; s.glyph = i; s.gf = gf; s.tx = s.ty = 0; r.load(i, gf); }
                break;
            }
            case 3: {
                double dx = (double(choose(200)) - 100) / 8, dy = (double(choose(200)) - 100) / 8;
                trace("translate_glyph(%g, %g)", dx, dy);
                f.translate_glyph({ dx, dy });
                s.tx += dx; s.ty += dy;
                break;
            }
            case 4:
                s.px = int(choose(40)) - 8; s.py = int(choose(40)) - 8;
                trace("set_target_pos(%d, %d)", s.px, s.py);
                f.set_target_pos({ s.px, s.py });
                break;
            case 5: {
                sim::stop_alloc_faults();
                g_ft_errors = 0;
                size_t bad = size_t(r.face->num_glyphs) + choose(3);
                Outcome o = attempt([&] { f.load_glyph(bad); });
                if (!o.out_of_range) fail("range", "Loading glyph %zu of %ld did not throw std::out_of_range", bad, long(r.face->num_glyphs));
                o = attempt([&] { f.set_fixed_size(choose(2) ? nfixed : -1); });
                if (!o.out_of_range) fail("range", "Selecting a fixed size that does not exist did not throw std::out_of_range");
                o = attempt([&] { (void) f.get_fixed_size(choose(2) ? nfixed : -1); });
                if (!o.out_of_range) fail("range", "Asking for a fixed size that does not exist did not throw std::out_of_range");
                if (!scalable) { o = attempt([&] { f.set_scaled_size(F::Size(20)); }); if (o.ok) fail("scaled", "A font that is not scalable was scaled"); }
                break;
            }
            case 6: {
                unsigned a = unsigned(choose(100)), b = unsigned(choose(100));
                bool v = choose(4) == 1, gf = choose(2);
                double e = 0, got = 0;
                FT_Vector d {};
                { Outside o; if (!v && FT_Get_Kerning(r.face, a, b, gf ? FT_KERNING_DEFAULT : FT_KERNING_UNFITTED, &d) == 0) e = double(d.x) / 64; }
                if (e != 0) sim::count("probe.kerning");
                Outcome o = attempt([&] { got = f.get_kerning(a, b, v, gf); });
                if (done(o, "get_kerning()")) {
                    if (got != e) fail("kerning", "The kerning of glyphs %u and %u is %g instead of %g", a, b, got, e);
                    if ((gf && !integral(got)) || ((a == 0 || b == 0) && got != 0)) fail("kerning", "The kerning of glyphs %u and %u is %g", a, b, got);
                }
                break;
            }
            case 7: {
                FT_F26Dot6 w = 64 + FT_F26Dot6(choose(choose(2) ? 30 : 80)) * 64 + FT_F26Dot6(choose(3) == 1 ? choose(64) : 0);
                FT_F26Dot6 h = choose(3) ? w : 64 + FT_F26Dot6(choose(50)) * 64 + FT_F26Dot6(choose(64));
                if (nfixed && choose(3) == 1) { // at or near a fixed size
                    const Strike& k = g_strike_sizes[choose(u64(nfixed))];
                    bool swapped = choose(4) == 1;
                    w = (swapped ? k.y : k.x) * 64; h = (swapped ? k.x : k.y) * 64;
                    if (choose(3) == 1) { w += FT_F26Dot6(choose(3)) - 1; h += FT_F26Dot6(choose(3)) - 1; }
                }
                F::Size z(double(w) / 64, double(h) / 64);
                switch (choose(3)) {
                    case 0: {
                        trace("set_approx_size(%g, %g)", z.width, z.height);
                        Outcome o = attempt([&] { f.set_approx_size(z); });
                        if (done(o, "set_approx_size()")) {
                            s.fixed = -1;
                            s.w = w; s.h = h;
                            F::Size got = f.get_size();
                            for (int i = 0; i < nfixed; ++i) if (got.width == g_strike_sizes[i].x && got.height == g_strike_sizes[i].y) { if (!scalable || (w == g_strike_sizes[i].x * 64 && h == g_strike_sizes[i].y * 64)) s.fixed = i; }
                            if (!scalable) {
                                if (s.fixed < 0 || !nearest(z.width, z.height, s.fixed)) fail("nearest", "%g x %g was approximated by %g x %g, which is not the nearest fixed size", z.width, z.height, got.width, got.height);
                                s.w = g_strike_sizes[s.fixed].x * 64; s.h = g_strike_sizes[s.fixed].y * 64;
                            }
                            resized();
                        }
                        break;
                    }
                    case 1: {
                        if (!scalable) { done(Outcome { true }, ""); break; }
                        trace("set_scaled_size(%g, %g)", z.width, z.height);
                        Outcome o = attempt([&] { f.set_scaled_size(z); });
                        if (done(o, "set_scaled_size()")) { s.fixed = -1; s.w = w; s.h = h; resized(); }
                        break;
                    }
                    case 2: {
                        if (!nfixed) break;
                        int i = int(choose(u64(nfixed)));
                        trace("set_fixed_size(%d)", i);
                        Outcome o = attempt([&] { f.set_fixed_size(i); });
                        if (done(o, "set_fixed_size()")) { s.fixed = i; s.w = g_strike_sizes[i].x * 64; s.h = g_strike_sizes[i].y * 64; resized(); }
                        break;
                    }
                }
                check_size(f, r, s);
                break;
            }
        }
        sim::stop_alloc_faults();
        g_ft_errors = g_ft_failed = 0;
        if (!s.loaded) continue;
        Mask mask;
        int x = 0, y = 0;
        bool render = scalable && choose(2);
        check_ft_glyph(f, r, s, render ? &mask : nullptr, x, y);
        if (!render) continue;
        bool tray = choose(2);
        bool af2 = faults && choose(5) == 1;
        if (faults && choose(5) == 1) g_ft_errors = 2;
        if (af2) sim::fail_alloc(sim::range(1, 6), choose(3) == 1);
        Outcome o = attempt([&] { if (tray) check_tray(f, mask, x, y); else check_writer(f, mask, x, y); });
        sim::stop_alloc_faults();
        if (!o.ok && !g_ft_failed && !(af2 && sim::alloc_fault_fired() && o.alloc)) fail("spurious", "Rendering failed: %s", o.alloc ? "bad_alloc" : o.what.c_str());
        g_ft_errors = g_ft_failed = 0;
        sim::state(sim::mix(sim::hash_bytes(mask.p.data(), mask.p.size()), u64(o.ok) | u64(tray) << 1));
    }
}

} // namespace

SIM_SCENARIO("C22", "freetype", 4, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        static std::string* const* const fonts[] = { &g_mono, &g_sans, &g_odd, &g_strikes, &g_bitmap };
        int kind = int(choose(5));
        const std::string& data = **fonts[kind];
        bool scalable = kind != 4, strikes = kind >= 3;
        static const char* names[] = { "mono", "sans", "odd metrics", "with fixed sizes", "only fixed sizes" };
        trace("font: %s", names[kind]);
        Ref ref(data);
        TestLogger logger;
        std::unique_ptr<F::Loader> loader;
        g_wrap_ft = true;
        u64 n = choose(3);
        bool present = choose(5) != 1;
        if (present) sim::fs::put(ttf_path, data);
        for (u64 i = 0; i < n; ++i) {
            bool io = choose(2), af = choose(3) == 1;
            faults_on(io);
            if (choose(3) == 1) g_ft_errors = 3;
            g_ft_failed = 0;
            auto errs = sim::fs::n_errors;
            if (af) sim::fail_alloc(sim::range(1, 12), choose(3) == 1);
            Outcome o;
            std::unique_ptr<F::Face> face;
            bool make = !loader;
            if (make) {
                sim::NoFault nf;
                F::Loader::Config config;
                config.logger = &logger;
                std::filesystem::path dir(dir_path);
                std::locale loc = std::locale::classic();
                auto& im = impl("freetype");
                sim::AllowFault allow;
                o = attempt([&] { loader = im.new_loader(dir, loc, config); });
            }
            if (!make || o.ok) o = attempt([&] { face = loader->load_default_face(); });
            sim::stop_alloc_faults();
            bool fired = af && sim::alloc_fault_fired();
            bool failed = sim::fs::n_errors != errs || g_ft_failed;
            g_ft_errors = g_ft_failed = 0;
            faults_off();
            if (o.ok && !present) fail("missing", "A font was loaded from a missing file");
            if (!o.ok && present && !fired && !failed) fail("spurious", "Loading failed: %s", o.alloc ? "bad_alloc" : o.what.c_str());
            if (sim::fs::num_open() != 0) fail("descriptor", "A file was left open");
            if (o.ok) use_ft_face(*face, ref, scalable, strikes, choose(2));
        }
        sim::fs::put(ttf_path, data);
        if (!loader) loader = new_loader("freetype", &logger);
        std::vector<std::unique_ptr<F::Face>> faces;
        { sim::NoFault nf; faces.reserve(3); }
        for (u64 k = 0, kn = 1 + choose(2); k < kn; ++k) {
            Outcome o = attempt([&] { faces.push_back(loader->load_default_face()); });
            if (!o.ok) fail("retry", "A loader could not load a font after earlier failures: %s", o.what.c_str());
        }
        for (auto& f : faces) use_ft_face(*f, ref, scalable, strikes, choose(2));
        faces.clear();
        loader.reset();
        if (g_mapped != 0) fail("mapping", "%ld bytes were left mapped", g_mapped);
        g_wrap_ft = false;
    }
}

// ================================================================ C32: regeneration of the fallback font

namespace {

struct SourceError : std::runtime_error { SourceError() : std::runtime_error("Failure of the source font") {} };

// A font face that plays the role of the source
class FakeFace : public F::Face {
public:
    const FontM& m;
    F::Size size;
    u64 errors = 0;        // 1 in n calls fails
    bool failed = false;
    std::optional<F::Size> approx;
    size_t cur = 0;
    vector_type tr;
    FakeFace(const FontM& m_) : m(m_), size(m_.rw, m_.rh) {}
    void call(const char* what)
    {
        if (errors == 0 || choose(errors) != 1) return;
        trace("  source: %s() fails", what);
        sim::count("fault.source_font");
        failed = true;
        throw SourceError();
    }
    auto get_family_name() -> std::string_view override { call("get_family_name"); return m.family; }
    bool is_bold() noexcept override { return m.bold; }
    bool is_italic() noexcept override { return m.italic; }
    bool is_monospace() noexcept override { return m.mono; }
    bool is_scalable() noexcept override { return true; }
    int get_num_fixed_sizes() override { return 0; }
    auto get_fixed_size(int) -> F::Size override { throw std::out_of_range("fixed size"); }
    void set_fixed_size(int) override { throw std::out_of_range("fixed size"); }
    void set_scaled_size(F::Size s) override { size = s; }
    void set_approx_size(F::Size s) override { call("set_approx_size"); approx = s; size = s; }
    auto get_size() noexcept -> F::Size override { return size; }
    auto get_baseline_spacing(bool v, bool) noexcept -> float_type override { return v ? m.vbs : m.hbs; }
    auto get_baseline_offset(bool v, bool) noexcept -> float_type override { return v ? m.vbo : m.hbo; }
    auto find_glyph(char_type c) -> size_t override { call("find_glyph"); return m.find(unsigned(c)); }
    auto get_kerning(size_t, size_t, bool, bool) -> float_type override { return 0; }
    void load_glyph(size_t i, bool) override { call("load_glyph"); if (i >= m.glyphs.size()) throw std::out_of_range("glyph"); cur = i; tr = {}; }
    auto get_glyph_advance(bool v) noexcept -> float_type override { return v ? g().vadv : g().hadv; }
    auto get_glyph_bearing(bool v) noexcept -> vector_type override { return v ? vector_type(g().vbx, g().vby) : vector_type(g().hbx, g().hby); }
    void translate_glyph(vector_type v) override { tr += v; }
protected:
    void do_get_glyph_pa_box(int& l, int& r, int& b, int& t) override
    {
        call("get_glyph_pa_box");
        l = int(std::lround(tr[0])); b = int(std::lround(tr[1]));
        r = l + g().w; t = b + g().h;
    }
    void do_render_glyph_mask(I::Pos pos, const iter_type& iter, I::Size s) override
    {
        call("render_glyph_mask");
        int x0 = pos.x + int(std::lround(tr[0])), y0 = pos.y - int(std::lround(tr[1])) - g().h;
        for (int y = 0; y < g().h; ++y) for (int x = 0; x < g().w; ++x) {
            int px = x0 + x, py = y0 + y;
            if (px < 0 || py < 0 || px >= s.width || py >= s.height) continue;
            iter.base[iter.horz_stride * px + iter.vert_stride * py] = I::int8_type(m.at(g().x + x, g().y + y));
        }
    }
    void do_render_glyph_rgba(I::Pos, const iter_type&, I::Size) override { fail("rgba", "The glyph of the source was rendered in color"); }
private:
    const GlyphM& g() const { return m.glyphs[cur]; }
};

// What is read through the public interface of a face
struct GlyphView {
    double hadv, vadv, hbx, hby, vbx, vby; int w, h; std::vector<unsigned char> px;
    bool operator==(const GlyphView&) const = default;
};
GlyphView view_of(F::Face& f, size_t i, bool gf)
{
    GlyphView v {};
    f.load_glyph(i, gf);
    auto h = f.get_glyph_bearing(false), b = f.get_glyph_bearing(true);
    v.hadv = f.get_glyph_advance(false); v.vadv = f.get_glyph_advance(true);
    v.hbx = h[0]; v.hby = h[1]; v.vbx = b[0]; v.vby = b[1];
    I::Size z = f.get_glyph_pa_size();
    v.w = z.width; v.h = z.height;
    v.px.assign(size_t(v.w) * size_t(v.h), 0);
    f.set_target_pos({ 0, 0 });
    I::Box box = f.get_target_glyph_box();
    f.set_target_pos({ -box.pos.x, -box.pos.y });
    if (!v.px.empty()) f.render_glyph_mask_a({ reinterpret_cast<I::int8_type*>(v.px.data()), 1, v.w }, z);
    f.set_target_pos({ 0, 0 });
    return v;
}

class Grouping : public std::numpunct<char> {
protected:
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\2"; }
};

const std::locale& make_locale(bool grouping)
{
    static const std::locale loc(std::locale::classic(), new Grouping);
    return grouping ? loc : std::locale::classic();
}

F::CodePoint code_point(unsigned v) { F::CodePoint c; if (!c.try_from_int(F::CodePoint::int_type(v))) sim::harness_error("code point"); return c; }

using Ranges = std::vector<std::pair<unsigned, unsigned>>;

// The regenerated font is in place. It must be the same as the source within the ranges.
void check_regenerated(F::Face& src, F::Face& f, const Ranges& ranges, const std::string& family)
{
    sim::NoFault nf;
    if (f.get_family_name() != family) fail("family", "The family name is %s instead of %s", sim::quote(f.get_family_name()).c_str(), sim::quote(family).c_str());
    if (f.is_bold() != src.is_bold() || f.is_italic() != src.is_italic() || f.is_monospace() != src.is_monospace()) fail("style", "The style is wrong");
    F::Size a = src.get_size(), b = f.get_size();
    if (std::abs(a.width - b.width) > 1e-5 * a.width || std::abs(a.height - b.height) > 1e-5 * a.height) fail("size", "The size is %g x %g instead of %g x %g", b.width, b.height, a.width, a.height);
    for (bool v : { false, true }) {
        if (f.get_baseline_spacing(v) != src.get_baseline_spacing(v) || f.get_baseline_offset(v) != src.get_baseline_offset(v))
            fail("baseline", "The baseline offset and spacing are %g and %g instead of %g and %g", f.get_baseline_offset(v), f.get_baseline_spacing(v), src.get_baseline_offset(v), src.get_baseline_spacing(v));
    }
    auto same = [&](size_t i, size_t j, unsigned c) {
        GlyphView x = view_of(src, i, true), y = view_of(f, j, true);
        if (x.w != y.w || x.h != y.h) fail("glyph_size", "The glyph of code point %u has size %d x %d instead of %d x %d", c, y.w, y.h, x.w, x.h);
        if (x.px != y.px) fail("glyph_pixels", "The glyph of code point %u looks different", c);
        if (!(x == y)) fail("glyph_metrics", "The bearing or advance of the glyph of code point %u is wrong", c);
    };
    same(0, 0, 0);
    std::map<size_t, size_t> seen;
    u64 covered = 0;
    std::set<unsigned> outside;
    auto inside = [&](unsigned c) { for (auto& r : ranges) if (c >= r.first && c <= r.second) return true; return false; };
    for (auto& r : ranges) {
        if (r.first > 0) outside.insert(r.first - 1);
        if (r.second < 0x7fffffff) outside.insert(r.second + 1);
        for (unsigned c = r.first; ; ++c) {
            size_t i = src.find_glyph(F::CodePoint::char_type(c)), j = f.find_glyph(F::CodePoint::char_type(c));
            if ((i == 0) != (j == 0)) fail("coverage", j ? "Code point %u has a glyph although it has none in the source" : "Code point %u has no glyph although it has one in the source", c);
            if (i) {
                ++covered;
                auto p = seen.emplace(i, j);
                if (!p.second && p.first->second != j) fail("sharing", "Code point %u has a glyph of its own although it shares it in the source", c);
                if (p.second) same(i, j, c);
            }
            if (c == r.second) break;
        }
    }
    for (unsigned c = 0; c < 130; ++c) outside.insert(c);
    for (unsigned c : outside) if (!inside(c) && f.find_glyph(F::CodePoint::char_type(c)) != 0) fail("outside", "Code point %u has a glyph although it is not in any of the ranges", c);
    sim::state(sim::mix(covered, seen.size()));
}

} // namespace

SIM_SCENARIO("C32", "regenerate", 4, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    bool grouping = choose(3) == 1;
    const std::locale* loc;
    { sim::NoFault nf; loc = &make_locale(grouping); }
    TestLogger logger;
    // The old font
    FontM old {};
    make_font(old);
    bool real = choose(4) == 1;
    if (real) { old.rw = std::min(old.rw, 20.0); old.rh = std::min(old.rh, 20.0); } // so glyphs are of moderate size
    int state = int(choose(4)); // 0: good, 1: absent, 2: bad, 3: empty
    std::string old_spec, old_image = make_png(old.iw, old.ih, old.px);
    {
        sim::NoFault nf;
        auto lines = spec_lines(old);
        if (state == 2) lines[choose(lines.size() - 1) + 1].text += " nonsense";
        if (state == 0 || state == 2) old_spec = assemble(lines);
        if (state != 1) { sim::fs::put(spec_path(), old_spec); sim::fs::put(image_path(), old_image); }
    }
    static const char* states[] = { "good", "absent", "bad", "empty" };
    trace("grouping %d; old font: %s", grouping, states[state]);
    if (choose(4) == 1) { sim::fs::put(spec_path("-new"), "some rather old contents of the file that will be replaced by the new one"); sim::fs::put(image_path("-new"), old_image); }
    if (state == 0) {
        sim::NoFault nf;
        auto loader = new_loader("fallback", &logger, *loc);
        Outcome o = attempt([&] { check_metrics(*loader->load_default_face(), old); });
        if (!o.ok) fail("load_old", "The old font could not be loaded: %s %s", o.what.c_str(), sim::quote(logger.text, 300).c_str());
    }
    // The source
    FontM m {};
    make_font(m);
    if (m.glyphs[0].w == 0 || m.glyphs[0].h == 0) { m.glyphs[0].w = m.glyphs[0].h = 1; m.glyphs[0].x = m.glyphs[0].y = 0; }
    if (choose(4) == 1) { m.hbo = -1234; m.hbs = 1234; m.vbo = 123456; m.vbs = 1000; }
    if (choose(4) == 1) { m.glyphs[0].hadv = 12345; m.glyphs[0].hbx = -6789; }
    std::unique_ptr<F::Loader> source_loader;
    std::unique_ptr<F::Face> source;
    FakeFace* fake = nullptr;
    {
        sim::NoFault nf;
        if (real) {
            sim::fs::put(ttf_path, choose(2) ? *g_sans : *g_mono);
            source_loader = new_loader("freetype", &logger);
            source = source_loader->load_default_face();
            source->set_scaled_size(F::Size(6 + double(choose(20)), 6 + double(choose(20))));
            sim::count("probe.real_source");
        }
        else {
            auto f = std::make_unique<FakeFace>(m);
            fake = f.get();
            source = std::move(f);
        }
    }
    std::string family;
    { sim::NoFault nf; family = source->get_family_name(); }
    for (u64 k = 0, n = 1 + choose(3); k < n; ++k) {
        bool last = k + 1 == n;
        bool keep = choose(2);
        Ranges ranges;
        std::vector<F::CodePointRange> arg;
        {
            sim::NoFault nf;
            u64 nr = choose(4);
            unsigned next = 0;
            for (u64 i = 0; i < nr; ++i) {
                unsigned f = next + unsigned(choose(90)), l = f + unsigned(choose(choose(2) ? 2 : 60));
                if (choose(30) == 1) { f += 0x10000; l += 0x10000; }
                if (choose(30) == 1 && i + 1 == nr) { l = 0x7fffffff; f = l - unsigned(choose(260)); }
                ranges.push_back({ f, l });
                next = l + 1;
            }
            for (auto& r : ranges) arg.push_back(F::CodePointRange(code_point(r.first), code_point(r.second)));
        }
        F::Size before = source->get_size();
        if (fake) { fake->approx.reset(); fake->failed = false; fake->errors = !last && choose(3) == 1 ? 2 + choose(40) : 0; }
        bool io = !last && choose(2), af = !last && choose(3) == 1;
        if (real) { g_ft_failed = 0; g_ft_errors = !last && choose(3) == 1 ? 2 + choose(60) : 0; }
        faults_on(io);
        auto errs = sim::fs::n_errors;
        trace("regenerate: keep size %d, %zu ranges", keep, arg.size());
        Outcome o;
        {
            std::optional<std::filesystem::path> dir;
            F::Loader::Config config;
            config.logger = &logger;
            { sim::NoFault nf; dir.emplace(dir_path); }
            if (af) sim::fail_alloc(sim::range(1, 200), choose(3) == 1);
            g_wrap_ft = true;
            o = attempt([&] { F::regen_fallback_font(*source, keep, core::Span<const F::CodePointRange>(arg), *dir, *loc, config); });
            g_wrap_ft = false;
            sim::stop_alloc_faults();
        }
        bool fired = af && sim::alloc_fault_fired();
        bool io_failed = sim::fs::n_errors != errs;
        faults_off();
        sim::NoFault nf;
        bool source_failed = g_ft_failed || (fake && fake->failed);
        if (fake) fake->errors = 0;
        g_ft_errors = g_ft_failed = 0;
        if (sim::fs::num_open() != 0) fail("descriptor", "A file was left open");
        if (sim::fs::exists(spec_path()) != (state != 1) || (state != 1 && (sim::fs::get(spec_path()) != old_spec || sim::fs::get(image_path()) != old_image))) fail("old_font", "The files of the old font were changed");
        if (!o.ok) {
            if (o.alloc ? !fired : !(io_failed || fired || source_failed)) fail("spurious", "Regeneration failed: %s", o.alloc ? "bad_alloc" : o.what.c_str());
            continue;
        }
        if (source_failed) fail("error_lost", "Regeneration succeeded although the source font failed");
        // With no ranges, those of the old font are used, or 0 to 127 when those cannot be had
        std::vector<Ranges> candidates;
        if (!ranges.empty()) candidates.push_back(ranges);
        else {
            if (state == 0) candidates.push_back(old.ranges);
            if (state != 0 || io_failed || fired) candidates.push_back({ { 0, 127 } });
        }
        F::Size after = source->get_size();
        bool kept = std::abs(after.width - old.rw) < 1e-6 * old.rw && std::abs(after.height - old.rh) < 1e-6 * old.rh;
        bool same = after.width == before.width && after.height == before.height;
        if (!(keep && state == 0 ? real || kept || ((io_failed || fired) && same) : same)) fail("keep_size", "The size of the source is %g x %g", after.width, after.height);
        // Put the new files in place
        if (!sim::fs::exists(spec_path("-new")) || !sim::fs::exists(image_path("-new"))) fail("missing", "A file was not generated");
        std::string new_spec = sim::fs::get(spec_path("-new"));
        sim::fs::put(spec_path(), new_spec);
        sim::fs::put(image_path(), sim::fs::get(image_path("-new")));
        {
            auto loader = new_loader("fallback", &logger, *loc);
            std::unique_ptr<F::Face> face;
            logger.text.clear();
            Outcome o2 = attempt([&] { face = loader->load_default_face(); });
            if (!o2.ok) fail("load", "The regenerated font could not be loaded: %s %s", o2.what.c_str(), sim::quote(logger.text, 300).c_str());
            if (candidates.size() == 2) { // which one was it?
                size_t p = new_spec.find('\n');
                std::string second = new_spec.substr(p + 1, new_spec.find('\n', p + 1) - p - 1);
                if (second == "0-127") candidates.erase(candidates.begin()); else candidates.pop_back();
            }
            check_regenerated(*source, *face, candidates[0], family);
        }
        // The old font is used again
        if (state == 1) { sim::fs::remove(spec_path()); sim::fs::remove(image_path()); }
        else { sim::fs::put(spec_path(), old_spec); sim::fs::put(image_path(), old_image); }
    }
}

static sim::Info info_c22("C22",
    "A FreeType face reports what plain FreeType reports for the selected size, and renders the same glyphs, whatever failed before; every failure is reported.",
    { "FreeType font loader and face, rendering through image writers", "the FreeType library (allocating through the simulator)" },
    { "POSIX files and memory mapping, failures of FreeType calls" });
static sim::Info info_c23("C23",
    "A fallback font has exactly the metrics, code points and pixels of its resource files; every flaw of those is reported; concurrent loads of one loader are safe.",
    { "fallback and FreeType font loaders, PNG file format, text files, threads of the code under test", "libpng, zlib, FreeType" },
    { "POSIX files and memory mapping, threads, mutexes" });
static sim::Info info_c32("C32",
    "A regenerated fallback font is loadable and equal to its source within the code point ranges; or regeneration fails, with the old font unchanged.",
    { "fallback font regeneration and loader, rectangle packer, image saving and loading, text files", "libpng, zlib, FreeType" },
    { "POSIX files, source font face" });
