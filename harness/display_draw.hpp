// C30: model of what windows and textures show, and the application that draws.
#ifndef VERIF_DISPLAY_DRAW_HPP
#define VERIF_DISPLAY_DRAW_HPP

#include "display.hpp"

namespace dd {

using namespace dm;
using u32 = std::uint32_t;

constexpr u32 unknown = 0xFFFFFFFF, transparent = 0xFF000000;

// A pixel may have to be either of two colours
struct Px { u32 a = unknown, b = unknown; };

struct Tex { int win = 0; int wd = 0, ht = 0; std::unique_ptr<display::Texture> obj; std::vector<u32> px; };

struct Shown { int wd = 0, ht = 0; std::vector<u32> rgb; u64 gen = 0; };

struct Draw {
    std::vector<std::unique_ptr<Tex>> tex;
    bool across = false;                     // textures can be put into other windows
    bool gray = false;                       // grays only
    std::vector<u32> colors;                 // if not empty, these only
    int tol[3] = { 0, 0, 0 };
    std::function<Shown(int, bool)> shown;   // of window, as colours if the second argument is true
    std::function<void(int)> prepare;        // for drawing in window
    int frames = 0;

    u32 color()
    {
        if (!colors.empty()) return sim::pick(colors);
        if (gray) return u32(choose(256)) * 0x10101;
        static const u32 some[] = { 0x000000, 0xFFFFFF, 0xFF0000, 0x00FF00, 0x0000FF, 0x010203, 0x7F8081, 0xFE0180 };
        if (choose(3) == 0) return sim::pick(some);
        return u32(choose(1 << 24));
    }
    static util::Color col(u32 c) { return util::Color(util::Color::comp_type(c >> 16), util::Color::comp_type(c >> 8 & 255), util::Color::comp_type(c & 255)); }

    // True if it was carried out
    template<class F> bool attempt(const char* what, F&& f)
    {
        w->fault_fired = false;
        try { sim::AllowFault af; f(); return true; }
        catch (std::bad_alloc&) {
            sim::stop_alloc_faults();
            if (!sim::alloc_fault_fired()) vio('d', "wrong-exception", "%s threw std::bad_alloc although no allocation failed", what);
        }
        catch (std::exception& e) {
            sim::NoFault nf;
            sim::stop_alloc_faults();
            if (!w->fault_fired) vio('d', "wrong-exception", "%s failed although nothing that it depends on failed: %s", what, e.what());
        }
        trace("  %s failed", what);
        sim::count("probe.draw_call_failed");
        return false;
    }

    void new_texture(int win)
    {
        static const int sizes[] = { 1, 0, 2, 7, 63, 64, 65, 128, 130 };
        auto t = std::make_unique<Tex>();
        t->win = win;
        t->wd = choose(2) ? int(choose(40)) : sim::pick(sizes);
        t->ht = choose(2) ? int(choose(40)) : t->wd > 100 ? 3 : sim::pick(sizes);
        trace("  new texture %dx%d for window %d", t->wd, t->ht, win);
        if (t->wd == 0 || t->ht == 0) sim::count("probe.empty_texture");
        if (!attempt("new_texture()", [&] { t->obj = w->wins[size_t(win)]->obj->new_texture({ t->wd, t->ht }); })) return;
        t->px.assign(size_t(t->wd) * size_t(t->ht), unknown);
        tex.push_back(std::move(t));
    }

    std::unique_ptr<image::Image> make_image(int wd, int ht, std::vector<u32>& px)
    {
        px.resize(size_t(wd) * size_t(ht));
        u64 kind = choose(5);
        u32 c = color(), c2 = color();
        u64 pat = choose(4);
        for (int y = 0; y < ht; ++y) for (int x2 = 0; x2 < wd; ++x2) {
            u32& p = px[size_t(y) * size_t(wd) + size_t(x2)];
            switch (pat) {
                case 0: p = c; break;
                case 1: p = (x2 + y) % 2 ? c : c2; break;
                case 2: p = colors.empty() && !gray ? u32(x2 * 3 & 255) << 16 | u32(y * 5 & 255) << 8 | u32((x2 + y) & 255) : gray ? u32((x2 * 3 + y * 7) & 255) * 0x10101 : colors[size_t(x2 + y * 3) % colors.size()]; break;
                default: p = color(); break;
            }
        }
        image::Size s(wd, ht);
        auto fill = [&](auto img, auto put) -> std::unique_ptr<image::Image> {
            auto buf = img->get_buffer();
            size_t k = 0;
            for (u32 p : px) put(p, [&](unsigned v) { buf[k++] = std::remove_reference_t<decltype(buf[0])>(v); });
            return img;
        };
        if (gray && choose(2)) return fill(std::make_unique<image::BufferedImage_Lum_8>(s), [](u32 p, auto&& o) { o(p & 255); });
        if (kind == 1) return fill(std::make_unique<image::BufferedImage_RGBA_8>(s), [](u32 p, auto&& o) { o(p >> 16); o(p >> 8 & 255); o(p & 255); o(255); });
        if (kind == 2) return fill(std::make_unique<image::BufferedImage_RGB_16>(s), [](u32 p, auto&& o) { o((p >> 16) * 257); o((p >> 8 & 255) * 257); o((p & 255) * 257); });
        return fill(std::make_unique<image::BufferedImage_RGB_8>(s), [](u32 p, auto&& o) { o(p >> 16); o(p >> 8 & 255); o(p & 255); });
    }

    void put_image(Tex& t)
    {
        std::unique_ptr<image::Image> img;
        std::vector<u32> px;
        int wd = t.wd, ht = t.ht;
        {
            switch (choose(4)) {
                case 0: break;
                case 1: wd = std::max(0, wd - int(choose(6))); break;
                case 2: ht = std::max(0, ht - int(choose(6))); wd += int(choose(4)); break;
                case 3: wd += int(choose(10)); ht = std::max(0, ht + int(choose(9)) - 4); break;
            }
            img = make_image(wd, ht, px);
        }
        trace("  put image %dx%d into texture %dx%d", wd, ht, t.wd, t.ht);
        bool ok = attempt("put_image()", [&] { t.obj->put_image(*img); });
        for (int y = 0; y < t.ht; ++y) for (int x2 = 0; x2 < t.wd; ++x2)
            t.px[size_t(y) * size_t(t.wd) + size_t(x2)] = !ok ? unknown : x2 < wd && y < ht ? px[size_t(y) * size_t(wd) + size_t(x2)] : transparent;
        if (ok) sim::count("probe.image_put");
    }

    struct Canvas {
        int wd = 0, ht = 0;
        std::vector<Px> px;
        void all(Px p) { for (auto& q : px) q = p; }
        template<class F> void area(i64 x0, i64 y0, i64 x1, i64 y1, F&& f)
        {
            for (i64 y = std::max<i64>(y0, 0); y < std::min<i64>(y1, ht); ++y) for (i64 x2 = std::max<i64>(x0, 0); x2 < std::min<i64>(x1, wd); ++x2) f(px[size_t(y * wd + x2)], x2, y);
        }
    };

    void op(int win, Canvas& c)
    {
        display::Window& wn = *w->wins[size_t(win)]->obj;
        auto mine = [&]() -> Tex* {
            std::vector<Tex*> v;
            for (auto& t : tex) if (t->win == win || across) v.push_back(t.get());
            return v.empty() ? nullptr : sim::pick(v);
        };
        static const int far[] = { 32767, 32768, 40000, 65535, 65536, 65546, 100000, 0x7FFFFF00, 0x7FFFFFFF };
        auto coord = [&](int n, int size) { if (choose(8) == 7) { int v = sim::pick(far); return choose(2) ? v : -v; } return int(sim::range(-size - 2, n + 2)); };
        switch (choose(8)) {
            case 0: {
                u32 p = color();
                trace("  fill %06X", p);
                if (attempt("fill()", [&] { wn.fill(col(p)); })) c.all({ p, p }); else c.all({});
                return;
            }
            case 1: case 2: {
                u32 p = color();
                int wd = int(choose(50)), ht = int(choose(50));
                int px = coord(c.wd, wd), py = coord(c.ht, ht);
                if (choose(6) == 5) { wd = px > 0 ? 0x7FFFFFFF - px : 0x7FFFFFFF; sim::count("probe.huge_fill"); }
                if (choose(6) == 5) ht = py > 0 ? 0x7FFFFFFF - py : 0x7FFFFFFF;
                if (i64(px) + wd > 0x7FFFFFFF) wd = 0x7FFFFFFF - px;
                if (i64(py) + ht > 0x7FFFFFFF) ht = 0x7FFFFFFF - py;
                display::Box box(display::Pos(px, py), display::Size(wd, ht));
                if (!box.is_valid()) return;
                trace("  fill %06X in %dx%d at %d,%d", p, wd, ht, px, py);
                bool ok = attempt("fill()", [&] { wn.fill(col(p), box); });
                c.area(px, py, i64(px) + wd, i64(py) + ht, [&](Px& q, i64, i64) { q = ok ? Px { p, p } : Px {}; });
                return;
            }
            case 3: if (tex.size() < 6) new_texture(win); return;
            case 4: if (Tex* t = mine()) put_image(*t); return;
            case 5: case 6: {
                Tex* t = mine();
                if (!t) return;
                if (t->win != win) sim::count("probe.texture_of_other_window");
                int sx = 0, sy = 0, sw = t->wd, sh = t->ht;
                bool part = choose(2);
                if (part) { sx = int(choose(u64(t->wd) + 1)); sy = int(choose(u64(t->ht) + 1)); sw = int(choose(u64(t->wd - sx) + 1)); sh = int(choose(u64(t->ht - sy) + 1)); }
                int px = coord(c.wd, sw), py = coord(c.ht, sh);
                trace("  put texture %dx%d: %dx%d at %d,%d to %d,%d", t->wd, t->ht, sw, sh, sx, sy, px, py);
                bool ok = attempt("put_texture()", [&] {
                    if (part) wn.put_texture(*t->obj, display::Box(display::Pos(sx, sy), display::Size(sw, sh)), { px, py });
                    else wn.put_texture(*t->obj, { px, py });
                });
                c.area(px, py, i64(px) + sw, i64(py) + sh, [&](Px& q, i64 x2, i64 y) {
                    u32 v = ok ? t->px[size_t(y - py + sy) * size_t(t->wd) + size_t(x2 - px + sx)] : unknown;
                    if (v == unknown) q = {};
                    else if (v == transparent) q = q.a == unknown || (q.a != q.b && q.a != 0) ? Px {} : Px { 0, q.b };
                    else q = { v, v };
                });
                if (ok) sim::count("probe.texture_put");
                return;
            }
            case 7:
                if (tex.empty()) return;
                trace("  destroy texture");
                tex.erase(tex.begin() + long(choose(tex.size())));
                return;
        }
    }

    void frame(int win)
    {
        sim::NoFault nf;
        auto a = shown(win, false);
        Canvas c;
        c.wd = a.wd; c.ht = a.ht;
        c.px.resize(size_t(c.wd) * size_t(c.ht));
        trace("draw in window %d, %dx%d", win, c.wd, c.ht);
        display::Window& wn = *w->wins[size_t(win)]->obj;
        if (choose(8) != 7) {
            u32 p = color();
            trace("  fill %06X", p);
            if (attempt("fill()", [&] { wn.fill(col(p)); })) c.all({ p, p });
        }
        int n = 0;
        while (n++ < 12 && sim::more(4)) op(win, c);
        if (!attempt("present()", [&] { wn.present(); })) return;
        auto b = shown(win, true);
        if (b.gen != a.gen) { sim::count("probe.resized_while_drawing"); return; }
        trace("  presented");
        for (int y = 0; y < c.ht; ++y) for (int x2 = 0; x2 < c.wd; ++x2) {
            size_t i = size_t(y) * size_t(c.wd) + size_t(x2);
            Px p = c.px[i];
            if (p.a == unknown || p.b == unknown) continue;
            auto near = [&](u32 v) { for (int k = 0; k < 3; ++k) if (std::abs(int(v >> (16 - 8 * k) & 255) - int(b.rgb[i] >> (16 - 8 * k) & 255)) > tol[k]) return false; return true; };
            if (!near(p.a) && !near(p.b)) vio('d', "wrong-pixel", "after present(), the pixel at (%d,%d) of a window of size %dx%d has colour %06X, but %06X was drawn", x2, y, c.wd, c.ht, b.rgb[i], p.a);
        }
        ++frames;
        sim::count("probe.frame_compared");
        sim::state(sim::hash_bytes(b.rgb.data(), b.rgb.size() * sizeof(u32)));
    }

    void drop_textures(int win)
    {
        for (size_t i = tex.size(); i-- > 0;) if (tex[i]->win == win) tex.erase(tex.begin() + long(i));
    }
};

// The life of an application that draws
template<class C, class E, class R, class S>
void run(Draw& d, std::unique_ptr<display::Connection>& conn, ConnHandler& ch, bool faults, bool opengl, C&& connect, E&& events, R&& fail_rate, S&& spontaneous)
{
    auto arm = [&] {
        if (!faults) return;
        if (choose(2)) sim::fail_alloc(1 + choose(30), choose(4) == 3);
        if (choose(3) == 2) fail_rate(8);
    };
    auto disarm = [&] { sim::stop_alloc_faults(); fail_rate(0); };
    arm();
    for (int i = 0; !conn; ++i) { bool ok = d.attempt("new_connection()", [&] { connect(conn); }); disarm(); if (!ok && i > 2) return; if (ok && !conn) sim::harness_error("connect"); }
    w->conn = conn.get();
    conn->set_event_handler(ch);
    w->conn_handler = true;
    events(true);
    w->budget = 20;
    w->creation_faults = true;
    auto create = [&] {
        sim::NoFault nf;
        arm();
        display::Window::Config c;
        c.enable_opengl_rendering = opengl && choose(8) == 7;
        display::Size size { int(choose(60)), int(choose(60)) };
        d.attempt("new_window()", [&] { make_window(size, c); });
        disarm();
    };
    w->draw = [&](int win, bool) { sim::NoFault nf; if (d.prepare) d.prepare(win); d.frame(win); };
    for (u64 i = 1 + choose(3); i > 0; --i) create();
    int steps = 0;
    while (steps++ < 30 && sim::more(8)) {
        auto a = alive();
        switch (choose(8)) {
            case 0: case 1: case 2: case 3:
                if (a.empty()) break;
                arm();
                w->draw(sim::pick(a), false);
                disarm();
                break;
            case 4:
                if (choose(3) == 2) arm();
                w->budget += 3;
                process(sim::now_mono() + i64(choose(3)) * 100 * ms);
                disarm();
                break;
            case 5:
                if (a.empty()) break;
                {
                    int i = sim::pick(a);
                    display::Size s2 { int(choose(60)), int(choose(60)) };
                    trace("set size of window %d: %dx%d", i, s2.width, s2.height);
                    d.attempt("set_size()", [&] { w->wins[size_t(i)]->obj->set_size(s2); });
                }
                break;
            case 6: {
                if (a.size() < 3 && choose(2)) { create(); break; }
                if (a.empty()) break;
                int i = sim::pick(a);
                d.drop_textures(i);
                kill_window(i);
                break;
            }
            case 7: { sim::NoFault nf; while (choose(4)) spontaneous(); break; }
        }
    }
    sim::NoFault nf;
    for (int i : alive()) { d.drop_textures(i); kill_window(i); }
    conn.reset();
    sim::state(sim::mix(u64(d.frames), u64(w->generated)));
}

} // namespace dd
#endif
