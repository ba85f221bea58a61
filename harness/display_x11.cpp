// Simulated Xlib and X server, and the scenarios that use them.
#include <cerrno>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <bitset>
#include <map>
#include <set>

#include <archon/display/x11_implementation.hpp>

#include "display.hpp"
#include "display_draw.hpp"

#include <poll.h>
#include <X11/Xlib.h>
#include <X11/Xutil.h>
#include <X11/Xatom.h>
#include <X11/XKBlib.h>
#include <X11/keysym.h>
#include <X11/extensions/Xdbe.h>
#include <X11/extensions/Xrandr.h>
#include <X11/extensions/Xrender.h>
#include <GL/glx.h>

using namespace dm;

extern "C" int __real_poll(pollfd*, nfds_t, int);

namespace {

using u32 = std::uint32_t;

constexpr int conn_fd = 7777;
constexpr int rr_base = 89;

// ------------------------------------------------------------------ simulated X server
struct Canvas { int wd = 0, ht = 0, depth = 24; std::vector<u32> pix; };

struct XWin {
    ::Window id = 0;
    int win = -1, scr = 0;
    bool mapped = false;
    VisualID visual = 0;
    Colormap cm = 0;
    Canvas front, back;
    XID back_id = 0;
    u64 gen = 0;                           // of contents
};

// Cells of a colormap are free (0), private (1), ours (2), or shared with others (3)
struct Cmap { VisualID visual = 0; bool own = false; std::vector<XColor> e; std::vector<char> used; std::map<unsigned long, int> mine; };

struct Vis { Visual v; int depth, bpp; bool dbl; std::vector<XColor> palette; };

struct Mode { RRMode id; unsigned wd, ht; unsigned long clock; unsigned ht_total, vt_total; };
struct Crtc { RRCrtc id; RRMode mode; int x, y; unsigned wd, ht; Rotation rot; };
struct Output { RROutput id; std::string name; ::Connection conn; RRCrtc crtc; unsigned long mm_w, mm_h; std::string edid; std::string monitor; bool has_monitor; };
struct Scr { std::vector<Mode> modes; std::vector<Crtc> crtcs; std::vector<Output> outputs; bool selected = false, unknown = false; u64 version = 1; };

struct X {
    bool open = false;
    RRMode last_mode = 500;
    std::remove_pointer_t<_XPrivDisplay> d;
    Screen screens[2];
    std::vector<Vis> visuals;              // of every screen
    std::vector<std::function<void()>> out;
    size_t qlen = 0;                       // events that Xlib has read but not handed out
    XID next_id = 0x200001;
    std::map<::Window, XWin> wins;
    std::map<XID, Canvas> pixmaps;
    struct Gc { unsigned long color = 0; int depth = 0; };
    std::map<GC, Gc> gcs;
    std::map<XID, int> depths;             // of drawables known to the client
    std::vector<XStandardColormap> standard;
    std::map<XID, Cmap> cmaps;
    std::set<void*> contexts;
    std::set<XID> issued;                  // known to the client
    std::vector<std::string> atoms;

    ::Window ptr = 0, grab = 0, focus = 0;
    std::bitset<256> buttons, keys;
    std::map<int, i64> released;
    bool foreign = false, irregular = false;
    bool detectable = false, detectable_supported = true;
    bool have_dbe = true, have_rr = true, have_glx = true, have_xkb = true, have_render = true;
    Scr scr[2];
    int fetching = -1;                     // screen whose resources were fetched last

    bool events = false, draw = false, faults = false, rr_changes = false, flood = false;
    u64 fault_rate = 0;
};
X* x;

::Display* dpy() { return reinterpret_cast<::Display*>(&x->d); }

constexpr XID root_id(int s) { return XID(0x100 + s); }
bool is_root(XID id) { return id == root_id(0) || id == root_id(1); }

void use(::Display* d, const char* fn) { if (!x->open || d != dpy()) vio('r', "x11-no-connection", "%s() called without an open connection", fn); }
bool faulty(const char* fn)
{
    if (x->fault_rate && choose(x->fault_rate) == 1) { w->fault_fired = true; trace("    %s fails", fn); sim::count("fault.x11_call"); return true; }
    return false;
}
XWin* server_win(::Window id) { auto i = x->wins.find(id); return i == x->wins.end() ? nullptr : &i->second; }

// ---- events
XEvent native(int type, ::Window id)
{
    XEvent n;
    std::memset(&n, 0, sizeof n);
    n.type = type; n.xany.display = dpy(); n.xany.window = id;
    return n;
}
Time server_time() { return Time(u64(w->true_ms()) & 0xFFFFFFFF); }

Ev base(const char* what, const XEvent& n, const XWin* p)
{
    Ev e; e.what = what;
    static_assert(sizeof n <= sizeof e.native);
    std::memcpy(e.native, &n, sizeof n);
    if (p) e.win = p->win;
    return e;
}

void keymap_event(const XWin&)
{
    XEvent n = native(KeymapNotify, 0);
    for (int i = 0; i < 256; ++i) if (x->keys[size_t(i)]) n.xkeymap.key_vector[i / 8] = char(n.xkeymap.key_vector[i / 8] | 1 << (i % 8));
    push(base("keymap", n, nullptr));
}

void crossing(int type, ::Window id, int mode, bool suppressed, bool optional)
{
    XWin* p = server_win(id);
    if (!p) return;
    XEvent n = native(type, id);
    n.xcrossing.time = server_time(); n.xcrossing.mode = mode; n.xcrossing.x = int(choose(50)); n.xcrossing.detail = NotifyNonlinear;
    Ev e = base(type == EnterNotify ? "enter" : "leave", n, p);
    if (!suppressed) { e.cb = type == EnterNotify ? Cb::mouseover : Cb::mouseout; e.stamp = w->true_ms(); e.optional = optional; }
    push(e);
    if (type == EnterNotify) keymap_event(*p);
}

void set_focus(::Window id)
{
    if (id == x->focus) return;
    if (XWin* p = server_win(x->focus)) { Ev e = base("focus out", native(FocusOut, p->id), p); e.cb = Cb::blur; push(e); }
    x->focus = id;
    if (XWin* p = server_win(id)) { Ev e = base("focus in", native(FocusIn, id), p); e.cb = Cb::focus; push(e); keymap_event(*p); }
}

void expose(XWin& p)
{
    XEvent n = native(Expose, p.id);
    n.xexpose.width = p.front.wd; n.xexpose.height = p.front.ht; n.xexpose.count = int(choose(3));
    Ev e = base("expose", n, &p);
    e.damage = true;
    push(e);
}

void configure(XWin& p, int wd, int ht)
{
    bool same = wd == p.front.wd && ht == p.front.ht;
    p.front.wd = wd; p.front.ht = ht;
    p.back.wd = wd; p.back.ht = ht;
    ++p.gen;
    if (x->draw) { p.front.pix.assign(size_t(wd) * size_t(ht), 0); p.back.pix.assign(size_t(wd) * size_t(ht), 0); }
    XEvent n = native(ConfigureNotify, p.id);
    n.xconfigure.window = p.id; n.xconfigure.event = p.id;
    n.xconfigure.x = int(choose(5)); n.xconfigure.y = int(choose(5)); n.xconfigure.width = wd; n.xconfigure.height = ht;
    Ev e = base("configure", n, &p);
    e.cb = Cb::resize; e.size = { wd, ht }; e.damage = true; e.optional = same;
    push(e);
}

void moved(XWin& p, int px, int py)
{
    XEvent n = native(ConfigureNotify, p.id);
    n.xconfigure.window = p.id; n.xconfigure.event = p.id;
    n.xconfigure.send_event = True;
    n.xconfigure.x = px; n.xconfigure.y = py; n.xconfigure.width = p.front.wd; n.xconfigure.height = p.front.ht;
    Ev e = base("synthetic configure", n, &p);
    e.cb = Cb::reposition; e.pos = { px, py };
    push(e);
}

void simple(const char* what, int type, XWin& p)
{
    XEvent n = native(type, p.id);
    n.xunmap.window = p.id;   // at the same place in map, destroy, and reparent events
    push(base(what, n, &p));
}

void window_gone(::Window id, bool destroyed)
{
    // Grabs end, focus and pointer move on
    if (x->grab == id) { x->grab = 0; x->irregular = x->buttons.any(); sim::count("probe.grab_window_gone"); }
    if (x->focus == id) {
        if (destroyed) x->focus = 0;
        ::Window next = 0;
        for (auto& p : x->wins) if (p.first != id && p.second.mapped && choose(3) == 1) next = p.first;
        set_focus(next);
    }
    if (x->ptr == id) {
        if (!destroyed && !x->foreign && !x->grab && choose(2)) crossing(LeaveNotify, id, NotifyNormal, false, x->irregular);
        x->ptr = 0;
        for (auto& p : x->wins) if (p.first != id && p.second.mapped && choose(3) == 1) x->ptr = p.first;
        if (x->ptr && !x->foreign && !x->grab) crossing(EnterNotify, x->ptr, NotifyNormal, false, x->irregular);
    }
}

void map_window(XWin& p)
{
    if (p.mapped) return;
    p.mapped = true;
    if (choose(2)) simple("reparent", ReparentNotify, p);
    if (choose(3) == 2) configure(p, 1 + int(choose(300)), 1 + int(choose(300)));
    simple("map", MapNotify, p);
    if (choose(2)) moved(p, int(choose(800)), int(choose(600)));
    expose(p);
    if (choose(2)) set_focus(p.id);
}

void unmap_window(XWin& p)
{
    if (!p.mapped) return;
    p.mapped = false;
    simple("unmap", UnmapNotify, p);
    window_gone(p.id, false);
}

void destroy_window(::Window id)
{
    XWin* p = server_win(id);
    if (!p) return;
    simple("destroy", DestroyNotify, *p);
    window_gone(id, true);
    x->wins.erase(id);
}

// ---- screens
std::string make_edid(const std::string& name, bool newline)
{
    std::string e(128, '\0');
    const unsigned char head[] = { 0, 255, 255, 255, 255, 255, 255, 0 };
    std::memcpy(e.data(), head, 8);
    e[18] = 1; e[19] = 4;
    // Detailed timings in the other slots
    size_t slot = choose(4);
    for (size_t i = 0; i < 4; ++i) { e[54 + i * 18] = char(1 + choose(200)); e[55 + i * 18] = char(1); }
    char* p = &e[54 + slot * 18];
    std::memset(p, 0, 18);
    p[3] = char(0xFC);
    for (size_t i = 0; i < 13; ++i) p[5 + i] = i < name.size() ? name[i] : i == name.size() && newline ? '\n' : ' ';
    if (name.size() < 13 && !newline) sim::harness_error("edid");
    unsigned sum = 0;
    for (char c : e) sum += static_cast<unsigned char>(c);
    e[127] = char(256 - (sum & 255));
    return e;
}

void notify(int s, bool crtc)
{
    Scr& c = x->scr[s];
    ++c.version;
    if (!c.selected) return;
    XEvent n;
    std::memset(&n, 0, sizeof n);
    auto& r = reinterpret_cast<XRRNotifyEvent&>(n);
    r.type = rr_base + RRNotify; r.window = root_id(s); r.subtype = crtc ? RRNotify_CrtcChange : RRNotify_OutputChange;
    c.unknown = false;
    Ev e = base(crtc ? "crtc change" : "output change", n, nullptr);
    e.screen = s;
    push(e);
    sim::count("probe.screen_changed");
}

RRMode new_mode(Scr& c)
{
    Mode m;
    m.id = ++x->last_mode;
    m.wd = 100 + unsigned(choose(30)) * 64; m.ht = 100 + unsigned(choose(20)) * 64;
    m.clock = choose(6) == 5 ? 0 : 1000000 + choose(1000) * 12345;
    m.ht_total = m.wd + 1 + unsigned(choose(200)); m.vt_total = m.ht + 1 + unsigned(choose(60));
    c.modes.push_back(m);
    return m.id;
}

void set_mode(Scr& c, Crtc& k, RRMode id)
{
    k.mode = id;
    if (!id) { k.x = k.y = 0; k.wd = k.ht = 0; k.rot = RR_Rotate_0; return; }
    for (auto& m : c.modes) if (m.id == id) { k.wd = m.wd; k.ht = m.ht; }
    static const Rotation rots[] = { RR_Rotate_0, RR_Rotate_90, RR_Rotate_180, RR_Rotate_270 };
    k.rot = choose(3) ? RR_Rotate_0 : sim::pick(rots);
    if (choose(6) == 5) { k.rot = Rotation(k.rot | (choose(2) ? RR_Reflect_X : RR_Reflect_Y)); sim::count("probe.reflected"); }
    if (k.rot & (RR_Rotate_90 | RR_Rotate_270)) std::swap(k.wd, k.ht);
    k.x = int(choose(4)) * 640; k.y = int(choose(3)) * 480;
}

void plug(Output& o)
{
    o.conn = choose(8) == 7 ? RR_UnknownConnection : RR_Connected;
    o.mm_w = choose(6) == 5 ? 0 : 100 + choose(500);
    o.mm_h = choose(9) == 8 ? 0 : 100 + choose(400);
    static const char* const names[] = { "DELL U2720Q", "Acer", "ABCDEFGHIJKLM", "X", "" };
    o.has_monitor = false; o.monitor.clear(); o.edid.clear();
    u64 k = choose(6);
    if (k == 5) return;                       // no EDID
    o.monitor = sim::pick(names);
    o.edid = make_edid(o.monitor, o.monitor.size() < 13);
    o.has_monitor = true;
    if (k == 4) { o.edid[20] = char(o.edid[20] + 1); o.has_monitor = false; o.monitor.clear(); sim::count("fault.bad_edid"); }
    if (k == 3) { o.edid.resize(100); o.has_monitor = false; o.monitor.clear(); sim::count("fault.short_edid"); }
}

void init_screen(Scr& c, int s)
{
    c = Scr {};
    u64 n = choose(4);
    for (u64 i = 0; i < n; ++i) new_mode(c);
    u64 nc = choose(4);
    for (u64 i = 0; i < nc; ++i) {
        Crtc k {}; k.id = RRCrtc(700 + s * 50 + int(i)); k.rot = RR_Rotate_0;
        if (!c.modes.empty() && choose(4)) set_mode(c, k, sim::pick(c.modes).id);
        c.crtcs.push_back(k);
    }
    u64 no = choose(5);
    for (u64 i = 0; i < no; ++i) {
        Output o {};
        o.id = RROutput(800 + s * 50 + int(i));
        static const char* const names[] = { "DP-", "HDMI-", "eDP-", "VGA-", "" };
        o.name = sim::pick(names) + std::to_string(i);
        o.conn = RR_Disconnected;
        if (choose(4)) plug(o);
        if (!c.crtcs.empty() && choose(4)) o.crtc = sim::pick(c.crtcs).id;
        c.outputs.push_back(o);
    }
}

void change_screen(int s)
{
    Scr& c = x->scr[s];
    switch (choose(6)) {
        case 0: case 1: {
            if (c.crtcs.empty()) return;
            Crtc& k = c.crtcs[choose(c.crtcs.size())];
            if (choose(4) == 3) set_mode(c, k, 0);
            else if (choose(3) == 2 || c.modes.empty()) set_mode(c, k, new_mode(c));
            else set_mode(c, k, sim::pick(c.modes).id);
            notify(s, true);
            return;
        }
        case 2: {
            if (c.outputs.empty()) return;
            Output& o = c.outputs[choose(c.outputs.size())];
            if (o.conn != RR_Disconnected && choose(2)) { o.conn = RR_Disconnected; o.edid.clear(); o.has_monitor = false; if (choose(2)) o.crtc = 0; }
            else plug(o);
            notify(s, false);
            return;
        }
        case 3: {
            if (c.outputs.empty()) return;
            Output& o = c.outputs[choose(c.outputs.size())];
            o.crtc = c.crtcs.empty() || choose(4) == 3 ? 0 : sim::pick(c.crtcs).id;
            notify(s, false);
            if (choose(2)) notify(s, true);
            return;
        }
        case 4: {
            if (c.crtcs.empty()) return;
            Crtc& k = c.crtcs[choose(c.crtcs.size())];
            if (k.mode) { k.x += int(choose(200)); notify(s, true); }
            return;
        }
        case 5: notify(s, choose(2)); return; // nothing changed that matters
    }
}

struct View { std::string name; display::Box bounds { display::Size { 0, 0 } }; bool has_monitor = false; std::string monitor; bool has_res = false; double rx = 0, ry = 0; bool has_rate = false; double rate = 0; };
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
bool same(const View& a, const View& b)
{
    return a.name == b.name && a.bounds == b.bounds && a.has_monitor == b.has_monitor && a.monitor == b.monitor && a.has_res == b.has_res && near(a.rx, b.rx) && near(a.ry, b.ry) && a.has_rate == b.has_rate && near(a.rate, b.rate);
}
bool same(const std::vector<View>& a, const std::vector<View>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
    return true;
}
std::string show(const std::vector<View>& v)
{
    std::string s;
    for (auto& e : v) {
        char b[300];
        std::snprintf(b, sizeof b, "[%s %dx%d+%d+%d monitor=%s%s%s res=%g,%g%s rate=%g%s]", e.name.c_str(), e.bounds.size.width, e.bounds.size.height, e.bounds.pos.x, e.bounds.pos.y, e.has_monitor ? "'" : "none", e.monitor.c_str(), e.has_monitor ? "'" : "", e.rx, e.ry, e.has_res ? "" : "(none)", e.rate, e.has_rate ? "" : "(none)");
        s += b;
    }
    return s.empty() ? "(none)" : s;
}

std::vector<View> truth(int s)
{
    std::vector<View> r;
    Scr& c = x->scr[s];
    for (auto& o : c.outputs) {
        if (o.conn == RR_Disconnected || !o.crtc) continue;
        const Crtc* k = nullptr;
        for (auto& e : c.crtcs) if (e.id == o.crtc) k = &e;
        if (!k->mode) continue;
        View v;
        v.name = o.name;
        v.bounds = { { k->x, k->y }, { int(k->wd), int(k->ht) } };
        v.has_monitor = o.has_monitor; v.monitor = o.monitor;
        if (o.mm_w && o.mm_h) {
            double a = double(o.mm_w), b = double(o.mm_h);
            if (k->rot & (RR_Rotate_90 | RR_Rotate_270)) std::swap(a, b);
            v.has_res = true; v.rx = k->wd / a * 10; v.ry = k->ht / b * 10;
        }
        for (auto& m : c.modes) if (m.id == k->mode && m.clock) { v.has_rate = true; v.rate = double(m.clock) / (double(m.ht_total) * double(m.vt_total)); }
        r.push_back(v);
    }
    return r;
}

// Application's view of the screens
struct AppView { bool known = false; std::vector<View> v; u64 version = 0; };
AppView app_view[2];

bool read_view(int s, std::vector<View>& r)
{
    core::Buffer<display::Viewport> vp;
    core::Buffer<char> strings;
    size_t n = 4711;
    r.clear();
    if (!w->conn->try_get_screen_conf(s, vp, strings, n)) {
        if (x->have_rr) vio('s', "screen-conf-unavailable", "the configuration of a screen was not available");
        if (n != 4711) vio('s', "screen-conf-touched", "an argument was changed");
        return false;
    }
    if (!x->have_rr) vio('s', "screen-conf-invented", "a configuration was reported although the platform provides none");
    for (size_t i = 0; i < n; ++i) {
        View v;
        v.name = std::string(vp[i].output_name);
        v.bounds = vp[i].bounds;
        if (vp[i].monitor_name) { v.has_monitor = true; v.monitor = std::string(*vp[i].monitor_name); }
        if (vp[i].resolution) { v.has_res = true; v.rx = vp[i].resolution->horz_ppcm; v.ry = vp[i].resolution->vert_ppcm; }
        if (vp[i].refresh_rate) { v.has_rate = true; v.rate = *vp[i].refresh_rate; }
        r.push_back(v);
    }
    return true;
}

void screen_callback(int s)
{
    if (s < 0 || s >= x->d.nscreens) vio('s', "wrong-screen", "on_screen_change(%d) although there are %d screens", s, x->d.nscreens);
    if (!x->scr[s].selected) vio('s', "wrong-screen", "on_screen_change() called for a screen about which the server was never asked");
    if (w->check_screens) {
        std::vector<View> v;
        if (!read_view(s, v)) return;
        if (app_view[s].known && same(v, app_view[s].v)) vio('s', "spurious-screen-change", "on_screen_change() was called but the configuration of the screen is the same as before");
        app_view[s].known = true;
        app_view[s].v = v;
        sim::count("probe.screen_change_reported");
    }
}

// All notifications of changes have been processed
void check_screens()
{
    if (!w->check_screens) return;
    for (int s = 0; s < x->d.nscreens; ++s) {
        Scr& c = x->scr[s];
        if (!c.selected || !app_view[s].known || c.unknown) continue;
        bool pending = false;
        for (auto& e : w->q) { XEvent n; std::memcpy(&n, e.native, sizeof n); if (n.type == rr_base + RRNotify && e.screen == s) pending = true; }
        if (pending) continue;
        auto t = truth(s);
        std::vector<View> v;
        read_view(s, v);
        if (!same(v, t)) vio('s', "stale-screen-conf", "configuration of screen %d is reported as %s, but is %s, and all change notifications have been processed", s, show(v).c_str(), show(t).c_str());
        if (w->conn_handler && !same(app_view[s].v, v)) vio('s', "screen-change-missed", "configuration of screen %d changed from %s to %s, but on_screen_change() was not called", s, show(app_view[s].v).c_str(), show(v).c_str());
        sim::count("probe.screen_conf_compared");
    }
}

// ---- keyboard and pointer
const struct { int code; KeySym sym; } key_table[] = { { 38, XK_a }, { 9, XK_Escape }, { 24, XK_q }, { 50, XK_Shift_L }, { 111, XK_Up }, { 67, XK_F1 }, { 84, XK_KP_5 }, { 48, XK_adiaeresis }, { 8, XK_space }, { 255, XK_Return }, { 200, NoSymbol } };

XEvent key_native(int type, int code)
{
    XEvent n = native(type, x->focus);
    n.xkey.keycode = unsigned(code); n.xkey.time = server_time();
    return n;
}

void key_event()
{
    auto& k = key_table[choose(std::size(key_table))];
    XWin* p = server_win(x->focus);
    i64 now = w->true_ms();
    if (!x->keys[size_t(k.code)]) {
        auto i = x->released.find(k.code);
        if (i != x->released.end() && now - i->second <= 2) return;
        x->keys.set(size_t(k.code));
        if (!p) return;
        Ev e = base("key press", key_native(KeyPress, k.code), p);
        if (k.sym) { e.cb = Cb::keydown; e.stamp = now; e.code = unsigned(display::KeyCode::code_type(k.sym)); }
        else sim::count("probe.key_without_symbol");
        push(e);
    }
    else if (choose(3) == 2) {
        if (!p) return;
        if (!x->detectable) push(base("key release (auto-repeat)", key_native(KeyRelease, k.code), p));
        if (choose(4) == 3) pass_time(ms);
        Ev e = base("key press (auto-repeat)", key_native(KeyPress, k.code), p);
        if (!x->detectable) e.glued = true;
        if (k.sym) { e.cb = Cb::keyrepeat; e.stamp = w->true_ms(); e.code = unsigned(display::KeyCode::code_type(k.sym)); }
        push(e);
        sim::count("probe.auto_repeat");
    }
    else {
        x->keys.reset(size_t(k.code));
        x->released[k.code] = now;
        if (!p) return;
        Ev e = base("key release", key_native(KeyRelease, k.code), p);
        if (k.sym) { e.cb = Cb::keyup; e.stamp = now; e.code = unsigned(display::KeyCode::code_type(k.sym)); }
        push(e);
    }
}

void button_event(unsigned b, bool press)
{
    ::Window target = x->grab ? x->grab : x->foreign ? 0 : x->ptr;
    bool opt = x->irregular;
    if (press) {
        if (!x->buttons.any()) { if (x->ptr) x->grab = x->ptr; else x->foreign = true; }
        else if (x->irregular && !x->grab) x->grab = x->ptr;
        x->buttons.set(b);
    }
    else x->buttons.reset(b);
    if (XWin* p = server_win(target)) {
        XEvent n = native(press ? ButtonPress : ButtonRelease, target);
        n.xbutton.time = server_time(); n.xbutton.button = b; n.xbutton.x = int(choose(400)) - 50; n.xbutton.y = int(choose(400)) - 50;
        Ev e = base(press ? "button press" : "button release", n, p);
        static const display::MouseButton map[] = { display::MouseButton::left, display::MouseButton::middle, display::MouseButton::right };
        e.optional = opt;
        if (b >= 4 && b <= 7) {
            if (press) { e.cb = Cb::scroll; e.stamp = w->true_ms(); e.dx = b == 6 ? -1 : b == 7 ? 1 : 0; e.dy = b == 4 ? 1 : b == 5 ? -1 : 0; sim::count("probe.scroll"); }
        }
        else if (b <= 9) {
            e.cb = press ? Cb::mousedown : Cb::mouseup; e.stamp = w->true_ms();
            e.pos = { n.xbutton.x, n.xbutton.y };
            e.code = unsigned(b <= 3 ? map[b - 1] : b == 8 ? display::MouseButton::x1 : display::MouseButton::x2);
        }
        push(e);
    }
    if (!press && !x->buttons.any()) {
        ::Window g = x->grab;
        bool f = x->foreign;
        x->grab = 0; x->foreign = false;
        if (g && g != x->ptr) { crossing(LeaveNotify, g, NotifyUngrab, false, opt); if (x->ptr) crossing(EnterNotify, x->ptr, NotifyUngrab, false, opt); sim::count("probe.grab_ended_outside"); }
        else if (f && x->ptr) crossing(EnterNotify, x->ptr, NotifyUngrab, false, opt);
        x->irregular = false;
    }
}

void pointer_event(::Window np)
{
    ::Window op = x->ptr;
    x->ptr = np;
    if (x->foreign) return;
    if (x->grab) {
        if (op == x->grab && np != op) crossing(LeaveNotify, op, NotifyNormal, !x->irregular, true);
        if (op != np && np == x->grab) crossing(EnterNotify, np, NotifyNormal, !x->irregular, true);
    }
    else if (op != np) {
        if (op) crossing(LeaveNotify, op, NotifyNormal, false, x->irregular);
        if (np) crossing(EnterNotify, np, NotifyNormal, false, x->irregular);
    }
    ::Window target = x->grab ? x->grab : np;
    XWin* p = server_win(target);
    if (!p || !x->buttons.any()) return;
    XEvent n = native(MotionNotify, target);
    n.xmotion.time = server_time(); n.xmotion.x = int(choose(400)) - 50; n.xmotion.y = int(choose(400)) - 50;
    Ev e = base("motion", n, p);
    e.cb = Cb::mousemove; e.stamp = w->true_ms(); e.pos = { n.xmotion.x, n.xmotion.y }; e.optional = x->irregular;
    push(e);
}

::Window pick_mapped(bool none)
{
    std::vector<::Window> v;
    for (auto& p : x->wins) if (p.second.mapped) v.push_back(p.first);
    if (v.empty() || (none && choose(4) == 3)) return 0;
    return sim::pick(v);
}

void spontaneous()
{
    sim::NoFault nf;
    XWin* p = nullptr;
    if (!x->wins.empty()) { auto i = x->wins.begin(); std::advance(i, long(choose(x->wins.size()))); p = &i->second; }
    switch (choose(15)) {
        case 0: case 1: key_event(); return;
        case 2: case 3: {
            static const unsigned bs[] = { 1, 1, 1, 2, 3, 8, 9, 10, 12, 255 };
            unsigned b = sim::pick(bs);
            if (x->buttons.any() && choose(2)) for (unsigned i = 1; i < 256; ++i) if (x->buttons[i]) { b = i; break; }
            button_event(b, !x->buttons[b]);
            return;
        }
        case 4: case 5: pointer_event(pick_mapped(true)); return;
        case 6: { unsigned b = 4 + unsigned(choose(4)); if (!x->buttons[b]) { button_event(b, true); if (choose(4) == 3) pass_time(ms); button_event(b, false); } return; }
        case 7: case 8: set_focus(pick_mapped(true)); return;
        case 9: if (p && p->mapped) expose(*p); return;
        case 10: if (p) { if (choose(6) == 5) configure(*p, p->front.wd, p->front.ht); else configure(*p, 1 + int(choose(300)), 1 + int(choose(300))); } return;
        case 11: if (p) moved(*p, int(choose(3000)) - 1000, int(choose(3000)) - 1000); return;
        case 12: {
            if (!p) return;
            XEvent n = native(ClientMessage, p->id);
            n.xclient.format = 32;
            n.xclient.message_type = XInternAtom(dpy(), "WM_PROTOCOLS", False);
            Ev e;
            switch (choose(12)) {
                case 0: n.xclient.data.l[0] = long(XInternAtom(dpy(), "WM_DELETE_WINDOW", False)); e = base("close", n, p); e.cb = Cb::close; break;
                case 1: n.xclient.message_type = XInternAtom(dpy(), "XdndPosition", False); n.xclient.data.l[0] = long(XInternAtom(dpy(), "WM_DELETE_WINDOW", False)); e = base("other client message", n, p); break;
                case 2: n.xclient.format = 8; n.xclient.message_type = XInternAtom(dpy(), "_OTHER", False); e = base("other client message", n, p); break;
                default: n.xclient.data.l[0] = long(XInternAtom(dpy(), "_NET_WM_PING", False)); e = base("ping", n, p); break;
            }
            push(e);
            return;
        }
        case 13:
            if (x->have_rr && x->rr_changes) change_screen(int(choose(u64(x->d.nscreens))));
            else push(base("keyboard mapping", native(MappingNotify, 0), nullptr));
            return;
        case 14:
            // Window manager
            if (!p) return;
            if (choose(3)) push(base("keyboard mapping", native(MappingNotify, 0), nullptr));
            else if (p->mapped) { if (choose(2)) unmap_window(*p); }
            else map_window(*p);
            return;
    }
}

void generate_one()
{
    size_t n = w->q.size();
    for (int i = 0; i < 20 && w->q.size() == n; ++i) spontaneous();
    if (w->q.size() == n) { sim::NoFault nf; push(base("keyboard mapping", native(MappingNotify, 0), nullptr)); }
}

void maybe_generate(u64 den)
{
    if (!x->events) return;
    while (w->budget > 0 && choose(den) == 1) { --w->budget; generate_one(); }
}

// ---- transport
size_t in_socket() { return w->q.size() - w->taken - x->qlen; }

void flush()
{
    while (!x->out.empty()) {
        auto v = std::move(x->out);
        x->out.clear();
        for (auto& f : v) f();
    }
}

void request(std::function<void()> f)
{
    x->out.push_back(std::move(f));
    if (choose(8) == 7) { flush(); sim::count("probe.early_flush"); }
}

void read_socket(bool all)
{
    size_t n = in_socket();
    if (!n) return;
    size_t k = n;
    if (!all && choose(4) == 3) { k = 1 + choose(n); if (k < n) sim::count("fault.partial_read"); }
    while (k < n && w->q[w->taken + x->qlen + k].glued) ++k;
    x->qlen += k;
}

void round_trip(::Display* d, const char* fn)
{
    use(d, fn);
    flush();
    maybe_generate(8);
    read_socket(true);
}

void chk_win(::Window id, const char* fn)
{
    if (!x->issued.count(id)) vio('r', "x11-bad-window", "%s() called for window 0x%lx, which does not exist", fn, id);
}
void chk_drawable(XID id, const char* fn)
{
    if (!is_root(id) && !x->issued.count(id)) vio('r', "x11-bad-drawable", "%s() called for drawable 0x%lx, which does not exist", fn, id);
}

XID fresh(bool window)
{
    // Identifiers are reused only when the server has nothing left to say about the old owner
    XID id = 0;
    if (window && choose(3)) for (XID c = 0x200001; c < x->next_id && !id; ++c) {
        if (x->issued.count(c) || x->wins.count(c) || x->cmaps.count(c) || x->pixmaps.count(c)) continue;
        bool used = !x->out.empty();
        for (auto& e : w->q) { XEvent n; std::memcpy(&n, e.native, sizeof n); if (n.xany.window == c || n.xconfigure.window == c) used = true; }
        if (!used) id = c;
    }
    if (id) sim::count("probe.window_id_reused");
    else id = x->next_id++;
    x->issued.insert(id);
    return id;
}

} // namespace

// ------------------------------------------------------------------ simulated Xlib
extern "C" {

::Display* XOpenDisplay(const char*)
{
    sim::NoFault nf;
    if (x->open) sim::harness_error("second connection");
    if (faulty("XOpenDisplay()")) return nullptr;
    x->open = true;
    return dpy();
}
int XCloseDisplay(::Display* d)
{
    sim::NoFault nf;
    use(d, "XCloseDisplay");
    flush();
    if (!x->wins.empty()) vio('r', "x11-leak", "the connection was closed while windows exist");
    if (!x->pixmaps.empty()) vio('r', "x11-leak", "the connection was closed while pixmaps exist");
    if (!x->gcs.empty()) vio('r', "x11-leak", "the connection was closed while graphics contexts exist");
    if (!x->contexts.empty()) vio('r', "x11-leak", "the connection was closed while GLX contexts exist");
    for (auto& c : x->cmaps) if (c.second.own) vio('r', "x11-leak", "the connection was closed while colormaps exist");
    x->open = false;
    return 0;
}
int (*XSynchronize(::Display* d, Bool))(::Display*) { use(d, "XSynchronize"); return nullptr; }
int XFlush(::Display* d) { sim::NoFault nf; use(d, "XFlush"); flush(); return 1; }
int XSync(::Display* d, Bool) { sim::NoFault nf; round_trip(d, "XSync"); return 1; }
int XPending(::Display* d) { return XEventsQueued(d, QueuedAfterFlush); }
int XFree(void* p) { sim::NoFault nf; std::free(p); return 1; }

int XEventsQueued(::Display* d, int mode)
{
    sim::NoFault nf;
    use(d, "XEventsQueued");
    if (x->qlen > 0 || mode == QueuedAlready) return int(x->qlen);
    if (mode == QueuedAfterFlush) flush();
    if (w->in_process) {
        maybe_generate(w->saturated ? 2 : 6);
        if (w->saturated && x->events && w->generated < (x->flood ? 5000 : 1500) && !in_socket()) generate_one();
        if (x->flood && w->generated < 5000) for (size_t i = 0, n = 2 * size_t(w->calls - w->flood_calls); i < n && i < 3000; ++i) generate_one();
        w->flood_calls = w->calls;
    }
    read_socket(false);
    if (x->qlen > 256) sim::count("probe.large_batch");
    return int(x->qlen);
}
static void need_event(const char* fn)
{
    if (x->qlen > 0) return;
    flush();
    read_socket(false);
    if (x->qlen == 0) vio('e', "blocks", "%s() called when there is no event, so it blocks", fn);
}
int XNextEvent(::Display* d, XEvent* e)
{
    sim::NoFault nf;
    use(d, "XNextEvent");
    need_event("XNextEvent");
    std::memcpy(e, w->q[w->taken].native, sizeof *e);
    ++w->taken;
    --x->qlen;
    return 0;
}
int XPeekEvent(::Display* d, XEvent* e)
{
    sim::NoFault nf;
    use(d, "XPeekEvent");
    need_event("XPeekEvent");
    std::memcpy(e, w->q[w->taken].native, sizeof *e);
    return 0;
}

int __wrap_poll(pollfd* fds, nfds_t n, int timeout)
{
    if (!x || n != 1 || fds[0].fd != conn_fd) return __real_poll(fds, n, timeout);
    sim::NoFault nf;
    if (!x->open) vio('r', "x11-no-connection", "poll() called on a connection that is not open");
    if (!(fds[0].events & POLLIN)) vio('e', "poll-events", "does not wait for input");
    fds[0].revents = 0;
    if (!x->out.empty()) vio('e', "unflushed", "sleeps while %zu requests have not been sent to the server", x->out.size());
    if (x->qlen > 0) vio('e', "unprocessed", "sleeps while %zu events are waiting inside Xlib", x->qlen);
    maybe_generate(8);
    if (in_socket()) { fds[0].revents = POLLIN; return 1; }
    about_to_sleep(timeout < 0 ? never : i64(timeout) * ms);
    if (x->events && choose(16) == 1) { sim::count("fault.eintr"); trace("  poll() is interrupted by a signal"); pass_time(timeout < 0 ? 0 : i64(double(timeout) * double(choose(100)) / 100) * ms); errno = EINTR; return -1; }
    if (x->faults && choose(10) == 1) { w->fault_fired = true; trace("  poll() fails"); sim::count("fault.poll"); errno = choose(2) ? ENOMEM : EINVAL; return -1; }
    if (x->events && w->budget <= 0 && timeout < 0) {
        // Have the application interrupt event processing
        w->stop_soon = true;
        pass_time(i64(choose(1000)) * ms);
        push(base("keyboard mapping", native(MappingNotify, 0), nullptr));
        fds[0].revents = POLLIN;
        return 1;
    }
    if (timeout < 0 || (w->budget > 0 && timeout > 0 && choose(2))) {
        i64 t = timeout < 0 ? 10 * sec : i64(timeout) * ms;
        pass_time(i64(double(t) * double(choose(101)) / 100));
        --w->budget;
        generate_one();
        fds[0].revents = POLLIN;
        return 1;
    }
    i64 late = 0;
    if (choose(8) == 1) { late = i64(sim::range(0, 20000)) * ms; sim::count("fault.late_wakeup"); }
    pass_time(i64(timeout) * ms + late);
    if (late && choose(2)) while (choose(3)) { if (w->budget <= 0) break; --w->budget; generate_one(); }
    if (in_socket()) { fds[0].revents = POLLIN; return 1; }
    return 0;
}

// ---- atoms, properties
Atom XInternAtom(::Display* d, const char* name, Bool)
{
    sim::NoFault nf;
    use(d, "XInternAtom");
    for (size_t i = 0; i < x->atoms.size(); ++i) if (x->atoms[i] == name) return Atom(100 + i);
    x->atoms.push_back(name);
    return Atom(100 + x->atoms.size() - 1);
}
int XChangeProperty(::Display* d, ::Window id, Atom, Atom, int, int, const unsigned char*, int) { sim::NoFault nf; use(d, "XChangeProperty"); chk_win(id, "XChangeProperty"); request([] {}); return 1; }
int XGetWindowProperty(::Display* d, ::Window id, Atom, long, long, Bool, Atom, Atom* type, int* format, unsigned long* n, unsigned long* after, unsigned char** prop)
{
    sim::NoFault nf;
    round_trip(d, "XGetWindowProperty");
    if (!is_root(id)) chk_win(id, "XGetWindowProperty");
    *type = None; *format = 0; *n = 0; *after = 0; *prop = nullptr;
    return faulty("XGetWindowProperty()") ? BadAlloc : Success;
}
static int text_property(char** list, int count, XTextProperty* p)
{
    if (count != 1) sim::harness_error("text property");
    size_t n = std::strlen(list[0]);
    p->value = static_cast<unsigned char*>(std::malloc(n + 1));
    std::memcpy(p->value, list[0], n + 1);
    p->encoding = XA_STRING; p->format = 8; p->nitems = n;
    return 0;
}
int Xutf8TextListToTextProperty(::Display* d, char** list, int count, XICCEncodingStyle, XTextProperty* p) { sim::NoFault nf; use(d, "Xutf8TextListToTextProperty"); return faulty("Xutf8TextListToTextProperty()") ? XNoMemory : text_property(list, count, p); }
int XmbTextListToTextProperty(::Display* d, char** list, int count, XICCEncodingStyle, XTextProperty* p) { sim::NoFault nf; use(d, "XmbTextListToTextProperty"); return faulty("XmbTextListToTextProperty()") ? XNoMemory : text_property(list, count, p); }
void XSetWMName(::Display* d, ::Window id, XTextProperty* p)
{
    sim::NoFault nf;
    use(d, "XSetWMName"); chk_win(id, "XSetWMName");
    w->last_title.assign(reinterpret_cast<char*>(p->value), p->nitems);
    request([] {});
}
int XSetWMHints(::Display* d, ::Window id, XWMHints*) { sim::NoFault nf; use(d, "XSetWMHints"); chk_win(id, "XSetWMHints"); request([] {}); return 1; }
void XSetWMSizeHints(::Display* d, ::Window id, XSizeHints*, Atom) { sim::NoFault nf; use(d, "XSetWMSizeHints"); chk_win(id, "XSetWMSizeHints"); request([] {}); }

// ---- windows
::Window XCreateWindow(::Display* d, ::Window parent, int, int, unsigned wd, unsigned ht, unsigned, int depth, unsigned, Visual* v, unsigned long mask, XSetWindowAttributes* a)
{
    sim::NoFault nf;
    use(d, "XCreateWindow");
    if (!is_root(parent)) vio('r', "x11-bad-window", "a window was created in a parent that is not a root window");
    if (wd == 0 || ht == 0 || wd > 65535 || ht > 65535) vio('r', "x11-bad-value", "XCreateWindow() called with size %ux%u", wd, ht);
    const long needed = KeyPressMask | KeyReleaseMask | ButtonPressMask | ButtonReleaseMask | EnterWindowMask | LeaveWindowMask | FocusChangeMask | ExposureMask | StructureNotifyMask;
    if (!(mask & CWEventMask) || (a->event_mask & needed) != needed || !(a->event_mask & (ButtonMotionMask | PointerMotionMask))) vio('e', "event-mask", "the event mask of the window leaves out events that must be reported");
    XID id = fresh(true);
    XWin n;
    n.id = id; n.win = int(w->wins.size()) - 1; n.scr = parent == root_id(0) ? 0 : 1;
    n.visual = v->visualid; n.cm = mask & CWColormap ? a->colormap : 0;
    // Without an explicit border, it is copied from the parent
    if (depth != x->screens[n.scr].root_depth && !(mask & (CWBorderPixel | CWBorderPixmap))) vio('r', "x11-bad-match", "a window whose depth differs from that of its parent was created without an explicit border");
    if (n.visual != x->screens[n.scr].root_visual->visualid && !(mask & CWColormap)) vio('r', "x11-bad-match", "a window whose visual differs from that of its parent was created without an explicit colormap");
    x->depths[id] = depth;
    n.front.wd = n.back.wd = int(wd); n.front.ht = n.back.ht = int(ht); n.front.depth = n.back.depth = depth;
    if (n.cm && !x->cmaps.count(n.cm)) vio('r', "x11-bad-color", "a window was created with a colormap that does not exist");
    if (n.cm && x->cmaps[n.cm].visual != n.visual) vio('r', "x11-bad-match", "a window was created with a colormap for a different visual");
    if (x->draw) { n.front.pix.assign(size_t(wd) * ht, 0); n.back.pix = n.front.pix; }
    request([n, id] { x->wins[id] = n; });
    return id;
}
int XDestroyWindow(::Display* d, ::Window id)
{
    sim::NoFault nf;
    use(d, "XDestroyWindow");
    chk_win(id, "XDestroyWindow");
    x->issued.erase(id);
    request([id] { destroy_window(id); });
    return 1;
}
int XMapWindow(::Display* d, ::Window id)
{
    sim::NoFault nf;
    use(d, "XMapWindow");
    chk_win(id, "XMapWindow");
    request([id] { if (x->events) map_window(x->wins.at(id)); else x->wins.at(id).mapped = true; });
    return 1;
}
int XUnmapWindow(::Display* d, ::Window id)
{
    sim::NoFault nf;
    use(d, "XUnmapWindow");
    chk_win(id, "XUnmapWindow");
    request([id] { if (x->events) unmap_window(x->wins.at(id)); else x->wins.at(id).mapped = false; });
    return 1;
}
int XResizeWindow(::Display* d, ::Window id, unsigned wd, unsigned ht)
{
    sim::NoFault nf;
    use(d, "XResizeWindow");
    chk_win(id, "XResizeWindow");
    if (wd == 0 || ht == 0 || wd > 65535 || ht > 65535) vio('r', "x11-bad-value", "XResizeWindow() called with size %ux%u", wd, ht);
    request([id, wd, ht] {
        if (x->events && choose(4) == 3) return; // not honoured
        XWin& p = x->wins.at(id);
        if (int(wd) != p.front.wd || int(ht) != p.front.ht) configure(p, int(wd), int(ht));
    });
    return 1;
}
Status XSendEvent(::Display* d, ::Window to, Bool, long mask, XEvent* e)
{
    sim::NoFault nf;
    use(d, "XSendEvent");
    if (!is_root(to) || !(mask & SubstructureRedirectMask)) vio('r', "x11-send-event", "a message for the window manager was not sent to a root window");
    ::Window id = e->xclient.window;
    chk_win(id, "XSendEvent");
    if (faulty("XSendEvent()")) return 0;
    bool full = e->xclient.message_type == XInternAtom(d, "_NET_WM_STATE", False);
    long on = e->xclient.data.l[0];
    request([id, full, on] {
        if (!full || !x->events || !choose(4)) return;
        XWin& p = x->wins.at(id);
        if (!p.mapped) return;
        if (on == 1) { configure(p, 640, 480); moved(p, 0, 0); }
        else configure(p, 1 + int(choose(300)), 1 + int(choose(300)));
    });
    return 1;
}

// ---- graphics
Pixmap XCreatePixmap(::Display* d, Drawable of, unsigned wd, unsigned ht, unsigned depth)
{
    sim::NoFault nf;
    use(d, "XCreatePixmap");
    chk_drawable(of, "XCreatePixmap");
    if (wd == 0 || ht == 0 || wd > 32767 || ht > 32767) vio('r', "x11-bad-value", "XCreatePixmap() called with size %ux%u", wd, ht);
    XID id = fresh(false);
    Canvas c;
    c.wd = int(wd); c.ht = int(ht); c.depth = int(depth);
    c.pix.assign(size_t(wd) * ht, 0x00A5A5A5);
    x->depths[id] = int(depth);
    request([id, c] { x->pixmaps[id] = c; });
    return id;
}
int XFreePixmap(::Display* d, Pixmap id)
{
    sim::NoFault nf;
    use(d, "XFreePixmap");
    if (!x->issued.erase(id)) vio('r', "x11-bad-pixmap", "XFreePixmap() called for a pixmap that does not exist");
    request([id] { if (!x->pixmaps.erase(id)) sim::harness_error("XFreePixmap"); });
    return 1;
}
static int drawable_depth(XID id) { return is_root(id) ? x->screens[id == root_id(0) ? 0 : 1].root_depth : x->depths[id]; }
GC XCreateGC(::Display* d, Drawable of, unsigned long mask, XGCValues* v)
{
    sim::NoFault nf;
    use(d, "XCreateGC");
    chk_drawable(of, "XCreateGC");
    if (!(mask & GCGraphicsExposures) || v->graphics_exposures) vio('r', "x11-gc", "a graphics context generates exposure events");
    GC g = reinterpret_cast<GC>(new char[8]);
    x->gcs[g] = { 0, drawable_depth(of) };
    return g;
}
int XFreeGC(::Display* d, GC g)
{
    sim::NoFault nf;
    use(d, "XFreeGC");
    if (!x->gcs.erase(g)) vio('r', "x11-bad-gc", "XFreeGC() called for a graphics context that does not exist");
    delete[] reinterpret_cast<char*>(g);
    return 1;
}
static void chk_gc(GC g, XID id, const char* fn)
{
    auto i = x->gcs.find(g);
    if (i == x->gcs.end()) vio('r', "x11-bad-gc", "%s() called for a graphics context that does not exist", fn);
    if (id && i->second.depth != drawable_depth(id)) vio('r', "x11-bad-match", "%s() called with a graphics context for a different depth", fn);
}
int XSetForeground(::Display* d, GC g, unsigned long c) { sim::NoFault nf; use(d, "XSetForeground"); chk_gc(g, 0, "XSetForeground"); x->gcs[g].color = c; return 1; }

static Canvas* canvas(XID id)
{
    auto i = x->pixmaps.find(id);
    if (i != x->pixmaps.end()) return &i->second;
    for (auto& p : x->wins) {
        if (p.first == id) return &p.second.front;
        if (p.second.back_id == id) return &p.second.back;
    }
    return nullptr;
}
// As transferred by the protocol
static int i16(int v) { return int(std::int16_t(v)); }
static unsigned c16(unsigned v) { return unsigned(std::uint16_t(v)); }

int XFillRectangle(::Display* d, Drawable to, GC g, int px, int py, unsigned wd, unsigned ht)
{
    sim::NoFault nf;
    use(d, "XFillRectangle");
    chk_drawable(to, "XFillRectangle");
    chk_gc(g, to, "XFillRectangle");
    u32 c = u32(x->gcs[g].color);
    int x0 = i16(px), y0 = i16(py);
    unsigned w2 = c16(wd), h2 = c16(ht);
    request([=] {
        Canvas* k = canvas(to);
        if (!k || k->pix.empty()) return;
        i64 x1 = std::min<i64>(i64(x0) + w2, k->wd), y1 = std::min<i64>(i64(y0) + h2, k->ht);
        for (i64 b = std::max(y0, 0); b < y1; ++b) for (i64 a = std::max(x0, 0); a < x1; ++a) k->pix[size_t(b * k->wd + a)] = c;
    });
    return 1;
}
int XCopyArea(::Display* d, Drawable from, Drawable to, GC g, int sx, int sy, unsigned wd, unsigned ht, int dx, int dy)
{
    sim::NoFault nf;
    use(d, "XCopyArea");
    chk_drawable(from, "XCopyArea");
    chk_drawable(to, "XCopyArea");
    chk_gc(g, to, "XCopyArea");
    sx = i16(sx); sy = i16(sy); dx = i16(dx); dy = i16(dy); wd = c16(wd); ht = c16(ht);
    request([=] {
        Canvas* a = canvas(from);
        Canvas* b = canvas(to);
        if (!a || !b || a->pix.empty() || b->pix.empty()) return;
        if (a->depth != b->depth) vio('r', "x11-bad-match", "XCopyArea() called for drawables of different depth");
        for (i64 y = 0; y < i64(ht); ++y) for (i64 c = 0; c < i64(wd); ++c) {
            i64 u = sx + c, v = sy + y, s = dx + c, t = dy + y;
            if (u < 0 || v < 0 || u >= a->wd || v >= a->ht || s < 0 || t < 0 || s >= b->wd || t >= b->ht) continue;
            b->pix[size_t(t * b->wd + s)] = a->pix[size_t(v * a->wd + u)];
        }
    });
    return 1;
}
Status XInitImage(XImage* m)
{
    sim::NoFault nf;
    if (m->depth < 1 || m->depth > 32 || m->bits_per_pixel < 1 || m->bits_per_pixel > 32) return 0;
    if (m->bytes_per_line == 0) m->bytes_per_line = ((m->bits_per_pixel * m->width + m->bitmap_pad - 1) / m->bitmap_pad * m->bitmap_pad) / 8;
    return 1;
}
int XPutImage(::Display* d, Drawable to, GC g, XImage* m, int sx, int sy, int dx, int dy, unsigned wd, unsigned ht)
{
    sim::NoFault nf;
    use(d, "XPutImage");
    chk_drawable(to, "XPutImage");
    chk_gc(g, to, "XPutImage");
    if (sx < 0 || sy < 0 || i64(sx) + wd > m->width || i64(sy) + ht > m->height) vio('r', "x11-image", "XPutImage() called with an area outside of the image");
    if (m->bits_per_pixel % 8 != 0) sim::harness_error("XPutImage");
    dx = i16(dx); dy = i16(dy); wd = c16(wd); ht = c16(ht);
    int bytes = m->bits_per_pixel / 8, depth = m->depth;
    std::vector<u32> v(size_t(wd) * ht);
    for (unsigned y = 0; y < ht; ++y) for (unsigned c = 0; c < wd; ++c) {
        const unsigned char* p = reinterpret_cast<unsigned char*>(m->data) + i64(sy + int(y)) * m->bytes_per_line + i64(sx + int(c)) * bytes;
        u32 z = 0;
        for (int i = 0; i < bytes; ++i) z |= u32(p[i]) << (m->byte_order == LSBFirst ? 8 * i : 8 * (bytes - 1 - i));
        v[size_t(y) * wd + c] = z;
    }
    request([=] {
        Canvas* b = canvas(to);
        if (!b || b->pix.empty()) return;
        if (b->depth != depth) vio('r', "x11-bad-match", "XPutImage() called with an image whose depth differs from that of the drawable");
        for (i64 y = 0; y < i64(ht); ++y) for (i64 c = 0; c < i64(wd); ++c) {
            i64 s = dx + c, t = dy + y;
            if (s < 0 || t < 0 || s >= b->wd || t >= b->ht) continue;
            b->pix[size_t(t * b->wd + s)] = v[size_t(y * i64(wd) + c)];
        }
    });
    return 1;
}
XPixmapFormatValues* XListPixmapFormats(::Display* d, int* n)
{
    sim::NoFault nf;
    use(d, "XListPixmapFormats");
    if (faulty("XListPixmapFormats()")) return nullptr;
    std::map<int, int> f { { 1, 1 } };
    for (auto& v : x->visuals) f[v.depth] = v.bpp;
    auto r = static_cast<XPixmapFormatValues*>(std::malloc(sizeof(XPixmapFormatValues) * f.size()));
    *n = 0;
    for (auto& p : f) r[(*n)++] = { p.first, p.second, 32 };
    return r;
}
VisualID XVisualIDFromVisual(Visual* v) { return v->visualid; }
XVisualInfo* XGetVisualInfo(::Display* d, long, XVisualInfo* t, int* n)
{
    sim::NoFault nf;
    use(d, "XGetVisualInfo");
    *n = 0;
    auto r = static_cast<XVisualInfo*>(std::malloc(sizeof(XVisualInfo) * x->visuals.size()));
    for (auto& v : x->visuals) {
        XVisualInfo& i = r[(*n)++];
        i = {};
        i.visual = &v.v; i.visualid = v.v.visualid; i.screen = t->screen; i.depth = v.depth; i.c_class = v.v.c_class;
        i.red_mask = v.v.red_mask; i.green_mask = v.v.green_mask; i.blue_mask = v.v.blue_mask; i.colormap_size = v.v.map_entries; i.bits_per_rgb = v.v.bits_per_rgb;
    }
    return r;
}

// ---- colours
Colormap XCreateColormap(::Display* d, ::Window, Visual* v, int alloc)
{
    sim::NoFault nf;
    use(d, "XCreateColormap");
    XID id = fresh(false);
    Cmap c;
    c.visual = v->visualid; c.own = true;
    bool fixed = v->c_class == StaticGray || v->c_class == StaticColor || v->c_class == TrueColor;
    if (fixed && alloc == AllocAll) vio('r', "x11-bad-match", "XCreateColormap() called with AllocAll for a visual whose colours are fixed");
    for (auto& k : x->visuals) if (k.v.visualid == v->visualid) c.e = k.palette;
    if (c.e.empty()) c.e.assign(size_t(v->map_entries), XColor {});
    c.used.assign(size_t(v->map_entries), alloc == AllocAll);
    x->cmaps[id] = c;
    return id;
}
int XFreeColormap(::Display* d, Colormap id)
{
    sim::NoFault nf;
    use(d, "XFreeColormap");
    if (!x->issued.erase(id)) vio('r', "x11-bad-color", "XFreeColormap() called for a colormap that does not exist");
    request([id] {
        for (auto& p : x->wins) if (p.second.cm == id) vio('r', "x11-colormap-in-use", "a colormap was freed while a window uses it");
        x->cmaps.erase(id);
    });
    return 1;
}
int XInstallColormap(::Display* d, Colormap id) { sim::NoFault nf; use(d, "XInstallColormap"); if (!x->cmaps.count(id)) vio('r', "x11-bad-color", "XInstallColormap() called for a colormap that does not exist"); request([] {}); return 1; }
static Cmap& cmap(Colormap id, const char* fn)
{
    auto i = x->cmaps.find(id);
    if (i == x->cmaps.end() || (i->second.own && !x->issued.count(id))) vio('r', "x11-bad-color", "%s() called for a colormap that does not exist", fn);
    return i->second;
}
int XQueryColors(::Display* d, Colormap id, XColor* c, int n)
{
    sim::NoFault nf;
    round_trip(d, "XQueryColors");
    Cmap& m = cmap(id, "XQueryColors");
    for (int i = 0; i < n; ++i) {
        if (c[i].pixel >= m.e.size()) vio('r', "x11-bad-value", "XQueryColors() called for a pixel value out of range");
        XColor& e = m.e[c[i].pixel];
        c[i].red = e.red; c[i].green = e.green; c[i].blue = e.blue; c[i].flags = DoRed | DoGreen | DoBlue;
    }
    return 1;
}
int XStoreColors(::Display* d, Colormap id, XColor* c, int n)
{
    sim::NoFault nf;
    use(d, "XStoreColors");
    Cmap& m = cmap(id, "XStoreColors");
    const Vis* v = nullptr;
    for (auto& k : x->visuals) if (k.v.visualid == m.visual) v = &k;
    if (v->v.c_class == StaticGray || v->v.c_class == StaticColor || v->v.c_class == TrueColor) vio('r', "x11-bad-access", "XStoreColors() called for a colormap whose colours are fixed");
    for (int i = 0; i < n; ++i) {
        auto put = [&](unsigned long p, unsigned short XColor::* f) {
            if (p >= m.e.size()) vio('r', "x11-bad-value", "XStoreColors() called for a pixel value out of range");
            if (!m.used[p]) vio('r', "x11-bad-access", "XStoreColors() called for a colour cell that was not allocated");
            m.e[p].*f = c[i].*f;
        };
        auto part = [&](unsigned long mask) { return v->v.c_class == DirectColor ? (c[i].pixel & mask) >> __builtin_ctzl(mask) : c[i].pixel; };
        if (c[i].flags & DoRed) put(part(v->v.red_mask), &XColor::red);
        if (c[i].flags & DoGreen) put(part(v->v.green_mask), &XColor::green);
        if (c[i].flags & DoBlue) put(part(v->v.blue_mask), &XColor::blue);
    }
    return 1;
}
Status XAllocColor(::Display* d, Colormap id, XColor* c)
{
    sim::NoFault nf;
    round_trip(d, "XAllocColor");
    Cmap& m = cmap(id, "XAllocColor");
    for (size_t i = 0; i < m.e.size(); ++i) if (m.used[i] >= 2 && m.e[i].red == c->red && m.e[i].green == c->green && m.e[i].blue == c->blue) { ++m.mine[i]; c->pixel = i; return 1; }
    for (size_t i = 0; i < m.e.size(); ++i) if (!m.used[i]) { m.used[i] = 2; m.e[i].red = c->red; m.e[i].green = c->green; m.e[i].blue = c->blue; ++m.mine[i]; c->pixel = i; return 1; }
    sim::count("fault.colormap_full");
    return 0;
}
int XFreeColors(::Display* d, Colormap id, unsigned long* p, int n, unsigned long)
{
    sim::NoFault nf;
    use(d, "XFreeColors");
    Cmap& m = cmap(id, "XFreeColors");
    for (int i = 0; i < n; ++i) {
        auto j = m.mine.find(p[i]);
        if (j == m.mine.end()) vio('r', "x11-bad-access", "XFreeColors() called for a colour cell that was not allocated");
        if (--j->second == 0) { m.mine.erase(j); if (m.used[p[i]] == 2) m.used[p[i]] = 0; }
    }
    return 1;
}
Status XGetRGBColormaps(::Display* d, ::Window, XStandardColormap** list, int* n, Atom)
{
    sim::NoFault nf;
    round_trip(d, "XGetRGBColormaps");
    if (x->standard.empty() || faulty("XGetRGBColormaps()")) return 0;
    *list = static_cast<XStandardColormap*>(std::malloc(sizeof(XStandardColormap) * x->standard.size()));
    *n = 0;
    for (auto& m : x->standard) (*list)[(*n)++] = m;
    return 1;
}

// ---- extensions
Status XdbeQueryExtension(::Display*, int* a, int* b) { *a = 1; *b = 0; return x->have_dbe; }
XdbeScreenVisualInfo* XdbeGetVisualInfo(::Display* d, Drawable*, int* n)
{
    sim::NoFault nf;
    use(d, "XdbeGetVisualInfo");
    *n = 1;
    auto r = static_cast<XdbeScreenVisualInfo*>(std::malloc(sizeof(XdbeScreenVisualInfo)));
    r->count = 0;
    r->visinfo = static_cast<XdbeVisualInfo*>(std::malloc(sizeof(XdbeVisualInfo) * (x->visuals.size() + 1)));
    for (auto& v : x->visuals) if (v.dbl) r->visinfo[r->count++] = { v.v.visualid, v.depth, 0 };
    return r;
}
void XdbeFreeVisualInfo(XdbeScreenVisualInfo* p) { sim::NoFault nf; std::free(p->visinfo); std::free(p); }
XdbeBackBuffer XdbeAllocateBackBufferName(::Display* d, ::Window id, XdbeSwapAction)
{
    sim::NoFault nf;
    use(d, "XdbeAllocateBackBufferName");
    chk_win(id, "XdbeAllocateBackBufferName");
    XID b = fresh(false);
    x->depths[b] = x->depths[id];
    request([id, b] { x->wins.at(id).back_id = b; });
    return b;
}
Status XdbeSwapBuffers(::Display* d, XdbeSwapInfo* i, int n)
{
    sim::NoFault nf;
    use(d, "XdbeSwapBuffers");
    if (n != 1) sim::harness_error("XdbeSwapBuffers");
    chk_win(i->swap_window, "XdbeSwapBuffers");
    if (faulty("XdbeSwapBuffers()")) return 0;
    ::Window id = i->swap_window;
    request([id] { XWin& p = x->wins.at(id); p.front.pix = p.back.pix; for (auto& c : p.back.pix) c = 0x00123456; });
    return 1;
}
Bool XkbLibraryVersion(int*, int*) { return True; }
Bool XkbQueryExtension(::Display*, int*, int*, int*, int* a, int* b) { *a = 1; *b = 0; return x->have_xkb; }
Bool XkbSetDetectableAutoRepeat(::Display* d, Bool on, Bool* supported)
{
    use(d, "XkbSetDetectableAutoRepeat");
    if (supported) *supported = x->detectable_supported;
    if (x->detectable_supported) x->detectable = on;
    return x->detectable;
}
KeySym XkbKeycodeToKeysym(::Display* d, KeyCode c, int group, int level)
{
    use(d, "XkbKeycodeToKeysym");
    for (auto& k : key_table) if (k.code == c) return group == 0 && level == 0 ? k.sym : k.sym == XK_a ? KeySym(XK_A) : KeySym(NoSymbol);
    return NoSymbol;
}
Bool XRenderQueryExtension(::Display*, int*, int*) { return x->have_render; }
Status XRenderQueryVersion(::Display*, int* a, int* b) { *a = 0; *b = 11; return 1; }
Bool glXQueryExtension(::Display*, int*, int*) { return x->have_glx; }
Bool glXQueryVersion(::Display*, int* a, int* b) { *a = 1; *b = 4; return True; }
int glXGetConfig(::Display*, XVisualInfo*, int attrib, int* v) { *v = attrib == GLX_USE_GL || attrib == GLX_DOUBLEBUFFER ? 1 : attrib == GLX_DEPTH_SIZE ? 24 : 0; return 0; }
GLXContext glXCreateContext(::Display* d, XVisualInfo*, GLXContext, Bool)
{
    sim::NoFault nf;
    use(d, "glXCreateContext");
    if (faulty("glXCreateContext()")) return nullptr;
    char* p = new char[8];
    x->contexts.insert(p);
    return reinterpret_cast<GLXContext>(p);
}
void glXDestroyContext(::Display* d, GLXContext c)
{
    sim::NoFault nf;
    use(d, "glXDestroyContext");
    if (!x->contexts.erase(c)) vio('r', "x11-bad-context", "glXDestroyContext() called for a context that does not exist");
    delete[] reinterpret_cast<char*>(c);
}
Bool glXMakeCurrent(::Display* d, GLXDrawable, GLXContext) { use(d, "glXMakeCurrent"); return True; }
void glXSwapBuffers(::Display* d, GLXDrawable) { use(d, "glXSwapBuffers"); }

Bool XRRQueryExtension(::Display*, int* ev, int* er) { *ev = rr_base; *er = 0; return x->have_rr; }
Status XRRQueryVersion(::Display*, int* a, int* b) { *a = 1; *b = 6; return 1; }
void XRRSelectInput(::Display* d, ::Window root, int mask)
{
    sim::NoFault nf;
    use(d, "XRRSelectInput");
    if (!is_root(root)) vio('r', "x11-bad-window", "XRRSelectInput() called for a window that is not a root window");
    int s = root == root_id(0) ? 0 : 1;
    bool on = (mask & RRCrtcChangeNotifyMask) && (mask & RROutputChangeNotifyMask);
    request([s, on] { x->scr[s].selected = on; });
}
static void between_requests(const char* fn)
{
    round_trip(dpy(), fn);
    if (x->fetching >= 0 && x->rr_changes && x->events && w->budget > 0 && choose(12) == 1) { --w->budget; change_screen(x->fetching); read_socket(true); sim::count("fault.screen_changes_while_fetched"); }
}
XRRScreenResources* XRRGetScreenResourcesCurrent(::Display* d, ::Window root)
{
    sim::NoFault nf;
    round_trip(d, "XRRGetScreenResourcesCurrent");
    if (faulty("XRRGetScreenResourcesCurrent()")) return nullptr;
    int s = root == root_id(0) ? 0 : 1;
    x->fetching = s;
    Scr& c = x->scr[s];
    auto r = static_cast<XRRScreenResources*>(std::calloc(1, sizeof(XRRScreenResources)));
    r->crtcs = static_cast<RRCrtc*>(std::malloc(sizeof(RRCrtc) * (c.crtcs.size() + 1)));
    r->outputs = static_cast<RROutput*>(std::malloc(sizeof(RROutput) * (c.outputs.size() + 1)));
    r->modes = static_cast<XRRModeInfo*>(std::calloc(c.modes.size() + 1, sizeof(XRRModeInfo)));
    for (auto& k : c.crtcs) r->crtcs[r->ncrtc++] = k.id;
    for (auto& k : c.outputs) r->outputs[r->noutput++] = k.id;
    for (auto& m : c.modes) {
        XRRModeInfo& i = r->modes[r->nmode++];
        i.id = m.id; i.width = m.wd; i.height = m.ht; i.dotClock = m.clock; i.hTotal = m.ht_total; i.vTotal = m.vt_total;
    }
    return r;
}
void XRRFreeScreenResources(XRRScreenResources* r) { sim::NoFault nf; std::free(r->crtcs); std::free(r->outputs); std::free(r->modes); std::free(r); x->fetching = -1; }
XRRCrtcInfo* XRRGetCrtcInfo(::Display*, XRRScreenResources*, RRCrtc id)
{
    sim::NoFault nf;
    between_requests("XRRGetCrtcInfo");
    if (x->rr_changes && choose(30) == 1) { sim::count("fault.xrr_null"); return nullptr; }
    for (auto& c : x->scr) for (auto& k : c.crtcs) if (k.id == id) {
        auto r = static_cast<XRRCrtcInfo*>(std::calloc(1, sizeof(XRRCrtcInfo)));
        r->x = k.x; r->y = k.y; r->width = k.wd; r->height = k.ht; r->mode = k.mode; r->rotation = k.rot;
        return r;
    }
    vio('r', "x11-bad-crtc", "XRRGetCrtcInfo() called for a CRTC that does not exist");
}
void XRRFreeCrtcInfo(XRRCrtcInfo* r) { sim::NoFault nf; std::free(r); }
XRROutputInfo* XRRGetOutputInfo(::Display*, XRRScreenResources*, RROutput id)
{
    sim::NoFault nf;
    between_requests("XRRGetOutputInfo");
    if (x->rr_changes && choose(30) == 1) { sim::count("fault.xrr_null"); return nullptr; }
    for (auto& c : x->scr) for (auto& o : c.outputs) if (o.id == id) {
        auto r = static_cast<XRROutputInfo*>(std::calloc(1, sizeof(XRROutputInfo)));
        r->crtc = o.crtc; r->connection = o.conn; r->mm_width = o.mm_w; r->mm_height = o.mm_h;
        r->nameLen = int(o.name.size());
        r->name = static_cast<char*>(std::malloc(o.name.size() + 1));
        std::memcpy(r->name, o.name.data(), o.name.size());
        r->name[o.name.size()] = char(choose(2) ? 0 : 'z');
        return r;
    }
    vio('r', "x11-bad-output", "XRRGetOutputInfo() called for an output that does not exist");
}
void XRRFreeOutputInfo(XRROutputInfo* r) { sim::NoFault nf; std::free(r->name); std::free(r); }
Atom* XRRListOutputProperties(::Display*, RROutput id, int* n)
{
    sim::NoFault nf;
    between_requests("XRRListOutputProperties");
    *n = 0;
    for (auto& c : x->scr) for (auto& o : c.outputs) if (o.id == id) {
        if (o.edid.empty() && choose(2)) return nullptr;
        auto r = static_cast<Atom*>(std::malloc(sizeof(Atom) * 3));
        r[(*n)++] = XInternAtom(dpy(), "non-desktop", False);
        if (!o.edid.empty()) r[(*n)++] = XInternAtom(dpy(), RR_PROPERTY_RANDR_EDID, False);
        return r;
    }
    return nullptr;
}
int XRRGetOutputProperty(::Display*, RROutput id, Atom prop, long off, long len, Bool, Bool, Atom, Atom* type, int* format, unsigned long* n, unsigned long* after, unsigned char** data)
{
    sim::NoFault nf;
    between_requests("XRRGetOutputProperty");
    *type = None; *format = 0; *n = 0; *after = 0; *data = nullptr;
    for (auto& c : x->scr) for (auto& o : c.outputs) if (o.id == id && prop == XInternAtom(dpy(), RR_PROPERTY_RANDR_EDID, False) && !o.edid.empty()) {
        size_t a = std::min(size_t(off) * 4, o.edid.size()), b = std::min(a + size_t(len) * 4, o.edid.size());
        *type = XA_INTEGER; *format = 8; *n = b - a; *after = o.edid.size() - b;
        *data = static_cast<unsigned char*>(std::malloc(b - a + 1));
        std::memcpy(*data, o.edid.data() + a, b - a);
    }
    return Success;
}

} // extern "C"

namespace {

// ------------------------------------------------------------------ scenarios
struct X11World {
    World world;
    X server;
    X11World()
    {
        w = &world; x = &server;
        app_view[0] = app_view[1] = {};
        std::memset(&x->d, 0, sizeof x->d);
        std::memset(x->screens, 0, sizeof x->screens);
        add_visual(0x21, TrueColor, 24, 32, 0xFF0000, 0xFF00, 0xFF, 256, true);
    }
    ~X11World() { for (auto& g : x->gcs) delete[] reinterpret_cast<char*>(g.first); w = nullptr; x = nullptr; }
    void add_visual(VisualID id, int cls, int depth, int bpp, unsigned long r, unsigned long g, unsigned long b, int entries, bool dbl)
    {
        Vis v;
        std::memset(&v.v, 0, sizeof v.v);
        v.v.visualid = id; v.v.c_class = cls; v.v.red_mask = r; v.v.green_mask = g; v.v.blue_mask = b; v.v.map_entries = entries; v.v.bits_per_rgb = 8;
        v.depth = depth; v.bpp = bpp; v.dbl = dbl;
        x->visuals.push_back(v);
    }
    static XColor rgb(u32 c) { XColor r {}; r.red = (unsigned short)((c >> 16 & 255) * 257); r.green = (unsigned short)((c >> 8 & 255) * 257); r.blue = (unsigned short)((c & 255) * 257); return r; }
    static XColor level(int r, int rm, int g, int gm, int b, int bm)
    {
        auto f = [](int v, int m) { return (unsigned short)(m ? (i64(v) * 65535 * 2 + m) / (2 * m) : 0); };
        XColor c {};
        c.red = f(r, rm); c.green = f(g, gm); c.blue = f(b, bm);
        return c;
    }
    // Visuals of all classes. The first one is that of the root window
    void add_visuals()
    {
        x->visuals.clear();
        int bpp24 = choose(4) == 3 ? 24 : 32;
        u64 n = 1 + choose(4);
        for (u64 i = 0; i < n; ++i) {
            VisualID id = 0x21 + i * 3;
            bool dbl = choose(3) != 2;
            int cls = TrueColor;
            switch (choose(10)) {
                case 0: case 1: break;
                case 2: case 3: cls = DirectColor; break;
                case 4: cls = StaticGray; break;
                case 5: cls = GrayScale; break;
                case 6: case 7: cls = StaticColor; break;
                case 8: case 9: cls = PseudoColor; break;
            }
            if (cls == TrueColor || cls == DirectColor) {
                switch (choose(5)) {
                    case 0: add_visual(id, cls, 24, bpp24, 0xFF0000, 0xFF00, 0xFF, 256, dbl); break;
                    case 1: add_visual(id, cls, 32, 32, 0xFF0000, 0xFF00, 0xFF, 256, dbl); break;
                    case 2: add_visual(id, cls, 16, 16, 0xF800, 0x7E0, 0x1F, 64, dbl); break;
                    case 3: add_visual(id, cls, 15, 16, 0x7C00, 0x3E0, 0x1F, 32, dbl); break;
                    case 4: add_visual(id, cls, 8, 8, 0xE0, 0x1C, 0x3, 8, dbl); break;
                }
                auto& v = x->visuals.back().v;
                if (choose(3) == 2) {
                    if (v.map_entries == 8) { v.red_mask = 7; v.green_mask = 0x38; v.blue_mask = 0xC0; }
                    else std::swap(v.red_mask, v.blue_mask);
                    sim::count("probe.reversed_channels");
                }
                continue;
            }
            int depth = (cls == StaticGray || cls == StaticColor) && choose(3) == 2 ? 4 : 8;
            if (cls == PseudoColor && choose(12) == 11) { depth = choose(2) ? 15 : 16; sim::count("probe.large_colormap"); }
            add_visual(id, cls, depth, depth > 8 ? 16 : 8, 0, 0, 0, 1 << depth, dbl);
            auto& p = x->visuals.back().palette;
            auto& v = x->visuals.back().v;
            int m = (1 << depth) - 1;
            if (cls == StaticGray) { bool rev = choose(4) == 3; for (int k = 0; k <= m; ++k) p.push_back(level(rev ? m - k : k, m, rev ? m - k : k, m, rev ? m - k : k, m)); }
            if (cls == StaticColor) {
                if (depth == 8 && choose(2)) {
                    // Cube, described by masks
                    v.red_mask = 7; v.green_mask = 0x38; v.blue_mask = 0xC0;
                    for (int k = 0; k <= m; ++k) p.push_back(level(k & 7, 7, k >> 3 & 7, 7, k >> 6, 3));
                    sim::count("probe.fake_true_color");
                }
                else for (int k = 0; k <= m; ++k) p.push_back(rgb(u32(choose(1 << 24))));
            }
        }
        for (auto& v : x->visuals) if (choose(3) == 2) add_standard(v);
    }
    // Standard colormap
    void add_standard(const Vis& v)
    {
        XStandardColormap k {};
        k.visualid = v.v.visualid;
        k.colormap = Colormap(0x60 + x->standard.size());
        Cmap m;
        m.visual = v.v.visualid;
        int n = v.v.map_entries, cls = v.v.c_class;
        bool fixed = cls == StaticGray || cls == StaticColor || cls == TrueColor;
        if (!v.palette.empty()) m.e = v.palette;
        else { u64 s = choose(u64(1) << 32); for (int i = 0; i < n; ++i) m.e.push_back(rgb(u32((s + u64(i)) * 0x9e3779b97f4a7c15 >> 40))); }
        m.used.assign(size_t(n), 1);
        if (cls == TrueColor || cls == DirectColor) {
            auto f = [&](unsigned long mask, unsigned long& max, unsigned long& mult) { mult = mask & -mask; max = mask / mult; };
            f(v.v.red_mask, k.red_max, k.red_mult); f(v.v.green_mask, k.green_max, k.green_mult); f(v.v.blue_mask, k.blue_max, k.blue_mult);
            for (int i = 0; i < n; ++i) m.e[size_t(i)] = level(std::min(i, int(k.red_max)), int(k.red_max), std::min(i, int(k.green_max)), int(k.green_max), std::min(i, int(k.blue_max)), int(k.blue_max));
            if (cls == DirectColor && choose(4) == 3) { k.red_max = k.green_max = k.blue_max = k.red_max / 2; sim::count("probe.odd_standard_colormap"); }
        }
        else if (cls == StaticGray || cls == GrayScale) {
            if (fixed) {
                if (m.e[0].red != 0) return;  // not ascending
                k.red_max = (unsigned long)n - 1;
            }
            else { k.red_max = 1 + choose(u64(n) - 1); k.base_pixel = choose(u64(n) - k.red_max); }
            k.red_mult = 1;
            if (!fixed) for (int i = 0; i <= int(k.red_max); ++i) m.e[k.base_pixel + u64(i)] = level(i, int(k.red_max), i, int(k.red_max), i, int(k.red_max));
        }
        else {
            if (fixed) {
                if (!v.v.red_mask) return;
                k.red_max = 7; k.green_max = 7; k.blue_max = 3; k.red_mult = 1; k.green_mult = 8; k.blue_mult = 64;
            }
            else {
                unsigned long* max[] = { &k.red_max, &k.green_max, &k.blue_max };
                unsigned long* mult[] = { &k.red_mult, &k.green_mult, &k.blue_mult };
                for (int i = 0; i < 3; ++i) *max[i] = 2 + choose(4);
                int order[] = { 0, 1, 2 };
                for (int i = 2; i > 0; --i) std::swap(order[i], order[choose(u64(i) + 1)]);
                unsigned long t = 1;
                for (int i : order) { *mult[i] = t; t *= *max[i] + 1; }
                k.base_pixel = choose(u64(n) - t + 1);
                for (unsigned long r = 0; r <= k.red_max; ++r) for (unsigned long g = 0; g <= k.green_max; ++g) for (unsigned long b = 0; b <= k.blue_max; ++b)
                    m.e[k.base_pixel + r * k.red_mult + g * k.green_mult + b * k.blue_mult] = level(int(r), int(k.red_max), int(g), int(k.green_max), int(b), int(k.blue_max));
                if (choose(4) == 3) {
                    // Unusable
                    if (choose(2)) k.blue_mult += 1; else k.base_pixel = (unsigned long)n;
                    sim::count("probe.odd_standard_colormap");
                }
            }
        }
        sim::count("probe.standard_colormap");
        x->cmaps[k.colormap] = m;
        x->standard.push_back(k);
        if (choose(6) == 5) { auto k2 = k; k2.visualid += 1; x->standard.insert(x->standard.begin(), k2); } // for some other visual
    }
    // All visuals have been added
    void finish(int screens)
    {
        x->d.fd = conn_fd;
        x->d.nscreens = screens;
        x->d.default_screen = int(choose(u64(screens)));
        x->d.screens = x->screens;
        x->d.bitmap_unit = 32; x->d.bitmap_bit_order = LSBFirst;
        for (int s = 0; s < screens; ++s) {
            Screen& c = x->screens[s];
            c.root = root_id(s);
            c.root_visual = &x->visuals[0].v;
            c.root_depth = x->visuals[0].depth;
            c.cmap = Colormap(0x20 + s);
            Cmap m;
            m.visual = x->visuals[0].v.visualid;
            m.e.assign(size_t(x->visuals[0].v.map_entries), XColor {});
            m.used.assign(m.e.size(), 1);
            if (!x->visuals[0].palette.empty()) m.e = x->visuals[0].palette;
            else if (x->draw) {
                // Others have taken some of the cells
                u64 taken = choose(3) == 2 ? m.e.size() - std::min<u64>(m.e.size(), choose(70)) : choose(m.e.size() / 2 + 1);
                u64 seed = choose(u64(1) << 32);
                auto any = [&](u64 n) { return m.e.size() <= 256 ? choose(n) : (seed = sim::mix(seed, n)) % n; };
                for (size_t i = 0; i < m.e.size(); ++i) {
                    bool t = i < taken;
                    m.used[i] = !t ? 0 : any(2) ? 1 : 3;
                    if (t) { m.e[i] = rgb(any(4) ? u32(any(1 << 24)) : u32(any(2)) * 0xFFFFFF); if (x->visuals[0].v.c_class == GrayScale) m.e[i].green = m.e[i].blue = m.e[i].red; }
                }
            }
            x->cmaps[c.cmap] = m;
            init_screen(x->scr[s], s);
        }
    }
};

const display::Implementation& impl()
{
    display::Guarantees g;
    g.main_thread_exclusive = g.no_other_use_of_x11 = true;
    return display::get_x11_implementation_slot().get_implementation(g);
}

enum class Kind { events, faults, stamps, screens };

void run(Kind kind)
{
    bool stamps = kind == Kind::stamps, faults = kind == Kind::faults, screens = kind == Kind::screens;
    X11World xw;
    start_clock(stamps);
    w->check_stamps = stamps;
    w->scopes = stamps ? "t" : screens ? "s" : "er";
    w->check_events = true;
    x->have_dbe = choose(4) != 3;
    x->have_rr = choose(8) != 7;
    x->have_glx = choose(4) != 3;
    x->detectable_supported = choose(4) != 3;
    xw.finish(1 + int(choose(3) == 2));
    display::Connection::Config cfg;
    cfg.x11.disable_detectable_autorepeat = choose(3) == 2;
    cfg.x11.disable_double_buffering = choose(4) == 3;
    cfg.x11.synchronous_mode = choose(8) == 7;
    w->on_screen = screen_callback;
    w->at_sleep = check_screens;
    w->on_exception = [] { for (auto& c : x->scr) c.unknown = true; };
    w->min_size = 0;
    std::unique_ptr<display::Connection> conn;
    ConnHandler ch;
    {
        sim::NoFault nf;
        conn = impl().new_connection(sim_locale(), cfg);
        w->conn = conn.get();
        if (choose(12) != 11) { conn->set_event_handler(ch); w->conn_handler = true; }
    }
    x->events = true;
    x->rr_changes = screens || choose(4) == 3;
    w->check_screens = screens;
    w->budget = int(choose(4)) == 3 ? 400 : 60;
    u64 nw = choose(8) == 7 ? 0 : 1 + choose(3);
    for (u64 i = 0; i < nw; ++i) make_window({ 1 + int(choose(300)), 1 + int(choose(300)) }, {});
    if (screens) {
        sim::NoFault nf;
        for (int s = 0; s < x->d.nscreens; ++s) if (choose(4)) app_view[s].known = read_view(s, app_view[s].v);
    }
    int steps = 0;
    while (steps++ < 40 && sim::more(stamps ? 15 : 10)) {
        switch (choose(10)) {
            case 0: case 1: case 2: case 3: case 4: case 5: {
                if (choose(6) == 5) { w->saturated = true; sim::count("probe.saturated"); if (choose(8) == 7) { x->flood = true; w->flood_calls = w->calls; sim::count("probe.flood"); } }
                x->faults = faults && choose(3) == 1;
                x->fault_rate = faults && choose(3) == 1 ? 20 : 0;
                if (faults && choose(2)) sim::fail_alloc(1 + choose(12), choose(4) == 3);
                i64 now = sim::now_mono();
                static const i64 dl[] = { 1500 * ms, 0, -ms, -sec, 1, ms - 1, 20 * ms + 300000, 10 * sec, 3600 * sec };
                i64 d = choose(6) == 0 && w->conn_handler ? never : now + sim::pick(dl);
                if (stamps && choose(5) == 4) d = now + i64(1 + choose(60)) * day;
                if (d < 0) d = 0;
                w->interrupt_rate = w->saturated && choose(2) ? 100000 : choose(3) == 2 ? 3 : 12;
                if (w->saturated && d == never) { if (choose(2)) w->interrupt_rate = 12; else d = now + ms; }
                process(d);
                w->saturated = x->flood = false;
                x->faults = false; x->fault_rate = 0;
                sim::stop_alloc_faults();
                break;
            }
            case 6: pass_time(i64(sim::range(0, 3000)) * ms); break;
            case 7: {
                auto a = alive();
                if (a.size() > 1 || (!a.empty() && choose(3) == 2)) kill_window(a[choose(a.size())]);
                else make_window({ int(choose(300)), int(choose(300)) }, {});
                break;
            }
            case 8: while (choose(5) && w->budget > 0) { --w->budget; generate_one(); } break;
            case 9:
                if (stamps) {
                    i64 p = i64(sim::range(0, 120)) * day + i64(choose(86400)) * sec;
                    if (w->q.empty() && x->out.empty() && choose(2)) { pass_time(p); sim::count("probe.long_pause"); break; }
                    i64 oldest = w->q.empty() ? sim::now_mono() : w->q.front().at;
                    i64 room = 10 * day - (sim::now_mono() - oldest);
                    if (room > 0) { pass_time(i64(double(room) * double(choose(100)) / 100)); sim::count("probe.delayed_processing"); }
                }
                else w->budget += 20;
                break;
        }
    }
    settle();
    check_screens();
    sim::NoFault nf;
    for (int i : alive()) kill_window(i);
    conn.reset();
    if (x->open) vio('r', "x11-leak", "the connection to the X server was not closed");
    sim::state(sim::mix(u64(w->calls), u64(w->generated)));
}

// What the pixels of a window look like
struct Decoder {
    const Vis* v;
    const Cmap* m;
    explicit Decoder(const XWin& p)
    {
        v = nullptr; m = nullptr;
        for (auto& k : x->visuals) if (k.v.visualid == p.visual) v = &k;
        auto i = x->cmaps.find(p.cm);
        if (i != x->cmaps.end()) m = &i->second;
        if (!m) vio('r', "x11-bad-color", "a window has no colormap");
    }
    u32 get(u32 pixel) const
    {
        if (v->depth < 32) pixel &= (u32(1) << v->depth) - 1;
        auto c16to8 = [](unsigned c) { return (c * 255 + 32767) / 65535; };
        if (v->v.c_class == TrueColor || v->v.c_class == DirectColor) {
            auto f = [&](unsigned long mask, unsigned short XColor::* e) {
                unsigned long low = mask & -mask, val = (pixel & mask) / low, max = mask / low;
                return v->v.c_class == TrueColor ? u32((val * 255 * 2 + max) / (2 * max)) : u32(c16to8(m->e[val].*e));
            };
            return f(v->v.red_mask, &XColor::red) << 16 | f(v->v.green_mask, &XColor::green) << 8 | f(v->v.blue_mask, &XColor::blue);
        }
        const XColor& c = m->e[pixel];
        return c16to8(c.red) << 16 | c16to8(c.green) << 8 | c16to8(c.blue);
    }
    // Which colours can be shown, and how accurately
    void limits(dd::Draw& d, Colormap cm) const
    {
        d.gray = v->v.c_class == StaticGray || v->v.c_class == GrayScale;
        d.colors.clear();
        unsigned long max[3] = { 255, 255, 255 };
        const XStandardColormap* k = nullptr;
        for (auto& e : x->standard) if (e.colormap == cm && e.visualid == v->v.visualid) k = &e;
        auto masks = [&] { for (int i = 0; i < 3; ++i) { unsigned long b = i == 0 ? v->v.red_mask : i == 1 ? v->v.green_mask : v->v.blue_mask; max[i] = b / (b & -b); } };
        bool standard = cm >= 0x60 && cm < 0x100, own = m->own;
        switch (v->v.c_class) {
            case TrueColor: case DirectColor: masks(); break;
            case StaticColor: if (v->v.red_mask) { masks(); break; } [[fallthrough]];
            case StaticGray: for (auto& c : v->palette) d.colors.push_back(u32(c.red / 257) << 16 | u32(c.green / 257) << 8 | c.blue / 257); break;
            case GrayScale: if (standard) max[0] = max[1] = max[2] = k->red_max; else if (!own) max[0] = max[1] = max[2] = 15; break;
            case PseudoColor:
                if (standard) { max[0] = k->red_max; max[1] = k->green_max; max[2] = k->blue_max; }
                else if (!own) max[0] = max[1] = max[2] = 3;
                else { int b = v->depth / 3, r = (v->depth - b) / 2, g = v->depth - b - r; max[0] = (1ul << r) - 1; max[1] = (1ul << g) - 1; max[2] = (1ul << b) - 1; }
                break;
        }
        for (int i = 0; i < 3; ++i) d.tol[i] = max[i] >= 255 ? 0 : int(255 / double(max[i]) + 1.5);
        static const char* const classes[] = { "probe.static_gray", "probe.gray_scale", "probe.static_color", "probe.pseudo_color", "probe.true_color", "probe.direct_color" };
        sim::count(classes[v->v.c_class]);
        if (!own) sim::count(standard ? "probe.standard_colormap_used" : "probe.default_colormap_used");
    }
};

void run_draw(bool faults)
{
    X11World xw;
    start_clock(false);
    w->scopes = "dr";
    w->check_events = false;
    w->actions = false;
    w->min_size = 0;
    x->draw = true;
    x->have_dbe = choose(3) != 2;
    x->have_rr = choose(4) == 3;
    x->have_glx = choose(2);
    xw.add_visuals();
    xw.finish(1 + int(choose(6) == 5));
    display::Connection::Config cfg;
    cfg.x11.disable_double_buffering = choose(4) == 3;
    cfg.x11.synchronous_mode = choose(8) == 7;
    cfg.x11.prefer_default_nondecomposed_colormap = choose(2);
    cfg.x11.install_colormaps = choose(4) == 3;
    if (choose(4) != 3) cfg.x11.visual_type = sim::pick(x->visuals).v.visualid;
    if (sim::tracing()) for (auto& v : x->visuals) trace("visual 0x%lx class %d depth %d bpp %d masks %lx %lx %lx%s", v.v.visualid, v.v.c_class, v.depth, v.bpp, v.v.red_mask, v.v.green_mask, v.v.blue_mask, v.dbl ? " double" : "");
    dd::Draw d;
    d.across = true;
    auto find = [](int win) -> XWin& { flush(); for (auto& p : x->wins) if (p.second.win == win) return p.second; sim::harness_error("window"); };
    d.prepare = [&d, find](int win) {
        sim::NoFault nf;
        XWin& p = find(win);
        Decoder e(p);
        e.limits(d, p.cm);
        if (sim::tracing()) trace("window %d: visual 0x%lx colormap 0x%lx", win, p.visual, p.cm);
        if (e.m->own) for (auto& c : x->cmaps) if (!c.second.mine.empty() && c.second.visual == p.visual) vio('r', "x11-colors-leak", "colour cells of the default colormap remain allocated although the window uses its own colormap");
    };
    d.shown = [find](int win, bool colors) {
        sim::NoFault nf;
        XWin& p = find(win);
        dd::Shown r;
        r.wd = p.front.wd; r.ht = p.front.ht; r.gen = p.gen;
        if (colors) { Decoder e(p); for (u32 c : p.front.pix) r.rgb.push_back(e.get(c)); }
        return r;
    };
    std::unique_ptr<display::Connection> conn;
    ConnHandler ch;
    dd::run(d, conn, ch, faults, x->have_glx, [&](std::unique_ptr<display::Connection>& c) { c = impl().new_connection(sim_locale(), cfg); },
            [](bool on) { x->events = on; }, [](u64 rate) { x->fault_rate = rate; }, spontaneous);
    if (x->open) vio('r', "x11-leak", "the connection to the X server was not closed");
}

SIM_SCENARIO("C30", "x11-draw", 6, sim::f_leakcheck, 300000000) { run_draw(false); }
SIM_SCENARIO("C30", "x11-draw-faults", 3, sim::f_leakcheck | sim::f_faults, 300000000) { run_draw(true); }
SIM_SCENARIO("C24", "x11-events", 8, sim::f_leakcheck) { run(Kind::events); }
SIM_SCENARIO("C24", "x11-faults", 3, sim::f_leakcheck | sim::f_faults) { run(Kind::faults); }
SIM_SCENARIO("C25", "x11-stamps", 3, sim::f_leakcheck) { run(Kind::stamps); }
SIM_SCENARIO("C31", "x11-screens", 3, sim::f_leakcheck) { run(Kind::screens); }

sim::Info i31("C31", "A run is one seeded history of screen configuration changes, event processing and queries.",
    { "archon::display implementation based on X11" }, { "Xlib and X server", "the steady clock", "the application" });

} // namespace
