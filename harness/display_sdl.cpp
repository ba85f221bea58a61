// Simulated SDL library, and the scenarios that use it.
#include <cmath>
#include <cstring>
#include <map>
#include <set>

#define SDL_MAIN_HANDLED
#include <SDL.h>

#include <archon/display/sdl_implementation.hpp>

#include "display.hpp"
#include "display_draw.hpp"

using namespace dm;

// ------------------------------------------------------------------ simulated SDL
struct SDL_Window { Uint32 id; int win = -1; int wd, ht; bool shown = false, gl = false; std::string title; SDL_Renderer* renderer = nullptr; std::vector<Uint32> screen; u64 gen = 0; };
struct SDL_Renderer { SDL_Window* window; Uint32 color = 0; std::vector<Uint32> back; int textures = 0; };
struct SDL_Texture { SDL_Renderer* renderer; int wd, ht; std::vector<Uint32> pixels; };

namespace {

struct Sdl {
    bool inited = false, ready = false;
    int inits = 0;
    Uint32 next_id = 1;
    std::map<Uint32, SDL_Window*> windows;
    std::set<SDL_Renderer*> renderers;
    std::set<SDL_Texture*> textures;
    std::set<void*> contexts;
    u64 fail_rate = 0;      // 1 in n calls that can fail does
    bool wait_faults = false;
    bool events = false;    // generate events
    bool draw = false;      // keep contents of windows
};
Sdl* s;

void use(const char* fn) { if (!s->inited) vio('r', "sdl-not-initialised", "%s() called while SDL is not initialised", fn); }
bool faulty(const char* fn)
{
    if (s->fail_rate && choose(s->fail_rate) == 1) { w->fault_fired = true; trace("    %s fails", fn); sim::count("fault.sdl_call"); return true; }
    return false;
}
SDL_Window* chk(SDL_Window* x, const char* fn)
{
    use(fn);
    for (auto& p : s->windows) if (p.second == x) return x;
    vio('r', "sdl-bad-window", "%s() called for a window that does not exist", fn);
}
SDL_Renderer* chk(SDL_Renderer* x, const char* fn) { use(fn); if (!s->renderers.count(x)) vio('r', "sdl-bad-renderer", "%s() called for a renderer that does not exist", fn); return x; }
SDL_Texture* chk(SDL_Texture* x, const char* fn) { use(fn); if (!s->textures.count(x)) vio('r', "sdl-bad-texture", "%s() called for a texture that does not exist", fn); return x; }

Uint32 ticks() { return Uint32(u64(w->true_ms())); }

Ev base(const char* what, const SDL_Event& n)
{
    Ev e; e.what = what;
    static_assert(sizeof n <= sizeof e.native);
    std::memcpy(e.native, &n, sizeof n);
    return e;
}

SDL_Event native(Uint32 type) { SDL_Event n; std::memset(&n, 0, sizeof n); n.type = type; n.common.timestamp = ticks(); return n; }

void window_event(SDL_Window* x, Uint8 ev, int d1, int d2)
{
    SDL_Event n = native(SDL_WINDOWEVENT);
    n.window.windowID = x->id; n.window.event = ev; n.window.data1 = d1; n.window.data2 = d2;
    Ev e = base("window event", n);
    e.win = x->win;
    switch (ev) {
        case SDL_WINDOWEVENT_SIZE_CHANGED: e.cb = Cb::resize; e.size = { d1, d2 }; e.damage = true; break;
        case SDL_WINDOWEVENT_MOVED: e.cb = Cb::reposition; e.pos = { d1, d2 }; break;
        case SDL_WINDOWEVENT_EXPOSED: e.damage = true; break;
        case SDL_WINDOWEVENT_ENTER: e.cb = Cb::mouseover; e.stamp = w->true_ms(); break;
        case SDL_WINDOWEVENT_LEAVE: e.cb = Cb::mouseout; e.stamp = w->true_ms(); break;
        case SDL_WINDOWEVENT_FOCUS_GAINED: e.cb = Cb::focus; break;
        case SDL_WINDOWEVENT_FOCUS_LOST: e.cb = Cb::blur; break;
        case SDL_WINDOWEVENT_CLOSE: e.cb = Cb::close; break;
    }
    push(e);
}

void resized(SDL_Window* x, int wd, int ht)
{
    if (wd == x->wd && ht == x->ht) return;
    x->wd = wd; x->ht = ht;
    ++x->gen;
    if (s->draw) {
        if (x->renderer) x->renderer->back.assign(size_t(wd) * size_t(ht), 0);
        x->screen.assign(size_t(wd) * size_t(ht), 0);
    }
    window_event(x, SDL_WINDOWEVENT_SIZE_CHANGED, wd, ht);
    window_event(x, SDL_WINDOWEVENT_RESIZED, wd, ht);
}

// Key codes: unsigned representation of SDL_Keycode
void spontaneous()
{
    sim::NoFault nf;
    Uint32 id = 0;
    int win = -1;
    SDL_Window* x = nullptr;
    if (!s->windows.empty() && choose(12) != 11) {
        auto i = s->windows.begin();
        std::advance(i, long(choose(s->windows.size())));
        id = i->first; x = i->second; win = x->win;
    }
    else if (choose(2)) id = 1000000;
    switch (choose(12)) {
        case 0: case 1: {
            static const SDL_Keycode keys[] = { SDLK_a, SDLK_RETURN, SDLK_LSHIFT, SDLK_UP, SDLK_F1, 233, SDLK_KP_5, -5, 0 };
            bool down = choose(2) == 0, rep = down && choose(3) == 2;
            SDL_Event n = native(down ? SDL_KEYDOWN : SDL_KEYUP);
            n.key.windowID = id; n.key.repeat = rep ? Uint8(1 + choose(2)) : 0; n.key.state = down; n.key.keysym.sym = sim::pick(keys);
            Ev e = base("key", n);
            e.win = win; e.stamp = w->true_ms();
            if (win >= 0) { e.cb = !down ? Cb::keyup : rep ? Cb::keyrepeat : Cb::keydown; e.code = unsigned(display::KeyCode { display::KeyCode::code_type(n.key.keysym.sym) }.code); }
            push(e);
            return;
        }
        case 2: case 3: {
            bool down = choose(2) == 0;
            SDL_Event n = native(down ? SDL_MOUSEBUTTONDOWN : SDL_MOUSEBUTTONUP);
            n.button.windowID = id; n.button.x = int(choose(400)) - 50; n.button.y = int(choose(400)) - 50;
            n.button.button = Uint8(1 + choose(7));
            static const display::MouseButton map[] = { display::MouseButton::left, display::MouseButton::middle, display::MouseButton::right, display::MouseButton::x1, display::MouseButton::x2 };
            Ev e = base("button", n);
            e.win = win; e.stamp = w->true_ms(); e.pos = { n.button.x, n.button.y };
            if (n.button.button > 5) { sim::count("probe.unknown_button"); }
            else if (win >= 0) { e.cb = down ? Cb::mousedown : Cb::mouseup; e.code = unsigned(map[n.button.button - 1]); }
            push(e);
            return;
        }
        case 4: {
            SDL_Event n = native(SDL_MOUSEMOTION);
            n.motion.windowID = id; n.motion.x = int(choose(400)) - 50; n.motion.y = int(choose(400)) - 50;
            n.motion.state = Uint32(choose(4));
            Ev e = base("motion", n);
            e.win = win; e.stamp = w->true_ms(); e.pos = { n.motion.x, n.motion.y };
            if (win >= 0 && n.motion.state != 0) e.cb = Cb::mousemove;
            push(e);
            return;
        }
        case 5: {
            SDL_Event n = native(SDL_MOUSEWHEEL);
            n.wheel.windowID = id; n.wheel.x = int(choose(3)) - 1; n.wheel.y = int(choose(3)) - 1;
            n.wheel.preciseX = float(n.wheel.x) + float(choose(4)) * 0.25f; n.wheel.preciseY = float(n.wheel.y) + float(choose(4)) * 0.25f;
            Ev e = base("wheel", n);
            e.win = win; e.stamp = w->true_ms();
            if (win >= 0) { e.cb = Cb::scroll; e.dx = n.wheel.preciseX; e.dy = n.wheel.preciseY; }
            push(e);
            return;
        }
        case 6: case 7: case 8: {
            static const Uint8 evs[] = { SDL_WINDOWEVENT_EXPOSED, SDL_WINDOWEVENT_ENTER, SDL_WINDOWEVENT_LEAVE, SDL_WINDOWEVENT_FOCUS_GAINED, SDL_WINDOWEVENT_FOCUS_LOST, SDL_WINDOWEVENT_SHOWN, SDL_WINDOWEVENT_HIDDEN, SDL_WINDOWEVENT_MINIMIZED, SDL_WINDOWEVENT_MAXIMIZED, SDL_WINDOWEVENT_RESTORED, SDL_WINDOWEVENT_TAKE_FOCUS, SDL_WINDOWEVENT_HIT_TEST };
            Uint8 ev = sim::pick(evs);
            if (x) window_event(x, ev, 0, 0);
            else {
                SDL_Window ghost { id ? id : 1000000, -1, 1, 1 };
                window_event(&ghost, ev, 0, 0);
                w->q.back().cb = Cb::none; w->q.back().damage = false;
            }
            return;
        }
        case 9:
            if (x) resized(x, 1 + int(choose(300)), 1 + int(choose(300)));
            return;
        case 10:
            if (x) window_event(x, SDL_WINDOWEVENT_MOVED, int(choose(3000)) - 1000, int(choose(3000)) - 1000);
            return;
        case 11: {
            u64 c = choose(8);
            if (c == 0) { SDL_Event n = native(SDL_QUIT); Ev e = base("quit", n); e.cb = Cb::quit; push(e); }
            else if (c < 3) { if (x) window_event(x, SDL_WINDOWEVENT_CLOSE, 0, 0); }
            else {
                static const Uint32 types[] = { SDL_DISPLAYEVENT, SDL_TEXTINPUT, SDL_KEYMAPCHANGED, SDL_CLIPBOARDUPDATE, SDL_USEREVENT, SDL_APP_LOWMEMORY, SDL_RENDER_TARGETS_RESET };
                SDL_Event n = native(sim::pick(types));
                push(base("other", n));
            }
            return;
        }
    }
}

void maybe_generate(u64 den)
{
    if (!s->events) return;
    while (w->budget > 0 && choose(den) == 1) { --w->budget; spontaneous(); }
}

} // namespace

extern "C" {

void SDL_SetMainReady(void) { s->ready = true; }
SDL_bool SDL_SetHint(const char*, const char*) { sim::NoFault nf; return faulty("SDL_SetHint()") ? SDL_FALSE : SDL_TRUE; }
int SDL_Init(Uint32 flags)
{
    sim::NoFault nf;
    if (!s->ready) vio('r', "sdl-main", "SDL_Init() called before SDL_SetMainReady()");
    if (s->inited) vio('r', "sdl-init", "SDL_Init() called twice");
    if (!(flags & SDL_INIT_VIDEO)) vio('r', "sdl-init", "video is not initialised");
    if (faulty("SDL_Init()")) return -1;
    s->inited = true;
    ++s->inits;
    return 0;
}
void SDL_Quit(void)
{
    use("SDL_Quit");
    if (!s->windows.empty()) vio('r', "sdl-leak", "SDL_Quit() called while %zu windows exist", s->windows.size());
    s->inited = false;
    // Pending events are dropped
}
const char* SDL_GetError(void) { return "simulated error"; }
const char* SDL_GetKeyName(SDL_Keycode) { return "Key"; }

SDL_Window* SDL_CreateWindow(const char* title, int, int, int wd, int ht, Uint32 flags)
{
    sim::NoFault nf;
    use("SDL_CreateWindow");
    if (faulty("SDL_CreateWindow()")) return nullptr;
    auto x = new SDL_Window;
    // Identifiers are reused only when there are no events left for the old window
    Uint32 id = 0;
    if (choose(3)) for (Uint32 c = 1; c < s->next_id && !id; ++c) {
        bool used = s->windows.count(c);
        for (auto& e : w->q) {
            SDL_Event n; std::memcpy(&n, e.native, sizeof n);
            if (n.window.windowID == c) used = true; // same place in all kinds of events that have it
        }
        if (!used) id = c;
    }
    if (id) sim::count("probe.window_id_reused");
    else id = s->next_id++;
    x->id = id; x->title = title; x->wd = std::max(wd, 1); x->ht = std::max(ht, 1); x->gl = flags & SDL_WINDOW_OPENGL;
    if (s->draw) x->screen.assign(size_t(x->wd) * size_t(x->ht), 0);
    x->win = int(w->wins.size()) - 1;
    s->windows[x->id] = x;
    if (s->events && choose(3) == 2) window_event(x, SDL_WINDOWEVENT_MOVED, 10, 20);
    if (s->events && choose(4) == 3) resized(x, x->wd + 1, x->ht);
    return x;
}
void SDL_DestroyWindow(SDL_Window* x)
{
    sim::NoFault nf;
    chk(x, "SDL_DestroyWindow");
    if (x->renderer) vio('r', "sdl-leak", "a window was destroyed before its renderer");
    s->windows.erase(x->id);
    delete x;
}
Uint32 SDL_GetWindowID(SDL_Window* x) { sim::NoFault nf; chk(x, "SDL_GetWindowID"); return faulty("SDL_GetWindowID()") ? 0 : x->id; }
void SDL_SetWindowTitle(SDL_Window* x, const char* t) { sim::NoFault nf; chk(x, "SDL_SetWindowTitle")->title = t; }
void SDL_ShowWindow(SDL_Window* x)
{
    sim::NoFault nf;
    chk(x, "SDL_ShowWindow");
    if (x->shown) return;
    x->shown = true;
    if (!s->events) return;
    window_event(x, SDL_WINDOWEVENT_SHOWN, 0, 0);
    window_event(x, SDL_WINDOWEVENT_EXPOSED, 0, 0);
}
void SDL_HideWindow(SDL_Window* x)
{
    sim::NoFault nf;
    chk(x, "SDL_HideWindow");
    if (!x->shown) return;
    x->shown = false;
    if (s->events) window_event(x, SDL_WINDOWEVENT_HIDDEN, 0, 0);
}
void SDL_SetWindowSize(SDL_Window* x, int wd, int ht)
{
    sim::NoFault nf;
    chk(x, "SDL_SetWindowSize");
    if (wd <= 0 || ht <= 0) return;
    if (s->events && choose(4) == 3) return; // not honoured
    resized(x, wd, ht);
}
void SDL_SetWindowMinimumSize(SDL_Window* x, int, int) { chk(x, "SDL_SetWindowMinimumSize"); }
int SDL_SetWindowFullscreen(SDL_Window* x, Uint32 flags)
{
    sim::NoFault nf;
    chk(x, "SDL_SetWindowFullscreen");
    if (faulty("SDL_SetWindowFullscreen()")) return -1;
    if (flags) { if (s->events) { window_event(x, SDL_WINDOWEVENT_MOVED, 0, 0); resized(x, 640, 480); } }
    return 0;
}

SDL_Renderer* SDL_CreateRenderer(SDL_Window* x, int, Uint32)
{
    sim::NoFault nf;
    chk(x, "SDL_CreateRenderer");
    if (x->renderer) vio('r', "sdl-renderer", "SDL_CreateRenderer() called twice for a window");
    if (faulty("SDL_CreateRenderer()")) return nullptr;
    auto r = new SDL_Renderer;
    r->window = x;
    if (s->draw) r->back.assign(size_t(x->wd) * size_t(x->ht), 0);
    x->renderer = r;
    s->renderers.insert(r);
    return r;
}
void SDL_DestroyRenderer(SDL_Renderer* r)
{
    sim::NoFault nf;
    chk(r, "SDL_DestroyRenderer");
    for (auto t : s->textures) if (t->renderer == r) vio('r', "sdl-leak", "a renderer was destroyed before its textures");
    r->window->renderer = nullptr;
    s->renderers.erase(r);
    delete r;
}
SDL_Texture* SDL_CreateTexture(SDL_Renderer* r, Uint32 format, int, int wd, int ht)
{
    sim::NoFault nf;
    chk(r, "SDL_CreateTexture");
    if (format != SDL_PIXELFORMAT_ARGB32) sim::harness_error("pixel format");
    if (wd <= 0 || ht <= 0) return nullptr;
    if (wd > 16384 || ht > 16384) return nullptr;
    if (faulty("SDL_CreateTexture()")) return nullptr;
    auto t = new SDL_Texture { r, wd, ht, {} };
    t->pixels.assign(size_t(wd) * size_t(ht), 0xFF00FF00);
    s->textures.insert(t);
    return t;
}
void SDL_DestroyTexture(SDL_Texture* t) { sim::NoFault nf; chk(t, "SDL_DestroyTexture"); s->textures.erase(t); delete t; }
int SDL_UpdateTexture(SDL_Texture* t, const SDL_Rect* r, const void* data, int pitch)
{
    sim::NoFault nf;
    chk(t, "SDL_UpdateTexture");
    if (faulty("SDL_UpdateTexture()")) return -1;
    SDL_Rect full { 0, 0, t->wd, t->ht };
    if (!r) r = &full;
    if (r->x < 0 || r->y < 0 || r->x + r->w > t->wd || r->y + r->h > t->ht) vio('r', "sdl-texture-area", "SDL_UpdateTexture() called with an area outside of the texture");
    for (int y = 0; y < r->h; ++y)
        for (int x = 0; x < r->w; ++x) {
            const unsigned char* p = static_cast<const unsigned char*>(data) + i64(y) * pitch + x * 4;
            t->pixels[size_t(r->y + y) * size_t(t->wd) + size_t(r->x + x)] = Uint32(p[0]) << 24 | Uint32(p[1]) << 16 | Uint32(p[2]) << 8 | p[3];
        }
    return 0;
}
int SDL_SetRenderDrawColor(SDL_Renderer* x, Uint8 r, Uint8 g, Uint8 b, Uint8 a)
{
    sim::NoFault nf;
    chk(x, "SDL_SetRenderDrawColor");
    if (faulty("SDL_SetRenderDrawColor()")) return -1;
    x->color = Uint32(a) << 24 | Uint32(r) << 16 | Uint32(g) << 8 | b;
    return 0;
}
int SDL_RenderClear(SDL_Renderer* r)
{
    sim::NoFault nf;
    chk(r, "SDL_RenderClear");
    if (faulty("SDL_RenderClear()")) return -1;
    for (auto& p : r->back) p = r->color;
    return 0;
}
int SDL_RenderFillRect(SDL_Renderer* r, const SDL_Rect* a)
{
    sim::NoFault nf;
    chk(r, "SDL_RenderFillRect");
    if (faulty("SDL_RenderFillRect()")) return -1;
    int wd = r->window->wd, ht = r->window->ht;
    SDL_Rect full { 0, 0, wd, ht };
    if (!a) a = &full;
    for (i64 y = std::max(a->y, 0); y < std::min<i64>(i64(a->y) + a->h, ht); ++y)
        for (i64 x = std::max(a->x, 0); x < std::min<i64>(i64(a->x) + a->w, wd); ++x) r->back[size_t(y * wd + x)] = r->color;
    return 0;
}
int SDL_RenderCopy(SDL_Renderer* r, SDL_Texture* t, const SDL_Rect* sr, const SDL_Rect* dr)
{
    sim::NoFault nf;
    chk(r, "SDL_RenderCopy");
    chk(t, "SDL_RenderCopy");
    if (t->renderer != r) return -1;
    if (faulty("SDL_RenderCopy()")) return -1;
    int wd = r->window->wd, ht = r->window->ht;
    if (!sr || !dr || sr->w != dr->w || sr->h != dr->h) vio('r', "sdl-scale", "SDL_RenderCopy() called such that the texture is scaled");
    if (sr->x < 0 || sr->y < 0 || sr->x + sr->w > t->wd || sr->y + sr->h > t->ht) vio('r', "sdl-texture-area", "SDL_RenderCopy() called with an area outside of the texture");
    for (int y = 0; y < sr->h; ++y)
        for (int x = 0; x < sr->w; ++x) {
            i64 tx = i64(dr->x) + x, ty = i64(dr->y) + y;
            if (tx < 0 || ty < 0 || tx >= wd || ty >= ht) continue;
            Uint32 p = t->pixels[size_t(sr->y + y) * size_t(t->wd) + size_t(sr->x + x)];
            // Textures are blended by default
            if (p >> 24 == 255) r->back[size_t(ty * wd + tx)] = p;
            else if (p >> 24 != 0) sim::harness_error("translucent texture");
        }
    return 0;
}
void SDL_RenderPresent(SDL_Renderer* r)
{
    sim::NoFault nf;
    chk(r, "SDL_RenderPresent");
    r->window->screen = r->back;
    for (auto& p : r->back) p = 0x12345678; // undefined
}
SDL_GLContext SDL_GL_CreateContext(SDL_Window* x)
{
    sim::NoFault nf;
    chk(x, "SDL_GL_CreateContext");
    if (!x->gl) return nullptr;
    if (faulty("SDL_GL_CreateContext()")) return nullptr;
    void* c = new char;
    s->contexts.insert(c);
    return c;
}
void SDL_GL_DeleteContext(SDL_GLContext c)
{
    sim::NoFault nf;
    use("SDL_GL_DeleteContext");
    if (!s->contexts.erase(c)) vio('r', "sdl-bad-context", "SDL_GL_DeleteContext() called for a context that does not exist");
    delete static_cast<char*>(c);
}
int SDL_GL_MakeCurrent(SDL_Window* x, SDL_GLContext c)
{
    sim::NoFault nf;
    chk(x, "SDL_GL_MakeCurrent");
    if (!s->contexts.count(c)) vio('r', "sdl-bad-context", "SDL_GL_MakeCurrent() called for a context that does not exist");
    return faulty("SDL_GL_MakeCurrent()") ? -1 : 0;
}
void SDL_GL_SwapWindow(SDL_Window* x) { chk(x, "SDL_GL_SwapWindow"); }

int SDL_PollEvent(SDL_Event* out)
{
    sim::NoFault nf;
    use("SDL_PollEvent");
    maybe_generate(w->saturated ? 2 : 6);
    if (w->taken == w->q.size() && w->saturated && s->events && w->generated < 1500) spontaneous();
    if (w->taken >= w->q.size()) return 0;
    if (out) {
        std::memcpy(out, w->q[w->taken].native, sizeof *out);
        ++w->taken;
    }
    return 1;
}

static int wait(i64 timeout)
{
    sim::NoFault nf;
    use("SDL_WaitEvent");
    about_to_sleep(timeout);
    if (w->taken < w->q.size()) return 1;
    if (s->wait_faults && timeout == never && choose(10) == 1) { w->fault_fired = true; trace("  SDL_WaitEvent() fails"); sim::count("fault.sdl_wait"); return 0; }
    if (s->events && w->budget <= 0 && timeout == never) {
        // Have the application interrupt event processing
        w->stop_soon = true;
        pass_time(i64(choose(1000)) * ms);
        SDL_Event n = native(SDL_QUIT); Ev e = base("quit", n); e.cb = Cb::quit; push(e);
        return 1;
    }
    if (timeout == never || (w->budget > 0 && choose(2))) {
        i64 t = timeout == never ? 10 * sec : timeout;
        pass_time(i64(double(t) * double(choose(101)) / 100));
        --w->budget;
        size_t n = w->q.size();
        while (w->q.size() == n) spontaneous();
        return 1;
    }
    // Timed out. SDL counts whole milliseconds, so up to one of them can be missing
    i64 early = 0;
    if (timeout > ms) { static const i64 es[] = { 0, ms / 2, ms - 1 }; early = sim::pick(es); if (early) sim::count("fault.early_timeout"); }
    i64 late = 0;
    if (choose(8) == 1) { late = i64(sim::range(0, 20000)) * ms; sim::count("fault.late_wakeup"); }
    pass_time(timeout - early + late);
    if (late && choose(2)) while (choose(3)) { if (w->budget <= 0) break; --w->budget; spontaneous(); }
    return 0;
}
int SDL_WaitEvent(SDL_Event* out)
{
    if (out) sim::harness_error("SDL_WaitEvent");
    return wait(never);
}
int SDL_WaitEventTimeout(SDL_Event* out, int timeout)
{
    if (out) sim::harness_error("SDL_WaitEventTimeout");
    if (timeout < 0) return wait(never);
    return wait(i64(timeout) * ms);
}

} // extern "C"

namespace {

// ------------------------------------------------------------------ scenarios
struct SdlWorld {
    World world;
    Sdl sdl;
    SdlWorld() { w = &world; s = &sdl; }
    ~SdlWorld() { w = nullptr; s = nullptr; }
};

const display::Implementation& impl()
{
    display::Guarantees g;
    g.only_one_connection = g.main_thread_exclusive = g.no_other_use_of_sdl = true;
    return display::get_sdl_implementation_slot().get_implementation(g);
}

void run_events(bool stamps, bool faults)
{
    SdlWorld sw;
    start_clock(stamps);
    w->check_stamps = stamps;
    w->scopes = stamps ? "t" : "er";
    w->check_events = true;
    std::unique_ptr<display::Connection> conn;
    ConnHandler ch;
    {
        sim::NoFault nf;
        conn = impl().new_connection(sim_locale());
        w->conn = conn.get();
        if (choose(12) != 11) { conn->set_event_handler(ch); w->conn_handler = true; }
    }
    s->events = true;
    w->budget = int(choose(4)) == 3 ? 400 : 60;
    u64 nw = choose(8) == 7 ? 0 : 1 + choose(3);
    for (u64 i = 0; i < nw; ++i) make_window({ 1 + int(choose(300)), 1 + int(choose(300)) }, {});
    int steps = 0;
    i64 last_polled = 0; (void)last_polled;
    while (steps++ < 40 && sim::more(stamps ? 15 : 10)) {
        switch (choose(10)) {
            case 0: case 1: case 2: case 3: case 4: case 5: {
                if (choose(6) == 5) { w->saturated = true; sim::count("probe.saturated"); }
                s->wait_faults = faults && choose(3) == 1;
                if (faults && choose(2)) { sim::fail_alloc(1 + choose(12), choose(4) == 3); }
                i64 now = sim::now_mono();
                static const i64 dl[] = { 1500 * ms, 0, -ms, -sec, 1, ms - 1, 20 * ms + 300000, 10 * sec, 3600 * sec };
                i64 d = choose(6) == 0 && w->conn_handler ? never : now + sim::pick(dl);
                if (stamps && choose(5) == 4) d = now + i64(1 + choose(60)) * day;
                if (d < 0) d = 0;
                w->interrupt_rate = w->saturated && choose(2) ? 100000 : choose(3) == 2 ? 3 : 12;
                if (w->saturated && d == never) { if (choose(2)) w->interrupt_rate = 12; else d = now + ms; }
                process(d);
                w->saturated = false;
                sim::stop_alloc_faults();
                break;
            }
            case 6: pass_time(i64(sim::range(0, 3000)) * ms); break;
            case 7: {
                auto a = alive();
                if (a.size() > 1 || (!a.empty() && choose(3) == 2)) kill_window(a[choose(a.size())]);
                else make_window({ 1 + int(choose(300)), 1 + int(choose(300)) }, {});
                break;
            }
            case 8: while (choose(5) && w->budget > 0) { --w->budget; spontaneous(); } break;
            case 9:
                if (stamps) {
                    // Long pause, with events at any time within the documented limits of the delay
                    i64 p = i64(sim::range(0, 120)) * day + i64(choose(86400)) * sec;
                    if (w->q.empty() || choose(2) == 0) {
                        // nothing may wait for more than a few days
                        if (w->taken == w->q.size() && w->q.empty()) { pass_time(p); sim::count("probe.long_pause"); break; }
                    }
                    i64 oldest = w->q.empty() ? sim::now_mono() : w->q.front().at;
                    i64 room = 10 * day - (sim::now_mono() - oldest);
                    if (room > 0) { pass_time(i64(double(room) * double(choose(100)) / 100)); sim::count("probe.delayed_processing"); }
                }
                else w->budget += 20;
                break;
        }
    }
    settle();
    if (faults) w->check_events = true;
    sim::NoFault nf;
    for (int i : alive()) kill_window(i);
    conn.reset();
    if (s->inited) vio('r', "sdl-quit", "SDL_Quit() was not called");
    if (!s->windows.empty() || !s->renderers.empty() || !s->contexts.empty()) vio('r', "sdl-leak", "SDL resources were not released");
    sim::state(sim::mix(u64(w->calls), u64(w->generated)));
}

void run_draw(bool faults)
{
    SdlWorld sw;
    start_clock(false);
    w->scopes = "dr";
    w->check_events = false;
    w->actions = false;
    s->draw = true;
    dd::Draw d;
    d.shown = [](int win, bool) {
        dd::Shown r;
        for (auto& p : s->windows) if (p.second->win == win) { r.wd = p.second->wd; r.ht = p.second->ht; r.gen = p.second->gen; r.rgb = p.second->screen; }
        for (auto& c : r.rgb) c &= 0xFFFFFF;
        return r;
    };
    std::unique_ptr<display::Connection> conn;
    ConnHandler ch;
    dd::run(d, conn, ch, faults, false, [](std::unique_ptr<display::Connection>& c) { c = impl().new_connection(sim_locale()); },
            [](bool on) { s->events = on; }, [](u64 rate) { s->fail_rate = rate; }, spontaneous);
    if (s->inited) vio('r', "sdl-quit", "SDL_Quit() was not called");
    if (!s->windows.empty() || !s->renderers.empty() || !s->contexts.empty() || !s->textures.empty()) vio('r', "sdl-leak", "SDL resources were not released");
}

SIM_SCENARIO("C30", "sdl-draw", 3, sim::f_leakcheck, 300000000) { run_draw(false); }
SIM_SCENARIO("C30", "sdl-draw-faults", 2, sim::f_leakcheck | sim::f_faults, 300000000) { run_draw(true); }
SIM_SCENARIO("C24", "sdl-events", 6, sim::f_leakcheck) { run_events(false, false); }
SIM_SCENARIO("C24", "sdl-faults", 3, sim::f_leakcheck | sim::f_faults) { run_events(false, true); }
SIM_SCENARIO("C25", "sdl-stamps", 3, sim::f_leakcheck) { run_events(true, false); }

sim::Info i24("C24", "A run is one seeded history of platform events, calls of the event processor, interruptions, windows and faults.",
    { "archon::display implementation based on SDL", "archon::display implementation based on X11" }, { "SDL library", "Xlib and X server", "the steady clock", "the application" });
sim::Info i30("C30", "A run is one seeded history of windows, textures and images that are drawn, platform events, and faults.",
    { "archon::display implementation based on SDL", "archon::display implementation based on X11" }, { "SDL library", "Xlib and X server", "the application" });
sim::Info i25("C25", "A run is one seeded history of platform events spread over months of simulated time.",
    { "archon::display implementation based on SDL", "archon::display implementation based on X11" }, { "SDL library", "Xlib and X server", "the steady clock", "the application" });

} // namespace
