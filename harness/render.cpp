// C26 render engine: frame schedule and rendering. C27 key bindings.
#include <cmath>
#include <cstring>
#include <functional>
#include <locale>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <GL/gl.h>

#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/file.hpp>
#include <archon/log.hpp>
#include <archon/math/rotation.hpp>
#include <archon/util/color.hpp>
#include <archon/util/perspect_proj.hpp>
#include <archon/display.hpp>
#include <archon/render/virt_trackball.hpp>
#include <archon/render/engine.hpp>

#include "sim.hpp"

using namespace archon;
using sim::u64;
using sim::i64;
using sim::choose;
using sim::trace;
using sim::fail;
using render::Engine;

namespace {

constexpr i64 ms = 1000000;
constexpr i64 never = INT64_MAX;

// ------------------------------------------------------------------ simulated OpenGL
struct GlState {
    float clear_color[4] = {};
    double frustum[6] = {};
    int viewport[4] = {};
    bool light0 = false;
    unsigned poly = GL_FILL;
    unsigned matrix = GL_MODELVIEW;
    double rot[4] = {};
    double trans[3] = {};
    bool bound = false;
    bool errors = false;
};
GlState* gl;

} // namespace

extern "C" {
void glLightfv(GLenum, GLenum, const GLfloat*) { if (!gl->bound) fail("no-context", "OpenGL was used before the context was made current"); }
void glClearColor(GLclampf r, GLclampf g, GLclampf b, GLclampf a) { gl->clear_color[0] = r; gl->clear_color[1] = g; gl->clear_color[2] = b; gl->clear_color[3] = a; }
void glEnable(GLenum e) { if (e == GL_LIGHT0) gl->light0 = true; }
void glDisable(GLenum e) { if (e == GL_LIGHT0) gl->light0 = false; }
void glPolygonMode(GLenum, GLenum m) { gl->poly = m; }
void glMatrixMode(GLenum m) { gl->matrix = m; }
void glLoadIdentity() { if (gl->matrix == GL_MODELVIEW) { for (double& x : gl->rot) x = 0; for (double& x : gl->trans) x = 0; } }
void glTranslated(GLdouble x, GLdouble y, GLdouble z) { gl->trans[0] = x; gl->trans[1] = y; gl->trans[2] = z; }
void glRotated(GLdouble a, GLdouble x, GLdouble y, GLdouble z) { gl->rot[0] = a; gl->rot[1] = x; gl->rot[2] = y; gl->rot[3] = z; }
void glClear(GLbitfield) {}
void glFrustum(GLdouble a, GLdouble b, GLdouble c, GLdouble d, GLdouble e, GLdouble f) { double v[6] = { a, b, c, d, e, f }; std::memcpy(gl->frustum, v, sizeof v); }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { int v[4] = { x, y, w, h }; std::memcpy(gl->viewport, v, sizeof v); }
GLenum glGetError() { return gl->errors && choose(3) == 1 ? GL_INVALID_OPERATION + 100 * unsigned(choose(2)) : GL_NO_ERROR; }
}

namespace {

// ------------------------------------------------------------------ world
enum class Ev { keydown, keyup, mousedown, mouseup, mousemove, scroll, blur, focus, expose, resize, reposition, close, quit, screen, mouseover, keyrepeat };
const char* const ev_names[] = { "keydown", "keyup", "mousedown", "mouseup", "mousemove", "scroll", "blur", "focus", "expose", "resize", "reposition", "close", "quit", "screen-change", "mouseover", "keyrepeat" };

struct Event {
    i64 at;
    Ev kind;
    unsigned code = 0;      // key code or mouse button
    display::Pos pos { 0, 0 };
    display::Size size { 1, 1 };
    float amount = 0;
    int screen = 0;
    i64 stamp = -1;         // ms, -1: from `at`
};

struct VP { display::Box box; std::optional<display::Resolution> resol; std::optional<double> rate; };

// Model of one binding table, per the documentation of bind_key_a() and KeyModifierMode
struct ModelSlot {
    bool pressed = false;
    int handler = -1;      // selected when pressed
    int mult = 0;
    i64 stamp = 0;
    unsigned mode = 0;
    std::map<std::pair<unsigned, int>, int> bound;
};
using KeyId = std::pair<int, unsigned>; // (0: key code, 1: mouse button), code

struct Call { int handler; bool down; };

struct World;
World* w;

struct Handler { int action; int builtin = -1; };

struct World {
    GlState gls;
    std::vector<Event> queue;   // future and pending events, ordered by time
    size_t next = 0;
    bool quit_sent = false;
    int after_quit = 0;
    display::ConnectionEventHandler* conn_handler = nullptr;
    display::WindowEventHandler* win_handler = nullptr;
    bool window_alive = false, shown = false;
    int default_screen = 0;
    std::vector<VP> conf[2];
    bool have_conf = false;
    i64 stamp_base = 0;
    bool strict = true;         // check rendering and schedule

    // ---- model of the engine
    Engine* engine = nullptr;
    bool running = false, init_done = false;
    double rate = 0, default_rate = 0;
    display::Resolution resol, default_resol;
    bool track_rate = false, track_resol = false;
    int screen = 0;
    std::vector<VP> known_conf;
    display::Size size { 0, 0 };
    display::Pos pos { 0, 0 };
    util::Color bg = util::Color(0, 0, 0);
    float bgv[4] = { 0, 0, 0, 1 };
    math::Rotation base_orientation, base_spin, orient, spin, shown_orient;
    i64 spin_at = 0;
    double base_zoom = 1, base_interest = 2, zoom = 1, interest = 2;
    bool headlight = false, wireframe = false, headlight_feature = true, wireframe_feature = true;
    bool fullscreen = false;
    // trackball
    bool grabbed = false;           // trackball held by the pointer
    bool unknown = false;           // the model does not know the orientation
    bool spin_unknown = false;
    bool nudged = false;
    bool rested = false;            // may spin by a rounding error
    int settled = 0;                // ticks since the trackball was let go of
    math::Vector3 grab_point;
    math::Vector2 grab_pos, mouse_pos;
    i64 grab_stamp = 0, mouse_millis = 0, moved_millis = 0, moved_gap = 0;
    int grab_samples = 0;
    display::Size ball_size { -1, -1 };  // as of the last time the scene was rendered
    display::Resolution ball_resol;
    double phys_horz = 0;
    // frames
    i64 last_tick = 0, last_end = 0;
    i64 period = 0;
    i64 rate_changed = -1;      // time of a change of rate after the last tick
    i64 start_lo = 0;
    int ticks = 0, renders = 0;
    bool expired = false;       // process_events_a() returned true and tick() is due
    bool must = true, may = true; // rendering must / may happen
    bool exposed = false;       // expose since last render
    bool swap_due = false;
    bool rate_pending = false;  // changed while processing events
    i64 drift = 0;
    bool last_tick_true = false;
    bool resumable = false;

    // ---- model of key bindings
    std::map<KeyId, ModelSlot> slots;
    std::vector<Handler> handlers;
    std::map<int, int> ident_of;     // handler -> engine's ident
    std::vector<Call> expect;        // expected calls for the current event, in any order
    bool in_event = false;
    int held[4] = {};                // number of keys held per modifier
    int depth = 0;

    unsigned mode() const { unsigned m = 0; for (int i = 0; i < 4; ++i) if (held[i] > 0) m |= 1u << i; return m; }
};

i64 steady() { return sim::now_mono(); }

void dirty() { w->may = true; w->must = true; }

i64 period_of(double rate) { return i64(std::floor(1e9 / rate)); }

math::Vector3 ball_point(const math::Vector2& pos)
{
    // The ball is inscribed in the window, and is round on the screen
    double hw = double(w->size.width) / 2, hh = double(w->size.height) / 2;
    double ratio = double(w->resol.vert_ppcm) / double(w->resol.horz_ppcm);
    double hr = std::min(hw, hh / ratio), vr = hr * ratio;
    double x = (pos[0] - hw) / hr, y = (hh - pos[1]) / vr;
    double d = std::sqrt(x * x + y * y);
    if (d > 1) return { x / d, y / d, 0 };
    return { x, y, std::sqrt(std::max(1 - d * d, 0.0)) };
}

// The rotation that carries one point of the ball to another one along a great circle
bool carry(const math::Vector3& a, const math::Vector3& b, math::Rotation& r)
{
    math::Vector3 c = math::cross(a, b);
    double l = std::sqrt(math::sq_sum(c)), d = math::dot(a, b);
    r = {};
    if (d < -0.999) return false;
    if (l > 0) r = math::Rotation(c / l, std::atan2(l, d));
    return true;
}

math::Rotation orientation_at(i64 t)
{
    if (w->grabbed) {
        if (w->ball_size != w->size || w->ball_resol != w->resol) w->unknown = true; // changed after the ball was grabbed
        math::Rotation r;
        if (!carry(w->grab_point, ball_point(w->mouse_pos), r)) w->unknown = true;
        return w->orient + r;
    }
    if (w->spin.angle == 0) return w->orient;
    return w->orient + (double(t - w->spin_at) / 1e9) * w->spin;
}

void model_rate(double r)
{
    bool changed = r != w->rate;
    w->rate = r;
    if (w->running && changed) { w->rate_changed = steady(); w->rate_pending = true; }
    w->may = true;
}

void model_track()
{
    std::optional<display::Resolution> res;
    std::optional<double> rate;
    for (auto& v : w->known_conf) {
        // intersects in at least one pixel
        i64 x0 = std::max(v.box.pos.x, w->pos.x), x1 = std::min(i64(v.box.pos.x) + v.box.size.width, i64(w->pos.x) + w->size.width);
        i64 y0 = std::max(v.box.pos.y, w->pos.y), y1 = std::min(i64(v.box.pos.y) + v.box.size.height, i64(w->pos.y) + w->size.height);
        if (x0 >= x1 || y0 >= y1) continue;
        res = v.resol; rate = v.rate;
        break;
    }
    if (w->track_resol) {
        auto r = res.value_or(w->default_resol);
        if (r != w->resol) { w->resol = r; if (w->running) dirty(); sim::count("probe.resolution_tracked"); }
    }
    if (w->track_rate) {
        double r = rate.value_or(w->default_rate);
        if (r != w->rate) { model_rate(r); sim::count("probe.rate_tracked"); }
    }
}

void model_set_orientation(const math::Rotation& r) { w->orient = r; w->spin = {}; w->shown_orient = r; w->grabbed = w->unknown = w->spin_unknown = w->rested = false; dirty(); }
void model_set_spin(const math::Rotation& s)
{
    if (w->running) { w->orient = orientation_at(steady()); w->spin_at = steady(); }
    if (w->spin_unknown) w->unknown = true;
    w->spin = s;
    w->grabbed = w->spin_unknown = w->rested = false;
    w->settled = 0;
    w->may = true;
}

// Handle movement of the pointer, and the left button going down (1) or up (-1)
void model_mouse(display::Pos pos, i64 stamp, int button)
{
    i64 now = steady();
    w->nudged = true;
    if (button > 0 && !w->grabbed) {
        w->orient = orientation_at(now);
        if (w->spin_unknown) w->unknown = true;
        if (w->ball_size != w->size || w->ball_resol != w->resol) w->unknown = true;
        w->grabbed = true;
        w->mouse_pos = w->grab_pos = { double(pos.x), double(pos.y) };
        w->grab_point = ball_point(w->grab_pos);
        w->grab_stamp = stamp;
        w->mouse_millis = w->moved_millis = 0; w->moved_gap = 1000;
        w->grab_samples = 0;
        return;
    }
    if (!w->grabbed) return;
    math::Vector2 p { double(pos.x), double(pos.y) };
    i64 t = stamp - w->grab_stamp;
    bool odd = t < w->mouse_millis || (t == 0 && p != w->grab_pos) || (t == w->mouse_millis && p != w->mouse_pos) || ++w->grab_samples > 8;
    if (odd) w->grab_samples = 100;
    if (p != w->mouse_pos) { w->moved_millis = t; w->moved_gap = t - w->mouse_millis; }
    w->mouse_pos = p;
    w->mouse_millis = t;
    if (button >= 0) return;
    // Let go
    w->rested = false;
    w->orient = orientation_at(now);
    w->grabbed = false;
    w->settled = 0;
    w->spin = {};
    w->spin_unknown = false;
    w->spin_at = now;
    if ((t < 200 && math::len(p - w->grab_pos) < 4) || t <= 0) { sim::count("probe.trackball_stopped"); return; }
    if (w->grab_samples > 8 || w->unknown) { w->spin_unknown = true; sim::count("probe.trackball_spin_unknown"); return; }
    // (Positions that are only a few milliseconds apart may be disregarded.)
    if (t - w->moved_millis >= 100 && w->moved_gap >= 10) { w->rested = true; sim::count("probe.trackball_rested"); return; }
    if (t > 100) { w->spin_unknown = true; sim::count("probe.trackball_spin_unknown"); return; }
    math::Rotation r;
    if (!carry(w->grab_point, ball_point(p), r)) { w->spin_unknown = true; return; }
    r.angle *= 1000.0 / double(t);
    w->spin = r;
    if (std::fabs(r.angle) * 40 * double(w->drift) > 1e5) w->spin_unknown = true;
    sim::count("probe.trackball_spins");
}
void model_set_zoom(double f) { w->zoom = std::min(std::max(f, 1.0 / 8), 32.0); dirty(); }
void model_set_interest(double d) { w->interest = d; dirty(); }
void model_reset_view()
{
    model_set_orientation(w->base_orientation);
    model_set_spin(w->base_spin);
    model_set_zoom(w->base_zoom);
    model_set_interest(w->base_interest);
}
void model_headlight(bool on) { if (w->headlight != on && w->headlight_feature) w->must = true; w->may = true; w->headlight = on; }
void model_wireframe(bool on) { if (w->wireframe != on && w->wireframe_feature) w->must = true; w->may = true; w->wireframe = on; }

// ------------------------------------------------------------------ key binding model
enum Builtin { b_shift, b_ctrl, b_alt, b_meta, b_quit, b_inc, b_dec, b_full, b_reset, b_head, b_wire };
constexpr i64 fast = 250; // ms, presses further apart are not connected

void model_call(int handler, bool down)
{
    const Handler& h = w->handlers[size_t(handler)];
    if (h.builtin < 0) { w->expect.push_back({ handler, down }); return; }
    switch (h.builtin) {
        case b_shift: case b_ctrl: case b_alt: case b_meta: w->held[h.builtin] += down ? 1 : -1; return;
        case b_quit: if (down) w->quit_sent = true; return;
        case b_inc: case b_dec:
            if (!down) return;
            w->track_rate = false;
            model_rate(h.builtin == b_inc ? w->rate * 2 : w->rate / 2);
            return;
        case b_full: if (down) w->fullscreen = !w->fullscreen; return;
        case b_reset: if (down) model_reset_view(); return;
        case b_head: if (down) model_headlight(!w->headlight); return;
        case b_wire: if (down) model_wireframe(!w->wireframe); return;
    }
}

void model_down(KeyId k, i64 stamp)
{
    auto i = w->slots.find(k);
    if (i == w->slots.end()) return;
    ModelSlot& s = i->second;
    if (s.pressed) return;
    int max = 0;
    for (auto& b : s.bound) max = std::max(max, b.first.second);
    unsigned mode = w->mode();
    bool connected = s.mult > 0 && s.mode == mode && stamp - s.stamp <= fast && s.mult < max;
    s.mult = connected ? s.mult + 1 : 1;
    if (s.mult > 1) sim::count("probe.multi_press");
    s.pressed = true;
    s.stamp = stamp;
    s.mode = mode;
    auto j = s.bound.find({ mode, s.mult });
    s.handler = j == s.bound.end() ? -1 : j->second;
    if (s.handler >= 0) model_call(s.handler, true);
}

void model_up(KeyId k)
{
    auto i = w->slots.find(k);
    if (i == w->slots.end()) return;
    ModelSlot& s = i->second;
    if (!s.pressed) return;
    s.pressed = false;
    if (s.handler >= 0) model_call(s.handler, false);
}

void model_blur()
{
    for (auto& e : w->slots) {
        ModelSlot& s = e.second;
        s.mult = 0;
        if (!s.pressed) continue;
        s.pressed = false;
        sim::count("probe.released_on_blur");
        if (s.handler >= 0) model_call(s.handler, false);
    }
}

void model_bind(KeyId k, unsigned mode, int mult, int handler)
{
    ModelSlot& s = w->slots[k];
    if (s.pressed && s.handler >= 0) sim::count("probe.rebound_while_pressed");
    s.mult = 0;
    s.bound[{ mode, mult }] = handler;
}

// ------------------------------------------------------------------ keys
// Physical keys: the simulated display maps some of the named keys to codes
const display::Key named[] = {
    display::Key::shift_left, display::Key::shift_right, display::Key::ctrl_left, display::Key::ctrl_right,
    display::Key::alt_left, display::Key::alt_right, display::Key::meta_left, display::Key::meta_right,
    display::Key::escape, display::Key::small_q, display::Key::keypad_add, display::Key::keypad_subtract,
    display::Key::small_f, display::Key::space, display::Key::small_l, display::Key::small_w,
    display::Key::small_a, display::Key::small_b, display::Key::f1,
};
constexpr unsigned n_named = sizeof named / sizeof *named;
constexpr unsigned first_plain = 16;
unsigned code_of(display::Key k)
{
    for (unsigned i = 0; i < n_named; ++i) if (named[i] == k) return 100 + 7 * i % 19; // not ordered as the keys are
    return 0;
}

// ------------------------------------------------------------------ simulated display
struct Boom { int id; };

void check_before_sleep(bool proceed)
{
    if (!w->running || !w->strict) return;
    if (proceed && w->exposed) fail("expose-not-redrawn", "the engine went to sleep without redrawing an exposed window");
    if (proceed && w->rate_pending && !w->quit_sent) fail("rate-change-delayed", "the engine went to sleep although the frame rate had been changed");
}

struct FakeWindow : display::Window {
    FakeWindow() { w->window_alive = true; }
    ~FakeWindow() noexcept { if (w) { w->window_alive = false; w->win_handler = nullptr; } }
    void set_event_handler(display::WindowEventHandler& h) override { w->win_handler = &h; }
    void show() override { w->shown = true; trace("  window shown"); }
    void hide() override { w->shown = false; }
    void set_title(std::string_view t) override { trace("  title %.*s", int(t.size()), t.data()); }
    void set_size(display::Size s) override;
    void set_fullscreen_mode(bool on) override;
    void fill(util::Color) override {}
    void fill(util::Color, const display::Box&) override {}
    auto new_texture(display::Size) -> std::unique_ptr<display::Texture> override { return nullptr; }
    void put_texture(const display::Texture&, const display::Pos&) override {}
    void put_texture(const display::Texture&, const display::Box&, const display::Pos&) override {}
    void present() override {}
    void opengl_make_current() override { w->gls.bound = true; }
    void opengl_swap_buffers() override
    {
        if (!w->swap_due) fail("swap-without-render", "the buffers were swapped although the scene was not rendered");
        w->swap_due = false;
        trace("  swap");
    }
};

void schedule(Event e)
{
    size_t i = w->queue.size();
    while (i > w->next && w->queue[i - 1].at > e.at) --i;
    sim::NoFault nf;
    w->queue.insert(w->queue.begin() + long(i), e);
}

void FakeWindow::set_size(display::Size s)
{
    trace("  set size %dx%d", s.width, s.height);
    if (choose(4) == 3) return; // request not honoured
    Event e { steady() + i64(choose(3)) * 5 * ms, Ev::resize };
    e.size = s;
    schedule(e);
    e.kind = Ev::expose;
    schedule(e);
}

void FakeWindow::set_fullscreen_mode(bool on)
{
    trace("  fullscreen %d", on);
    w->fullscreen = on;
    Event e { steady() + i64(choose(3)) * 5 * ms, Ev::resize };
    e.size = on ? display::Size(1920, 1080) : display::Size(300, 200);
    schedule(e);
    e.kind = Ev::expose;
    schedule(e);
}

struct FakeConn : display::Connection {
    bool fail_window = false;
    bool try_map_key_to_key_code(display::Key key, display::KeyCode& code) const override
    {
        unsigned c = code_of(key);
        if (!c) return false;
        code = { c };
        return true;
    }
    bool try_map_key_code_to_key(display::KeyCode, display::Key&) const override { return false; }
    bool try_get_key_name(display::KeyCode, std::string_view&) const override { return false; }
    bool try_new_window(std::string_view, display::Size size, const display::Window::Config& config, std::unique_ptr<display::Window>& win, std::string& error) override
    {
        if (fail_window) { error = "no window today"; return false; }
        if (!config.enable_opengl_rendering) fail("no-opengl", "the window was not created for OpenGL rendering");
        w->size = size;
        win = std::make_unique<FakeWindow>();
        return true;
    }
    void set_event_handler(display::ConnectionEventHandler& h) override { w->conn_handler = &h; }
    void process_events() override { process(never); }
    bool process_events_a(time_point_type deadline) override { return process(deadline.time_since_epoch().count()); }
    int get_num_screens() const override { return 2; }
    int get_default_screen() const override { return w->default_screen; }
    bool try_get_screen_conf(int screen, core::Buffer<display::Viewport>& viewports, core::Buffer<char>& strings, std::size_t& num) const override
    {
        if (!w->have_conf) return false;
        int s = screen < 0 ? w->default_screen : screen;
        if (s >= 2) throw std::invalid_argument("Bad screen index");
        auto& c = w->conf[s];
        viewports.reserve(c.size());
        strings.assign({ "name", 4 });
        for (size_t i = 0; i < c.size(); ++i) viewports[i] = { { strings.data(), 4 }, c[i].box, {}, c[i].resol, c[i].rate };
        num = c.size();
        return true;
    }
    auto get_implementation() const noexcept -> const display::Implementation& override { std::abort(); }

    bool deliver(const Event& e);
    bool process(i64 deadline);
};

void check_calls_done(const char* what)
{
    for (auto& c : w->expect)
        fail(c.down ? "binding-missed" : "release-missed", "handler %d was not told that its key went %s on %s", c.handler, c.down ? "down" : "up", what);
    w->expect.clear();
}

bool FakeConn::deliver(const Event& e)
{
    // Frame rates stay within a reasonable range
    if (e.kind == Ev::keydown && ((w->rate < 0.05 && e.code == code_of(display::Key::keypad_subtract)) || (w->rate > 1e6 && e.code == code_of(display::Key::keypad_add)))) return true;
    if (w->rate < 0.05 || w->rate > 1e6)
        for (auto& b : w->slots[{ e.kind == Ev::mousedown, e.code }].bound) { int x = w->handlers[size_t(b.second)].builtin; if (x == b_inc || x == b_dec) return true; }
    w->in_event = true;
    bool proceed = true;
    i64 st = e.stamp >= 0 ? e.stamp : e.at / ms + w->stamp_base;
    std::chrono::milliseconds stamp(st);
    const char* name = ev_names[int(e.kind)];
    trace("event %s code=%u pos=%d,%d size=%dx%d stamp=%lld (now %.6f)", name, e.code, e.pos.x, e.pos.y, e.size.width, e.size.height, (long long) st, double(steady()) / 1e9);
    bool was_quit = w->quit_sent;
    auto button = [&] { return display::MouseButton(e.code); };
    switch (e.kind) {
        case Ev::keydown: case Ev::keyup: {
            display::KeyEvent v {};
            v.timestamp = stamp; v.key_code = { e.code };
            KeyId k { 0, e.code };
            if (e.kind == Ev::keydown) { model_down(k, st); proceed = w->win_handler->on_keydown(v); }
            else { model_up(k); proceed = w->win_handler->on_keyup(v); }
            break;
        }
        case Ev::keyrepeat: {
            display::KeyEvent v {};
            v.timestamp = stamp; v.key_code = { e.code };
            proceed = w->win_handler->on_keyrepeat(v);
            break;
        }
        case Ev::mousedown: case Ev::mouseup: {
            display::MouseButtonEvent v {};
            v.timestamp = stamp; v.pos = e.pos; v.button = button();
            KeyId k { 1, e.code };
            bool left = button() == display::MouseButton::left;
            if (left) { model_mouse(e.pos, st, e.kind == Ev::mousedown ? 1 : -1); dirty(); }
            if (e.kind == Ev::mousedown) { if (!left) model_down(k, st); proceed = w->win_handler->on_mousedown(v); }
            else { if (!left) model_up(k); proceed = w->win_handler->on_mouseup(v); }
            break;
        }
        case Ev::mousemove: {
            display::MouseEvent v {};
            v.timestamp = stamp; v.pos = e.pos;
            w->may = true;
            model_mouse(e.pos, st, 0);
            proceed = w->win_handler->on_mousemove(v);
            break;
        }
        case Ev::scroll: {
            display::ScrollEvent v {};
            v.timestamp = stamp; v.amount = { 0, e.amount };
            double step = std::pow(2, 1.0 / 8);
            if (w->mode() == 0) model_set_interest(std::pow(step, -e.amount) * w->interest);
            else if (w->mode() == 1) model_set_zoom(std::pow(step, e.amount) * w->zoom);
            proceed = w->win_handler->on_scroll(v);
            break;
        }
        case Ev::blur: model_blur(); proceed = w->win_handler->on_blur({}); break;
        case Ev::focus: proceed = w->win_handler->on_focus({}); break;
        case Ev::mouseover: { display::TimedWindowEvent v {}; v.timestamp = stamp; proceed = w->win_handler->on_mouseover(v); break; }
        case Ev::expose: dirty(); w->exposed = true; proceed = w->win_handler->on_expose({}); break;
        case Ev::resize: {
            display::WindowSizeEvent v {};
            v.size = e.size;
            w->size = e.size;
            dirty();
            model_track();
            proceed = w->win_handler->on_resize(v);
            break;
        }
        case Ev::reposition: {
            display::WindowPosEvent v {};
            v.pos = e.pos;
            w->pos = e.pos;
            model_track();
            proceed = w->win_handler->on_reposition(v);
            break;
        }
        case Ev::close: w->quit_sent = true; proceed = w->win_handler->on_close({}); break;
        case Ev::quit: w->quit_sent = true; proceed = w->conn_handler->on_quit(); break;
        case Ev::screen: {
            // The configuration of a screen changes
            auto& c = w->conf[e.screen];
            if (!w->have_conf) break;
            if (!c.empty() && choose(2)) c.erase(c.begin() + long(choose(c.size())));
            else c.insert(c.begin() + long(choose(c.size() + 1)), VP { display::Box(display::Pos(int(choose(3)) * 400 - 400, 0), display::Size(400, 400)), display::Resolution(20 + double(choose(3)) * 10), 20 + double(choose(4)) * 20 });
            if (choose(3) == 0 && !c.empty()) c[choose(c.size())].rate = choose(2) ? std::optional<double>(25 + double(choose(3))) : std::nullopt;
            trace("  screen %d has %zu viewports now", e.screen, c.size());
            int mine = w->screen < 0 ? w->default_screen : w->screen;
            if (e.screen == mine) { w->known_conf = c; model_track(); }
            proceed = w->conn_handler->on_screen_change(e.screen);
            break;
        }
    }
    w->in_event = false;
    check_calls_done(name);
    if (!proceed && !w->quit_sent) sim::count("probe.interrupted");
    if (!was_quit && w->quit_sent && proceed) sim::count("probe.quit_not_interrupting");
    return proceed;
}

// Processes events as documented for display::Connection::process_events_a(); where the
// documentation leaves freedom, the seed decides
bool FakeConn::process(i64 deadline)
{
    if (!w->running) fail("events-before-init", "events were processed before the scene was initialized");
    if (w->swap_due) fail("no-swap", "the buffers were not swapped after the scene was rendered");
    if (w->expired) fail("tick-skipped", "the deadline of a frame expired but there was no tick");
    if (w->quit_sent && ++w->after_quit > 3) fail("quit-ignored", "the engine continues to process events after it was told to quit");
    if (w->must && !w->quit_sent && w->strict) fail("not-rendered", "the engine processes events although something that requires rendering has happened");
    w->rate_pending = false;
    w->exposed = false; // has been rendered, or else `must` would be set
    trace("process events, deadline in %.6f ms", double(deadline - steady()) / 1e6);
    if (w->ticks > 150 && w->next < w->queue.size()) {
        // long enough
        trace("the rest of the events is dropped");
        w->queue.resize(w->next);
        Event e { steady(), choose(2) ? Ev::close : Ev::quit };
        schedule(e);
    }
    bool any = false;
    int after = 0, since_expose = 0;
    bool expose_pending = false;
    for (;;) {
        i64 now = steady();
        // Return at the expiration of the deadline. At least one of the available events
        // must have been processed
        bool available = w->next < w->queue.size() && w->queue[w->next].at <= now;
        if (now >= deadline && (any || !available) && (after >= 3 || !available || choose(2) == 0)) {
            if (expose_pending) {
                expose_pending = false;
                Event e { now, Ev::expose };
                if (!deliver(e)) return false;
                continue;
            }
            if (choose(4) == 3) { bool p = w->conn_handler->before_sleep(); check_before_sleep(p); if (!p) { trace("  interrupted before sleep"); return false; } }
            trace("  expired");
            w->expired = true;
            return true;
        }
        if (available) {
            Event e = w->queue[w->next++];
            any = true;
            if (now >= deadline) ++after;
            if (e.kind == Ev::expose) {
                if (choose(2) == 0) { if (!deliver(e)) return false; }
                else { expose_pending = true; since_expose = 0; }
            }
            else {
                if (!deliver(e)) return false;
                if (expose_pending && ++since_expose >= 3) { expose_pending = false; Event x { now, Ev::expose }; if (!deliver(x)) return false; }
            }
            if (choose(8) == 7) { trace("  before sleep (saturated)"); bool p = w->conn_handler->before_sleep(); check_before_sleep(p); if (!p) return false; }
            continue;
        }
        if (expose_pending) { expose_pending = false; Event x { now, Ev::expose }; if (!deliver(x)) return false; continue; }
        bool p = w->conn_handler->before_sleep();
        check_before_sleep(p);
        if (!p) { trace("  interrupted before sleep"); return false; }
        i64 until = deadline;
        bool ev = false;
        if (w->next < w->queue.size() && w->queue[w->next].at < until) { until = w->queue[w->next].at; ev = true; }
        if (until == never) sim::harness_error("would sleep for ever");
        if (w->next >= w->queue.size()) {
            // nothing will happen any more: quit
            Event e { std::max(now, std::min(deadline, now + 50 * ms)), choose(2) ? Ev::close : Ev::quit };
            schedule(e);
            continue;
        }
        i64 over = choose(3) == 2 ? i64(choose(3 * ms)) : 0;
        (void) ev;
        if (until > now) sim::advance(until - now + over);
        else if (over) sim::advance(over);
    }
}

// ------------------------------------------------------------------ the scene
void random_work(u64 den)
{
    if (choose(den) != den - 1) return;
    static const i64 d[] = { 1000, 1 * ms, 5 * ms, 16 * ms, 17 * ms, 40 * ms, 1000 * ms };
    i64 x = sim::pick(d) + i64(choose(2)) * i64(choose(1000));
    trace("  (takes %.3f ms)", double(x) / 1e6);
    sim::advance(x);
}

bool same_rotation(const math::Rotation& a, double angle_deg, double x, double y, double z)
{
    math::Rotation b({ x, y, z }, angle_deg / 180 * M_PI);
    auto p = a.angle == 0 ? math::Rotation({ 1, 0, 0 }, 0) : a, q = b.angle == 0 ? math::Rotation({ 1, 0, 0 }, 0) : b;
    auto rot = [](const math::Rotation& r, int axis) {
        double c = std::cos(r.angle), s = std::sin(r.angle);
        math::Vector3 u = r.axis / std::sqrt(math::sq_sum(r.axis));
        math::Vector3 v { axis == 0 ? 1.0 : 0.0, axis == 1 ? 1.0 : 0.0, axis == 2 ? 1.0 : 0.0 };
        return v * c + math::cross(u, v) * s + u * (math::dot(u, v) * (1 - c));
    };
    for (int i = 0; i < 3; ++i) {
        auto d = rot(p, i) - rot(q, i);
        if (!(math::sq_sum(d) < 1e-6)) return false;
    }
    return true;
}

struct TheScene : Engine::Scene {
    void init() override
    {
        if (!w->gls.bound) fail("no-context", "the scene was initialized before the OpenGL context was made current");
        if (w->init_done) fail("init-twice", "the scene was initialized twice");
        trace("scene init");
        random_work(3);
        w->init_done = true;
        w->running = true;
        w->start_lo = steady();
        w->last_tick = w->last_end = steady();
        w->orient = w->shown_orient; // spin starts now
        w->spin_at = steady();
        w->period = period_of(w->rate);
    }

    void render() override
    {
        if (!w->init_done) fail("render-before-init", "the scene was rendered before it was initialized");
        if (w->swap_due) fail("no-swap", "the buffers were not swapped after the scene was rendered");
        if (!w->may && w->strict) fail("needless-render", "the scene was rendered although nothing had changed");
        if (w->in_event) fail("render-in-event", "the scene was rendered while an event was being processed");
        trace("render (now %.6f)", double(steady()) / 1e9);
        ++w->renders;
        w->may = w->must = false;
        w->swap_due = true;
        const GlState& g = w->gls;
        if (g.viewport[0] || g.viewport[1] || g.viewport[2] != w->size.width || g.viewport[3] != w->size.height)
            fail("stale-viewport", "the scene was rendered with a viewport of %dx%d but the window has a size of %dx%d", g.viewport[2], g.viewport[3], w->size.width, w->size.height);
        for (int i = 0; i < 4; ++i)
            if (std::fabs(g.clear_color[i] - w->bgv[i]) > 1e-5) fail("stale-background", "component %d of the background color is %f instead of %f", i, double(g.clear_color[i]), double(w->bgv[i]));
        if (w->headlight_feature && g.light0 != w->headlight) fail("stale-headlight", "the headlight is %s while rendering", g.light0 ? "on" : "off");
        if (!w->headlight_feature && g.light0) fail("stale-headlight", "the headlight is on although the feature is disabled");
        if (w->wireframe_feature && (g.poly == GL_LINE) != w->wireframe) fail("stale-wireframe", "wireframe mode is %s while rendering", g.poly == GL_LINE ? "on" : "off");
        if (!w->wireframe_feature && g.poly == GL_LINE) fail("stale-wireframe", "wireframe mode is on although the feature is disabled");
        // Projection for the current size, resolution, zoom and size of interest
        util::PerspectiveProjection p;
        p.set_resol_dpcm(w->resol.horz_ppcm, w->resol.vert_ppcm);
        p.zoom_factor = w->zoom;
        p.set_viewport_size_pixels(w->size.width, w->size.height);
        p.auto_dist(w->interest, p.get_min_field_factor());
        double want[6] = { -p.get_near_clip_width() / 2, p.get_near_clip_width() / 2, -p.get_near_clip_height() / 2, p.get_near_clip_height() / 2, p.get_near_clip_dist(), p.get_far_clip_dist() };
        for (int i = 0; i < 6; ++i)
            if (!(std::fabs(g.frustum[i] - want[i]) <= 1e-9 * std::fabs(want[i]))) fail("stale-projection", "parameter %d of the projection is %g instead of %g", i, g.frustum[i], want[i]);
        if (!(std::fabs(g.trans[2] + p.camera_dist) <= 1e-9 * p.camera_dist)) fail("stale-projection", "the camera distance is %g instead of %g", -g.trans[2], p.camera_dist);
        for (double x : g.rot) if (!std::isfinite(x)) fail("orientation-not-finite", "the scene was rendered with an orientation that is not finite");
        if (w->grabbed && (w->ball_size != w->size || w->ball_resol != w->resol)) w->unknown = true;
        w->ball_size = w->size;
        w->ball_resol = w->resol;
        if (w->unknown && !w->grabbed && !w->spin_unknown && w->spin.angle == 0 && w->settled >= 1) {
            // Does not move any more
            w->orient = w->shown_orient = math::Rotation({ g.rot[1], g.rot[2], g.rot[3] }, g.rot[0] / 180 * M_PI);
            w->unknown = false;
            sim::count("probe.trackball_settled");
        }
        if (!w->unknown && !w->spin_unknown && !same_rotation(w->shown_orient, g.rot[0], g.rot[1], g.rot[2], g.rot[3]))
            fail("stale-orientation", "the scene was rendered with an orientation of %g degrees about (%g, %g, %g) instead of %g about (%g, %g, %g)", g.rot[0], g.rot[1], g.rot[2], g.rot[3], w->shown_orient.angle * 180 / M_PI, w->shown_orient.axis[0], w->shown_orient.axis[1], w->shown_orient.axis[2]);
        random_work(4);
        sim::state(sim::mix(u64(w->size.width), u64(w->renders)));
    }

    bool tick(Engine::Clock::time_point t_) override
    {
        i64 t = t_.time_since_epoch().count(), now = steady();
        trace("tick %d for %.6f (now %.6f, period %.6f ms)", w->ticks, double(t) / 1e9, double(now) / 1e9, double(w->period) / 1e6);
        if (w->quit_sent && ++w->after_quit > 3) fail("quit-ignored", "the engine continues to tick after it was told to quit");
        if (w->quit_sent) sim::count("probe.tick_after_quit");
        if (w->in_event) fail("tick-in-event", "tick() was called while an event was being processed");
        if (t > now) fail("early-tick", "tick() was called %lld ns before the time of the tick", (long long) (t - now));
        bool was_expired = w->expired;
        w->expired = false;
        i64 slack = 40 * w->drift;
        i64 regular = w->last_tick + w->period;
        i64 hi = std::max(regular, w->last_end) + slack + 1;
        i64 lo = regular - 1;
        if (w->ticks == 0) hi += slack;
        bool ok = t >= lo && t <= hi;
        if (!ok && w->rate_changed >= 0) {
            // After a change of frame rate, the next frame may begin at once
            ok = t >= w->rate_changed && t <= std::max(hi, now);
        }
        if (!ok) {
            if (t < lo) fail("frame-too-early", "tick %d is for %.9f, which is only %.6f ms after the previous one instead of %.6f ms", w->ticks, double(t) / 1e9, double(t - w->last_tick) / 1e6, double(w->period) / 1e6);
            fail("frame-too-late", "tick %d is for %.9f, which is %.6f ms after the previous one instead of %.6f ms", w->ticks, double(t) / 1e9, double(t - w->last_tick) / 1e6, double(w->period) / 1e6);
        }
        if (!was_expired && w->rate_changed < 0) fail("tick-without-expiration", "tick() was called although the deadline of the frame had not expired");
        if (now > regular + w->period) sim::count("probe.late_frame");
        ++w->ticks;
        // A spinning scene moves
        auto o = orientation_at(t);
        if (w->grabbed) sim::count("probe.trackball_held");
        ++w->settled;
        // (Rounding can affect the orientation when the ball is grabbed and let go of.)
        bool unk = w->unknown || w->spin_unknown;
        if (w->spin.angle != 0 || unk || w->rested || w->grabbed || w->nudged || o != w->shown_orient) w->may = true;
        w->nudged = false;
        if (!unk && !same_rotation(o, w->shown_orient.angle * 180 / M_PI, w->shown_orient.axis[0], w->shown_orient.axis[1], w->shown_orient.axis[2])) w->must = true;
        w->shown_orient = o;
        bool r = choose(3) == 1;
        if (r) dirty();
        random_work(4);
        w->last_tick = t;
        w->last_end = steady();
        w->period = period_of(w->rate);
        w->rate_changed = -1;
        trace("  -> %d", r);
        if (w->ticks > 2000) sim::harness_error("too many ticks");
        return r;
    }
};

// ------------------------------------------------------------------ driver
math::Rotation gen_rotation()
{
    math::Vector3 axes[] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0.6, 0.8, 0 } };
    return math::Rotation(axes[choose(4)], double(choose(12)) * 0.5);
}

double gen_rate()
{
    static const double r[] = { 60, 30, 144, 1000, 1, 59.94, 24, 7, 3 };
    return sim::pick(r);
}

display::Size gen_size() { return display::Size(1 + int(choose(600)), 1 + int(choose(600))); }

KeyId gen_key(bool plain_only)
{
    if (choose(5) == 4) return { 1, 1 + unsigned(choose(4)) }; // not the left button
    unsigned i = plain_only ? first_plain + unsigned(choose(n_named - first_plain)) : choose(2) ? unsigned(choose(8)) : unsigned(choose(n_named));
    return { 0, code_of(named[i]) };
}

int add_handler(Engine& e, int action);

void bind_one(Engine& e, KeyId k, unsigned mode, int mult, int handler, bool direct)
{
    render::KeyModifierMode m { mode };
    render::KeyPressMultiplicity n { mult };
    trace("  bind key %d/%u mode %u multiplicity %d to handler %d", k.first, k.second, mode, mult, handler);
    auto ident = [&]() -> render::KeyIdent {
        if (k.first == 1) return display::MouseButton(k.second);
        for (auto x : named) if (code_of(x) == k.second && choose(2)) return x;
        return display::KeyCode { k.second };
    }();
    render::KeyHandlerIdent id { w->ident_of.at(handler) };
    if (direct && mode == 0 && mult == 1) e.bind_key_a(ident, id);
    else e.bind_key_a(ident, m, n, id);
    model_bind(k, mode, mult, handler);
}

void gen_bind(Engine& e, bool nested)
{
    KeyId k = gen_key(choose(4) != 0);
    unsigned mode = choose(2) ? 0 : unsigned(choose(16));
    int mult = choose(2) ? 1 : 1 + int(choose(3));
    int h = choose(3) == 2 ? int(choose(w->handlers.size())) : add_handler(e, nested ? 0 : int(choose(20)));
    if (w->handlers[size_t(h)].builtin == b_quit) h = add_handler(e, 0);
    bind_one(e, k, mode, mult, h, choose(2) == 1);
}

// Any of the functions that may be called from a key handler
void do_action(Engine& e, int a)
{
    switch (a) {
        default: break;
        case 1: { double r = gen_rate(); trace("  set frame rate %g", r); e.set_frame_rate(r); w->track_rate = false; bool c = r == w->rate; model_rate(r); if (c && w->running) { w->rate_changed = steady(); } break; }
        case 2: { int c = int(choose(256)); util::Color col(c, 255 - c, 7); e.set_background_color(col); float v[4] = { float(c) / 255, float(255 - c) / 255, 7.0f / 255, 1 }; std::memcpy(w->bgv, v, sizeof v); trace("  set background %d", c); dirty(); break; }
        case 3: { auto r = gen_rotation(); trace("  set orientation %g", r.angle); e.set_orientation(r); model_set_orientation(r); break; }
        case 4: { auto r = gen_rotation(); trace("  set spin %g", r.angle); e.set_spin(r); model_set_spin(r); break; }
        case 5: { double z = 0.25 * double(1 + choose(40)); trace("  set zoom %g", z); e.set_zoom_factor(z); model_set_zoom(z); break; }
        case 6: { double d = 0.5 * double(1 + choose(10)); trace("  set interest %g", d); e.set_interest_size(d); model_set_interest(d); break; }
        case 7: trace("  reset view"); e.reset_view(); model_reset_view(); break;
        case 8: { bool on = choose(2); trace("  headlight %d", on); e.set_headlight_mode(on); model_headlight(on); break; }
        case 9: { bool on = choose(2); trace("  wireframe %d", on); e.set_wireframe_mode(on); model_wireframe(on); break; }
        case 10: { auto r = gen_rotation(); trace("  base orientation %g", r.angle); e.set_base_orientation(r); w->base_orientation = r; model_set_orientation(r); break; }
        case 11: { auto r = gen_rotation(); trace("  base spin %g", r.angle); e.set_base_spin(r); w->base_spin = r; model_set_spin(r); break; }
        case 12: { double z = 0.25 * double(1 + choose(40)); trace("  base zoom %g", z); e.set_base_zoom_factor(z); w->base_zoom = z; model_set_zoom(z); break; }
        case 13: { double d = 0.5 * double(1 + choose(10)); trace("  base interest %g", d); e.set_base_interest_size(d); w->base_interest = d; model_set_interest(d); break; }
        case 14: { display::Resolution r(10 + double(choose(5)) * 10, 10 + double(choose(5)) * 10); trace("  set resolution"); e.set_resolution(r); w->track_resol = false; w->resol = r; dirty(); break; }
        case 15: { auto s = gen_size(); trace("  request size %dx%d", s.width, s.height); e.set_window_size(s); break; }
        case 16: e.set_window_title("title"); break;
        case 17: { bool on = choose(2); e.set_fullscreen_mode(on); w->fullscreen = on; break; }
        case 18: case 19: sim::count("probe.bind_in_handler"); gen_bind(e, true); break;
        case 20: e.get_logger().info("hello"); break;
    }
}

void on_user_key(int handler, bool down)
{
    trace("  handler %d %s", handler, down ? "down" : "up");
    if (!w->in_event) fail("handler-outside-event", "handler %d was called while no event was being processed", handler);
    bool found = false;
    for (size_t i = 0; i < w->expect.size() && !found; ++i)
        if (w->expect[i].handler == handler && w->expect[i].down == down) { w->expect.erase(w->expect.begin() + long(i)); found = true; }
    if (!found) fail(down ? "unexpected-press" : "unexpected-release", "handler %d was told that its key went %s", handler, down ? "down" : "up");
    ++w->depth;
    int a = w->handlers[size_t(handler)].action;
    if (down || choose(8) == 7) do_action(*w->engine, a);
    --w->depth;
}

int add_handler(Engine& e, int action)
{
    int id = int(w->handlers.size());
    w->handlers.push_back({ action });
    render::KeyHandlerIdent x;
    switch (choose(3)) {
        default: { // state that is stored inside the function object
            struct Small { int id; void operator()(bool down) const { on_user_key(id, down); if (id < 0) trace("!"); check(); } void check() const { if (size_t(id) >= w->handlers.size()) fail("handler-destroyed", "the function of a key handler was destroyed while it was executing"); } };
            x = e.register_key_handler("label", Small { id });
            break;
        }
        case 1: {
            std::string big = "state of the handler " + std::to_string(id);
            x = e.register_key_handler("label", [id, big](bool down) { on_user_key(id, down); if (big.size() < 10) fail("handler-destroyed", "the function of a key handler was destroyed while it was executing"); });
            break;
        }
        case 2: {
            auto p = std::make_shared<int>(id);
            x = e.register_key_handler("a longer label that needs memory", [p](bool down) { on_user_key(*p, down); if (*p < 0) trace("!"); });
            break;
        }
    }
    w->ident_of[id] = x.value;
    return id;
}

struct Setup { std::unique_ptr<World> world; FakeConn conn; TheScene scene; Engine engine; ~Setup() {} };

void begin(Setup& s, Engine::Config& config, bool faults)
{
    s.world = std::make_unique<World>();
    w = s.world.get();
    gl = &w->gls;
    w->engine = &s.engine;
    w->queue.reserve(4096);
    w->drift = choose(4) == 3 ? 1 + i64(choose(2000)) : 0;
    w->stamp_base = choose(2) ? i64(choose(1000000)) : 0;
    w->default_screen = int(choose(2));
    w->gls.errors = choose(4) == 3;
    config.logger = &log::Logger::get_null();
    config.screen = int(choose(3)) - 1;
    config.allow_window_resize = choose(2);
    config.fullscreen_mode = choose(4) == 3;
    config.disable_frame_rate_control = choose(4) == 3;
    config.disable_headlight_feature = choose(4) == 3;
    config.disable_wireframe_feature = choose(4) == 3;
    config.disable_resolution_tracking = choose(3) == 2;
    config.disable_frame_rate_tracking = choose(3) == 2;
    config.frame_rate = gen_rate();
    if (choose(2)) config.resolution = display::Resolution(20 + double(choose(3)), 30);
    if (choose(2)) config.orientation = gen_rotation();
    if (choose(2)) config.spin = gen_rotation();
    config.zoom_factor = choose(2) ? 1 : 2.5;
    config.interest_size = choose(2) ? 2 : 3;
    config.headlight_mode = choose(2);
    config.wireframe_mode = choose(4) == 3;
    (void) faults;
    // model
    w->screen = config.screen;
    w->rate = w->default_rate = config.frame_rate;
    w->resol = w->default_resol = config.resolution;
    w->track_rate = !config.disable_frame_rate_tracking;
    w->track_resol = !config.disable_resolution_tracking;
    w->headlight_feature = !config.disable_headlight_feature;
    w->wireframe_feature = !config.disable_wireframe_feature;
    w->headlight = config.headlight_mode;
    w->wireframe = config.wireframe_mode;
    w->base_orientation = w->orient = w->shown_orient = config.orientation;
    w->base_spin = w->spin = config.spin;
    w->base_zoom = w->zoom = config.zoom_factor;
    w->base_interest = w->interest = config.interest_size;
    w->fullscreen = config.fullscreen_mode;
    w->have_conf = choose(3) != 0;
    if (w->have_conf)
        for (auto& c : w->conf) {
            u64 n = choose(4);
            for (u64 i = 0; i < n; ++i) {
                VP v { display::Box(display::Pos(int(choose(3)) * 300 - 300, int(choose(2)) * 300), display::Size(300, 300)), {}, {} };
                if (choose(3)) v.resol = display::Resolution(15 + double(choose(4)), 15 + double(choose(2)));
                if (choose(3)) v.rate = 20 + double(choose(4)) * 13;
                c.push_back(v);
            }
        }
}

void model_builtins(const Engine::Config& config)
{
    using B = Engine::BuiltinKeyHandler;
    auto add = [&](int b, B id, std::vector<display::Key> keys, bool all_modes) {
        int h = int(w->handlers.size());
        w->handlers.push_back({ 0, b });
        w->ident_of[h] = w->engine->get_builtin_key_handler(id).value;
        for (auto k : keys)
            for (unsigned m = 0; m < (all_modes ? 16 : 1); ++m) model_bind({ 0, code_of(k) }, m, 1, h);
    };
    using K = display::Key;
    add(b_shift, B::shift_modifier, { K::shift_left, K::shift_right }, true);
    add(b_ctrl, B::control_modifier, { K::ctrl_left, K::ctrl_right }, true);
    add(b_alt, B::alt_modifier, { K::alt_left, K::alt_right }, true);
    add(b_meta, B::meta_modifier, { K::meta_left, K::meta_right }, true);
    add(b_quit, B::quit, { K::escape, K::small_q }, false);
    if (!config.disable_frame_rate_control) {
        add(b_inc, B::inc_frame_rate, { K::keypad_add }, false);
        add(b_dec, B::dec_frame_rate, { K::keypad_subtract }, false);
    }
    if (config.allow_window_resize) add(b_full, B::toggle_fullscreen, { K::small_f }, false);
    add(b_reset, B::reset_view, { K::space }, false);
    if (!config.disable_headlight_feature) add(b_head, B::toggle_headlight, { K::small_l }, false);
    if (!config.disable_wireframe_feature) add(b_wire, B::toggle_wireframe, { K::small_w }, false);
}

// The arriving events. `keys`: mostly keyboard input
void gen_events(bool keys)
{
    i64 t = steady();
    std::set<KeyId> down;
    int n = 0;
    bool left = false;
    display::Pos mp(50, 50);
    static const i64 gaps[] = { 0, 0, 1 * ms, 7 * ms, 30 * ms, 100 * ms, 400 * ms, 2500 * ms };
    do {
        t += sim::pick(gaps) + (choose(3) == 2 ? i64(choose(ms)) : 0);
        if (!keys && choose(8) == 7) {
            // the trackball is dragged
            static const i64 step[] = { 5 * ms, 1 * ms, 12 * ms, 30 * ms, 60 * ms, 120 * ms, 250 * ms };
            u64 m = choose(5);
            for (u64 i = 0; i <= m + 1; ++i) {
                Event e { t, i == 0 ? Ev::mousedown : i <= m ? Ev::mousemove : Ev::mouseup };
                if (i == 0 || choose(4)) mp = i == 0 ? display::Pos(int(choose(100)), int(choose(100))) : display::Pos(mp.x + int(choose(30)) - 10, mp.y - int(choose(30)) + 10);
                e.pos = mp;
                w->queue.push_back(e);
                t += sim::pick(step);
                ++n;
            }
            left = false;
            continue;
        }
        if (keys && choose(6) == 5) {
            // a key is tapped a few times
            KeyId k = gen_key(true);
            if (choose(4)) { // one that cares
                std::vector<KeyId> v;
                for (auto& x : w->slots) for (auto& b : x.second.bound) if (b.first.second > 1) v.push_back(x.first);
                if (!v.empty()) k = sim::pick(v);
            }
            if (k.first == 0 && (k.second == code_of(display::Key::escape) || k.second == code_of(display::Key::small_q))) continue;
            u64 n = 2 + choose(5);
            static const i64 tap[] = { 80 * ms, 10 * ms, 200 * ms, 125 * ms, 126 * ms, 300 * ms };
            for (u64 i = 0; i < n; ++i) {
                Event e { t, k.first ? Ev::mousedown : Ev::keydown };
                e.code = k.second;
                w->queue.push_back(e);
                t += sim::pick(tap);
                e.at = t;
                e.kind = k.first ? Ev::mouseup : Ev::keyup;
                w->queue.push_back(e);
                t += choose(2) ? i64(choose(60)) * ms : sim::pick(tap);
            }
            down.erase(k);
            continue;
        }
        Event e { t, Ev::expose };
        u64 c = keys ? choose(12) : choose(24);
        if (c < 7) {
            // a key is pressed or released
            KeyId k = !down.empty() && choose(2) ? *std::next(down.begin(), long(choose(down.size()))) : gen_key(false);
            if (k.first == 0 && (k.second == code_of(display::Key::escape) || k.second == code_of(display::Key::small_q)) && choose(6) != 5) k.second = code_of(display::Key::small_a);
            bool d = !down.count(k);
            if (choose(12) == 11) d = !d; // an event was lost, or comes twice
            if (d) down.insert(k); else down.erase(k);
            e.kind = k.first ? (d ? Ev::mousedown : Ev::mouseup) : (d ? Ev::keydown : Ev::keyup);
            e.code = k.second;
        }
        else switch (c) {
            case 7: e.kind = Ev::keyrepeat; e.code = code_of(display::Key::small_a); break;
            case 8: e.kind = Ev::scroll; e.amount = choose(2) ? 1 : -1; break;
            case 9: e.kind = Ev::blur; if (choose(2)) down.clear(); break;
            case 10: e.kind = Ev::focus; break;
            case 11: e.kind = Ev::mouseover; break;
            case 12: case 13: break;
            case 14: e.kind = Ev::resize; e.size = gen_size(); break;
            case 15: case 16: e.kind = Ev::reposition; e.pos = display::Pos(int(choose(5)) * 200 - 400, int(choose(3)) * 200 - 200); break;
            case 17: case 18: e.kind = Ev::screen; e.screen = int(choose(2)); break;
            case 19: case 20: e.kind = left ? Ev::mouseup : Ev::mousedown; left = !left; mp = display::Pos(int(choose(100)), int(choose(100))); e.pos = mp; break;
            case 21: case 22: if (left || choose(2)) { e.kind = Ev::mousemove; mp = display::Pos(mp.x + int(choose(30)), mp.y - int(choose(30))); e.pos = mp; } break;
            case 23: if (choose(8) == 7) e.kind = choose(2) ? Ev::quit : Ev::close; break;
        }
        w->queue.push_back(e);
        if (e.kind == Ev::resize) { e.kind = Ev::expose; w->queue.push_back(e); }
    }
    while (++n < 150 && sim::more(25));
    trace("%d events", n);
}

void run_engine(bool keys)
{
    Setup s;
    Engine::Config config;
    begin(s, config, false);
    display::Size size = gen_size();
    std::string error;
    trace("create: rate %g, screen %d of default %d, tracking %d %d, size %dx%d, conf %d", config.frame_rate, config.screen, w->default_screen, w->track_rate, w->track_resol, size.width, size.height, w->have_conf);
    if (choose(20) == 19) s.conn.fail_window = true;
    bool ok = s.engine.try_create(s.scene, s.conn, "title", size, std::locale::classic(), config, error);
    if (ok == s.conn.fail_window) fail("create", "creation of the engine %s although the window could %s created", ok ? "succeeded" : "failed", ok ? "not be" : "be");
    if (!ok) { if (error.empty()) fail("create", "creation of the engine failed without a message"); return; }
    model_builtins(config);
    u64 n = keys ? 2 + choose(8) : choose(4);
    for (u64 i = 0; i < n; ++i) gen_bind(s.engine, false);
    // Functions that are called before run()
    while (choose(3) == 2) do_action(s.engine, 1 + int(choose(20)));
    gen_events(keys);
    sim::set_clock_drift_per_read(w->drift);
    w->known_conf.clear();
    if (w->have_conf) w->known_conf = w->conf[w->screen < 0 ? w->default_screen : w->screen];
    model_track();
    s.engine.run();
    sim::set_clock_drift_per_read(0);
    trace("run() returned");
    if (!w->quit_sent) fail("early-quit", "run() returned although nobody asked the engine to quit");
    if (w->ticks > 0) sim::count("probe.ticks", u64(w->ticks));
    w->running = false;
    sim::state(sim::mix(u64(w->ticks), u64(w->renders)));
}

SIM_SCENARIO("C26", "engine", 3, sim::f_leakcheck) { run_engine(false); }
// Key bindings on their own, with handlers that interrupt event processing
SIM_SCENARIO("C27", "interruptions", 1, sim::f_leakcheck)
{
    using KB = render::impl::KeyBindings;
    struct Told { int handler; bool down; };
    std::vector<Told> told;
    told.reserve(64);
    std::vector<int> open;       // per handler: presses that were told minus releases that were told
    bool interrupted = false;
    bool may_interrupt = choose(4) != 0;
    KB kb;
    u64 nh = 1 + choose(4);
    open.assign(nh, 0);
    std::vector<int> idents;
    for (u64 i = 0; i < nh; ++i)
        idents.push_back(kb.register_handler("label", [&, i](bool down) {
            trace("  handler %llu %s", (unsigned long long) i, down ? "down" : "up");
            if (interrupted) fail("call-after-interruption", "handler %llu was called after another one had interrupted event processing", (unsigned long long) i);
            open[i] += down ? 1 : -1;
            if (open[i] < 0) fail("unexpected-release", "handler %llu was told about a release without a press", (unsigned long long) i);
            if (may_interrupt && choose(3) == 2) { interrupted = true; trace("    interrupts"); return false; }
            return true;
        }).value);
    struct K { KB::KeyIdent id; int handler; bool down = false; bool told = false; };
    std::vector<K> keys;
    u64 nk = 1 + choose(6);
    for (u64 i = 0; i < nk; ++i) {
        K k { i % 2 ? KB::KeyIdent(display::KeyCode { 50 - unsigned(i) }) : KB::KeyIdent(display::MouseButton(i / 2 % 5)), int(choose(nh)) };
        kb.bind_key(k.id, render::modif_none, render::single_tap, { idents[size_t(k.handler)] });
        keys.push_back(k);
    }
    i64 stamp = 0;
    int steps = 0;
    bool incomplete = false;
    auto pressed = [&](size_t h) { int n = 0; for (auto& k : keys) if (k.told && k.handler == int(h)) ++n; return n; };
    auto check = [&](bool proceed, const char* what) {
        trace("  -> %d", proceed);
        if (proceed == interrupted) fail(proceed ? "interruption-lost" : "spurious-interruption", "%s returned %s", what, proceed ? "true although a handler interrupted event processing" : "false although no handler interrupted event processing");
        interrupted = false;
    };
    do {
        stamp += i64(choose(600));
        if (incomplete) {
            trace("resume");
            bool p = kb.resume_incomplete_on_blur_if_any();
            check(p, "resume_incomplete_on_blur_if_any()");
            incomplete = !p;
            sim::count("probe.resumed");
        }
        else if (choose(5) == 4) {
            trace("blur");
            for (auto& k : keys) k.told = false;
            bool p = kb.on_blur();
            check(p, "on_blur()");
            incomplete = !p;
        }
        else {
            K& k = keys[choose(keys.size())];
            bool down = choose(10) == 9 ? k.down : !k.down;
            trace("key %d %s", int(&k - keys.data()), down ? "down" : "up");
            k.down = down;
            k.told = down;
            check(down ? kb.on_keydown(k.id, std::chrono::milliseconds(stamp)) : kb.on_keyup(k.id, std::chrono::milliseconds(stamp)), down ? "on_keydown()" : "on_keyup()");
        }
        if (!incomplete) {
            if (!kb.resume_incomplete_on_blur_if_any() || interrupted) fail("spurious-interruption", "an operation that is complete was resumed");
            for (size_t h = 0; h < nh; ++h)
                if (open[h] != pressed(h)) fail(open[h] > pressed(h) ? "release-missed" : "binding-missed", "handler %zu believes that %d of its keys are down but it is %d", h, open[h], pressed(h));
        }
    }
    while (++steps < 60 && sim::more(15));
    sim::state(sim::mix(nk, u64(steps)));
}

SIM_SCENARIO("C27", "engine-keys", 3, sim::f_leakcheck) { run_engine(true); }

sim::Info i26("C26", "A run is one seeded history of events, durations of rendering and ticking, and calls to the engine, processed by a running engine.",
    { "archon::render::Engine and everything below it: key bindings, virtual trackball, perspective projection" }, { "display connection and window (simulated, within the documented contract)", "OpenGL", "the steady clock", "the scene" });
sim::Info i27("C27", "A run is one seeded history of key, button and focus events and of bindings, processed by a running engine.",
    { "archon::render::Engine, key bindings" }, { "display connection and window (simulated, within the documented contract)", "OpenGL", "the steady clock", "the scene" });

} // namespace
