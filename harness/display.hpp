// Model shared by the simulated SDL library and the simulated X server.
#ifndef VERIF_DISPLAY_HPP
#define VERIF_DISPLAY_HPP

#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/file.hpp>
#include <archon/log.hpp>
#include <archon/util/color.hpp>
#include <archon/image.hpp>
#include <archon/display.hpp>

#include "sim.hpp"

using namespace archon;
using sim::u64;
using sim::i64;
using sim::choose;
using sim::trace;

namespace dm {

constexpr i64 ms = 1000000, sec = 1000 * ms, day = 86400 * sec;
constexpr i64 never = INT64_MAX;

enum class Cb { none, keydown, keyup, keyrepeat, mousedown, mouseup, mousemove, scroll, mouseover, mouseout, focus, blur, expose, resize, reposition, close, screen, quit, before_sleep };
extern const char* const cb_names[];

// Something that the platform generated, in the order of generation
struct Ev {
    Cb cb = Cb::none;          // callback that it must lead to
    int win = -1;              // index of window, or -1
    i64 stamp = -1;            // true time in ms, or -1
    unsigned code = 0;         // key code or button
    display::Pos pos { 0, 0 };
    display::Size size { 0, 0 };
    float dx = 0, dy = 0;
    int screen = 0;
    bool damage = false;       // contents of window were damaged
    bool optional = false;     // may have been lost because of a fault, or is unspecified
    bool glued = false;        // becomes available together with the previous one
    u64 serial = 0;
    i64 at = 0;
    const char* what = "";
    alignas(16) unsigned char native[192] = {};
};

struct Handler;

struct Win {
    int cookie = 0;
    bool alive = false;
    std::unique_ptr<display::Window> obj;
    std::unique_ptr<Handler> handlers[2];
    Handler* handler = nullptr;  // null: default
    u64 id = 0;                  // of platform
    bool owed = false;           // must be exposed before sleep
    int since = 0;               // callbacks since then
    i64 credit = 0;              // expose events that may be reported
    display::Size size { 0, 0 };
    bool shown = false;
    int exposes = 0;
};

struct World {
    const char* scopes = "e";
    // ---- platform
    std::deque<Ev> q;            // not yet known to be processed
    size_t taken = 0;            // number of those that the library has taken from the platform
    std::deque<std::unique_ptr<Win>> wins;
    display::Connection* conn = nullptr;
    i64 stamp_base = 0;          // true server time in ms at simulated time 0
    u64 next_serial = 1;
    int budget = 0;              // events still to be generated spontaneously
    bool saturated = false;
    int generated = 0;

    // ---- application
    bool conn_handler = false;   // installed
    bool in_process = false, interrupted = false, stop_soon = false;
    bool last_was_bs = false;
    int calls = 0, since_bs = 0, after_expiry = 0;
    i64 deadline = never;
    bool thrown = false;         // a handler threw
    u64 front_at_expiry = 0;     // event available when the previous call returned because of expiry
    bool have_offset = false;
    i64 offset = 0;              // reported minus true time stamp
    i64 last_stamp = -1;
    bool check_stamps = false, check_events = true, actions = true;
    int interrupt_rate = 12;
    u64 pauses = 0;              // long pauses in the life of the application
    bool check_screens = false;
    bool fault_fired = false;                // a call of the platform failed
    int flood_calls = 0;
    int min_size = 1;                        // of windows that the application asks for
    std::string last_title;
    std::function<void(int)> on_screen;      // application's reaction to changed screen
    bool creation_faults = false;            // windows are created with failing allocations
    std::function<void()> at_sleep;          // everything was processed
    std::function<void()> on_exception;      // of the event processor
    std::function<void(int, bool)> draw;     // draw into window
    // ---- backend
    std::function<void()> generate;          // generate something spontaneously
    std::function<void()> stopper;           // generate something that leads to a callback
    std::function<void(Win&)> after_create;

    i64 true_ms() const { return stamp_base + sim::now_mono() / ms; }
};
extern World* w;

// Report a violation: 'e' event processing, 't' time stamps, 'd' drawing, 'r' use of the platform's
// resources, 's' screen configuration. Runs that violate something else than what is being decided are given up.
#define vio(scope, key, ...) do { if (std::strchr(dm::w->scopes, scope)) sim::fail(key, __VA_ARGS__); sim::give_up(__VA_ARGS__); } while (0)

struct Interrupt { };   // thrown by handlers

struct Handler : display::WindowEventHandler {
    int win;
    explicit Handler(int w2) : win(w2) {}
    bool on_keydown(const display::KeyEvent&) override;
    bool on_keyup(const display::KeyEvent&) override;
    bool on_keyrepeat(const display::KeyEvent&) override;
    bool on_mousedown(const display::MouseButtonEvent&) override;
    bool on_mouseup(const display::MouseButtonEvent&) override;
    bool on_mousemove(const display::MouseEvent&) override;
    bool on_scroll(const display::ScrollEvent&) override;
    bool on_mouseover(const display::TimedWindowEvent&) override;
    bool on_mouseout(const display::TimedWindowEvent&) override;
    bool on_focus(const display::WindowEvent&) override;
    bool on_blur(const display::WindowEvent&) override;
    bool on_expose(const display::WindowEvent&) override;
    bool on_resize(const display::WindowSizeEvent&) override;
    bool on_reposition(const display::WindowPosEvent&) override;
    bool on_close(const display::WindowEvent&) override;
};

struct ConnHandler : display::ConnectionEventHandler {
    bool on_screen_change(int) override;
    bool before_sleep() override;
    bool on_quit() override;
};

Ev& push(Ev e);                        // record a generated event
std::string describe(const Ev&);
void about_to_sleep(i64 timeout_ns);   // the library blocks until the platform has something
bool process(i64 deadline);            // call the event processor, true: interrupted or expired; false: exception
void settle();                         // let everything be processed, check that nothing is left over
int make_window(display::Size, display::Window::Config);
void kill_window(int);
void pass_time(i64 ns);
void start_clock(bool wraps);
const std::locale& sim_locale();
std::vector<int> alive();

} // namespace dm
#endif
