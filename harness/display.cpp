// C24 C25: display event processing, model of the application and the documented contract.
#include <cmath>
#include <cstring>
#include <new>

#include "display.hpp"

namespace dm {

World* w;
const char* const cb_names[] = { "none", "on_keydown", "on_keyup", "on_keyrepeat", "on_mousedown", "on_mouseup", "on_mousemove", "on_scroll", "on_mouseover", "on_mouseout", "on_focus", "on_blur", "on_expose", "on_resize", "on_reposition", "on_close", "on_screen_change", "on_quit", "before_sleep" };

namespace {
int max_bound = 1000;
}

std::string describe(const Ev& e)
{
    char b[256];
    std::snprintf(b, sizeof b, "#%llu %s -> %s win=%d stamp=%lld code=%u pos=%d,%d size=%dx%d scroll=%g,%g%s%s", (unsigned long long)e.serial, e.what, cb_names[int(e.cb)], e.win, (long long)e.stamp, e.code,
                  e.pos.x, e.pos.y, e.size.width, e.size.height, double(e.dx), double(e.dy), e.damage ? " damage" : "", e.optional ? " optional" : "");
    return b;
}

Ev& push(Ev e)
{
    sim::NoFault nf;
    e.serial = w->next_serial++;
    e.at = sim::now_mono();
    if (sim::tracing()) trace("  platform: %s", describe(e).c_str());
    w->q.push_back(e);
    ++w->generated;
    return w->q.back();
}

// ------------------------------------------------------------------ consumption
namespace {

bool default_close(const Ev& e)
{
    if (e.cb == Cb::quit) return !w->conn_handler;
    return e.cb == Cb::close && w->wins[size_t(e.win)]->alive && !w->wins[size_t(e.win)]->handler;
}

// No callback can be observed
bool skippable(const Ev& e)
{
    if (e.cb == Cb::none) return true;
    if (e.win < 0) return e.cb == Cb::screen && !w->conn_handler;
    Win& x = *w->wins[size_t(e.win)];
    return !x.alive || (!x.handler && e.cb != Cb::close);
}

void pop()
{
    Ev& e = w->q.front();
    if (e.damage && e.win >= 0) {
        Win& x = *w->wins[size_t(e.win)];
        if (x.alive) {
            ++x.credit;
            if (!e.optional && !x.owed) { x.owed = true; x.since = 0; }
        }
    }
    if (e.serial == w->front_at_expiry) w->front_at_expiry = 0;
    w->q.pop_front();
    --w->taken;
}

void skip()
{
    while (w->taken > 0 && skippable(w->q.front())) pop();
}

struct Got {
    Cb cb;
    int win = -1;
    i64 stamp = -1;
    unsigned code = 0;
    display::Pos pos { 0, 0 };
    display::Size size { 0, 0 };
    float dx = 0, dy = 0;
    int screen = 0;
};

bool matches(const Ev& e, const Got& g)
{
    return e.cb == g.cb && e.win == g.win && e.code == g.code && e.pos == g.pos && e.size == g.size && e.dx == g.dx && e.dy == g.dy && e.screen == g.screen;
}

std::string show(const Got& g)
{
    Ev e; e.cb = g.cb; e.win = g.win; e.stamp = g.stamp; e.code = g.code; e.pos = g.pos; e.size = g.size; e.dx = g.dx; e.dy = g.dy; e.screen = g.screen; e.what = "callback";
    return describe(e);
}

void app_action(int win, Cb cb);

bool callback(Got g)
{
    sim::NoFault nf;
    if (sim::tracing()) trace("  %s", show(g).c_str());
    if (!w->in_process) vio('e', "callback-outside", "%s was called outside of event processing", cb_names[int(g.cb)]);
    if (w->interrupted) vio('e', "callback-after-interruption", "%s was called after a handler had interrupted event processing", cb_names[int(g.cb)]);
    ++w->calls;
    if (++w->since_bs > max_bound && g.cb != Cb::before_sleep && w->conn_handler) vio('e', "no-before-sleep", "%d handlers were called without before_sleep() being called", w->since_bs);
    if (sim::now_mono() >= w->deadline && ++w->after_expiry > max_bound) vio('e', "deadline-ignored", "%d handlers were called after the deadline expired", w->after_expiry);
    for (auto& x : w->wins)
        if (x->alive && x->handler && x->owed && ++x->since > max_bound) vio('e', "expose-delayed", "%d handlers were called after the contents of a window was damaged, without on_expose() being called", x->since);
    w->last_was_bs = g.cb == Cb::before_sleep;
    if (g.win >= 0 && !w->wins[size_t(g.win)]->alive) vio('e', "callback-after-destruction", "%s was called for a window that has been destroyed", cb_names[int(g.cb)]);
    if (g.cb == Cb::before_sleep) {
        w->since_bs = 0;
    }
    else if (g.cb == Cb::screen) {
        if (!w->on_screen) vio('e', "unexpected-event", "on_screen_change() was called, but the platform does not report screens");
        w->on_screen(g.screen);
    }
    else if (g.cb == Cb::expose) {
        Win& x = *w->wins[size_t(g.win)];
        skip();
        while (x.credit <= 0 && w->taken > 0 && w->q.front().optional) { pop(); skip(); }
        if (x.credit <= 0 && w->check_events) vio('e', "spurious-expose", "on_expose() was called for a window whose contents was not damaged since it was last called");
        --x.credit;
        x.owed = false;
        // Those that may have been processed already
        for (size_t i = 0; i < w->taken && (skippable(w->q[i]) || w->q[i].optional); ++i)
            if (w->q[i].win == g.win) w->q[i].optional = true;
        ++x.exposes;
        sim::count("probe.expose");
    }
    else {
        for (;;) {
            if (w->taken == 0) vio('e', "unexpected-event", "%s, but the platform reported no such event (%s)", show(g).c_str(), w->q.empty() ? "no events left" : describe(w->q.front()).c_str());
            Ev& e = w->q.front();
            if (matches(e, g)) break;
            if (!skippable(e) && !e.optional) vio('e', "wrong-event", "%s, but the next event of the platform is %s", show(g).c_str(), describe(e).c_str());
            pop();
        }
        Ev& e = w->q.front();
        if (e.stamp >= 0) {
            if (g.stamp < 0) vio('t', "negative-time-stamp", "a negative time stamp was reported");
            if (w->check_stamps) {
                i64 off = g.stamp - e.stamp;
                if (!w->have_offset) { w->have_offset = true; w->offset = off; }
                if (off != w->offset) vio('t', "wrong-time-stamp", "the time between two events was reported to be %lld ms more than it was", (long long)(off - w->offset));
                sim::count("probe.time_stamp");
            }
            else if (g.stamp < w->last_stamp) vio('t', "time-stamp-backwards", "time stamp %lld follows time stamp %lld", (long long)g.stamp, (long long)w->last_stamp);
            w->last_stamp = g.stamp;
        }
        else if (g.stamp >= 0) sim::harness_error("time stamp");
        if (w->check_events) sim::count("probe.event");
        pop();
    }
    app_action(g.win, g.cb);
    if (w->stop_soon) { w->stop_soon = false; w->interrupted = true; trace("    -> interrupt"); return false; }
    u64 c = w->actions ? choose(u64(w->interrupt_rate) * 4) : 0;
    if (c == 1) { w->thrown = true; w->interrupted = true; sim::count("fault.handler_throws"); trace("    -> throw"); throw Interrupt(); }
    if (c >= 2 && c < 6) { w->interrupted = true; trace("    -> interrupt"); return false; }
    return true;
}

// What an application does in a handler
void app_action(int win, Cb cb)
{
    if (cb == Cb::expose && w->draw) w->draw(win, true);
    if (!w->actions) return;
    u64 c = choose(60);
    if (c == 0 || c > 12) return;
    auto a = alive();
    switch (c) {
        case 1: case 2: pass_time(i64(sim::range(0, 200)) * ms); break;
        case 3: if (a.size() > 1) { sim::count("probe.window_destroyed_in_handler"); kill_window(a[choose(a.size())]); } break;
        case 4: if (a.size() < 4) make_window({ w->min_size + int(choose(300)), w->min_size + int(choose(300)) }, {}); break;
        case 5: {
            if (a.empty()) break;
            Win& x = *w->wins[size_t(a[choose(a.size())])];
            if (x.handler) { x.handler = x.handlers[x.handler == x.handlers[0].get()].get(); x.obj->set_event_handler(*x.handler); sim::count("probe.handler_switched"); }
            break;
        }
        case 6: case 7: if (!a.empty()) { int i = a[choose(a.size())]; trace("    app: show %d", i); w->wins[size_t(i)]->obj->show(); } break;
        case 8: if (!a.empty()) { int i = a[choose(a.size())]; trace("    app: hide %d", i); w->wins[size_t(i)]->obj->hide(); } break;
        case 9: if (!a.empty()) { int i = a[choose(a.size())]; display::Size s { w->min_size + int(choose(300)), w->min_size + int(choose(300)) }; trace("    app: set size %d", i); w->wins[size_t(i)]->obj->set_size(s); } break;
        case 10: if (!a.empty()) { int i = a[choose(a.size())]; trace("    app: title %d", i); w->wins[size_t(i)]->obj->set_title("Abc"); } break;
        case 11: if (!a.empty()) { int i = a[choose(a.size())]; trace("    app: fullscreen %d", i); w->wins[size_t(i)]->obj->set_fullscreen_mode(choose(2)); } break;
        case 12: w->budget += int(choose(20)); break;
    }
}

} // namespace

std::vector<int> alive()
{
    std::vector<int> v;
    for (size_t i = 0; i < w->wins.size(); ++i) if (w->wins[i]->alive) v.push_back(int(i));
    return v;
}

void pass_time(i64 ns)
{
    sim::advance(ns);
    if (sim::tracing() && ns) trace("  (%lld ms pass)", (long long)(ns / ms));
}

// ------------------------------------------------------------------ handlers
namespace {
Got got(const Handler& h, Cb cb, const display::WindowEvent& e)
{
    Got g; g.cb = cb; g.win = h.win;
    Win& x = *w->wins[size_t(h.win)];
    if (x.alive && x.handler != &h) vio('e', "wrong-handler", "%s was called on a handler that is not the one installed for the window", cb_names[int(cb)]);
    if (e.cookie != x.cookie) vio('e', "wrong-cookie", "%s reports cookie %d for a window whose cookie is %d", cb_names[int(cb)], e.cookie, x.cookie);
    return g;
}
Got timed(const Handler& h, Cb cb, const display::TimedWindowEvent& e) { Got g = got(h, cb, e); g.stamp = e.timestamp.count(); return g; }
Got key(const Handler& h, Cb cb, const display::KeyEvent& e) { Got g = timed(h, cb, e); g.code = unsigned(e.key_code.code); return g; }
Got mouse(const Handler& h, Cb cb, const display::MouseEvent& e) { Got g = timed(h, cb, e); g.pos = e.pos; return g; }
Got button(const Handler& h, Cb cb, const display::MouseButtonEvent& e) { Got g = mouse(h, cb, e); g.code = unsigned(e.button); return g; }
}

bool Handler::on_keydown(const display::KeyEvent& e) { return callback(key(*this, Cb::keydown, e)); }
bool Handler::on_keyup(const display::KeyEvent& e) { return callback(key(*this, Cb::keyup, e)); }
bool Handler::on_keyrepeat(const display::KeyEvent& e) { return callback(key(*this, Cb::keyrepeat, e)); }
bool Handler::on_mousedown(const display::MouseButtonEvent& e) { return callback(button(*this, Cb::mousedown, e)); }
bool Handler::on_mouseup(const display::MouseButtonEvent& e) { return callback(button(*this, Cb::mouseup, e)); }
bool Handler::on_mousemove(const display::MouseEvent& e) { return callback(mouse(*this, Cb::mousemove, e)); }
bool Handler::on_scroll(const display::ScrollEvent& e) { Got g = timed(*this, Cb::scroll, e); g.dx = e.amount[0]; g.dy = e.amount[1]; return callback(g); }
bool Handler::on_mouseover(const display::TimedWindowEvent& e) { return callback(timed(*this, Cb::mouseover, e)); }
bool Handler::on_mouseout(const display::TimedWindowEvent& e) { return callback(timed(*this, Cb::mouseout, e)); }
bool Handler::on_focus(const display::WindowEvent& e) { return callback(got(*this, Cb::focus, e)); }
bool Handler::on_blur(const display::WindowEvent& e) { return callback(got(*this, Cb::blur, e)); }
bool Handler::on_expose(const display::WindowEvent& e) { return callback(got(*this, Cb::expose, e)); }
bool Handler::on_resize(const display::WindowSizeEvent& e) { Got g = got(*this, Cb::resize, e); g.size = e.size; return callback(g); }
bool Handler::on_reposition(const display::WindowPosEvent& e) { Got g = got(*this, Cb::reposition, e); g.pos = e.pos; return callback(g); }
bool Handler::on_close(const display::WindowEvent& e) { return callback(got(*this, Cb::close, e)); }
bool ConnHandler::on_screen_change(int s) { Got g; g.cb = Cb::screen; g.screen = s; return callback(g); }
bool ConnHandler::before_sleep() { Got g; g.cb = Cb::before_sleep; return callback(g); }
bool ConnHandler::on_quit() { Got g; g.cb = Cb::quit; return callback(g); }

// ------------------------------------------------------------------ application
void about_to_sleep(i64 timeout)
{
    sim::NoFault nf;
    if (!w->in_process) vio('e', "sleep-outside", "slept outside of event processing");
    if (w->interrupted) vio('e', "sleep-after-interruption", "slept after a handler had interrupted event processing");
    skip();
    while (w->taken > 0 && w->q.front().optional) { pop(); skip(); }
    if (w->taken > 0) vio('e', default_close(w->q.front()) ? "interruption-missed" : "event-lost", "about to sleep, but %s was not reported", describe(w->q.front()).c_str());
    for (auto& x : w->wins)
        if (x->alive && x->handler && x->owed) vio('e', "expose-missed", "about to sleep, but on_expose() was not called after the contents of a window was damaged");
    if (w->at_sleep) w->at_sleep();
    if (w->conn_handler && !w->last_was_bs) vio('e', "no-before-sleep", "about to sleep without a call of before_sleep()");
    if (w->deadline != never) {
        // 50 ms are tolerated
        if (timeout == never || timeout - 50 * ms > std::max<i64>(w->deadline - sim::now_mono(), 0)) vio('e', "sleeps-past-deadline", "sleeps for %lld ms, but the deadline is in %lld ms", timeout == never ? -1LL : (long long)(timeout / ms), (long long)((w->deadline - sim::now_mono()) / ms));
    }
}

bool process(i64 deadline)
{
    using TP = display::Connection::time_point_type;
    w->in_process = true;
    w->interrupted = w->thrown = w->last_was_bs = false;
    w->after_expiry = 0;
    w->since_bs = 0;
    w->deadline = deadline;
    w->fault_fired = false;
    if (deadline == never) trace("process events");
    else trace("process events until %+lld ms", (long long)((deadline - sim::now_mono()) / ms));
    bool ret = false, exc = false;
    i64 called = sim::now_mono();
    u64 front = w->front_at_expiry;
    try {
        if (deadline == never) w->conn->process_events();
        else ret = w->conn->process_events_a(TP(std::chrono::duration_cast<TP::duration>(std::chrono::nanoseconds(deadline))));
    }
    catch (Interrupt&) {
        if (!w->thrown) vio('e', "wrong-exception", "an exception that was not thrown");
        trace("  exception from handler");
        w->in_process = false;
        w->front_at_expiry = 0;
        return false;
    }
    catch (std::bad_alloc&) {
        sim::stop_alloc_faults();
        if (!sim::alloc_fault_fired()) vio('e', "wrong-exception", "std::bad_alloc although no allocation failed");
        trace("  bad_alloc");
        sim::count("probe.bad_alloc");
        exc = true;
    }
    catch (std::runtime_error& e) {
        sim::NoFault nf;
        sim::stop_alloc_faults();
        if (!w->fault_fired) vio('e', "wrong-exception", "std::runtime_error although nothing failed: %s", e.what());
        trace("  runtime_error: %s", e.what());
        exc = true;
    }
    w->in_process = false;
    i64 now = sim::now_mono();
    if (w->thrown) vio('e', "exception-lost", "an exception thrown by a handler did not propagate");
    if (exc) {
        if (w->interrupted) vio('e', "interruption-lost", "a handler interrupted event processing but an exception was thrown");
        // One of these may have been lost
        for (size_t i = 0; i < w->taken; ++i) {
            Ev& e = w->q[i];
            bool was = e.optional;
            e.optional = true;
            if (!skippable(e) && !was) break;
        }
        if (w->on_exception) w->on_exception();
        // and the buffered report of damage
        for (auto& x : w->wins) x->owed = false;
        w->front_at_expiry = 0;
        return false;
    }
    trace("  returned %d", ret);
    if (deadline == never || !ret) {
        if (!w->interrupted) {
            // Default handler of close or quit
            skip();
            while (w->taken > 0 && !default_close(w->q.front()) && w->q.front().optional) { pop(); skip(); }
            if (w->taken == 0 || !default_close(w->q.front())) vio('e', "spurious-interruption", "returned as interrupted, but no handler interrupted event processing");
            pop();
            sim::count("probe.default_close");
        }
        else sim::count("probe.interrupted");
        w->front_at_expiry = 0;
        return true;
    }
    if (w->interrupted) vio('e', "interruption-lost", "returned true although a handler interrupted event processing");
    if (now < deadline) vio('e', "returned-early", "returned %lld ns before the deadline", (long long)(deadline - now));
    sim::count("probe.deadline_expired");
    if (front != 0 && w->front_at_expiry == front && called >= deadline) {
        // Must have been processed if it can be observed
        for (Ev& e : w->q)
            if (e.serial == front && !skippable(e) && !e.optional) vio('e', "starvation", "two calls in a row with an expired deadline returned without processing any of the available events");
    }
    skip();
    w->front_at_expiry = 0;
    if (!w->q.empty() && !skippable(w->q.front())) w->front_at_expiry = w->q.front().serial;
    return true;
}

const std::locale& sim_locale() { static std::locale l = [] { try { return std::locale("C.UTF-8"); } catch (std::exception&) { return std::locale::classic(); } }(); return l; }

void start_clock(bool wraps)
{
    static const i64 bases[] = { 0, 5000, (i64(1) << 32) - 1, (i64(1) << 32) - 30000, (i64(1) << 31) - 3000, 123456789 };
    if (wraps) w->stamp_base = sim::pick(bases);
    else w->stamp_base = 1000000;
    w->stamp_base -= sim::now_mono() / ms;
}

int make_window(display::Size size, display::Window::Config cfg)
{
    sim::NoFault nf;
    auto x = std::make_unique<Win>();
    int i = int(w->wins.size());
    x->cookie = int(choose(3)) ? int(choose(5)) - 1 : i * 1000 + 7;
    cfg.cookie = x->cookie;
    x->handlers[0] = std::make_unique<Handler>(i);
    x->handlers[1] = std::make_unique<Handler>(i);
    x->size = size;
    x->alive = true;
    w->wins.push_back(std::move(x));
    Win& y = *w->wins[size_t(i)];
    trace("app: create window %d, %dx%d", i, size.width, size.height);
    try {
        std::optional<sim::AllowFault> af;
        if (w->creation_faults) af.emplace();
        y.obj = w->conn->new_window("Title", size, cfg);
    }
    catch (...) { y.alive = false; throw; }
    if (choose(12) != 11) { y.handler = y.handlers[0].get(); y.obj->set_event_handler(*y.handler); }
    if (choose(4)) { trace("app: show %d", i); y.obj->show(); y.shown = true; }
    return i;
}

void kill_window(int i)
{
    trace("    app: destroy window %d", i);
    Win& x = *w->wins[size_t(i)];
    x.alive = false;
    x.obj.reset();
}

void settle()
{
    trace("settle");
    sim::stop_alloc_faults();
    w->actions = false;
    w->stop_soon = false;
    w->saturated = false;
    w->budget = 0;
    w->check_events = w->check_events;
    for (int i = 0;; ++i) {
        if (i > 100) vio('e', "events-left", "events are left after many calls of process_events_a()");
        if (!process(sim::now_mono() + sec)) continue;
        skip();
        // Everything was processed if the library slept until the deadline
        if (w->q.empty()) break;
    }
    process(sim::now_mono() + sec);
    if (!w->q.empty()) vio('e', "event-lost", "%s was not reported", describe(w->q.front()).c_str());
    for (auto& x : w->wins)
        if (x->alive && x->handler && x->owed) vio('e', "expose-missed", "on_expose() was not called after the contents of a window was damaged");
    sim::count("probe.settled");
}

} // namespace dm
