// C01 file transfers, C02 load/save/touch, C03 descriptor ownership, C04 locks, C05 sources and sinks
#include <cerrno>
#include <filesystem>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

#include <archon/core/span.hpp>
#include <archon/core/string_span.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/file.hpp>
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/file_source.hpp>
#include <archon/core/file_sink.hpp>
#include <archon/core/rewindable_source.hpp>

#include "sim.hpp"

using namespace archon;
using core::File;
namespace fs = sim::fs;
using sim::u64;
using sim::i64;
using sim::choose;
using sim::chance;
using sim::trace;
using sim::fail;

namespace {

std::string gen_bytes(std::size_t n)
{
    static unsigned counter;
    (void)counter;
    std::string s(n, '\0');
    u64 h = choose(1000);
    for (std::size_t i = 0; i < n; ++i) {
        h = h * 6364136223846793005ULL + 1442695040888963407ULL;
        s[i] = char('a' + (h >> 40) % 26);
    }
    return s;
}

std::error_code sentinel_ec() { return std::make_error_code(std::errc::protocol_error); }

bool same_error(const std::error_code& ec, int e)
{
    return ec == std::error_code(e, std::system_category()) || ec == std::error_code(e, std::generic_category());
}

struct Op {
    u64 err0, eintr0;
    Op() : err0(fs::n_errors), eintr0(fs::n_eintr) { sim::set_clock_failure(0); }
    bool failed() const { return fs::n_errors != err0; }
    bool interrupted() const { return fs::n_eintr != eintr0; }
};

void check_fail_ec(const Op& op, const std::error_code& ec, const char* what)
{
    if (!op.failed())
        fail("spurious-failure", "%s failed (%s) although no system call failed", what, ec.message().c_str());
    if (!same_error(ec, fs::last_error))
        fail("wrong-error", "%s reported error %s:%d, but the system reported errno %d", what, ec.category().name(), ec.value(), fs::last_error);
}
void check_success_ec(const Op& op, const std::error_code& ec, const char* what)
{
    if (op.failed())
        fail("missed-failure", "%s succeeded although a system call failed with errno %d", what, fs::last_error);
    if (ec != sentinel_ec())
        fail("ec-touched", "%s succeeded but changed the error code", what);
}

void random_faults(bool faults)
{
    fs::config.short_io = choose(3) ? 2 + choose(4) : 0;
    fs::config.eintr = choose(3) ? 3 + choose(8) : 0;
    fs::config.reuse_fds = choose(2) == 0;
    if (faults) {
        fs::config.io_error = choose(3) ? 6 + choose(20) : 0;
        fs::config.open_error = choose(3) ? 4 + choose(10) : 0;
        fs::config.seek_error = choose(3) ? 6 + choose(10) : 0;
        fs::config.stat_error = choose(3) ? 6 + choose(10) : 0;
        fs::config.futimens_error = choose(2) ? 2 + choose(4) : 0;
        if (choose(3) == 1)
            fs::config.disk_capacity = choose(4000);
    }
}

const char* const paths[] = { "/sim/a", "/sim/b", "/sim/c", "/sim/dir", "/sim/none/x", "/sim/stream" };

// ---------------------------------------------------------------- C01

struct Model {
    // Mirrors of regular files
    std::map<std::string, std::string> files;
    void sync(const std::string& p)
    {
        if (fs::exists(p)) files[p] = fs::get(p);
        else files.erase(p);
    }
};


struct OpenFile {
    File file;
    std::string path;
    long long pos = 0;
    bool writable = false, append = false, stream = false;
};

struct C01 {
    std::map<std::string, std::string> files; // model
    u64 stream_pos = 0;
    std::vector<std::unique_ptr<OpenFile>> open;

    void check_contents(const char* when)
    {
        for (auto& [p, c] : files) {
            if (fs::get(p) != c)
                fail("content-mismatch", "%s: %s holds %s but should hold %s", when, p.c_str(),
                     sim::quote(fs::get(p), 300).c_str(), sim::quote(c, 300).c_str());
        }
    }

    // Expected outcome of an open by mode. Returns 0 or errno
    int expect(const std::string& p, bool rw, int create, int wmode)
    {
        bool dir = p == "/sim/dir";
        bool exists = dir || files.count(p) != 0 || p == "/sim/stream";
        (void)wmode;
        if (p == "/sim/none/x") return ENOENT;
        if (!exists) return create == 0 ? ENOENT : 0;
        if (create == 2) return EEXIST;
        if (dir) return EISDIR;
        (void)rw;
        return 0;
    }

    void do_open()
    {
        std::string p = paths[choose(6)];
        std::filesystem::path fp(p);
        int how = int(choose(3)); // 0: Mode via try_open, 1: detailed try_open, 2: throwing open
        bool rw; int create, wmode;
        File::Mode m = File::Mode::read;
        if (how != 1) {
            switch (choose(4)) {
                case 0: m = File::Mode::read; rw = false; create = 0; wmode = 0; break;
                case 1: m = File::Mode::update; rw = true; create = 0; wmode = 0; break;
                case 2: m = File::Mode::write; rw = true; create = 1; wmode = 1; break;
                default: m = File::Mode::append; rw = true; create = 1; wmode = 2; break;
            }
        }
        else {
            rw = choose(3) != 0;
            create = rw ? int(choose(3)) : 0;
            wmode = rw ? int(choose(3)) : 0;
            if (create == 2 && wmode == 1) wmode = 0;
        }
        if (p == "/sim/stream") { m = File::Mode::read; rw = false; create = 0; wmode = 0; }
        auto o = std::make_unique<OpenFile>();
        std::error_code ec = sentinel_ec();
        bool ok;
        bool existed = fs::exists(p);
        trace("open %s rw=%d create=%d write=%d how=%d", p.c_str(), rw, create, wmode, how);
        int exp = expect(p, rw, create, wmode);
        Op op;
        u64 n_open = fs::num_open();
        if (how == 0) ok = o->file.try_open(fp, m, ec);
        else if (how == 1) {
            File::AccessMode am = rw ? File::AccessMode::read_write : File::AccessMode::read_only;
            File::CreateMode cm = create == 0 ? File::CreateMode::never : create == 1 ? File::CreateMode::allow : File::CreateMode::must;
            File::WriteMode wm = wmode == 0 ? File::WriteMode::normal : wmode == 1 ? File::WriteMode::trunc : File::WriteMode::append;
            ok = o->file.try_open(fp, am, cm, wm, ec);
        }
        else {
            try { o->file.open(fp, m); ok = true; }
            catch (std::system_error& e) { ok = false; ec = e.code(); }
        }
        if (!ok) {
            trace("  failed: %d", ec.value());
            if (exp == EISDIR && !op.failed()) {
                if (ec != std::make_error_code(std::errc::is_a_directory))
                    fail("wrong-error", "opening a directory failed with %s", ec.message().c_str());
            }
            else
                check_fail_ec(op, ec, "open");
            // A failed open may have created or truncated the file, nothing else
            if (!existed && fs::exists(p)) {
                if (create == 0 || fs::get(p) != "")
                    fail("content-mismatch", "a failed open created a file it should not have");
                files[p] = "";
            }
            else if (files.count(p)) {
                std::string c = fs::get(p);
                if (c != files[p] && !(wmode == 1 && c.empty()))
                    fail("content-mismatch", "a failed open changed the file");
                files[p] = c;
            }
            (void)n_open;
            check_contents("after failed open");
            return;
        }
        check_success_ec(op, how == 2 ? sentinel_ec() : ec, "open");
        if (exp != 0)
            fail("wrong-open", "open of %s succeeded where errno %d is expected (rw=%d create=%d write=%d)", p.c_str(), exp, rw, create, wmode);
        if (p != "/sim/stream") {
            if (!existed || wmode == 1) files[p] = "";
        }
        check_contents("after open");
        o->path = p;
        o->writable = rw;
        o->append = wmode == 2;
        o->stream = p == "/sim/stream";
        open.push_back(std::move(o));
    }

    std::string content(OpenFile& f) { return f.stream ? fs::get(f.path) : files[f.path]; }
    u64 cur(OpenFile& f) { return f.stream ? stream_pos : u64(f.pos); }
    void adv(OpenFile& f, u64 n) { if (f.stream) stream_pos += n; else f.pos += (long long)n; }

    void do_read(OpenFile& f)
    {
        std::size_t size = choose(6) == 0 ? 0 : sim::range(1, 60);
        std::string buf(size, '#');
        std::string c = content(f);
        u64 p = cur(f);
        std::size_t avail = p < c.size() ? c.size() - std::size_t(p) : 0;
        std::size_t n = 777;
        std::error_code ec = sentinel_ec();
        int how = int(choose(5));
        bool interrupted = choose(2), intr0 = interrupted;
        trace("read %s how=%d size=%zu at %llu (avail %zu)", f.path.c_str(), how, size, (unsigned long long)p, avail);
        Op op;
        bool ok;
        core::Span<char> span(buf.data(), buf.size());
        bool some = how == 1 || how == 2 || how == 4;
        switch (how) {
            case 0: ok = f.file.try_read(span, n, ec); break;
            case 1: ok = f.file.try_read_some(span, n, ec); break;
            case 2: ok = f.file.try_read_some_a(span, n, interrupted, ec); break;
            case 3: try { n = f.file.read(span); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); n = 777; } break;
            default: try { n = f.file.read_some(span); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
        }
        trace("  %s n=%zu ec=%d", ok ? "ok" : "failed", n, ec.value());
        if (ok) {
            check_success_ec(op, ec, "read");
            if (n > size || n > avail)
                fail("bad-count", "read of %zu bytes with %zu available reported %zu", size, avail, n);
            if (some ? (n == 0 && size > 0 && avail > 0) : (n != std::min(size, avail)))
                fail("short-read", "read of %zu bytes with %zu available reported %zu, i.e., premature end of file", size, avail, n);
            if (how == 2 && (op.interrupted() || interrupted != intr0))
                fail("interrupt", "a single attempt to read succeeded after an interruption, or changed the interrupted flag");
        }
        else if (how == 2 && interrupted && !op.failed()) {
            if (!op.interrupted())
                fail("interrupt", "a read reported an interruption that did not happen");
            if (n != 777 || ec != sentinel_ec())
                fail("interrupt", "an interrupted read changed the count or the error code");
            n = 0;
            sim::count("probe.interrupt_reported");
        }
        else {
            check_fail_ec(op, ec, "read");
            if (how == 2 && interrupted)
                fail("interrupt", "a failed read reported an interruption");
            if (some) {
                if (n != 777)
                    fail("bad-count", "a failed read changed the count to %zu", n);
                n = 0;
            }
            else if (how == 3) {
                // Unknown number of bytes were read
                long long real = -1;
                if (!f.stream) {
                    fs::Config save = fs::config;
                    fs::config.seek_error = 0;
                    File::offset_type r = 0;
                    std::error_code e2;
                    if (!f.file.try_seek(0, File::Whence::cur, r, e2)) fail("spurious-failure", "tell failed");
                    real = r;
                    fs::config = save;
                    if (real < f.pos || real > f.pos + (long long)std::min(size, avail))
                        fail("bad-position", "after failed read the file position is %lld", real);
                    n = std::size_t(real - f.pos);
                }
                else {
                    f.stream = true;
                    n = ~std::size_t(0);
                }
            }
            else if (n >= size && size > 0)
                fail("bad-count", "a failed read of %zu bytes reported %zu", size, n);
        }
        if (n == ~std::size_t(0)) { // stream in unknown state: reopen
            lost_stream = true;
            return;
        }
        if (n > 0 && std::memcmp(buf.data(), c.data() + p, n) != 0)
            fail("wrong-data", "read delivered %s, expected %s", sim::quote(buf.substr(0, n)).c_str(), sim::quote(c.substr(std::size_t(p), n)).c_str());
        adv(f, n);
        check_contents("after read");
    }
    bool lost_stream = false;

    void do_write(OpenFile& f)
    {
        std::size_t size = choose(6) == 0 ? 0 : sim::range(1, 60);
        std::string data = gen_bytes(size);
        std::size_t n = 777;
        std::error_code ec = sentinel_ec();
        int how = int(choose(5));
        bool some = how == 1 || how == 2 || how == 4;
        bool interrupted = choose(2), intr0 = interrupted;
        std::string c = files[f.path];
        u64 at = f.append ? c.size() : u64(f.pos);
        trace("write %s how=%d size=%zu at %llu", f.path.c_str(), how, size, (unsigned long long)at);
        Op op;
        bool ok;
        core::StringSpan<char> span(data);
        switch (how) {
            case 0: ok = f.file.try_write(span, n, ec); break;
            case 1: ok = f.file.try_write_some(span, n, ec); break;
            case 2: ok = f.file.try_write_some_a(span, n, interrupted, ec); break;
            case 3: try { f.file.write(span); ok = true; n = size; } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
            default: try { n = f.file.write_some(span); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } break;
        }
        trace("  %s n=%zu ec=%d", ok ? "ok" : "failed", n, ec.value());
        if (ok) {
            check_success_ec(op, ec, "write");
            if (n > size || (some ? (n == 0 && size > 0) : n != size))
                fail("bad-count", "successful write of %zu bytes reported %zu", size, n);
            if (how == 2 && (op.interrupted() || interrupted != intr0))
                fail("interrupt", "a single attempt to write succeeded after an interruption, or changed the interrupted flag");
            if (!f.writable && size > 0)
                fail("missed-failure", "writing to a file opened for reading succeeded");
        }
        else if (how == 2 && interrupted && !op.failed()) {
            if (!op.interrupted())
                fail("interrupt", "a write reported an interruption that did not happen");
            if (n != 777 || ec != sentinel_ec())
                fail("interrupt", "an interrupted write changed the count or the error code");
            n = 0;
            sim::count("probe.interrupt_reported");
        }
        else {
            check_fail_ec(op, ec, "write");
            if (how == 2 && interrupted)
                fail("interrupt", "a failed write reported an interruption");
            if (some) {
                if (n != 777)
                    fail("bad-count", "a failed write changed the count to %zu", n);
                n = 0;
            }
            else if (how == 3) {
                // Count is unknown: find it from the file
                std::string now = fs::get(f.path);
                if (f.append) n = now.size() - std::size_t(at);
                else {
                    fs::Config save = fs::config;
                    fs::config.seek_error = 0;
                    std::error_code e2;
                    File::offset_type r = 0;
                    if (!f.file.try_seek(0, File::Whence::cur, r, e2)) fail("spurious-failure", "tell failed");
                    fs::config = save;
                    n = std::size_t(r - (long long)at);
                }
                if (n > size)
                    fail("bad-position", "after a failed write of %zu bytes the position moved by %zu", size, n);
            }
            else if (n >= size && size > 0)
                fail("bad-count", "a failed write of %zu bytes reported %zu", size, n);
        }
        files[f.path] = overlay(c, at, data, n);
        check_contents("after write");
        if (n > 0) f.pos = (long long)(at + n);
        // the position after an empty append is unspecified: resync through a seek
        if (f.append && n == 0) {
            fs::Config save = fs::config;
            fs::config.seek_error = 0;
            std::error_code e2;
            File::offset_type r;
            (void)f.file.try_seek(f.pos, File::Whence::set, r, e2);
            fs::config = save;
        }
    }
    static std::string overlay(std::string c, u64 at, const std::string& d, std::size_t n)
    {
        if (n == 0) return c;
        if (c.size() < at + n) c.resize(at + n, '\0');
        std::memcpy(c.data() + at, d.data(), n);
        return c;
    }

    void do_seek(OpenFile& f)
    {
        std::error_code ec = sentinel_ec();
        File::offset_type r = 12345;
        int how = int(choose(3));
        long long size = (long long)content(f).size();
        int wh = int(choose(3));
        long long base = wh == 0 ? 0 : wh == 1 ? f.pos : size;
        long long target = choose(8) == 1 ? -(long long)(1 + choose(5)) : (long long)choose(u64(size) + 10);
        if (choose(3) == 1) target = f.pos;
        File::Whence whence = wh == 0 ? File::Whence::set : wh == 1 ? File::Whence::cur : File::Whence::end;
        if (how == 2) { target = f.pos; }
        trace("seek %s how=%d whence=%d target=%lld", f.path.c_str(), how, wh, target);
        Op op;
        bool ok;
        if (how == 0) ok = f.file.try_seek(target - base, whence, r, ec);
        else if (how == 1) { try { r = f.file.seek(target - base, whence); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } }
        else { try { r = f.file.tell(); ok = true; } catch (std::system_error& e) { ok = false; ec = e.code(); } }
        trace("  %s %lld", ok ? "ok" : "failed", (long long)r);
        if (!ok) {
            check_fail_ec(op, ec, "seek");
            return;
        }
        check_success_ec(op, ec, "seek");
        if (f.stream || target < 0)
            fail("missed-failure", "an impossible seek succeeded");
        if (r != target)
            fail("bad-position", "seek reported position %lld, expected %lld", (long long)r, target);
        f.pos = target;
        check_contents("after seek");
    }

    void run(bool faults)
    {
        for (int i = 0; i < 3; ++i) {
            if (choose(3) == 0) continue;
            files[paths[i]] = gen_bytes(sim::range(0, 200));
            fs::put(paths[i], files[paths[i]]);
        }
        fs::mkdir("/sim/dir");
        fs::put("/sim/stream", gen_bytes(sim::range(0, 200)));
        fs::mkstream("/sim/stream");
        random_faults(faults);
        int steps = 0;
        do {
            switch (open.empty() ? 0 : choose(9)) {
                case 0: do_open(); break;
                case 1: case 2: case 3: case 4: case 5: case 6: case 7: {
                    OpenFile& f = *open[choose(open.size())];
                    u64 k = choose(9);
                    if (k < 3) do_read(f);
                    else if (k < 7 && !f.stream) do_write(f);
                    else if (k < 7) do_read(f);
                    else do_seek(f);
                    break;
                }
                default: {
                    u64 i = choose(open.size());
                    if (choose(2)) { // replace by moved object
                        OpenFile& f = *open[i];
                        File tmp(std::move(f.file));
                        f.file = std::move(tmp);
                        trace("moved");
                    }
                    else {
                        trace("close");
                        open[i]->file.close();
                        open.erase(open.begin() + long(i));
                    }
                    check_contents("after close");
                }
            }
            if (lost_stream) break;
        } while (++steps < 60 && sim::more(25));
        u64 h = 0;
        for (auto& [p, c] : files) h = sim::mix(h, sim::hash_bytes(c.data(), c.size()));
        sim::state(h);
    }
};

} // namespace

sim::Info info1("C01", "A run is a random history of opens in every mode, reads, writes, seeks, moves and closes over a few small simulated files; "
    "every result, count and error code is compared to an ideal byte file, with interrupts and short transfers always on and other failures in separate runs.",
    { "archon/core/file.hpp", "archon/core/file.cpp", "archon/core/platform_support.cpp" }, { "kernel file system and descriptors (sim/posix.cpp)" });

SIM_SCENARIO("C01", "interrupts", 1, sim::f_leakcheck) { C01 c; c.run(false); }
SIM_SCENARIO("C01", "failures", 2, sim::f_leakcheck | sim::f_faults) { C01 c; c.run(true); }

// ---------------------------------------------------------------- C02
namespace {

void c02(bool faults)
{
    random_faults(faults);
    fs::mkdir("/sim/dir");
    std::map<std::string, std::string> files;
    for (int i = 0; i < 2; ++i) {
        if (choose(3) == 0) continue;
        std::size_t n = choose(2) ? sim::range(0, 40) : choose(2) ? 200 + choose(400) : choose(6000);
        files[paths[i]] = gen_bytes(n);
        fs::put(paths[i], files[paths[i]]);
    }
    int steps = 0;
    do {
        std::string p = paths[choose(5)];
        std::filesystem::path fp(p);
        bool existed = fs::exists(p);
        bool bad = p == "/sim/dir" || p == "/sim/none/x";
        int what = int(choose(3));
        bool throwing = choose(3) == 1;
        std::error_code ec = sentinel_ec();
        bool ok = false;
        sim::advance(i64(1 + choose(1000000)) * 1000);
        std::string before = fs::get(p);
        Op op;
        if (what == 0) {
            std::string data = "previous contents";
            bool oom = false;
            u64 k = faults && choose(4) == 1 ? 1 + choose(6) : 0;
            trace("load %s (%zu bytes) throwing=%d alloc_fail=%llu", p.c_str(), before.size(), throwing, (unsigned long long)k);
            std::string result;
            sim::fail_alloc(k, choose(2));
            try {
                if (throwing) {
                    try { result = File::load(fp); ok = true; }
                    catch (std::filesystem::filesystem_error& e) { ok = false; ec = e.code(); }
                }
                else
                    ok = File::try_load(fp, data, ec);
            }
            catch (std::bad_alloc&) { oom = true; }
            bool fired = sim::alloc_fault_fired();
            sim::stop_alloc_faults();
            trace("  %s ec=%d", oom ? "out of memory" : ok ? "ok" : "failed", ec.value());
            if (oom) {
                if (!fired) fail("spurious-failure", "load threw bad_alloc although no allocation failed");
                if (data != "previous contents") fail("dest-changed", "a load that ran out of memory changed the destination");
                sim::count("probe.load_out_of_memory");
            }
            else if (ok) {
                check_success_ec(op, throwing ? sentinel_ec() : ec, "load");
                if (bad || !existed) fail("missed-failure", "loading from a path that is not a file succeeded");
                const std::string& got = throwing ? result : data;
                if (got != before)
                    fail("wrong-data", "load delivered %zu bytes that differ from the %zu bytes in the file", got.size(), before.size());
                if (before.size() > 512) sim::count("probe.load_beyond_seed_buffer");
            }
            else {
                // In the throwing variant the exception object itself may need memory
                if (p == "/sim/dir" && !op.failed()) {
                    if (ec != std::make_error_code(std::errc::is_a_directory)) fail("wrong-error", "loading a directory failed with %s", ec.message().c_str());
                }
                else check_fail_ec(op, ec, "load");
                if (data != "previous contents") fail("dest-changed", "a failed load changed the destination");
            }
            if (fs::get(p) != before) fail("content-mismatch", "load changed the file");
        }
        else if (what == 1) {
            std::size_t n = choose(2) ? sim::range(0, 40) : choose(3000);
            std::string data = gen_bytes(n);
            trace("save %s %zu bytes throwing=%d", p.c_str(), n, throwing);
            if (throwing) {
                try { File::save(fp, data); ok = true; }
                catch (std::filesystem::filesystem_error& e) { ok = false; ec = e.code(); }
            }
            else
                ok = File::try_save(fp, data, ec);
            trace("  %s ec=%d", ok ? "ok" : "failed", ec.value());
            if (ok) {
                check_success_ec(op, throwing ? sentinel_ec() : ec, "save");
                if (bad) fail("missed-failure", "saving to an impossible path succeeded");
                if (fs::get(p) != data) fail("content-mismatch", "save succeeded but the file holds %s instead of %s", sim::quote(fs::get(p)).c_str(), sim::quote(data).c_str());
            }
            else {
                check_fail_ec(op, ec, "save");
                std::string now = fs::get(p);
                if (now != before && data.compare(0, now.size(), now) != 0) fail("content-mismatch", "a failed save left foreign bytes in the file");
            }
        }
        else {
            trace("touch %s throwing=%d", p.c_str(), throwing);
            if (throwing) {
                try { File::touch(fp); ok = true; }
                catch (std::filesystem::filesystem_error& e) { ok = false; ec = e.code(); }
            }
            else
                ok = File::try_touch(fp, ec);
            trace("  %s ec=%d", ok ? "ok" : "failed", ec.value());
            if (ok) {
                check_success_ec(op, throwing ? sentinel_ec() : ec, "touch");
                if (bad) fail("missed-failure", "touching an impossible path succeeded");
                if (!fs::exists(p)) fail("content-mismatch", "touch succeeded but there is no file");
                if (fs::mtime(p) != sim::now_real()) fail("wrong-mtime", "touch succeeded but the modification time is not the current time");
            }
            else
                check_fail_ec(op, ec, "touch");
            if (fs::get(p) != (existed ? before : std::string())) fail("content-mismatch", "touch changed the contents of the file");
        }
        if (fs::num_open() != 0)
            fail("descriptor-leak", "%llu descriptor(s) left open", (unsigned long long)fs::num_open());
        for (int i = 0; i < 5; ++i) {
            if (paths[i] == p) continue;
            std::string q = paths[i];
            if (fs::exists(q) && q != "/sim/dir" && fs::get(q) != files[q]) fail("content-mismatch", "another file was changed");
        }
        if (p != "/sim/dir") files[p] = fs::get(p);
    }
    while (++steps < 30 && sim::more(10));
}

} // namespace

sim::Info info2("C02", "A run is a random sequence of loads, saves and touches (throwing and non-throwing) of files from empty to thousands of bytes; results, contents, "
    "modification times, error codes and the descriptor table are compared with what actually happened below.",
    { "archon/core/file.hpp", "archon/core/file.cpp", "archon/core/array_seeded_buffer.hpp", "archon/core/buffer.hpp" },
    { "kernel file system, clock (sim/posix.cpp)", "operator new (sim/alloc.cpp)" });
SIM_SCENARIO("C02", "interrupts", 1, sim::f_leakcheck) { c02(false); }
SIM_SCENARIO("C02", "failures", 2, sim::f_leakcheck | sim::f_faults) { c02(true); }

// ---------------------------------------------------------------- C03
namespace {

constexpr int n_slots = 4;

// Bytes of the standard stream objects, to undo what a run did to them
struct StdSnapshot {
    alignas(File) unsigned char bytes[3][sizeof(File)];
    StdSnapshot()
    {
        File* f[3] = { &File::get_cin(), &File::get_cout(), &File::get_cerr() };
        for (int i = 0; i < 3; ++i) std::memcpy(bytes[i], static_cast<void*>(f[i]), sizeof(File));
    }
    void restore()
    {
        File* f[3] = { &File::get_cin(), &File::get_cout(), &File::get_cerr() };
        for (int i = 0; i < 3; ++i) std::memcpy(static_cast<void*>(f[i]), bytes[i], sizeof(File));
    }
};

std::string files_of(const std::vector<fs::OpenInfo>& v)
{
    std::string s;
    for (auto& o : v) s += " " + o.path;
    return s;
}

void c03(bool faults, bool standard)
{
    static StdSnapshot snapshot;
    snapshot.restore();
    random_faults(faults);
    if (faults) {
        fs::config.open_error = choose(2) ? 3 : 0;
        fs::config.stat_error = choose(2) ? 3 : 0;
    }
    fs::config.reuse_fds = choose(2) == 0;
    fs::config.disk_capacity = ~0ULL;
    fs::mkdir("/sim/dir");
    if (standard) fs::remap_std(true);
    // Each opened file has its own path, so that the descriptor it holds can be identified
    std::optional<File> slot[n_slots];
    // What each slot holds: "" empty, "?" unspecified (either empty or `alt`)
    std::string holds[n_slots], alt[n_slots];
    bool is_std[n_slots] = {};
    File* stdf[3] = { &File::get_cin(), &File::get_cout(), &File::get_cerr() };
    std::string std_holds[3] = { "/sim/stdin", "/sim/stdout", "/sim/stderr" };
    int counter = 0;

    auto verify = [&](const char* when) {
        // Every descriptor of the table is held by exactly one object, and the other way around
        std::map<std::string, int> want;
        for (int i = 0; i < n_slots; ++i) {
            if (!slot[i]) continue;
            if (slot[i]->is_open() != !holds[i].empty())
                fail("wrong-state", "%s: file object %d is %s, but should %s", when, i, slot[i]->is_open() ? "open" : "empty",
                     holds[i].empty() ? "be empty" : ("refer to " + holds[i]).c_str());
            if (bool(*slot[i]) != slot[i]->is_open()) fail("wrong-state", "bool conversion and is_open() differ");
            if (!holds[i].empty()) ++want[holds[i]];
        }
        std::map<std::string, int> have;
        for (auto& o : fs::list_open())
            ++have[o.path];
        if (standard) {
            for (const char* n : { "/sim/stdin", "/sim/stdout", "/sim/stderr" }) {
                if (have[n] != 1)
                    fail("std-closed", "%s: the descriptor of standard stream %s was closed implicitly", when, n + 5);
                want[n] = 1;
            }
        }
        for (auto& [p, n] : have)
            if (n > want[p])
                fail("descriptor-leak", "%s: descriptor of %s is open, but no file object refers to it (open:%s)", when, p.c_str(), files_of(fs::list_open()).c_str());
        for (auto& [p, n] : want)
            if (n > have[p])
                fail("descriptor-lost", "%s: a file object refers to %s, but its descriptor was closed", when, p.c_str());
        // The right descriptor is held: write a mark through it
        for (int i = 0; i < n_slots; ++i) {
            if (holds[i].empty() || !slot[i] || is_std[i]) continue;
            fs::Config save = fs::config;
            fs::config = fs::Config();
            File::Info info {};
            std::error_code ec;
            if (!slot[i]->try_get_file_info(info, ec) || info.is_directory) fail("wrong-state", "%s: bad descriptor in file object", when);
            std::size_t n = 0;
            if (!slot[i]->try_write(std::string_view("x"), n, ec)) fail("wrong-state", "%s: write through file object failed", when);
            std::string c = fs::get(holds[i]);
            if (c.empty() || c.size() > 1) fail("wrong-state", "%s: file object %d refers to another file than the one opened", when, i);
            fs::put(holds[i], "");
            File::offset_type r;
            (void)slot[i]->try_seek(0, File::Whence::set, r, ec);
            fs::config = save;
        }
    };

    int steps = 0;
    do {
        int i = int(choose(n_slots)), j = int(choose(n_slots));
        u64 op = choose(standard ? 11 : 9);
        switch (op) {
            case 0: case 1: case 2: { // open
                if (!slot[i]) slot[i].emplace();
                std::string old = holds[i];
                bool was_std = is_std[i];
                if (was_std) { trace("skip"); break; } // would lose a standard stream for good
                u64 kind = choose(6);
                std::string p = kind == 0 ? "/sim/dir" : kind == 1 ? "/sim/none/x" : "/sim/f" + std::to_string(++counter);
                std::filesystem::path fp(p);
                std::error_code ec = sentinel_ec();
                bool ok;
                trace("open slot %d %s (holds %s)", i, p.c_str(), old.c_str());
                Op o;
                if (kind == 0 && choose(2))
                    ok = slot[i]->try_open(fp, File::Mode::read, ec);
                else if (choose(3) == 1) {
                    try { slot[i]->open(fp, kind == 0 ? File::Mode::read : File::Mode::write); ok = true; }
                    catch (std::system_error& e) { ok = false; ec = e.code(); }
                }
                else
                    ok = slot[i]->try_open(fp, kind == 0 ? File::Mode::read : File::Mode::write, ec);
                trace("  %s %s", ok ? "ok" : "failed", slot[i]->is_open() ? "open" : "empty");
                if (ok) {
                    if (p == "/sim/dir") fail("directory-opened", "opening a directory succeeded");
                    holds[i] = p;
                    is_std[i] = false;
                }
                else {
                    sim::count("probe.open_failed");
                    if (!old.empty()) sim::count("probe.reopen_failed");
                    // left empty, or still referring to the previous file
                    if (slot[i]->is_open()) {
                        if (old.empty()) fail("wrong-state", "an empty file object is open after a failed open of %s", p.c_str());
                    }
                    else { holds[i].clear(); }
                }
                break;
            }
            case 3: // close
                if (slot[i] && !is_std[i]) {
                    trace("close slot %d", i);
                    slot[i]->close();
                    holds[i].clear();
                }
                break;
            case 4: // destroy
                if (slot[i]) {
                    trace("destroy slot %d (%s)", i, holds[i].c_str());
                    slot[i].reset();
                    if (is_std[i]) sim::count("probe.std_holder_destroyed");
                    holds[i].clear();
                    is_std[i] = false;
                }
                break;
            case 5: case 6: // move construct
                if (slot[j] && i != j) {
                    trace("slot %d constructed from slot %d", i, j);
                    slot[i].reset();
                    slot[i].emplace(std::move(*slot[j]));
                    holds[i] = holds[j];
                    is_std[i] = is_std[j];
                    holds[j].clear();
                    is_std[j] = false;
                }
                break;
            case 7: case 8: // move assign
                if (slot[i] && slot[j]) {
                    trace("slot %d assigned from slot %d", i, j);
                    if (i == j && is_std[i]) break;
                    File& src = *slot[j];
                    *slot[i] = std::move(src);
                    if (i != j) {
                        holds[i] = holds[j];
                        is_std[i] = is_std[j];
                        holds[j].clear();
                        is_std[j] = false;
                    }
                    else if (!slot[i]->is_open())
                        holds[i].clear(); // self move: either outcome is fine
                }
                break;
            default: { // standard streams
                int k = int(choose(3));
                if (op == 9) {
                    if (std_holds[k].empty()) break;
                    trace("slot %d takes standard stream %d", i, k);
                    if (!slot[i] || choose(2)) { slot[i].reset(); slot[i].emplace(std::move(*stdf[k])); }
                    else *slot[i] = std::move(*stdf[k]);
                    holds[i] = std_holds[k];
                    is_std[i] = true;
                    std_holds[k].clear();
                }
                else {
                    if (!slot[i] || !is_std[i]) break;
                    trace("slot %d given back to standard stream %d", i, k);
                    *stdf[k] = std::move(*slot[i]);
                    std_holds[k] = holds[i];
                    holds[i].clear();
                    is_std[i] = false;
                }
            }
        }
        verify("after step");
    }
    while (++steps < 60 && sim::more(20));
    for (int i = 0; i < n_slots; ++i) {
        trace("destroy slot %d", i);
        slot[i].reset();
        holds[i].clear();
    }
    verify("at end");
    if (fs::num_open() != 0) fail("descriptor-leak", "descriptors left open after all file objects are gone:%s", files_of(fs::list_open()).c_str());
    snapshot.restore();
}

} // namespace

sim::Info info3("C03", "A run is a random history of opens (some failing at open or at the following status query, some of directories), closes, moves, self-moves and "
    "destructions over four file objects and the three standard streams; after each step the descriptor table is compared with what the objects should hold.",
    { "archon/core/file.hpp", "archon/core/file.cpp" }, { "kernel descriptor table (sim/posix.cpp)" });
SIM_SCENARIO("C03", "plain", 1, sim::f_leakcheck) { c03(false, false); }
SIM_SCENARIO("C03", "failures", 2, sim::f_leakcheck | sim::f_faults) { c03(true, false); }
SIM_SCENARIO("C03", "standard-streams", 1, sim::f_leakcheck) { c03(false, true); }
SIM_SCENARIO("C03", "standard-streams-failures", 1, sim::f_leakcheck | sim::f_faults) { c03(true, true); }

// ---------------------------------------------------------------- C04
namespace {

struct LockWorld {
    // Who holds what according to the results reported to the callers
    std::map<std::string, std::map<int, bool>> held; // path -> object id -> exclusive
};

void lock_client(LockWorld& w, int id, bool faults)
{
    const char* path = choose(4) ? "/sim/a" : "/sim/b";
    File f;
    {
        fs::Config save = fs::config;
        fs::config.open_error = fs::config.stat_error = 0;
        f.open(std::filesystem::path(path), File::Mode::update);
        (void)save;
    }
    int rounds = 1 + int(choose(3));
    for (int r = 0; r < rounds; ++r) {
        bool ex = choose(2) == 0;
        bool nb = choose(3) == 1;
        bool got = false, failed = false;
        std::error_code ec;
        trace("object %d requests %s%s on %s", id, nb ? "nb " : "", ex ? "exclusive" : "shared", path);
        u64 errs = fs::n_errors;
        try {
            if (nb) got = ex ? f.nb_lock_exclusive() : f.nb_lock_shared();
            else {
                if (ex) f.lock_exclusive();
                else f.lock_shared();
                got = true;
            }
        }
        catch (std::system_error& e) { failed = true; ec = e.code(); }
        sim::NoPreempt np;
        if (failed) {
            trace("object %d fails %d", id, ec.value());
            if (!faults || fs::n_errors == errs || !same_error(ec, ENOLCK))
                fail("spurious-failure", "a lock request failed with %s", ec.message().c_str());
            continue;
        }
        trace("object %d %s", id, got ? "holds the lock" : "would block");
        auto& h = w.held[path];
        if (got) {
            for (auto& [o, oex] : h)
                if (o != id && (ex || oex))
                    fail("not-exclusive", "object %d holds a %s lock while object %d holds a %s lock", id, ex ? "exclusive" : "shared", o, oex ? "exclusive" : "shared");
            h[id] = ex;
            sim::yield();
            sim::yield();
            if (choose(3) == 0) sim::sleep_ns(1000);
            // Still exclusive?
            for (auto& [o, oex] : h)
                if (o != id && (ex || oex))
                    fail("not-exclusive", "object %d obtained a lock while object %d holds one", o, id);
            h.erase(id);
            if (choose(5) == 1) {
                trace("object %d closes", id);
                f.close();
                f.open(std::filesystem::path(path), File::Mode::update);
            }
            else {
                trace("object %d unlocks", id);
                f.unlock();
                if (choose(4) == 1) f.unlock(); // idempotent
            }
        }
        else if (!nb)
            fail("not-exclusive", "a blocking request returned without the lock");
        else {
            // Somebody must have been in the way at some time during the call; with a single object nobody is
            sim::count("probe.nb_refused");
        }
    }
    if (choose(2)) {
        File g(std::move(f));
        g.unlock();
    }
}

void c04(bool faults)
{
    fs::put("/sim/a", "a");
    fs::put("/sim/b", "b");
    fs::config.eintr = choose(2) ? 2 + choose(5) : 0;
    fs::config.lock_error = faults ? 4 + choose(8) : 0;
    fs::config.yield = true;
    sim::set_switch_rate(1 + choose(4));
    sim::set_preempt(choose(2));
    LockWorld w;
    int n = 2 + int(choose(4));
    std::vector<std::thread> ts;
    for (int i = 0; i < n; ++i)
        ts.emplace_back([&w, i, faults] { lock_client(w, i, faults); });
    for (auto& t : ts) t.join();
    // Nothing is locked any more: a non-blocking exclusive request must succeed
    fs::config = fs::Config();
    for (const char* p : { "/sim/a", "/sim/b" }) {
        File f(std::filesystem::path(p), File::Mode::update);
        if (!f.nb_lock_exclusive()) fail("lock-leak", "%s is still locked after all file objects unlocked or closed", p);
    }
}

void c04_single()
{
    // Uncontended: outcomes are determined
    fs::put("/sim/a", "a");
    fs::config.eintr = choose(3) ? 2 + choose(4) : 0;
    File f(std::filesystem::path("/sim/a"), File::Mode::update), g(std::filesystem::path("/sim/a"), File::Mode::update);
    int held_f = 0, held_g = 0; // 0 none, 1 shared, 2 exclusive
    int steps = 0;
    do {
        bool first = choose(2) == 0;
        File& x = first ? f : g;
        int& h = first ? held_f : held_g;
        int other = first ? held_g : held_f;
        u64 op = choose(4);
        bool ex = choose(2) == 0;
        bool can = ex ? other == 0 : other != 2;
        if (h != 0 || op == 0) {
            trace("unlock %d", int(first));
            x.unlock();
            h = 0;
            continue;
        }
        if (op == 1 || !can) {
            bool r = ex ? x.nb_lock_exclusive() : x.nb_lock_shared();
            trace("nb %d ex=%d -> %d", int(first), ex, r);
            if (r != can) fail("wrong-result", "a non-blocking %s request returned %d while the other object holds %s", ex ? "exclusive" : "shared", r,
                               other == 0 ? "nothing" : other == 1 ? "a shared lock" : "an exclusive lock");
            if (r) h = ex ? 2 : 1;
        }
        else {
            trace("lock %d ex=%d", int(first), ex);
            if (ex) x.lock_exclusive();
            else x.lock_shared();
            h = ex ? 2 : 1;
        }
    }
    while (++steps < 40 && sim::more(15));
}

} // namespace

sim::Info info4("C04", "Two to five simulated threads, each with its own file object, request, hold and release exclusive and shared locks, blocking and non-blocking, on two files, "
    "with signals interrupting requests; holders according to reported results are checked for exclusion, and blocked requests for progress (deadlock detection).",
    { "archon/core/file.hpp", "archon/core/file.cpp" }, { "flock() of the kernel (sim/posix.cpp)", "thread scheduling (sim/sched.cpp)" });
SIM_SCENARIO("C04", "threads", 3, sim::f_threads) { c04(false); }
SIM_SCENARIO("C04", "threads-failures", 1, sim::f_threads | sim::f_faults) { c04(true); }
SIM_SCENARIO("C04", "two-objects", 1, 0) { c04_single(); }

// ---------------------------------------------------------------- C05
namespace {

// A source with hostile chunking
class HostileSource : public core::Source {
public:
    std::string data;
    std::size_t pos = 0;
    u64 error_rate = 0;
    bool failed = false;
    u64 chunk = 0;
protected:
    bool do_try_read_some(core::Span<char> buffer, std::size_t& n, std::error_code& ec) override
    {
        if (error_rate && chance(1, error_rate)) {
            ec = std::error_code(EIO, std::system_category());
            failed = true;
            sim::count("fault.source_error");
            trace("  source fails");
            return false;
        }
        std::size_t m = std::min(buffer.size(), data.size() - pos);
        if (m > 1 && chunk) m = 1 + choose(std::min<u64>(m, chunk));
        std::memcpy(buffer.data(), data.data() + pos, m);
        pos += m;
        n = m;
        trace("  source delivers %zu", m);
        return true;
    }
};

void c05_read(bool faults)
{
    // Stack of sources over a simulated file or a hostile source
    std::string data = gen_bytes(choose(3) ? sim::range(0, 60) : choose(1500));
    File file;
    HostileSource hostile;
    std::vector<char> bbuf(sim::range(1, 40));
    std::optional<core::FileSource> fsrc;
    std::optional<core::BufferedFileSource> bsrc;
    core::Source* base = nullptr;
    u64 kind = choose(3);
    fs::put("/sim/a", data);
    if (kind != 0) file.open(std::filesystem::path("/sim/a"));
    if (kind == 1) { fsrc.emplace(file); base = &*fsrc; }
    else if (kind == 2) { bsrc.emplace(file, core::Span<char>(bbuf.data(), bbuf.size())); base = &*bsrc; }
    else { hostile.data = data; hostile.chunk = choose(20); base = &hostile; }
    fs::config.short_io = choose(3) ? 2 + choose(3) : 0;
    fs::config.eintr = choose(3) ? 3 + choose(5) : 0;
    if (faults) {
        fs::config.io_error = 3 + choose(10);
        hostile.error_rate = 3 + choose(10);
    }
    bool rewindable = choose(3) != 0;
    core::Buffer<char> rbuf(choose(2) ? 0 : choose(30));
    std::optional<core::RewindableSource> rsrc;
    core::Source* src = base;
    if (rewindable) { rsrc.emplace(*base, rbuf); src = &*rsrc; }
    bool released = false;
    std::size_t pos = 0;
    std::size_t max_pos = 0;
    trace("read stack kind=%llu rewindable=%d data=%zu", (unsigned long long)kind, rewindable, data.size());
    int steps = 0;
    do {
        u64 op = choose(8);
        if (op == 6 && rewindable && !released) {
            trace("rewind");
            rsrc->rewind();
            if (pos > 0) sim::count("probe.rewind");
            pos = 0;
            continue;
        }
        if (op == 7 && rewindable && choose(3) == 1) {
            trace("release");
            if (pos < max_pos) sim::count("probe.release_before_end_of_replay");
            rsrc->release();
            released = true;
            continue;
        }
        std::size_t size = choose(6) == 0 ? 0 : sim::range(1, 50);
        std::string buf(size, '#');
        std::error_code ec = sentinel_ec();
        std::size_t n = 777;
        bool some = choose(2);
        bool throwing = choose(4) == 1;
        trace("read%s %zu at %zu of %zu", some ? "_some" : "", size, pos, data.size());
        u64 err0 = fs::n_errors;
        hostile.failed = false;
        bool oom = false;
        u64 k = faults && choose(6) == 1 ? 1 + choose(2) : 0;
        bool ok;
        core::Span<char> span(buf.data(), size);
        sim::fail_alloc(k);
        try {
            if (throwing) {
                try { n = some ? src->read_some(span) : src->read(span); ok = true; }
                catch (std::system_error& e) { ok = false; ec = e.code(); }
            }
            else
                ok = some ? src->try_read_some(span, n, ec) : src->try_read(span, n, ec);
        }
        catch (std::bad_alloc&) { oom = true; ok = false; }
        sim::stop_alloc_faults();
        bool bad = hostile.failed || fs::n_errors != err0;
        trace("  %s n=%zu", ok ? "ok" : oom ? "out of memory" : "failed", n);
        std::size_t avail = data.size() - pos;
        if (ok) {
            if (bad) fail("missed-failure", "a read succeeded although the stream below failed");
            if (!throwing && ec != sentinel_ec()) fail("ec-touched", "a successful read changed the error code");
            if (n > size || n > avail) fail("bad-count", "read of %zu bytes with %zu available reported %zu", size, avail, n);
            if (some ? (n == 0 && size > 0 && avail > 0) : n != std::min(size, avail))
                fail("short-read", "read of %zu bytes with %zu available reported %zu", size, avail, n);
        }
        else if (oom || throwing) {
            // How much was consumed is not told. Only some forms may consume.
            if (!bad && !oom) fail("spurious-failure", "a read failed although nothing below failed");
            if (rewindable && !released) { rsrc->rewind(); pos = 0; trace("rewind after failure"); }
            else break;
            n = 0;
        }
        else {
            if (!bad) fail("spurious-failure", "a read failed although nothing below failed");
            if (!same_error(ec, kind == 0 ? EIO : fs::last_error)) fail("wrong-error", "read failed with %s", ec.message().c_str());
            if (some) n = 0;
            else if (n >= size && size > 0) fail("bad-count", "a failed read of %zu bytes reported %zu", size, n);
            else sim::count("probe.partial_read_then_failure", n > 0);
        }
        if (n > 0 && std::memcmp(buf.data(), data.data() + pos, n) != 0)
            fail("wrong-data", "read at %zu delivered %s, expected %s", pos, sim::quote(buf.substr(0, n)).c_str(), sim::quote(data.substr(pos, n)).c_str());
        pos += n;
        max_pos = std::max(max_pos, pos);
        sim::state(sim::mix(pos * 1000 + max_pos, data.size() * 2 + released));
    }
    while (++steps < 60 && sim::more(20));
}

void c05_write(bool faults)
{
    fs::put("/sim/a", "");
    File file(std::filesystem::path("/sim/a"), File::Mode::write);
    std::vector<char> bbuf(sim::range(1, 30));
    std::optional<core::FileSink> fsnk;
    std::optional<core::BufferedFileSink> bsnk;
    bool buffered = choose(3) != 0;
    core::Sink* sink;
    if (buffered) { bsnk.emplace(file, core::Span<char>(bbuf.data(), bbuf.size())); sink = &*bsnk; }
    else { fsnk.emplace(file); sink = &*fsnk; }
    fs::config.short_io = choose(3) ? 2 + choose(3) : 0;
    fs::config.eintr = choose(3) ? 3 + choose(5) : 0;
    if (faults) fs::config.io_error = 2 + choose(8);
    std::string accepted;
    trace("sink buffered=%d size=%zu", buffered, bbuf.size());
    int steps = 0;
    bool lost = false;
    do {
        if (buffered && choose(4) == 1) {
            std::error_code ec = sentinel_ec();
            bool ok;
            Op op;
            trace("flush");
            ok = bsnk->try_flush(ec); // The throwing form is declared, but defined nowhere
            trace("  %s", ok ? "ok" : "failed");
            if (ok) {
                check_success_ec(op, ec, "flush");
                if (fs::get("/sim/a") != accepted)
                    fail("content-mismatch", "after a successful flush the file holds %s, but %s was written", sim::quote(fs::get("/sim/a"), 200).c_str(), sim::quote(accepted, 200).c_str());
            }
            else { check_fail_ec(op, ec, "flush"); sim::count("probe.flush_failed"); }
        }
        else {
            std::string data = gen_bytes(choose(6) == 0 ? 0 : sim::range(1, 50));
            std::size_t off = 0;
            bool throwing = choose(4) == 1;
            // Write, and retry from the reported position
            for (int attempt = 0; attempt < 20; ++attempt) {
                std::string rest = data.substr(off);
                std::error_code ec = sentinel_ec();
                std::size_t n = 777;
                bool ok;
                Op op;
                trace("write %zu", rest.size());
                if (throwing) { try { sink->write(rest); ok = true; n = rest.size(); } catch (std::system_error& e) { ok = false; ec = e.code(); } }
                else ok = sink->try_write(rest, n, ec);
                trace("  %s n=%zu", ok ? "ok" : "failed", n);
                if (ok) {
                    check_success_ec(op, throwing ? sentinel_ec() : ec, "write");
                    if (n != rest.size()) fail("bad-count", "a successful write of %zu bytes reported %zu", rest.size(), n);
                    accepted += rest;
                    break;
                }
                check_fail_ec(op, ec, "write");
                if (throwing) { lost = true; break; }
                if (n > rest.size() || (n == rest.size() && n > 0)) fail("bad-count", "a failed write of %zu bytes reported %zu", rest.size(), n);
                accepted += rest.substr(0, n);
                off += n;
                sim::count("probe.write_retried");
                if (choose(4) == 1) break; // give up on this one
            }
            if (lost) break;
        }
        std::string now = fs::get("/sim/a");
        if (accepted.compare(0, now.size(), now) != 0)
            fail("content-mismatch", "the file holds %s, which is not a prefix of what was written (%s)", sim::quote(now, 200).c_str(), sim::quote(accepted, 200).c_str());
        if (!buffered && now != accepted)
            fail("content-mismatch", "unbuffered sink: the file holds %zu bytes, %zu were reported as written", now.size(), accepted.size());
        sim::state(sim::mix(now.size(), accepted.size()));
    }
    while (++steps < 60 && sim::more(15));
    if (!lost && buffered) {
        // Once faults stop, a flush delivers everything
        fs::config.io_error = 0;
        std::error_code ec;
        if (!bsnk->try_flush(ec)) fail("spurious-failure", "flush failed without a fault");
        if (fs::get("/sim/a") != accepted)
            fail("content-mismatch", "after the final flush the file holds %s, but %s was written", sim::quote(fs::get("/sim/a"), 200).c_str(), sim::quote(accepted, 200).c_str());
    }
}

} // namespace

sim::Info info5("C05", "A run builds a stack of sources (file, buffered file, hostile in-memory source, optionally rewindable) or a sink over a simulated file, and performs a random "
    "history of reads of all sizes, rewinds, releases, or writes, flushes and retries; data and counts are compared with the stream contents.",
    { "archon/core/source.cpp", "archon/core/sink.hpp", "archon/core/file_source.cpp", "archon/core/file_sink.cpp", "archon/core/rewindable_source.cpp", "archon/core/file.cpp" },
    { "kernel file system (sim/posix.cpp)", "in-memory source with seeded chunking and failures" });
SIM_SCENARIO("C05", "read", 1, sim::f_leakcheck) { c05_read(false); }
SIM_SCENARIO("C05", "read-failures", 2, sim::f_leakcheck | sim::f_faults) { c05_read(true); }
SIM_SCENARIO("C05", "write", 1, sim::f_leakcheck) { c05_write(false); }
SIM_SCENARIO("C05", "write-failures", 2, sim::f_leakcheck | sim::f_faults) { c05_write(true); }
