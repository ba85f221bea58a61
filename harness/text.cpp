// C06 text written, C07 text read, C08 text file positions and mode switches
#include <cerrno>
#include <cstring>
#include <cwchar>
#include <filesystem>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <system_error>
#include <vector>

#include <archon/core/assert.hpp>
#include <archon/core/buffer.hpp>
#include <archon/core/file.hpp>
#include <archon/core/text_file.hpp>
#include <archon/core/text_file_error.hpp>
#include <archon/core/text_file_stream.hpp>
#include <archon/core/buffered_text_file.hpp>

#include "sim.hpp"
#include "encodings.hpp"

using namespace archon;
using core::File;
namespace fs = sim::fs;
using sim::u64;
using sim::choose;
using sim::trace;
using sim::fail;

namespace {

std::error_code sentinel_ec() { return std::make_error_code(std::errc::protocol_error); }

bool same_error(const std::error_code& ec, int e)
{
    return ec == std::error_code(e, std::system_category()) || ec == std::error_code(e, std::generic_category());
}

// ---------------------------------------------------------------- the files

struct FilePos { std::streamoff off; std::mbstate_t state; };

struct Settings {
    bool dynamic_eof = false, disable_autounshift = false;
    std::size_t newline_buf = 4096, char_buf = 4096, buf = 4096;
};

template<class C> struct TextIO {
    bool is_stream = false, is_buffered = false;
    virtual ~TextIO() {}
    virtual bool open(const char* path, File::Mode, std::error_code&) = 0;
    virtual void close() = 0;
    virtual bool is_open() = 0;
    virtual bool read(C* p, std::size_t k, std::size_t& n, std::error_code&) = 0;
    virtual bool read_some(C* p, std::size_t k, std::size_t& n, std::error_code&) = 0;
    virtual bool read_all(std::basic_string<C>&, std::error_code&) = 0;
    virtual bool read_line(std::basic_string<C>&, bool& found, std::error_code&) = 0;
    virtual bool write(const C* p, std::size_t k, std::size_t& n, std::error_code&) = 0;
    virtual bool unshift(std::error_code&) = 0;
    virtual bool flush(std::error_code&) = 0;
    virtual bool tell(FilePos&, std::error_code&) = 0;
    virtual bool seek(FilePos, std::error_code&) = 0;
};

template<class P> P make_pos(FilePos p) { P q(p.off); q.state(p.state); return q; }

template<class F> struct FileIO : TextIO<typename F::char_type> {
    using C = typename F::char_type;
    using I = typename F::impl_type;
    std::vector<char> mem;
    F file;
    static typename F::Config conf(const Settings& s)
    {
        typename F::Config c;
        c.dynamic_eof = s.dynamic_eof;
        c.disable_autounshift = s.disable_autounshift;
        if constexpr (I::is_buffered) {
            c.impl.buffer_size = s.buf;
            c.impl.subimpl.newline_codec_buffer_size = s.newline_buf;
            c.impl.subimpl.char_codec_buffer_size = s.char_buf;
        }
        else {
            c.impl.newline_codec_buffer_size = s.newline_buf;
            c.impl.char_codec_buffer_size = s.char_buf;
        }
        return c;
    }
    FileIO(const std::locale& loc, const Settings& s) : file(loc, conf(s)) { this->is_buffered = I::is_buffered; }
    bool open(const char* path, File::Mode m, std::error_code& ec) override { return file.try_open(std::filesystem::path(path), m, ec); }
    void close() override { file.close(); }
    bool is_open() override { return file.is_open(); }
    bool read(C* p, std::size_t k, std::size_t& n, std::error_code& ec) override { return file.try_read({ p, k }, n, ec); }
    bool read_some(C* p, std::size_t k, std::size_t& n, std::error_code& ec) override { return file.try_read_some({ p, k }, n, ec); }
    bool read_all(std::basic_string<C>& s, std::error_code& ec) override
    {
        core::Buffer<C> buffer;
        std::size_t offset = 0;
        bool r = file.try_read_all(buffer, offset, ec);
        s.assign(buffer.data(), offset);
        return r;
    }
    bool read_line(std::basic_string<C>& s, bool& found, std::error_code& ec) override
    {
        if constexpr (I::is_buffered) {
            core::Buffer<C> buffer;
            std::basic_string_view<C> line;
            bool r = file.try_read_line(buffer, line, found, ec);
            if (r && found) s.assign(line);
            return r;
        }
        return false;
    }
    bool write(const C* p, std::size_t k, std::size_t& n, std::error_code& ec) override { return file.try_write(std::basic_string_view<C>(p, k), n, ec); }
    bool unshift(std::error_code& ec) override { return file.try_unshift(ec); }
    bool flush(std::error_code& ec) override { return file.try_flush(ec); }
    bool tell(FilePos& p, std::error_code& ec) override
    {
        typename F::pos_type q = {};
        if (!file.try_tell(q, ec)) return false;
        p.off = std::streamoff(q);
        p.state = q.state();
        return true;
    }
    bool seek(FilePos p, std::error_code& ec) override { return file.try_seek(make_pos<typename F::pos_type>(p), ec); }
};

template<class I> struct StreamIO : TextIO<typename I::char_type> {
    using C = typename I::char_type;
    using Stream = core::GenericTextFileStream<I>;
    File file;
    std::optional<Stream> stream;
    std::locale loc;
    Settings set;
    StreamIO(const std::locale& l, const Settings& s) : loc(l), set(s) { this->is_stream = true; this->is_buffered = true; }
    ~StreamIO() { stream.reset(); }
    bool open(const char* path, File::Mode m, std::error_code& ec) override
    {
        File f;
        if (!f.try_open(std::filesystem::path(path), m, ec)) return false;
        stream.reset();
        file = std::move(f);
        typename Stream::Config c;
        c.disable_autounshift = set.disable_autounshift;
        c.buffer_size = set.buf;
        c.impl.newline_codec_buffer_size = set.newline_buf;
        c.impl.char_codec_buffer_size = set.char_buf;
        stream.emplace(&file, std::move(c));
        stream->imbue(loc);
        return true;
    }
    void close() override { stream.reset(); file.close(); }
    bool is_open() override { return file.is_open(); }
    auto* buf() { return stream->rdbuf(); }
    bool read(C* p, std::size_t k, std::size_t& n, std::error_code&) override
    {
        if (k > 0 && choose(3) == 1) static_cast<void>(buf()->sgetc()); // Peek
        n = std::size_t(buf()->sgetn(p, std::streamsize(k)));
        return n == k;
    }
    bool read_some(C* p, std::size_t k, std::size_t& n, std::error_code&) override
    {
        // One character at a time
        using T = std::char_traits<C>;
        n = 0;
        while (n < k) {
            auto c = buf()->sbumpc();
            if (T::eq_int_type(c, T::eof())) return false;
            p[n++] = T::to_char_type(c);
            if (n < k && choose(3) == 1) {
                auto d = buf()->sgetc();
                if (!T::eq_int_type(d, T::eof())) {
                    auto e = buf()->sbumpc();
                    if (!T::eq_int_type(d, e)) fail("text-read", "sgetc() gave %d, and then sbumpc() gave %d", int(d), int(e));
                    p[n++] = T::to_char_type(e);
                }
                else return false;
            }
        }
        return true;
    }
    bool read_all(std::basic_string<C>&, std::error_code&) override { return false; }
    bool read_line(std::basic_string<C>& s, bool& found, std::error_code&) override
    {
        stream->clear();
        found = bool(std::getline(*stream, s, C('\n')));
        return found;
    }
    bool write(const C* p, std::size_t k, std::size_t& n, std::error_code&) override
    {
        using T = std::char_traits<C>;
        if (choose(3) == 1) {
            for (n = 0; n < k; ++n)
                if (T::eq_int_type(buf()->sputc(p[n]), T::eof())) return false;
            return true;
        }
        n = std::size_t(buf()->sputn(p, std::streamsize(k)));
        return n == k;
    }
    bool unshift(std::error_code&) override { stream->clear(); stream->unshift(); return bool(*stream); }
    bool flush(std::error_code&) override { return buf()->pubsync() == 0; }
    bool tell(FilePos& p, std::error_code&) override
    {
        auto q = buf()->pubseekoff(0, std::ios_base::cur, choose(2) ? std::ios_base::in : std::ios_base::out);
        if (std::streamoff(q) == -1) return false;
        p.off = std::streamoff(q);
        p.state = q.state();
        return true;
    }
    bool seek(FilePos p, std::error_code&) override
    {
        using Q = typename std::char_traits<C>::pos_type;
        Q q = buf()->pubseekpos(make_pos<Q>(p), choose(2) ? std::ios_base::in : std::ios_base::out);
        return std::streamoff(q) != -1;
    }
};

template<class C> std::unique_ptr<TextIO<C>> make_io(int api, bool win, const std::locale& loc, const Settings& s)
{
    switch (api) {
        case 0:
            if (win) return std::make_unique<FileIO<core::BasicWindowsTextFile<C>>>(loc, s);
            return std::make_unique<FileIO<core::BasicPosixTextFile<C>>>(loc, s);
        case 1:
            if (win) return std::make_unique<FileIO<core::BasicBufferedWindowsTextFile<C>>>(loc, s);
            return std::make_unique<FileIO<core::BasicBufferedPosixTextFile<C>>>(loc, s);
        default:
            if (win) return std::make_unique<StreamIO<core::WindowsTextFileImpl<C>>>(loc, s);
            return std::make_unique<StreamIO<core::PosixTextFileImpl<C>>>(loc, s);
    }
}

// ---------------------------------------------------------------- the model

struct Op {
    u64 err0 = fs::n_errors;
    u64 errors() const { return fs::n_errors - err0; }
    bool failed() const { return errors() != 0; }
};

struct Cand {
    long wpos;
    int st;
    std::string pending;
    long kmin = 0;
};

enum Profile { p_write, p_read, p_mixed };
const char* const paths[] = { "/sim/a", "/sim/b" };

template<class C> struct Driver {
    Profile profile;
    Ref ref;
    Settings set;
    bool faults;
    bool autounshift;
    std::unique_ptr<TextIO<C>> io;

    // Model of the current file
    u64 opened = 0;
    bool open = false, can_write = false, append = false;
    int path = 0;
    enum { neutral, reading, writing } mode = neutral;
    Pos pos;                    // neutral, reading
    std::string base;           // contents when writing started, or current contents
    std::vector<Cand> cands;    // writing
    bool poisoned = false;      // an unencodable character has been accepted
    std::map<int, std::string> snapshot; // contents of files that are not open
    struct Saved { FilePos fp; Pos pos; };
    std::vector<Saved> saved;

    std::string disk() const { return fs::get(paths[path]); }

    long gen_char()
    {
        switch (ref.kind) {
            case k_bytes: {
                static const unsigned char t[] = { 'a', 'b', 'c', '\n', '\r', 0xE4, 0xB8, 0xFF, 0, 'x' };
                return t[choose(10)];
            }
            case k_utf8: {
                static const long t[] = { 'a', 'b', 0xE9, 0x4E2D, 0x1F600, '\n', '\r', 0x7FF, 0x800, 'x' };
                return t[choose(10)];
            }
            case k_shift: {
                static const long t[] = { 'a', 'B', 'c', 'D', '7', '\n', '\r', 'Z', 'z', '0' };
                return t[choose(10)];
            }
        }
        return 'a';
    }
    std::vector<long> gen_text(std::size_t n)
    {
        std::vector<long> v(n);
        for (auto& c : v) c = gen_char();
        return v;
    }
    std::string gen_contents(bool bad)
    {
        std::string s;
        int st = 0;
        std::size_t n = choose(8) == 1 ? sim::range(20, 400) : sim::range(0, 24);
        for (std::size_t i = 0; i < n; ++i) {
            long c = gen_char();
            ref.encode(s, st, c);
            if (bad && choose(20) == 1) {
                if (ref.kind == k_utf8) s += "\xFF";
                if (ref.kind == k_shift) s += "\x7F";
            }
            if (ref.kind == k_shift && choose(15) == 1) { st = !st; s += st ? '\x0E' : '\x0F'; }
            if (choose(16) == 1) s += '\r';
            if (ref.win && choose(16) == 1) s += '\n';
        }
        if (bad && !s.empty() && choose(3) == 1) s.pop_back();
        if (ref.kind == k_shift && st && choose(2)) s += '\x0F';
        return s;
    }

    // ---- checks on the disk

    static bool overlay_ok(const std::string& disk, const std::string& base, Cand& c)
    {
        std::size_t w = std::size_t(c.wpos), p = c.pending.size();
        std::size_t m = 0;
        while (m < p && w + m < disk.size() && disk[w + m] == c.pending[m]) ++m;
        // Smallest k such that everything at and after w + k is as in `base`
        if (w > base.size()) {
            // writing past the end
            std::size_t k = disk.size() > w ? disk.size() - w : 0;
            if (disk.size() <= base.size()) return disk == base && c.kmin <= 0;
            if (k == 0 || k > m || long(k) < c.kmin) return false;
            if (disk.compare(0, base.size(), base) != 0) return false;
            for (std::size_t i = base.size(); i < w; ++i) if (disk[i] != 0) return false;
            c.kmin = long(k);
            return true;
        }
        if (disk.size() < base.size()) return false;
        if (disk.compare(0, w, base, 0, w) != 0) return false;
        std::size_t s;
        if (disk.size() > base.size()) {
            s = disk.size() - w; // exact
            if (s > m) return false;
            c.kmin = std::max(c.kmin, long(s));
            return true;
        }
        s = disk.size() - w;
        while (s > 0 && disk[w + s - 1] == base[w + s - 1]) --s;
        if (s > m || long(m) < c.kmin) return false;
        c.kmin = std::max(c.kmin, long(s));
        return true;
    }
    static std::string overlay(const std::string& base, const Cand& c)
    {
        if (c.pending.empty()) return base;
        std::string s = base;
        if (s.size() < std::size_t(c.wpos)) s.resize(std::size_t(c.wpos), '\0');
        std::size_t n = std::min(c.pending.size(), s.size() - std::size_t(c.wpos));
        s.replace(std::size_t(c.wpos), n, c.pending);
        return s;
    }
    void check_disk(const char* what)
    {
        for (auto& [p, s] : snapshot)
            if (!(open && p == path) && fs::exists(paths[p]) && fs::get(paths[p]) != s)
                fail("other-file", "%s changed %s, which is not the file that is open, from %s to %s", what, paths[p], show(s).c_str(), show(fs::get(paths[p])).c_str());
        if (!open) return;
        std::string d = disk();
        if (mode != writing) {
            if (d != base)
                fail("file-altered", "%s changed the contents of the file from %s to %s although nothing was written", what, show(base).c_str(), show(d).c_str());
            return;
        }
        std::vector<Cand> keep;
        for (auto& c : cands)
            if (overlay_ok(d, base, c)) keep.push_back(c);
        if (keep.empty())
            fail("stored-text", "after %s, the file holds %s; %s was written at offset %ld of %s", what, show(d).c_str(), show(cands[0].pending).c_str(), cands[0].wpos, show(base).c_str());
        cands = std::move(keep);
    }
    // All that was written is known to be in the file
    bool finalize(const char* what)
    {
        if (mode != writing) return false;
        if (autounshift) maybe_unshift();
        check_disk(what);
        std::string d = disk();
        std::vector<Cand> keep;
        for (auto c : cands) {
            if (autounshift && ref.kind == k_shift && c.st) { c.pending += '\x0F'; c.st = 0; }
            if (overlay(base, c) == d) keep.push_back(c);
        }
        if (keep.empty())
            fail("lost-text", "after a successful %s, the file holds %s, but %s was written at offset %ld of %s", what, show(d).c_str(), show(cands[0].pending).c_str(), cands[0].wpos, show(base).c_str());
        bool ambiguous = false;
        for (auto& c : keep)
            if (c.wpos + long(c.pending.size()) != keep[0].wpos + long(keep[0].pending.size()) || c.st != keep[0].st) ambiguous = true;
        if (!append || !keep[0].pending.empty())
            pos = { keep[0].wpos + long(keep[0].pending.size()), keep[0].st };
        base = d;
        mode = neutral;
        if (ambiguous) resync();
        return ambiguous;
    }
    void resync()
    {
        // The shift sequences allow for more than one position: choose one
        FilePos fp{ 0, std::mbstate_t() };
        for (int i = 0;; ++i) {
            std::error_code ec;
            heal_temporarily h;
            if (io->seek(fp, ec)) break;
            if (i == 3) fail("spurious-failure", "seeking failed without a fault");
        }
        pos = {};
        mode = neutral;
    }
    struct heal_temporarily {
        fs::Config saved = fs::config;
        heal_temporarily() { fs::config.io_error = 0; fs::config.seek_error = 0; fs::config.disk_capacity = ~0ULL; }
        ~heal_temporarily() { fs::config = saved; }
    };
    void enter_writing()
    {
        if (mode == writing) return;
        cands.clear();
        if (append) cands.push_back({ long(base.size()), pos.st, "" });
        else for (Pos p : ref.equivalents(base, pos)) cands.push_back({ p.off, p.st, "" });
        if (append && ref.kind == k_shift)
            for (Pos p : ref.equivalents(base, pos)) if (p.st != cands[0].st) { cands.push_back({ long(base.size()), p.st, "" }); break; }
        mode = writing;
    }
    // The file may or may not have left the reading mode in an attempt to write that failed. It
    // matters only because of the shift sequence that may then have to be written.
    void settle()
    {
        if (mode == writing || ref.kind != k_shift) return;
        {
            heal_temporarily h;
            std::error_code ec;
            if (!io->flush(ec)) fail("spurious-failure", "flush failed without a fault: %s", ec.message().c_str());
        }
        std::string d = disk();
        if (d != base) {
            enter_writing();
            bool match = false;
            for (auto c : cands) if (c.st) { c.pending = '\x0F'; if (overlay(base, c) == d) match = true; }
            if (!match) fail("lost-text", "after a failed attempt to write, and a successful flush, the file holds %s, but held %s", show(d).c_str(), show(base).c_str());
            base = d;
        }
        resync();
    }
    void maybe_unshift()
    {
        // An attempt was made, which may or may not have gotten to the point of unshifting
        if (ref.kind != k_shift) return;
        std::vector<Cand> more;
        for (auto& c : cands) {
            if (!c.st) continue;
            Cand d = c;
            d.pending += '\x0F';
            d.st = 0;
            more.push_back(d);
        }
        for (auto& c : more) {
            bool dup = false;
            for (auto& d : cands)
                if (d.wpos == c.wpos && d.st == c.st && d.pending == c.pending) { dup = true; d.kmin = std::min(d.kmin, c.kmin); }
            if (!dup) cands.push_back(c);
        }
    }

    // ---- results

    void check_result(const Op& op, bool ok, const std::error_code& ec, const char* what, bool may_fail_codec = false)
    {
        if (op.failed() && fs::last_error == EBADF)
            fail("write-attempt", "%s tried to write to a file that is open for reading only, although nothing was written", what);
        if (ok) {
            if (op.failed() && !io->is_stream)
                fail("missed-failure", "%s succeeded although a system call failed with errno %d", what, fs::last_error);
            if (!io->is_stream && ec != sentinel_ec())
                fail("ec-touched", "%s succeeded but changed the error code", what);
            return;
        }
        sim::count("probe.operation_failed");
        if (io->is_stream) {
            if (!op.failed() && !may_fail_codec) fail("spurious-failure", "%s failed although no system call failed", what);
            return;
        }
        if (may_fail_codec && ec.category() == core::make_error_code(core::TextFileError::invalid_byte_seq).category()) return;
        if (!op.failed())
            fail("spurious-failure", "%s failed (%s) although no system call failed", what, ec.message().c_str());
        if (op.errors() == 1 && !same_error(ec, fs::last_error))
            fail("wrong-error", "%s reported error %s:%d, but the system reported errno %d", what, ec.category().name(), ec.value(), fs::last_error);
    }

    // ---- operations

    void op_open(int p, File::Mode m)
    {
        std::error_code ec = sentinel_ec();
        static const char* const names[] = { "read", "update", "write", "append" };
        trace("open %s %s", paths[p], names[int(m)]);
        bool existed = fs::exists(paths[p]);
        bool ok;
        // The old file keeps what reached it
        std::string old = open ? disk() : "";
        Op op;
        ok = io->open(paths[p], m, ec);
        trace("  %s", ok ? "ok" : "failed");
        if (!ok) {
            if (!op.failed()) fail("spurious-failure", "open failed without a failing system call: %s", ec.message().c_str());
            if (m == File::Mode::write && fs::exists(paths[p]) && fs::get(paths[p]).empty()) {
                // May have been truncated or created before the failure
                if (open && p == path) { io->close(); open = false; }
                snapshot[p] = "";
            }
            else if (!existed && fs::exists(paths[p])) snapshot[p] = "";
            if (open && !io->is_open()) { open = false; snapshot[path] = old; }
            return;
        }
        if (open && p != path && disk() != old)
            fail("other-file", "opening another file changed %s from %s to %s", paths[path], show(old).c_str(), show(disk()).c_str());
        if (open && p == path && m != File::Mode::write && disk() != old)
            fail("other-file", "reopening the file changed it from %s to %s", show(old).c_str(), show(disk()).c_str());
        if (open) snapshot[path] = old;
        open = true;
        path = p;
        can_write = m != File::Mode::read;
        append = m == File::Mode::append;
        mode = neutral;
        pos = {};
        poisoned = false;
        saved.clear();
        ++opened;
        base = disk();
        if (m == File::Mode::write && !base.empty()) fail("file-altered", "opening for write did not truncate the file");
        snapshot[p] = base;
    }
    void op_close()
    {
        trace("close");
        io->close();
        check_disk("close");
        snapshot[path] = disk();
        open = false;
        if (io->is_open()) fail("still-open", "file is still open after close");
    }

    // Compare what was delivered. Returns false when the terminal condition was not EOF.
    void delivered(const std::vector<long>& got, std::size_t k, bool line, Ref::Res& why, std::size_t& avail)
    {
        // Reading implies that what was written was flushed
        Pos p = pos;
        std::vector<long> exp;
        why = Ref::ch;
        while (exp.size() < k) {
            long c = 0;
            Pos q = p;
            why = ref.next(base, q, c);
            if (why != Ref::ch) break;
            exp.push_back(c);
            p = q;
            if (line && c == '\n') break;
        }
        avail = exp.size();
        if (got.size() > exp.size() || !std::equal(got.begin(), got.end(), exp.begin()))
            fail("text-read", "%s was delivered at offset %ld of %s, but %s was there", show(got).c_str(), pos.off, show(base).c_str(), show(exp).c_str());
        for (std::size_t i = 0; i < got.size(); ++i) { long c; ref.next(base, pos, c); }
    }

    void op_read(int kind)
    {
        std::size_t k = choose(8) == 1 ? sim::range(20, 500) : choose(12) == 0 ? 0 : sim::range(1, 12);
        if (poisoned) return;
        bool was_writing = mode == writing;
        std::vector<long> got;
        std::error_code ec = sentinel_ec();
        bool ok;
        Op op;
        if (kind == 2 && io->is_stream) kind = 0;
        if (kind == 2) {
            trace("read_all");
            std::basic_string<C> s;
            ok = io->read_all(s, ec);
            for (C c : s) got.push_back(tolong(c));
            k = std::size_t(-1);
            trace("  %s n=%zu", ok ? "ok" : "failed", got.size());
        }
        else {
            trace("%s %zu", kind ? "read_some" : "read", k);
            std::vector<C> buf(k + 1, C('!'));
            std::size_t n = 777777;
            ok = kind ? io->read_some(buf.data(), k, n, ec) : io->read(buf.data(), k, n, ec);
            if (kind && !io->is_stream && !ok) n = 0;
            if (n > k) fail("bad-count", "a read of at most %zu characters reported %zu", k, n);
            for (std::size_t i = 0; i < n; ++i) got.push_back(tolong(buf[i]));
            if (buf[k] != C('!')) fail("overrun", "a read wrote past the end of the buffer");
            trace("  %s n=%zu", ok ? "ok" : "failed", n);
        }
        bool some = kind == 1 && !io->is_stream;
        if (io->is_stream && k == 0) { check_disk("a read of nothing"); return; } // Does nothing
        if (was_writing && !(io->is_stream && k == 0)) {
            if (ok || !got.empty() || (io->is_stream && k > 0 && !op.failed())) { if (finalize("flush that precedes a read")) return; }
            else {
                // Either the flush or the read failed
                if (autounshift) maybe_unshift();
                check_disk("a failed read");
                if (!op.failed()) {
                    // Reading failed for good
                    if (finalize("flush that precedes a read")) return;
                }
                else {
                    check_result(op, ok, ec, "read", true);
                    if (ref.kind == k_shift && can_write) {
                        // Shift sequences may have been consumed by a failed read
                        {
                            heal_temporarily h;
                            std::error_code ec2;
                            if (!io->flush(ec2)) fail("spurious-failure", "flush failed without a fault: %s", ec2.message().c_str());
                        }
                        finalize("flush");
                        mode = reading;
                    }
                    return;
                }
            }
        }
        mode = reading;
        Ref::Res why;
        std::size_t avail;
        delivered(got, k, false, why, avail);
        std::size_t n = got.size();
        if (some) {
            if (ok) {
                if (n == 0 && k > 0 && why != Ref::eof)
                    fail("false-eof", "end of file was reported with %ld of %zu bytes read", pos.off, base.size());
                if (n == 0 && k > 0 && avail > 0)
                    fail("false-eof", "end of file was reported with %zu characters left", avail);
            }
            else if (!op.failed()) {
                if (avail > 0) fail("text-read", "reading failed although %zu characters could be delivered", avail);
                if (why != Ref::bad) fail("spurious-failure", "reading failed (%s) although no system call failed", ec.message().c_str());
            }
            check_result(op, ok, ec, "read_some", why == Ref::bad && avail == 0);
        }
        else if (io->is_stream) {
            if (n < k && !op.failed() && n < avail)
                fail("text-read", "only %zu of %zu characters were delivered, and no system call failed", n, avail);
        }
        else {
            if (ok) {
                if (n != avail) fail("text-read", "only %zu of %zu characters were delivered by a successful read", n, avail);
                if (why == Ref::bad) fail("missed-failure", "reading succeeded across an invalid byte sequence at %ld of %s", pos.off, show(base).c_str());
            }
            else if (!op.failed()) {
                if (why != Ref::bad) fail("spurious-failure", "reading failed (%s) although no system call failed", ec.message().c_str());
                if (n != avail) fail("text-read", "only %zu of the %zu valid characters were delivered before the failure", n, avail);
                if (ec != core::TextFileError::invalid_byte_seq) fail("wrong-error", "invalid byte sequence was reported as %s", ec.message().c_str());
            }
            check_result(op, ok, ec, "read", why == Ref::bad);
        }
        check_disk("reading");
    }
    static long tolong(C c)
    {
        if constexpr (sizeof(C) == 1) return static_cast<unsigned char>(c);
        else return long(c);
    }

    void op_read_line()
    {
        if (poisoned || !io->is_buffered) return;
        bool was_writing = mode == writing;
        std::basic_string<C> s;
        bool found = false;
        std::error_code ec = sentinel_ec();
        Op op;
        trace("read_line");
        bool ok = io->read_line(s, found, ec);
        trace("  %s found=%d n=%zu", ok ? "ok" : "failed", int(found), s.size());
        if (io->is_stream ? op.failed() : !ok) {
            // What was extracted of the line may be lost. Find out where we are
            if (was_writing) {
                if (autounshift) maybe_unshift();
                check_disk("a failed read");
            }
            check_result(op, ok, ec, "read_line", true);
            bool codec = !op.failed();
            heal_temporarily h;
            if (was_writing) {
                // Complete the flush
                std::error_code ec2;
                if (!io->flush(ec2)) fail("spurious-failure", "flush failed without a fault: %s", ec2.message().c_str());
                if (mode_known_flushed()) finalize("flush");
                else return;
            }
            FilePos fp{};
            std::error_code ec2;
            if (!io->tell(fp, ec2)) fail("spurious-failure", "tell failed without a fault: %s", ec2.message().c_str());
            Pos p = pos, q = { long(fp.off), fp.state.__count };
            if (ref.kind != k_shift) q.st = 0;
            for (;;) {
                bool match = false;
                for (Pos e : ref.equivalents(base, p)) if (e == q) match = true;
                if (match) break;
                long c;
                if (ref.next(base, p, c) != Ref::ch || (c == '\n'))
                    if (!(c == '\n' && p == q))
                        fail("text-read", "after a failed attempt to read a line from offset %ld of %s, the position is %ld", pos.off, show(base).c_str(), q.off);
            }
            pos = q;
            mode = reading;
            (void)codec;
            sim::count("probe.failed_line");
            return;
        }
        if (was_writing && finalize("flush that precedes a read")) return;
        mode = reading;
        std::vector<long> got;
        for (C c : s) got.push_back(tolong(c));
        // The newline
        {
            Pos p = pos;
            long c = 0;
            std::vector<long> exp;
            Ref::Res why;
            while ((why = ref.next(base, p, c)) == Ref::ch && c != '\n') exp.push_back(c);
            bool nl = why == Ref::ch;
            if (io->is_stream && why == Ref::bad) {
                // Indistinguishable from end of file
                nl = false;
            }
            else if (why == Ref::bad)
                fail("missed-failure", "reading a line succeeded across an invalid byte sequence in %s", show(base).c_str());
            bool exp_found = nl || !exp.empty();
            if (found != exp_found)
                fail("false-eof", "reading a line at offset %ld of %s %s", pos.off, show(base).c_str(), found ? "found a line at the end" : "reported the end");
            if (found && got != exp)
                fail("text-read", "the line at offset %ld of %s was delivered as %s", pos.off, show(base).c_str(), show(got).c_str());
            for (std::size_t i = 0; i < exp.size() + nl; ++i) ref.next(base, pos, c);
        }
        if (io->is_stream) stream_clear();
        if (!io->is_stream) check_result(op, ok, ec, "read_line");
        check_disk("reading");
    }
    void stream_clear() {}
    bool mode_known_flushed()
    {
        return true;
    }

    void op_write_read_only()
    {
        std::vector<long> text = gen_text(sim::range(1, 12));
        std::basic_string<C> s;
        for (long c : text) s += C(c);
        std::error_code ec;
        std::size_t n = 0;
        bool ok = io->write(s.data(), s.size(), n, ec);
        trace("write %zu on a read-only file: %s", s.size(), ok ? "ok" : "failed");
        if (n > s.size()) fail("bad-count", "a write of %zu characters reported %zu", s.size(), n);
        if (io->flush(ec) && n > 0) fail("missed-failure", "flush of text written to a file that is open for reading only succeeded");
        check_disk("write on a file that is open for reading only");
        u64 before = opened;
        if (choose(2)) { op_open(int(choose(2)), File::Mode(choose(4))); if (open) check_disk("open"); }
        if (open && opened == before) op_close();
    }
    void op_write()
    {
        if (!can_write) return op_write_read_only();
        std::size_t k = choose(8) == 1 ? sim::range(20, 300) : choose(12) == 0 ? 0 : sim::range(1, 12);
        std::vector<long> text = gen_text(k);
        bool unenc = false;
        if (ref.kind != k_bytes && k > 0 && profile != p_read && choose(40) == 1) {
            text[choose(k)] = ref.kind == k_utf8 ? 0xD800 : '#';
            unenc = true;
        }
        std::size_t off = 0;
        for (int attempt = 0; attempt < 20; ++attempt) {
            std::basic_string<C> s;
            for (std::size_t i = off; i < text.size(); ++i) s += C(text[i]);
            std::error_code ec = sentinel_ec();
            std::size_t n = 777777;
            bool was_reading = mode == reading;
            Op op;
            trace("write %zu %s", s.size(), sim::tracing() ? show(std::vector<long>(text.begin() + off, text.end())).c_str() : "");
            bool ok = io->write(s.data(), s.size(), n, ec);
            trace("  %s n=%zu", ok ? "ok" : "failed", n);
            (void)was_reading;
            if (n > s.size()) fail("bad-count", "%s write of %zu characters reported %zu", ok ? "a successful" : "a failed", s.size(), n);
            if (ok && n != s.size()) fail("bad-count", "a successful write of %zu characters reported %zu", s.size(), n);
            if (poisoned) { check_disk("write"); return; }
            if (ok || n > 0) {
                if (!(io->is_stream && s.empty())) enter_writing();
                for (std::size_t i = 0; i < n; ++i) {
                    bool enc = true;
                    for (auto& c : cands) enc = ref.encode(c.pending, c.st, text[off + i]);
                    if (!enc) {
                        if (!io->is_buffered) fail("bad-count", "a character that cannot be encoded was accepted");
                        poisoned = true;
                        sim::count("probe.unencodable");
                        break;
                    }
                }
            }
            if (ok || n > 0 || mode == writing) check_disk("write");
            bool at_bad = unenc && (poisoned || (off + n < text.size() && (text[off + n] == '#' || text[off + n] == 0xD800)));
            check_result(op, ok, ec, "write", at_bad);
            if (!ok && !op.failed() && !io->is_stream && ec != core::TextFileError::invalid_char)
                fail("wrong-error", "unencodable character was reported as %s", ec.message().c_str());
            if (ok || poisoned) return;
            if (n == 0) settle();
            off += n;
            if (at_bad && !op.failed()) { sim::count("probe.unencodable"); return; }
            sim::count("probe.write_retried");
            if (choose(4) == 1) return;
        }
    }
    void op_unshift()
    {
        if (!can_write || poisoned) return;
        std::error_code ec = sentinel_ec();
        Op op;
        trace("unshift");
        bool ok = io->unshift(ec);
        trace("  %s", ok ? "ok" : "failed");
        if (ok) {
            if (!(io->is_stream && ref.kind == k_bytes)) enter_writing();
            if (mode == writing && ref.kind == k_shift)
                for (auto& c : cands) if (c.st) { c.pending += '\x0F'; c.st = 0; }
        }
        else {
            if (mode == writing) maybe_unshift();
        }
        if (ok || mode == writing || ref.kind != k_shift) check_disk("unshift");
        check_result(op, ok, ec, "unshift");
        if (!ok) settle();
    }
    bool op_flush()
    {
        std::error_code ec = sentinel_ec();
        Op op;
        trace("flush");
        bool ok = io->flush(ec);
        trace("  %s", ok ? "ok" : "failed");
        if (mode == writing) {
            if (poisoned) {
                if (ok) fail("missed-failure", "flush succeeded although there is a character that cannot be encoded");
                check_disk("flush");
                if (!op.failed()) {
                    if (!io->is_stream && ec != core::TextFileError::invalid_char) fail("wrong-error", "unencodable character was reported as %s", ec.message().c_str());
                    std::string d = disk();
                    bool match = false;
                    for (auto& c : cands) if (overlay(base, c) == d) match = true;
                    if (!match) fail("lost-text", "after a flush that failed due to a character that cannot be encoded, the file holds %s, but %s was written before that character", show(d).c_str(), show(cands[0].pending).c_str());
                }
                return false;
            }
            if (ok) finalize("flush");
            else {
                if (autounshift) maybe_unshift();
                check_disk("a failed flush");
                sim::count("probe.flush_failed");
            }
        }
        else {
            if (ok) mode = io->is_stream ? neutral : mode;
            check_disk("flush");
        }
        check_result(op, ok, ec, "flush");
        return ok;
    }
    void op_tell()
    {
        if (poisoned) return;
        FilePos fp{};
        std::error_code ec = sentinel_ec();
        Op op;
        trace("tell");
        bool ok = io->tell(fp, ec);
        Pos p{ long(fp.off), ref.kind == k_shift ? fp.state.__count : 0 };
        trace("  %s %ld/%d", ok ? "ok" : "failed", ok ? p.off : -1, p.st);
        check_disk("tell");
        check_result(op, ok, ec, "tell");
        if (!ok) return;
        if (mode == writing) {
            if (append) return;
            std::vector<Cand> keep;
            for (auto& c : cands) if (c.wpos + long(c.pending.size()) == p.off && c.st == p.st) keep.push_back(c);
            if (keep.empty())
                fail("wrong-position", "the reported position is %ld/%d, but %zu bytes were written from offset %ld", p.off, p.st, cands[0].pending.size(), cands[0].wpos);
            cands = std::move(keep);
        }
        else {
            bool match = false;
            for (Pos e : ref.equivalents(base, pos)) if (e == p) match = true;
            if (!match)
                fail("wrong-position", "the reported position is %ld/%d, but it is %ld/%d in %s", p.off, p.st, pos.off, pos.st, show(base).c_str());
            pos = p;
        }
        if (saved.size() < 6) saved.push_back({ fp, p });
        else saved[choose(6)] = { fp, p };
    }
    void op_seek()
    {
        if (poisoned) return;
        FilePos fp{ 0, std::mbstate_t() };
        Pos p;
        if (!saved.empty() && choose(4)) {
            auto& s = saved[choose(saved.size())];
            fp = s.fp;
            p = s.pos;
        }
        std::error_code ec = sentinel_ec();
        Op op;
        trace("seek %ld/%d", p.off, p.st);
        bool ok = io->seek(fp, ec);
        trace("  %s", ok ? "ok" : "failed");
        if (mode == writing) {
            if (ok) finalize_no_resync("flush that precedes a seek");
            else {
                if (autounshift) maybe_unshift();
                check_disk("a failed seek");
            }
        }
        if (ok) { mode = neutral; pos = p; }
        check_disk("seek");
        check_result(op, ok, ec, "seek");
    }
    void finalize_no_resync(const char* what)
    {
        if (autounshift) maybe_unshift();
        check_disk(what);
        std::string d = disk();
        bool match = false;
        for (auto c : cands) {
            if (autounshift && ref.kind == k_shift && c.st) { c.pending += '\x0F'; c.st = 0; }
            if (overlay(base, c) == d) match = true;
        }
        if (!match)
            fail("lost-text", "after a successful %s, the file holds %s, but %s was written at offset %ld of %s", what, show(d).c_str(), show(cands[0].pending).c_str(), cands[0].wpos, show(base).c_str());
        base = d;
        mode = neutral;
    }
    void op_external()
    {
        // Another process appends to the file
        if (!ref.dyn || mode == writing || poisoned) return;
        std::vector<long> text = gen_text(sim::range(1, 6));
        std::string s;
        int st = 0;
        for (long c : text) ref.encode(s, st, c);
        if (ref.kind == k_shift && st) s += '\x0F';
        // Possibly complete what was incomplete
        if (!rest.empty()) { s = rest + s; rest.clear(); }
        if (choose(3) == 1 && s.size() > 1) { rest = s.substr(s.size() - 1); s.pop_back(); }
        std::string d = disk() + s;
        trace("external append %s", show(s).c_str());
        fs::put(paths[path], d);
        base = d;
        snapshot[path] = d;
        sim::count("probe.external_append");
    }
    std::string rest;

    void random_faults()
    {
        fs::config.short_io = choose(3) ? 2 + choose(4) : 0;
        fs::config.eintr = choose(3) ? 3 + choose(8) : 0;
        if (faults) {
            fs::config.io_error = choose(3) ? 4 + choose(14) : 0;
            fs::config.seek_error = choose(3) ? 5 + choose(10) : 0;
            fs::config.open_error = choose(3) ? 4 + choose(8) : 0;
            if (choose(4) == 1) fs::config.disk_capacity = choose(200);
        }
    }

    void run()
    {
        auto bs = [] { return std::size_t(choose(4) == 0 ? 4096 : choose(3) == 0 ? sim::range(8, 40) : choose(9)); };
        set.buf = bs();
        set.char_buf = bs();
        set.newline_buf = bs();
        set.disable_autounshift = choose(4) == 1;
        int api = int(choose(3));
        set.dynamic_eof = api != 2 && profile == p_read && choose(3) == 1;
        ref.dyn = set.dynamic_eof;
        ref.win = choose(2);
        autounshift = !set.disable_autounshift;
        trace("api=%d windows=%d encoding=%d dynamic_eof=%d autounshift=%d buffers %zu %zu %zu", api, ref.win, ref.kind, ref.dyn, int(autounshift), set.buf, set.char_buf, set.newline_buf);
        for (int i = 0; i < 2; ++i) {
            std::string s = gen_contents(profile == p_read && choose(3) == 1);
            trace("file %s holds %s", paths[i], show(s).c_str());
            fs::put(paths[i], s);
            snapshot[i] = s;
        }
        io = make_io<C>(api, ref.win, locale_of(ref.kind), set);
        if (profile == p_read) op_open(0, choose(4) == 1 ? File::Mode::update : File::Mode::read);
        else if (profile == p_write) op_open(0, choose(3) == 1 ? File::Mode::append : choose(2) ? File::Mode::update : File::Mode::write);
        else op_open(0, File::Mode(choose(4)));
        random_faults();
        if (!open) return;
        int steps = 0;
        do {
            if (!open) {
                op_open(int(choose(2)), File::Mode(choose(4)));
                check_disk("open");
                continue;
            }
            switch (profile) {
                case p_write:
                    switch (choose(10)) {
                        default: op_write(); break;
                        case 6: op_unshift(); break;
                        case 7: case 8: op_flush(); break;
                        case 9: op_tell(); break;
                    }
                    break;
                case p_read:
                    switch (choose(10)) {
                        default: op_read(0); break;
                        case 3: case 4: op_read(1); break;
                        case 5: op_read(2); break;
                        case 6: case 7: op_read_line(); break;
                        case 8: op_tell(); break;
                        case 9: op_external(); break;
                    }
                    break;
                case p_mixed:
                    switch (choose(16)) {
                        default: op_read(0); break;
                        case 2: op_read(1); break;
                        case 3: op_read_line(); break;
                        case 4: case 5: case 6: op_write(); break;
                        case 7: op_flush(); break;
                        case 8: case 9: op_tell(); break;
                        case 10: case 11: op_seek(); break;
                        case 12: op_unshift(); break;
                        case 13: if (choose(3) == 1) op_close(); break;
                        case 14: if (choose(3) == 1) { op_open(int(choose(2)), File::Mode(choose(4))); check_disk("open"); } break;
                        case 15: op_read(2); break;
                    }
                    break;
            }
            sim::state(sim::mix(sim::mix(u64(mode), u64(pos.off)), sim::mix(base.size(), mode == writing ? cands[0].pending.size() : 0)));
        }
        while (++steps < 80 && sim::more(profile == p_mixed ? 20 : 14));
        // Faults stop
        fs::config.io_error = 0;
        fs::config.seek_error = 0;
        fs::config.open_error = 0;
        fs::config.disk_capacity = ~0ULL;
        if (!open) return;
        if (mode == writing && can_write) {
            trace("faults stop");
            op_flush();
            if (profile == p_mixed && !poisoned) { op_tell(); op_read(0); op_seek(); op_read(2); }
        }
        else if (mode != writing && !poisoned) {
            trace("faults stop");
            // Drain
            op_tell();
            op_read(0);
            op_read(2);
        }
        if (choose(2)) op_close();
        io.reset();
        check_disk("destruction");
        if (open) snapshot[path] = disk();
        open = false;
        check_disk("destruction");
    }
};

template<class C> void run_driver(Profile p, Kind k, bool faults)
{
    Driver<C> d{};
    d.profile = p;
    d.ref = { k, false, false };
    d.faults = faults;
    d.run();
}
void run_text(Profile p, bool faults)
{
    switch (choose(3)) {
        case 0: run_driver<char>(p, k_bytes, faults); break;
        case 1: run_driver<wchar_t>(p, k_utf8, faults); break;
        case 2: run_driver<wchar_t>(p, k_shift, faults); break;
    }
}

// ---------------------------------------------------------------- whole files

template<class F, class C> void save_once(Kind kind, bool win)
{
    Ref ref{ kind, win, false };
    Driver<C> d{};
    d.ref = ref;
    std::vector<long> text = d.gen_text(choose(3) == 1 ? sim::range(0, 9000) : sim::range(0, 40));
    std::string exp;
    int st = 0;
    std::basic_string<C> s;
    for (long c : text) { ref.encode(exp, st, c); s += C(c); }
    if (st) exp += '\x0F';
    if (choose(2)) fs::put("/sim/a", d.gen_contents(false));
    std::error_code ec = sentinel_ec();
    bool ok;
    bool throwing = choose(3) == 1;
    trace("save %zu characters", s.size());
    Op op;
    if (throwing) {
        try { F::save(std::filesystem::path("/sim/a"), s, locale_of(kind)); ok = true; }
        catch (std::system_error& e) { ec = e.code(); ok = false; }
    }
    else ok = F::try_save(std::filesystem::path("/sim/a"), s, ec, locale_of(kind));
    trace("  %s", ok ? "ok" : "failed");
    if (fs::num_open() != 0) fail("descriptor-leak", "a descriptor was left open");
    if (ok) {
        if (op.failed()) fail("missed-failure", "save succeeded although a system call failed");
        if (fs::get("/sim/a") != exp) fail("stored-text", "after a successful save the file does not hold the text: %s instead of %s", show(fs::get("/sim/a")).c_str(), show(exp).c_str());
    }
    else if (!op.failed()) fail("spurious-failure", "save failed without a fault: %s", ec.message().c_str());
}
template<class F, class C> void load_once(Kind kind, bool win)
{
    Ref ref{ kind, win, false };
    Driver<C> d{};
    d.ref = ref;
    std::string bytes = d.gen_contents(choose(4) == 1);
    if (choose(4) == 1) while (bytes.size() < 9000) { bytes += bytes; bytes += "a"; if (kind == k_shift) bytes = bytes + "\x0F"; }
    if (choose(3) == 1) bytes += win ? "\r\n" : "\n";
    fs::put("/sim/a", bytes);
    std::vector<long> exp;
    Pos p;
    long c;
    Ref::Res why;
    while ((why = ref.next(bytes, p, c)) == Ref::ch) exp.push_back(c);
    bool chomp = choose(2);
    std::error_code ec = sentinel_ec();
    core::Buffer<C> buffer(choose(2) ? 0 : 10);
    std::size_t offset0 = buffer.size() > 0 ? choose(4) : 0;
    for (std::size_t i = 0; i < offset0; ++i) buffer[i] = C('!');
    std::size_t offset = offset0;
    trace("load%s %zu bytes", chomp ? "_and_chomp" : "", bytes.size());
    Op op;
    bool ok;
    std::vector<long> got;
    if (choose(3) == 1) {
        std::basic_string<C> s;
        try {
            s = chomp ? F::load_and_chomp(std::filesystem::path("/sim/a"), locale_of(kind)) : F::load(std::filesystem::path("/sim/a"), locale_of(kind));
            ok = true;
        }
        catch (std::system_error& e) { ec = e.code(); ok = false; }
        for (C ch : s) got.push_back(Driver<C>::tolong(ch));
        if (!ok && why == Ref::bad && !op.failed() && ec == core::TextFileError::invalid_byte_seq) return;
    }
    else {
        ok = chomp ? F::try_load_and_chomp(std::filesystem::path("/sim/a"), buffer, offset, ec, locale_of(kind)) : F::try_load(std::filesystem::path("/sim/a"), buffer, offset, ec, locale_of(kind));
        if (offset < offset0 || offset > buffer.size()) fail("bad-count", "offset changed from %zu to %zu in buffer of size %zu", offset0, offset, buffer.size());
        for (std::size_t i = 0; i < offset0; ++i) if (buffer[i] != C('!')) fail("text-read", "loading changed what was in the buffer");
        for (std::size_t i = offset0; i < offset; ++i) got.push_back(Driver<C>::tolong(buffer[i]));
    }
    trace("  %s n=%zu", ok ? "ok" : "failed", got.size());
    if (fs::num_open() != 0) fail("descriptor-leak", "a descriptor was left open");
    if (ok) {
        if (op.failed()) fail("missed-failure", "load succeeded although a system call failed");
        if (why == Ref::bad) fail("missed-failure", "load succeeded across an invalid byte sequence");
        if (chomp && !exp.empty() && exp.back() == '\n') exp.pop_back();
        if (got != exp) fail("text-read", "loaded %s from %s", show(got).c_str(), show(bytes).c_str());
    }
    else {
        if (!op.failed() && why != Ref::bad) fail("spurious-failure", "load failed without a fault: %s", ec.message().c_str());
        if (got.size() > exp.size() || !std::equal(got.begin(), got.end(), exp.begin())) fail("text-read", "failed load yielded %s from %s", show(got).c_str(), show(bytes).c_str());
        if (!op.failed() && !chomp && !got.empty() && got.size() != exp.size()) fail("text-read", "failed load yielded %zu of the %zu valid characters", got.size(), exp.size());
    }
}
void faults_for_whole(bool faults)
{
    fs::config.short_io = choose(3) ? 2 + choose(4) : 0;
    fs::config.eintr = choose(3) ? 3 + choose(8) : 0;
    if (faults) {
        fs::config.io_error = choose(2) ? 2 + choose(10) : 0;
        fs::config.open_error = choose(3) ? 3 + choose(8) : 0;
        fs::config.stat_error = choose(3) ? 4 + choose(8) : 0;
        if (choose(4) == 1) fs::config.disk_capacity = choose(5000);
    }
}
template<template<class, class> class F, class C> void dummy() {}
void run_whole(bool save, bool faults)
{
    faults_for_whole(faults);
    bool win = choose(2), buffered = choose(2);
    u64 k = choose(3);
#define DO(FN) \
    if (k == 0) { if (buffered) win ? FN<core::BufferedWindowsTextFile, char>(k_bytes, win) : FN<core::BufferedPosixTextFile, char>(k_bytes, win); \
                  else win ? FN<core::WindowsTextFile, char>(k_bytes, win) : FN<core::PosixTextFile, char>(k_bytes, win); } \
    else { Kind kd = k == 1 ? k_utf8 : k_shift; \
           if (buffered) win ? FN<core::WideBufferedWindowsTextFile, wchar_t>(kd, win) : FN<core::WideBufferedPosixTextFile, wchar_t>(kd, win); \
           else win ? FN<core::WideWindowsTextFile, wchar_t>(kd, win) : FN<core::WidePosixTextFile, wchar_t>(kd, win); }
    if (save) { DO(save_once) }
    else { DO(load_once) }
#undef DO
}

} // namespace

#define REAL { "archon/core/text_file.hpp", "archon/core/buffered_text_file.hpp", "archon/core/text_file_stream.hpp", "archon/core/impl/text_file_impl.hpp", \
    "archon/core/impl/buffered_text_file_impl.hpp", "archon/core/impl/prim_text_file_impl.cpp", "archon/core/impl/char_codec.hpp", "archon/core/newline_codec.cpp", "archon/core/file.cpp" }
#define STUB { "kernel file system (sim/posix.cpp)", "state dependent locale facet" }

sim::Info info6("C06", "A run drives one text file (plain, buffered or stream; char or wide with UTF-8 or a state dependent encoding; POSIX or Windows newlines; tiny to large buffers) through writes, "
    "retried writes, unshifts, flushes and position queries on a simulated faulty file system; after every operation the file must hold a prefix of the encoding of exactly the accepted characters, and all of it after a successful flush.", REAL, STUB);
sim::Info info7("C07", "A run reads a random file (with invalid and truncated sequences, mixed newlines, optionally growing) through one text file object with reads of all sizes, read-some, read-all and line reads, "
    "under short reads, interrupts and failures; what is delivered is compared with a reference decoder.", REAL, STUB);
sim::Info info8("C08", "A run drives one text file object through a random history of reads, writes, flushes, unshifts, position queries, seeks, closes and reopens over two files with injected failures, against a model of the logical position and the file contents.", REAL, STUB);

SIM_SCENARIO("C06", "write", 1, sim::f_leakcheck) { run_text(p_write, false); }
SIM_SCENARIO("C06", "write-failures", 3, sim::f_leakcheck | sim::f_faults) { run_text(p_write, true); }
SIM_SCENARIO("C06", "save", 1, sim::f_leakcheck | sim::f_faults) { run_whole(true, choose(3) != 0); }
SIM_SCENARIO("C07", "read", 1, sim::f_leakcheck) { run_text(p_read, false); }
SIM_SCENARIO("C07", "read-failures", 3, sim::f_leakcheck | sim::f_faults) { run_text(p_read, true); }
SIM_SCENARIO("C07", "load", 1, sim::f_leakcheck | sim::f_faults) { run_whole(false, choose(3) != 0); }
SIM_SCENARIO("C08", "mixed", 1, sim::f_leakcheck) { run_text(p_mixed, false); }
SIM_SCENARIO("C08", "mixed-failures", 3, sim::f_leakcheck | sim::f_faults) { run_text(p_mixed, true); }
