// C20, C21: loading and saving images under failing, short and interrupted I/O, failing
// allocations, damaged data and interrupting progress trackers.
#include <sim.hpp>

#include <cstring>
#include <functional>
#include <locale>
#include <memory>
#include <optional>
#include <sstream>

#include <png.h>

#include <archon/core/file.hpp>
#include <archon/core/file_sink.hpp>
#include <archon/core/file_source.hpp>
#include <archon/core/misc_error.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/source.hpp>
#include <archon/image.hpp>
#include <archon/image/channel_packing.hpp>
#include <archon/image/computed_image.hpp>
#include <archon/image/file_format_png.hpp>
#include <archon/image/indexed_pixel_format.hpp>
#include <archon/image/integer_pixel_format.hpp>
#include <archon/image/packed_pixel_format.hpp>
#include <archon/image/subword_pixel_format.hpp>
#include <archon/log/stream_logger.hpp>

using namespace archon;
using sim::choose; using sim::trace; using sim::fail; using sim::u64; using sim::i64;
namespace I = archon::image;

namespace {

constexpr int sentinel = 4711;
std::error_code sentinel_ec() { return std::error_code(sentinel, std::generic_category()); }

struct Px { unsigned short c[4]; bool operator==(const Px&) const = default; };

struct Pixels {
    int w = 0, h = 0;
    std::vector<Px> p;
    Px& at(int x, int y) { return p[size_t(y) * size_t(w) + size_t(x)]; }
    const Px& at(int x, int y) const { return p[size_t(y) * size_t(w) + size_t(x)]; }
};

[[noreturn]] void on_png_error(png_structp p, png_const_charp m)
{
    *static_cast<std::string*>(png_get_error_ptr(p)) = m;
    longjmp(png_jmpbuf(p), 1);
}
void on_png_warning(png_structp, png_const_charp) {}

struct MemReader { const std::string* s; size_t pos; bool over; };
void png_mem_read(png_structp p, png_bytep d, size_t n)
{
    auto& r = *static_cast<MemReader*>(png_get_io_ptr(p));
    if (r.s->size() - r.pos < n) png_error(p, "end of data");
    memcpy(d, r.s->data() + r.pos, n);
    r.pos += n;
}
void png_mem_write(png_structp p, png_bytep d, size_t n) { static_cast<std::string*>(png_get_io_ptr(p))->append(reinterpret_cast<char*>(d), n); }
void png_mem_flush(png_structp) {}

struct PngInfo { int color_type, bit_depth, interlace; size_t consumed; };

// Decode with the plain library. Empty string: success.
std::string reference_decode(const std::string& data, Pixels& out, PngInfo& info)
{
    sim::NoFault nf; sim::NoPreempt np;
    std::string err;
    png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, &err, on_png_error, on_png_warning);
    png_infop i = png_create_info_struct(p);
    MemReader r { &data, 0, false };
    std::vector<unsigned char> buf;
    std::vector<png_bytep> rows;
    if (setjmp(png_jmpbuf(p)) == 0) {
        png_set_read_fn(p, &r, png_mem_read);
        png_read_info(p, i);
        info.color_type = png_get_color_type(p, i);
        info.bit_depth = png_get_bit_depth(p, i);
        info.interlace = png_get_interlace_type(p, i);
        out.w = int(png_get_image_width(p, i));
        out.h = int(png_get_image_height(p, i));
        png_set_expand_16(p);
        png_set_gray_to_rgb(p);
        png_set_add_alpha(p, 0xffff, PNG_FILLER_AFTER);
        png_set_interlace_handling(p);
        png_read_update_info(p, i);
        size_t rb = png_get_rowbytes(p, i);
        buf.resize(rb * size_t(out.h));
        for (int y = 0; y < out.h; ++y) rows.push_back(buf.data() + rb * size_t(y));
        png_read_image(p, rows.data());
        png_read_end(p, i);
        out.p.resize(size_t(out.w) * size_t(out.h));
        for (int y = 0; y < out.h; ++y) for (int x = 0; x < out.w; ++x) for (int k = 0; k < 4; ++k) {
            auto* b = &buf[rb * size_t(y) + size_t(x) * 8 + size_t(k) * 2];
            out.at(x, y).c[k] = static_cast<unsigned short>(b[0] * 256 + b[1]);
        }
    }
    else if (err.empty()) err = "error";
    png_destroy_read_struct(&p, &i, nullptr);
    info.consumed = r.pos;
    return err;
}

u64 rnd_state;
unsigned rnd(unsigned n) { rnd_state = rnd_state * 6364136223846793005ULL + 1442695040888963407ULL; return unsigned((rnd_state >> 33) % n); }

I::int8_type rnd8() { return static_cast<I::int8_type>(rnd(256)); }

struct Made { std::string data; Pixels px; PngInfo info; size_t trns_begin = 0, trns_end = 0; size_t end = 0; bool big_chunks; };

// Make a PNG file of any kind with known contents
void make_png(Made& m)
{
    sim::NoFault nf; sim::NoPreempt np;
    static const int types[] = { PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_PALETTE };
    int type = types[choose(5)];
    int depth = 8;
    if (type == PNG_COLOR_TYPE_GRAY) depth = 8 << choose(2);
    if (type == PNG_COLOR_TYPE_GRAY && choose(2)) depth = 1 << choose(3);
    if (type == PNG_COLOR_TYPE_PALETTE) depth = 8 >> choose(4);
    if (type == PNG_COLOR_TYPE_RGB || type == PNG_COLOR_TYPE_RGB_ALPHA || type == PNG_COLOR_TYPE_GRAY_ALPHA) depth = 8 << choose(2);
    Pixels& px = m.px;
    switch (choose(4)) {
        case 0: px.w = 1 + int(choose(9)); px.h = 1 + int(choose(9)); break;
        case 1: px.w = 1 + int(choose(40)); px.h = 1 + int(choose(40)); break;
        case 2: px.w = 1 + int(choose(3)); px.h = 1 + int(choose(300)); break;
        case 3: px.w = 1 + int(choose(300)); px.h = 1 + int(choose(8)); break;
    }
    bool interlace = choose(3) == 1;
    bool trns = choose(3) == 1 && !(type & PNG_COLOR_MASK_ALPHA);
    bool text = choose(3) == 1;
    unsigned level = unsigned(choose(3));
    static const size_t bufs[] = { 8192, 64, 6, 1000 };
    size_t bs = bufs[choose(4)];
    rnd_state = choose(1000000) + 1;
    bool smooth = choose(2);
    px.p.resize(size_t(px.w) * size_t(px.h));
    int npal = 1 + int(rnd(1U << depth));
    std::vector<png_color> pal(static_cast<size_t>(npal));
    std::vector<png_byte> pal_trans(1 + rnd(unsigned(npal)));
    for (auto& c : pal) c = png_color { png_byte(rnd(256)), png_byte(rnd(256)), png_byte(rnd(256)) };
    for (auto& c : pal_trans) c = png_byte(rnd(3) ? rnd(256) : 255);
    png_color_16 key {};
    unsigned max = (1U << depth) - 1;
    key.red = png_uint_16(rnd(max + 1)); key.green = png_uint_16(rnd(max + 1)); key.blue = png_uint_16(rnd(max + 1)); key.gray = png_uint_16(rnd(max + 1));
    int ch = type == PNG_COLOR_TYPE_RGB ? 3 : type == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
    size_t rb = (size_t(px.w) * size_t(ch) * size_t(depth) + 7) / 8;
    std::vector<unsigned char> buf(rb * size_t(px.h), 0);
    auto scale = [&](unsigned v) { return static_cast<unsigned short>(v * 65535 / max); };
    for (int y = 0; y < px.h; ++y) for (int x = 0; x < px.w; ++x) {
        unsigned v[4];
        for (int k = 0; k < ch; ++k) {
            unsigned u = type == PNG_COLOR_TYPE_PALETTE ? rnd(unsigned(npal)) : smooth ? unsigned(x * 3 + y * 5 + k) & max : rnd(max + 1);
            v[k] = u;
        }
        if (trns && rnd(4) == 0 && type != PNG_COLOR_TYPE_PALETTE) { v[0] = type == PNG_COLOR_TYPE_GRAY ? key.gray : key.red; v[1] = key.green; v[2] = key.blue; }
        unsigned char* row = &buf[rb * size_t(y)];
        for (int k = 0; k < ch; ++k) {
            if (depth == 16) { row[(x * ch + k) * 2] = static_cast<unsigned char>(v[k] >> 8); row[(x * ch + k) * 2 + 1] = static_cast<unsigned char>(v[k]); }
            else if (depth == 8) row[x * ch + k] = static_cast<unsigned char>(v[k]);
            else { int per = 8 / depth; row[x / per] = static_cast<unsigned char>(row[x / per] | v[k] << ((per - 1 - x % per) * depth)); }
        }
        Px& e = px.at(x, y);
        switch (type) {
            case PNG_COLOR_TYPE_PALETTE: {
                auto& c = pal[v[0]];
                e = Px { { static_cast<unsigned short>(c.red * 257), static_cast<unsigned short>(c.green * 257), static_cast<unsigned short>(c.blue * 257),
                           static_cast<unsigned short>(trns && v[0] < pal_trans.size() ? pal_trans[v[0]] * 257 : 65535) } };
                break;
            }
            case PNG_COLOR_TYPE_GRAY: e = Px { { scale(v[0]), scale(v[0]), scale(v[0]), static_cast<unsigned short>(trns && v[0] == key.gray ? 0 : 65535) } }; break;
            case PNG_COLOR_TYPE_GRAY_ALPHA: e = Px { { scale(v[0]), scale(v[0]), scale(v[0]), scale(v[1]) } }; break;
            case PNG_COLOR_TYPE_RGB: e = Px { { scale(v[0]), scale(v[1]), scale(v[2]), static_cast<unsigned short>(trns && v[0] == key.red && v[1] == key.green && v[2] == key.blue ? 0 : 65535) } }; break;
            default: e = Px { { scale(v[0]), scale(v[1]), scale(v[2]), scale(v[3]) } };
        }
    }
    std::vector<png_bytep> rows;
    for (int y = 0; y < px.h; ++y) rows.push_back(&buf[rb * size_t(y)]);
    std::string err;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, &err, on_png_error, on_png_warning);
    png_infop i = png_create_info_struct(p);
    if (setjmp(png_jmpbuf(p)) == 0) {
        png_set_write_fn(p, &m.data, png_mem_write, png_mem_flush);
        png_set_compression_level(p, level == 0 ? 1 : level == 1 ? 6 : 0);
        png_set_compression_buffer_size(p, bs);
        png_set_IHDR(p, i, png_uint_32(px.w), png_uint_32(px.h), depth, type, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
        if (type == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, i, pal.data(), npal);
        if (trns) { if (type == PNG_COLOR_TYPE_PALETTE) png_set_tRNS(p, i, pal_trans.data(), int(pal_trans.size()), nullptr); else png_set_tRNS(p, i, nullptr, 0, &key); }
        png_write_info(p, i);
        png_write_image(p, rows.data());
        static char k[] = "Comment", v[] = "A comment after the image data";
        png_text t {};
        t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = k; t.text = v; t.text_length = strlen(v);
        if (text) png_set_text(p, i, &t, 1);
        png_write_end(p, i);
    }
    else sim::harness_error("libpng could not write: %s", err.c_str());
    png_destroy_write_struct(&p, &i);
    m.info = { type, depth, interlace, m.data.size() };
    m.end = m.data.size();
    for (size_t pos = 8; pos + 8 <= m.data.size(); ) {
        auto b = [&](size_t o) { return size_t(static_cast<unsigned char>(m.data[pos + o])); };
        size_t len = b(0) << 24 | b(1) << 16 | b(2) << 8 | b(3);
        if (m.data.compare(pos + 4, 4, "tRNS") == 0) { m.trns_begin = pos; m.trns_end = pos + 12 + len; }
        pos += 12 + len;
    }
    trace("png: %d x %d, color type %d, depth %d%s%s%s, %zu bytes", px.w, px.h, type, depth, interlace ? ", interlaced" : "", trns ? ", transparency" : "", text ? ", text" : "", m.data.size());
}

void read_pixels(const I::Image& img, Pixels& out)
{
    sim::NoFault nf; sim::NoPreempt np;
    I::Size s = img.get_size();
    out.w = s.width; out.h = s.height;
    out.p.resize(size_t(out.w) * size_t(out.h));
    I::PixelBlock<I::RGBA_16> block(s);
    I::Reader reader(img);
    reader.get_block(I::Pos(0, 0), block);
    for (int y = 0; y < out.h; ++y) for (int x = 0; x < out.w; ++x) {
        auto p = block.tray()(x, y);
        for (int k = 0; k < 4; ++k) out.at(x, y).c[k] = static_cast<unsigned short>(p[k]);
    }
}

std::string diff(const Pixels& a, const Pixels& b)
{
    // Conversions through floating point values can be off by one in the least significant of 16 bits
    auto same = [](const Px& p, const Px& q) { for (int k = 0; k < 4; ++k) if (p.c[k] > q.c[k] + 1 || q.c[k] > p.c[k] + 1) return false; return true; };
    char t[200];
    if (a.w != b.w || a.h != b.h) { snprintf(t, sizeof t, "its size is %d x %d instead of %d x %d", a.w, a.h, b.w, b.h); return t; }
    for (int y = 0; y < a.h; ++y) for (int x = 0; x < a.w; ++x) if (!same(a.at(x, y), b.at(x, y)) && (a.at(x, y).c[3] != 0 || b.at(x, y).c[3] != 0)) { // invisible pixels have no color
        auto& p = a.at(x, y); auto& q = b.at(x, y);
        snprintf(t, sizeof t, "pixel (%d,%d) is %d,%d,%d,%d instead of %d,%d,%d,%d", x, y, p.c[0], p.c[1], p.c[2], p.c[3], q.c[0], q.c[1], q.c[2], q.c[3]);
        return t;
    }
    return {};
}

struct Interrupt { int n; };

class Tracker : public I::ProgressTracker {
public:
    int calls = 0, last = -1, total = 0, interrupt_at = 0;
    bool interrupted = false;
    void progress(const I::Image& img, int completed, int tot) override
    {
        sim::NoFault nf;
        ++calls;
        if (tot <= 0) fail("progress", "The total amount of work is said to be %d", tot);
        if (completed < 0 || completed > tot) fail("progress", "The progress is said to be %d of %d", completed, tot);
        if (tot == total && completed < last) fail("progress", "The progress went from %d to %d of %d", last, completed, tot);
        if (interrupted) fail("progress", "The progress tracker was called after it had thrown");
        (void) img.get_size();
        last = completed; total = tot;
        if (calls == interrupt_at) { interrupted = true; sim::count("fault.tracker_interrupt"); throw Interrupt { calls }; }
    }
    void check_complete() { if (calls == 0 || last != total) fail("progress", "The process ended with the progress at %d of %d after %d notifications", last, total, calls); }
};

// A source that delivers pieces, and fails somewhere
class PieceSource : public core::Source {
public:
    const std::string* data;
    size_t pos = 0;
    size_t fail_at = ~size_t(0);
    bool failed = false, throws = false;
    u64 piece = 0;
    std::error_code error { EIO, std::generic_category() };
protected:
    bool do_try_read_some(core::Span<char> buffer, size_t& n, std::error_code& ec) override
    {
        size_t k = std::min(buffer.size(), data->size() - pos);
        if (piece && k > 1) k = 1 + choose(std::min<u64>(k, piece));
        if (pos + k > fail_at) k = fail_at - pos;
        if (k == 0 && fail_at != ~size_t(0) && pos >= fail_at && !buffer.empty()) {
            if (!failed) { sim::count("fault.source_error"); trace("  source fails at %zu", pos); }
            failed = true;
            if (throws) throw std::runtime_error("source");
            ec = error;
            return false;
        }
        memcpy(buffer.data(), data->data() + pos, k);
        pos += k;
        n = k;
        return true;
    }
};

class PieceSink : public core::Sink {
public:
    std::string data;
    size_t fail_at = ~size_t(0);
    bool failed = false, throws = false;
    std::error_code error { ENOSPC, std::generic_category() };
protected:
    bool do_try_write(core::Span<const char> d, size_t& n, std::error_code& ec) override
    {
        sim::NoFault nf;
        if (failed) fail("sink", "The sink was written to after it had failed");
        size_t k = d.size();
        if (data.size() + k > fail_at) {
            k = fail_at - data.size();
            data.append(d.data(), k);
            failed = true;
            n = k;
            sim::count("fault.sink_error");
            trace("  sink fails at %zu", data.size());
            if (throws) throw std::runtime_error("sink");
            ec = error;
            return false;
        }
        data.append(d.data(), k);
        n = k;
        return true;
    }
};

const std::locale& loc() { return std::locale::classic(); }

std::unique_ptr<I::WritableImage> sentinel_image() { sim::NoFault nf; return std::make_unique<I::BufferedImage_RGB_8>(I::Size(1, 1)); }

struct Outcome {
    bool ok = false, alloc = false, interrupted = false, source_threw = false, other = false;
    std::string what;
    std::error_code ec = sentinel_ec();
};

template<class F> void run(Outcome& o, F&& f)
{
    try { o.ok = f(o.ec); }
    catch (const std::bad_alloc&) { o.alloc = true; }
    catch (const Interrupt&) { o.interrupted = true; }
    catch (const std::exception& e) {
        sim::NoFault nf;
        o.what = e.what();
        if (o.what == "source" || o.what == "sink") o.source_threw = true;
        else o.other = true;
    }
    if (sim::tracing()) {
        sim::NoFault nf;
        trace("  -> %s%s", o.ok ? "success" : o.alloc ? "bad_alloc" : o.interrupted ? "interrupted" : o.source_threw ? "exception of the stream" : o.other ? "exception " : "failure: ",
              o.other ? o.what.c_str() : !o.ok && !o.alloc && !o.interrupted && !o.source_threw ? o.ec.message().c_str() : "");
    }
}

struct Log {
    std::ostringstream out;
    log::StreamLogger logger { out };
    Log() { }
};

void prewarm()
{
    static bool done;
    if (done) return;
    done = true;
    std::string d;
    Pixels p; p.w = p.h = 1;
    I::BufferedImage_RGB_8 img(I::Size(1, 1));
    PieceSink sink;
    std::error_code ec;
    I::Output o(sink);
    o.filename_extension = ".png";
    I::SaveConfig sc;
    (void) I::try_save_a(img, o, loc(), sc, ec);
    PieceSource src;
    src.data = &sink.data;
    std::unique_ptr<I::WritableImage> r;
    I::LoadConfig lc;
    (void) I::try_load_a(I::Input(src), r, loc(), lc, ec);
    Pixels q;
    read_pixels(*r, q);
}

} // namespace

// ================================================================ C20

namespace {

void check_loaded(const Outcome& o, const std::unique_ptr<I::WritableImage>& image, I::WritableImage* before, const Made& m, bool lost_transparency)
{
    sim::NoFault nf;
    if (o.ok) {
        if (o.ec != sentinel_ec()) fail("ec", "A successful load changed the error code to '%s'", o.ec.message().c_str());
        if (!image || image.get() == before) fail("image", "A successful load did not provide an image");
        Pixels q;
        read_pixels(*image, q);
        Pixels e = m.px;
        if (lost_transparency) for (size_t i = 0; i < e.p.size() && i < q.p.size(); ++i) e.p[i].c[3] = q.p[i].c[3];
        std::string d = diff(q, e);
        if (!d.empty()) fail("pixels", "The loaded image is wrong: %s", d.c_str());
        auto info = image->get_transfer_info();
        bool lum = (m.info.color_type & PNG_COLOR_MASK_COLOR) == 0;
        if (info.color_space->is_lum() != lum) fail("color_space", "The color space of the loaded image is not that of the stored one");
        bool alpha = (m.info.color_type & PNG_COLOR_MASK_ALPHA) || m.trns_end;
        if (!lost_transparency && info.has_alpha != alpha) fail("alpha", "The loaded image has %s alpha channel, but the stored one has %s", info.has_alpha ? "an" : "no", alpha ? "one" : "none");
        if (info.bit_depth < (m.info.color_type == PNG_COLOR_TYPE_PALETTE ? 8 : m.info.bit_depth)) fail("depth", "The bit depth of the loaded image is %d", info.bit_depth);
    }
    else {
        if (image.get() != before) fail("image", "A failed load changed the destination");
        bool threw = o.alloc || o.interrupted || o.source_threw || o.other;
        if (!threw && o.ec == sentinel_ec()) fail("ec", "A failed load did not set the error code");
    }
}

struct LoadSetup {
    std::optional<Log> log;
    Tracker tracker;
    bool use_tracker = false;
    I::LoadConfig config;
    std::vector<char> buffer;
    void make(bool interrupt)
    {
        if (choose(3) == 1) { log.emplace(); config.logger = &log->logger; }
        if (choose(2)) {
            use_tracker = true;
            config.tracker = &tracker;
            if (interrupt && choose(3) == 1) tracker.interrupt_at = 1 + int(choose(8));
        }
        if (choose(3) == 1) config.file_format = "png";
        switch (choose(4)) {
            case 0: break;
            case 1: config.read_buffer_size = 0; break;
            case 2: config.read_buffer_size = 1 + choose(60); break;
            case 3: buffer.resize(1 + choose(600)); config.read_buffer = buffer; break;
        }
    }
};

} // namespace

SIM_SCENARIO("C20", "file", 3, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        Made m;
        make_png(m);
        static const char* names[] = { "/sim/a.png", "/sim/a", "/sim/a.jpg", "/sim/dir.png/a.PNG" };
        std::string path = names[choose(4)];
        std::string trailing(choose(4) == 1 ? choose(30) : 0, 'x');
        sim::fs::put(path, m.data + trailing);
        std::filesystem::path fspath(path);
        u64 n = 1 + choose(3);
        for (u64 i = 0; i < n; ++i) {
            LoadSetup s;
            s.make(true);
            sim::fs::config.eintr = choose(2) ? 3 : 0;
            sim::fs::config.short_io = choose(2) ? 2 : 0;
            bool io = choose(3) == 1;
            sim::fs::config.io_error = io ? 3 + choose(10) : 0;
            sim::fs::config.open_error = choose(6) == 1 ? 2 : 0;
            bool missing = choose(12) == 1;
            auto errs = sim::fs::n_errors;
            auto image = sentinel_image();
            auto* before = image.get();
            bool af = choose(4) == 1;
            u64 at = af ? sim::range(1, 60) : 0;
            bool persistent = af && choose(4) == 1;
            Outcome o;
            std::filesystem::path p2(missing ? "/sim/none.png" : path);
            trace("load %s%s", path.c_str(), missing ? " (missing)" : "");
            if (af) sim::fail_alloc(at, persistent);
            run(o, [&](std::error_code& ec) { return I::try_load(p2, image, loc(), s.config, ec); });
            sim::stop_alloc_faults();
            bool fired = af && sim::alloc_fault_fired();
            sim::fs::config.io_error = sim::fs::config.open_error = sim::fs::config.eintr = sim::fs::config.short_io = 0;
            bool failed = sim::fs::n_errors != errs;
            int err = sim::fs::last_error;
            check_loaded(o, image, before, m, false);
            if (o.ok) {
                if (missing) fail("missing", "A missing file was loaded");
                if (s.use_tracker) s.tracker.check_complete();
            }
            else {
                if (!fired && !failed && !o.interrupted) fail("spurious", "Loading failed although nothing below failed: %s %s", o.ec.message().c_str(), o.what.c_str());
                if (o.interrupted != s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
                if ((o.alloc || o.other) && !fired) fail("exception", "Loading threw although no allocation failed: %s", o.what.c_str());
                if (o.source_threw) fail("exception", "Unexpected exception");
                if (failed && !fired && !o.interrupted && o.ec != std::error_code(err, std::generic_category()) && o.ec != std::error_code(err, std::system_category()))
                    fail("cause", "A failing system call (%s) was reported as '%s'", strerror(err), o.ec.message().c_str());
            }
            if (sim::fs::num_open() != 0) fail("descriptor", "The file was left open");
            sim::state(sim::mix(u64(o.ok) | u64(o.alloc) << 1 | u64(o.interrupted) << 2 | u64(failed) << 3, u64(m.info.color_type * 32 + m.info.bit_depth * 2 + m.info.interlace)));
        }
        if (sim::fs::get(path) != m.data + trailing) fail("altered", "Loading altered the file");
    }
}

SIM_SCENARIO("C20", "stream", 3, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        Made m;
        make_png(m);
        std::string data = m.data;
        size_t corrupt = ~size_t(0);
        bool damaged = false, lost_trns = false;
        switch (choose(4)) {
            case 1: data += std::string(choose(20), 'z'); break;
            case 2: { size_t k = choose(m.end + 1); data.resize(k); damaged = k < m.end; if (damaged) { sim::count("fault.truncated"); trace("truncated to %zu", k); } break; }
            case 3: {
                corrupt = size_t(choose(m.end));
                data[corrupt] = char(data[corrupt] ^ (1 << choose(8)));
                damaged = true;
                lost_trns = corrupt >= m.trns_begin && corrupt < m.trns_end;
                sim::count("fault.corrupted");
                trace("corrupted at %zu", corrupt);
                break;
            }
            default: break;
        }
        PieceSource src;
        src.data = &data;
        src.piece = choose(2) ? 1 + choose(40) : 0;
        bool err = choose(4) == 1;
        if (err) { src.fail_at = choose(data.size() + 1); src.throws = choose(4) == 1; static const int errs[] = { EIO, ENXIO, ECONNRESET }; src.error = std::error_code(errs[choose(3)], choose(2) ? std::generic_category() : std::system_category()); }
        LoadSetup s;
        s.make(true);
        I::Input input(src);
        static const char* mimes[] = { "", "image/png", "image/x", "IMAGE/PNG" };
        static const char* exts[] = { "", ".png", ".x", ".PNG" };
        input.mime_type = mimes[choose(4)];
        input.filename_extension = exts[choose(4)];
        auto image = sentinel_image();
        auto* before = image.get();
        bool af = choose(4) == 1;
        u64 at = af ? sim::range(1, 60) : 0;
        bool persistent = af && choose(4) == 1;
        Outcome o;
        if (af) sim::fail_alloc(at, persistent);
        run(o, [&](std::error_code& ec) { return I::try_load_a(input, image, loc(), s.config, ec); });
        sim::stop_alloc_faults();
        bool fired = af && sim::alloc_fault_fired();
        check_loaded(o, image, before, m, lost_trns);
        if (o.ok) { if (s.use_tracker) s.tracker.check_complete(); }
        else {
            if (!fired && !src.failed && !damaged && !o.interrupted) fail("spurious", "Loading failed although nothing was wrong: %s %s", o.ec.message().c_str(), o.what.c_str());
            if (o.interrupted != s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
            if ((o.alloc || o.other) && !fired) fail("exception", "Loading threw although no allocation failed: %s", o.what.c_str());
            if (o.source_threw && !(src.failed && src.throws)) fail("exception", "Unexpected exception");
            if (src.failed && !fired && !o.interrupted) {
                if (src.throws) { if (!o.source_threw) fail("cause", "The exception thrown by the source was reported as '%s'", o.ec.message().c_str()); }
                else if (o.ec != src.error) fail("cause", "A failing source ('%s') was reported as '%s'", src.error.message().c_str(), o.ec.message().c_str());
            }
            if (!src.failed && !fired && !o.interrupted && damaged) {
                bool sig = data.size() < 8 || data.compare(0, 8, m.data, 0, 8) != 0;
                bool explicit_format = !s.config.file_format.empty();
                std::error_code e = I::make_error_code(explicit_format ? I::Error::wrong_file_format : I::Error::file_format_detection_failed);
                if (sig != (o.ec == e)) fail("cause", "Damage %s the signature was reported as '%s'", sig ? "in" : "after", o.ec.message().c_str());
                if (!sig && o.ec != I::make_error_code(I::Error::bad_file) && o.ec != make_error_code(core::MiscError::premature_end_of_input) && o.ec != I::make_error_code(I::Error::image_size_out_of_range))
                    fail("cause", "Damage was reported as '%s'", o.ec.message().c_str());
                if (o.ec == I::make_error_code(I::Error::bad_file) && s.log && s.log->out.str().find("ERROR: ") == std::string::npos) fail("log", "A bad file was reported without an error message in the log");
            }
        }
        sim::state(sim::mix(u64(o.ok) | u64(o.alloc) << 1 | u64(o.interrupted) << 2 | u64(src.failed) << 3 | u64(damaged) << 4, u64(m.info.color_type * 32 + m.info.bit_depth * 2 + m.info.interlace)));
    }
}

// ---------------------------------------------------------------- detection

namespace {

struct DetectLog { std::vector<int> recognize; int load = -1; std::string loaded; bool rewound = true; };

class FakeFormat : public I::FileFormat {
public:
    int id;
    std::string ident, magic;
    std::vector<std::string> mimes_s, exts_s;
    std::vector<std::string_view> mimes, exts;
    DetectLog* dl;
    const std::string* data;
    int fail_load = 0;
    auto get_ident() const noexcept -> std::string_view override { return ident; }
    auto get_descr() const -> std::string_view override { return ident; }
    auto get_mime_types() const noexcept -> core::Span<const std::string_view> override { return mimes; }
    auto get_filename_extensions() const noexcept -> core::Span<const std::string_view> override { return exts; }
    bool try_recognize(core::Source& source, bool& recognized, std::error_code& ec) const override
    {
        char b[40];
        size_t n = 0;
        bool ok = source.try_read({ b, magic.size() }, n, ec);
        sim::NoFault nf;
        dl->recognize.push_back(id);
        if (!ok) return false;
        if (data->compare(0, n, b, n) != 0) dl->rewound = false;
        recognized = n == magic.size() && std::string(b, n) == magic;
        return true;
    }
protected:
    bool do_try_load(core::Source& source, std::unique_ptr<I::WritableImage>& image, const std::locale&, log::Logger&, const LoadConfig&, std::error_code& ec) const override
    {
        sim::NoFault nf;
        dl->load = id;
        for (;;) {
            char b[7];
            size_t n = 0;
            if (!source.try_read_some(b, n, ec)) return false;
            if (n == 0) break;
            dl->loaded.append(b, n);
        }
        if (fail_load) { ec = std::error_code(fail_load, std::generic_category()); return false; }
        image = sentinel_image();
        return true;
    }
    bool do_try_save(const I::Image&, core::Sink& sink, const std::locale&, log::Logger&, const SaveConfig&, std::error_code& ec) const override
    {
        size_t n = 0;
        return sink.try_write(std::string_view(ident), n, ec);
    }
};

} // namespace

SIM_SCENARIO("C20", "detection", 2, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        static const char* magics[] = { "AA", "AAB", "A", "", "AABBCCDDEEFFGGHHIIJJKK", "B", "XY", "\x89PNG" };
        static const char* mimes[] = { "image/a", "image/b", "image/png" };
        static const char* exts[] = { ".a", ".b", ".png", ".A" };
        std::string data;
        switch (choose(5)) {
            case 0: data = "AABBCCDDEEFFGGHHIIJJKKLLMMNN"; break;
            case 1: data = "AAC"; break;
            case 2: data = "A"; break;
            case 3: data = "\x89PNG\r\n\x1a\nxxxxx"; break;
            case 4: data = "BXYZ" + std::string(choose(400), 'q'); break;
        }
        DetectLog dl;
        std::vector<std::unique_ptr<FakeFormat>> formats;
        I::FileFormatRegistry registry;
        size_t n = choose(7);
        for (size_t i = 0; i < n; ++i) {
            auto f = std::make_unique<FakeFormat>();
            f->id = int(formats.size());
            f->ident = std::string("f") + std::to_string(choose(9));
            f->magic = magics[choose(8)];
            f->dl = &dl;
            f->data = &data;
            for (auto* x : mimes) if (choose(3) == 1) f->mimes_s.push_back(x);
            for (auto* x : exts) if (choose(3) == 1) f->exts_s.push_back(x);
            for (auto& x : f->mimes_s) f->mimes.push_back(x);
            for (auto& x : f->exts_s) f->exts.push_back(x);
            f->fail_load = choose(4) == 1 ? EDOM : 0;
            bool dup = false;
            for (auto& g : formats) if (g->ident == f->ident) dup = true;
            bool af = choose(5) == 1;
            if (af) sim::fail_alloc(sim::range(1, 4));
            bool threw = false, refused = false;
            try { registry.register_file_format(*f); }
            catch (const std::bad_alloc&) { threw = true; }
            catch (const std::invalid_argument&) { refused = true; }
            sim::stop_alloc_faults();
            if (threw && !(af && sim::alloc_fault_fired())) fail("registry", "Registration failed without reason");
            if (!threw && refused != dup) fail("registry", dup ? "A file format was registered although its identifier was taken" : "A file format was refused although its identifier was not taken");
            trace("register %s magic '%s': %s", f->ident.c_str(), sim::quote(f->magic).c_str(), threw ? "bad_alloc" : refused ? "refused" : "ok");
            if (!threw && !refused) formats.push_back(std::move(f));
            if (size_t(registry.get_num_file_formats()) != formats.size()) fail("registry", "The registry holds %d file formats instead of %zu", registry.get_num_file_formats(), formats.size());
        }
        for (size_t i = 0; i < formats.size(); ++i) {
            if (&registry.get_file_format(int(i)) != formats[i].get()) fail("registry", "The file formats are not in the order of registration");
            if (registry.lookup(formats[i]->ident) != formats[i].get()) fail("registry", "File format '%s' was not found", formats[i]->ident.c_str());
        }
        auto find = [&](const std::vector<std::string> FakeFormat::* list, std::string_view what) {
            std::vector<int> r;
            for (auto& f : formats) for (auto& x : (*f).*list) if (x == what) r.push_back(f->id);
            return r;
        };
        for (auto* x : mimes) {
            auto v = find(&FakeFormat::mimes_s, x);
            const I::FileFormat* f = registry.lookup_by_mime_type(x);
            if (f != (v.empty() ? nullptr : formats[size_t(v[0])].get())) fail("registry", "The wrong file format was found for MIME type %s", x);
        }
        for (auto* x : exts) {
            auto v = find(&FakeFormat::exts_s, x);
            const I::FileFormat* f = registry.lookup_by_extension(x);
            if (f != (v.empty() ? nullptr : formats[size_t(v[0])].get())) fail("registry", "The wrong file format was found for extension %s", x);
        }
        for (u64 k = 1 + choose(3); k; --k) {
            dl = DetectLog {};
            dl.recognize.reserve(64);
            PieceSource src;
            src.data = &data;
            src.piece = choose(2) ? 1 + choose(5) : 0;
            if (choose(4) == 1) { src.fail_at = choose(data.size() + 1); src.throws = choose(4) == 1; src.error = std::error_code(EIO, std::generic_category()); }
            I::Input input(src);
            std::string mime = choose(2) ? mimes[choose(3)] : "", ext = choose(2) ? exts[choose(4)] : "";
            input.mime_type = mime;
            input.filename_extension = ext;
            I::LoadConfig config;
            config.registry = &registry;
            std::string ident = choose(4) == 1 ? "f" + std::to_string(choose(9)) : "";
            config.file_format = ident;
            std::vector<int> order, expect;
            int chosen = -1;
            if (ident.empty()) {
                auto add = [&](const std::vector<int>& v) { for (int i : v) { bool dup = false; for (int j : order) if (i == j) dup = true; if (!dup) order.push_back(i); } };
                if (!mime.empty()) add(find(&FakeFormat::mimes_s, mime));
                if (!ext.empty()) add(find(&FakeFormat::exts_s, ext));
                for (auto& f : formats) add({ f->id });
                for (int i : order) { expect.push_back(i); if (data.compare(0, formats[size_t(i)]->magic.size(), formats[size_t(i)]->magic) == 0) { chosen = i; break; } }
            }
            else for (auto& f : formats) if (f->ident == ident) chosen = f->id;
            auto image = sentinel_image();
            auto* before = image.get();
            bool af = choose(4) == 1;
            u64 at = af ? sim::range(1, 6) : 0;
            Outcome o;
            trace("load mime '%s' ext '%s' format '%s'", mime.c_str(), ext.c_str(), ident.c_str());
            if (af) sim::fail_alloc(at);
            run(o, [&](std::error_code& ec) { return I::try_load_a(input, image, loc(), config, ec); });
            sim::stop_alloc_faults();
            bool fired = af && sim::alloc_fault_fired();
            if (!o.ok && image.get() != before) fail("image", "A failed load changed the destination");
            if (!dl.rewound) fail("rewind", "A file format was not given the beginning of the data");
            if (fired && !o.ok) { if (!o.alloc) fail("exception", "An allocation failure was reported as '%s'", o.ec.message().c_str()); continue; }
            if (src.failed) {
                if (o.ok) fail("swallowed", "The failure of the source was not reported");
                if (src.throws ? !o.source_threw : o.ec != src.error) fail("cause", "A failing source ('%s') was reported as '%s'", src.error.message().c_str(), o.ec.message().c_str());
                continue;
            }
            if (o.alloc || o.interrupted || o.other || o.source_threw) fail("exception", "Unexpected exception: %s", o.what.c_str());
            if (dl.recognize != expect) fail("order", "The file formats were not tried in the documented order");
            if (dl.load != chosen) fail("chosen", "File format %d was used instead of %d", dl.load, chosen);
            if (chosen == -1) {
                auto e = I::make_error_code(ident.empty() ? I::Error::file_format_detection_failed : I::Error::file_format_unavailable);
                if (o.ok || o.ec != e) fail("ec", "The error code is '%s' instead of '%s'", o.ec.message().c_str(), e.message().c_str());
            }
            else {
                if (dl.loaded != data) fail("data", "The file format was not given the complete data");
                int fl = formats[size_t(chosen)]->fail_load;
                if (o.ok != (fl == 0) || (fl ? o.ec != std::error_code(fl, std::generic_category()) : o.ec != sentinel_ec())) fail("ec", "The outcome of the file format was not passed on");
            }
            sim::state(sim::mix(u64(chosen + 1), expect.size()));
        }
    }
}

// ================================================================ C21

namespace {

struct Gen {
    std::unique_ptr<I::Image> image;
    std::shared_ptr<void> keep;
    Pixels expect;
    bool exact16 = true;    // expected values are 16-bit values
};

template<class T> void put_word(std::vector<T>&, size_t, u64);

// An integer format whose memory layout is spelled out here
template<class CS, class W, int B, class S, int D, core::Endianness E, bool F, bool G> void integer_image(Gen& g, I::Size size)
{
    using Format = I::IntegerPixelFormat<CS, W, B, S, D, E, F, G>;
    using Img = I::BufferedImage<Format>;
    auto img = std::make_unique<Img>(size);
    auto buf = img->get_buffer();
    constexpr int ch = Format::num_channels;
    constexpr bool alpha = Format::has_alpha_channel;
    constexpr int bits = B * D;
    constexpr u64 max = bits == 64 ? ~u64(0) : (u64(1) << bits) - 1;
    g.expect.w = size.width; g.expect.h = size.height;
    g.expect.p.resize(size_t(size.width) * size_t(size.height));
    size_t at = 0;
    for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x) {
        u64 v[4] = { };
        for (int k = 0; k < ch; ++k) v[k] = (u64(rnd(1u << 30)) ^ (u64(rnd(1u << 30)) << 20)) & max;
        // channel order in memory
        int order[4];
        for (int k = 0; k < ch; ++k) order[k] = k;
        if (alpha && F) { for (int k = 0; k < ch; ++k) order[k] = (k + ch - 1) % ch; }
        if (G) std::reverse(order, order + ch);
        for (int k = 0; k < ch; ++k) {
            u64 c = v[order[k]];
            for (int d = 0; d < D; ++d) {
                int shift = (E == core::Endianness::big ? D - 1 - d : d) * B;
                u64 word = (c >> shift) & ((u64(1) << B) - 1);
                buf[at++] = W(word);
            }
        }
        unsigned short s[4];
        for (int k = 0; k < ch; ++k) s[k] = static_cast<unsigned short>(bits == 16 ? v[k] : v[k] * 257);
        bool lum = ch < 3;
        g.expect.at(x, y) = lum ? Px { { s[0], s[0], s[0], alpha ? s[1] : static_cast<unsigned short>(65535) } } : Px { { s[0], s[1], s[2], alpha ? s[3] : static_cast<unsigned short>(65535) } };
    }
    g.image = std::move(img);
}

// Any format; what it shows is taken from the image itself
template<class Img, class... A> void other_image(Gen& g, I::Size size, A&&... a)
{
    auto img = std::make_unique<Img>(size, std::forward<A>(a)...);
    I::Writer w(*img);
    for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x)
        w.put_pixel(I::Pos(x, y), I::Pixel_RGBA_8(std::array<I::int8_type, 4> { rnd8(), rnd8(), rnd8(), rnd8() }));
    g.image = std::move(img);
}

template<int B, class W, core::Endianness E, bool H> void subword_image(Gen& g, I::Size size)
{
    using Format = I::SubwordPixelFormat_Lum<W, B, 8 / B, E, H>;
    using Img = I::BufferedImage<Format>;
    auto img = std::make_unique<Img>(size);
    auto buf = img->get_buffer();
    for (auto& x : buf) x = W(0);
    g.expect.w = size.width; g.expect.h = size.height;
    g.expect.p.resize(size_t(size.width) * size_t(size.height));
    constexpr int per = 8 / B;
    size_t bits = 0;
    for (int y = 0; y < size.height; ++y) {
        for (int x = 0; x < size.width; ++x) {
            unsigned v = rnd(1u << B);
            size_t word = bits / per, pos = bits % per;
            size_t shift = (E == core::Endianness::big ? per - 1 - pos : pos) * B;
            buf[word] = W(buf[word] | W(v << shift));
            auto s = static_cast<unsigned short>(v * 65535 / ((1u << B) - 1));
            g.expect.at(x, y) = Px { { s, s, s, 65535 } };
            ++bits;
        }
        if (H) bits = (bits + per - 1) / per * per;
    }
    g.image = std::move(img);
}

Px colors_func(int x, int y) { return Px { { static_cast<unsigned short>((x * 7919 + y * 31) & 65535), static_cast<unsigned short>((x * 31 + y * 7919) & 65535), static_cast<unsigned short>((x * y * 17) & 65535), static_cast<unsigned short>(65535 - ((x + y) * 257 & 65535)) } }; }

void make_image(Gen& g)
{
    sim::NoFault nf; sim::NoPreempt np;
    I::Size size(1, 1);
    switch (choose(4)) {
        case 0: size = I::Size(1 + int(choose(9)), 1 + int(choose(9))); break;
        case 1: size = I::Size(1 + int(choose(40)), 1 + int(choose(40))); break;
        case 2: size = I::Size(1 + int(choose(3)), 1 + int(choose(300))); break;
        case 3: size = I::Size(1 + int(choose(300)), 1 + int(choose(8))); break;
    }
    u64 kind = choose(36);
    rnd_state = choose(1000000) + 1;
    trace("image of kind %d, %d x %d", int(kind), size.width, size.height);
    constexpr auto BE = core::Endianness::big, LE = core::Endianness::little;
    using Lum = I::ChannelSpec_Lum; using LumA = I::ChannelSpec_LumA; using RGB = I::ChannelSpec_RGB; using RGBA = I::ChannelSpec_RGBA;
    using B8 = I::int8_type; using B16 = I::int16_type; using U8 = unsigned char;
    bool known = true;
    switch (kind) {
        case 0: integer_image<RGB, B8, 8, B8, 1, BE, false, false>(g, size); break;
        case 1: integer_image<RGBA, B8, 8, B8, 1, BE, false, false>(g, size); break;
        case 2: integer_image<RGBA, B8, 8, B8, 1, BE, true, false>(g, size); break;
        case 3: integer_image<RGBA, B8, 8, B8, 1, BE, false, true>(g, size); break;
        case 4: integer_image<RGBA, B8, 8, B8, 1, BE, true, true>(g, size); break;
        case 5: integer_image<RGB, U8, 8, U8, 1, BE, false, true>(g, size); break;
        case 6: integer_image<Lum, B8, 8, B8, 1, BE, false, false>(g, size); break;
        case 7: integer_image<LumA, B8, 8, B8, 1, BE, false, false>(g, size); break;
        case 8: integer_image<LumA, U8, 8, U8, 1, BE, true, false>(g, size); break;
        case 9: integer_image<LumA, B8, 8, B8, 1, BE, false, true>(g, size); break;
        case 10: integer_image<RGBA, B8, 8, B16, 2, BE, false, false>(g, size); break;
        case 11: integer_image<RGBA, B8, 8, B16, 2, LE, true, false>(g, size); break;
        case 12: integer_image<RGB, B8, 8, B16, 2, LE, false, true>(g, size); break;
        case 13: integer_image<RGBA, U8, 8, B16, 2, BE, true, true>(g, size); break;
        case 14: integer_image<Lum, B8, 8, B16, 2, LE, false, false>(g, size); break;
        case 15: integer_image<LumA, B8, 8, B16, 2, BE, false, true>(g, size); break;
        case 16: integer_image<RGB, B16, 16, B16, 1, BE, false, false>(g, size); break;
        case 17: integer_image<RGBA, B16, 16, B16, 1, LE, true, false>(g, size); break;
        case 18: integer_image<Lum, B16, 16, B16, 1, BE, false, false>(g, size); break;
        case 19: subword_image<1, B8, BE, true>(g, size); break;
        case 20: subword_image<2, U8, LE, true>(g, size); break;
        case 21: subword_image<4, B8, LE, false>(g, size); break;
        case 22: subword_image<1, B8, LE, false>(g, size); break;
        case 23: subword_image<2, U8, BE, false>(g, size); break;
        case 24: subword_image<4, B8, BE, true>(g, size); break;
        case 25: integer_image<RGB, short, 8, B8, 1, BE, false, false>(g, size); break; // wide words
        case 26: integer_image<LumA, int, 8, B16, 2, BE, false, false>(g, size); break;
        case 27: subword_image<2, int, BE, true>(g, size); break;
        case 28: other_image<I::BufferedImage<I::PackedPixelFormat_RGB<I::int16_type, I::ChannelPacking_565>>>(g, size); known = false; break;
        case 29: other_image<I::BufferedImage<I::PackedPixelFormat_RGBA<I::int32_type, I::ChannelPacking_8888>>>(g, size); known = false; break;
        case 30: other_image<I::BufferedImage<I::PackedPixelFormat_RGB<I::int8_type, I::ChannelPacking_332>>>(g, size); known = false; break;
        case 31: {
            auto f = [](I::Pos p) { Px q = colors_func(p.x, p.y); return I::Pixel_RGBA_16(std::array<I::int16_type, 4> { I::int16_type(q.c[0]), I::int16_type(q.c[1]), I::int16_type(q.c[2]), I::int16_type(q.c[3]) }); };
            g.image = std::make_unique<I::ComputedImage<I::RGBA_16, decltype(f)>>(size, f);
            g.expect.w = size.width; g.expect.h = size.height;
            g.expect.p.resize(size_t(size.width) * size_t(size.height));
            for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x) g.expect.at(x, y) = colors_func(x, y);
            break;
        }
        case 32: {
            auto f = [](I::Pos p) { std::array<I::float_type, 4> c { I::float_type((p.x * 5 + p.y) % 100) / 100, I::float_type(p.x % 10) / 10, I::float_type(p.y % 10) / 10, 1 }; return I::Pixel_RGBA_F(c); };
            g.image = std::make_unique<I::ComputedImage<I::RGBA_F, decltype(f)>>(size, f);
            known = false;
            break;
        }
        case 33: {
            std::vector<I::Pixel_RGB_8> colors;
            for (int i = 0; i < 16; ++i) colors.push_back(I::Pixel_RGB_8(std::array<I::int8_type, 3> { rnd8(), rnd8(), rnd8() }));
            auto owned = std::make_unique<I::Pixel_RGB_8[]>(16);
            for (int i = 0; i < 16; ++i) owned[i] = colors[size_t(i)];
            auto pal = std::make_shared<I::PaletteImage_RGB_8>(std::move(owned), 16);
            g.keep = pal;
            using Format = I::IndexedPixelFormat_4<>;
            auto img = std::make_unique<I::BufferedImage<Format>>(size, Format(*pal));
            for (auto& x : img->get_buffer()) x = std::remove_reference_t<decltype(x)>(rnd(256));
            g.image = std::move(img);
            known = false;
            break;
        }
        case 34: {
            auto owned = std::make_unique<I::Pixel_LumA_8[]>(256);
            for (int i = 0; i < 256; ++i) owned[i] = I::Pixel_LumA_8(std::array<I::int8_type, 2> { rnd8(), rnd8() });
            auto pal = std::make_shared<I::PaletteImage_LumA_8>(std::move(owned), 256);
            g.keep = pal;
            using Format = I::IndexedPixelFormat_8<>;
            auto img = std::make_unique<I::BufferedImage<Format>>(size, Format(*pal));
            for (auto& x : img->get_buffer()) x = std::remove_reference_t<decltype(x)>(rnd(256));
            g.image = std::move(img);
            known = false;
            break;
        }
        case 35: {
            auto block = std::make_shared<I::PixelBlock<I::RGB_8>>(size);
            for (auto& x : block->buffer()) x = std::remove_reference_t<decltype(x)>(rnd(256));
            g.keep = block;
            g.image = std::make_unique<I::TrayImage<I::CompRepr::int8>>(*block);
            known = false;
            break;
        }
    }
    if (!known) {
        // The stored precision is 8 or 16 bits
        auto info = g.image->get_transfer_info();
        if (info.bit_depth > 8) read_pixels(*g.image, g.expect);
        else {
            g.expect.w = size.width; g.expect.h = size.height;
            g.expect.p.resize(size_t(size.width) * size_t(size.height));
            I::PixelBlock<I::RGBA_8> block(size);
            I::Reader reader(*g.image);
            reader.get_block(I::Pos(0, 0), block);
            for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x) {
                auto p = block.tray()(x, y);
                for (int k = 0; k < 4; ++k) g.expect.at(x, y).c[k] = static_cast<unsigned short>(static_cast<unsigned char>(p[k]) * 257);
            }
        }
    }
}

struct SaveSetup {
    std::optional<Log> log;
    Tracker tracker;
    bool use_tracker = false, interlace = false;
    I::SaveConfig config;
    I::PNGSaveConfig png_config;
    I::FileFormat::SpecialSaveConfigRegistry special;
    std::vector<char> buffer;
    void make()
    {
        if (choose(3) == 1) { log.emplace(); config.logger = &log->logger; }
        if (choose(2)) {
            use_tracker = true;
            config.tracker = &tracker;
            if (choose(3) == 1) tracker.interrupt_at = 1 + int(choose(8));
        }
        if (choose(3) == 1) { interlace = true; png_config.use_adam7_interlacing = true; special.register_(static_cast<const I::PNGSaveConfig&>(png_config)); config.special = &special; }
        switch (choose(4)) {
            case 0: break;
            case 1: config.write_buffer_size = 0; break;
            case 2: config.write_buffer_size = 1 + choose(60); break;
            case 3: buffer.resize(1 + choose(600)); config.write_buffer = buffer; break;
        }
    }
};

void check_saved(const std::string& data, const Gen& g, bool interlace, const char* where)
{
    sim::NoFault nf;
    Pixels q;
    PngInfo info;
    std::string err = reference_decode(data, q, info);
    if (!err.empty()) fail("incomplete", "Saving succeeded, but %s does not hold a complete image: %s", where, err.c_str());
    if (info.consumed != data.size()) fail("trailing", "Saving succeeded, but %s holds %zu bytes after the image", where, data.size() - info.consumed);
    std::string d = diff(q, g.expect);
    if (!d.empty()) fail("pixels", "The saved image is wrong: %s", d.c_str());
    if ((info.interlace != 0) != interlace) fail("interlace", "The saved image is %sinterlaced", info.interlace ? "" : "not ");
}

} // namespace

SIM_SCENARIO("C21", "file", 4, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        Gen g;
        make_image(g);
        std::string path = choose(4) == 1 ? "/sim/a.x" : "/sim/a.png";
        std::string old;
        bool exists = choose(2);
        if (exists) { old = "previous contents " + std::string(choose(3) == 1 ? 5000 : 10, 'p'); sim::fs::put(path, old); }
        u64 n = 1 + choose(3);
        for (u64 i = 0; i < n; ++i) {
            SaveSetup s;
            s.make();
            static const char* ff[] = { "", "png", "nope" };
            s.config.file_format = ff[choose(8) < 6 ? (path == "/sim/a.png" ? choose(2) : 1) : choose(3)];
            bool known = s.config.file_format == "png" || (s.config.file_format.empty() && path == "/sim/a.png");
            sim::fs::config.eintr = choose(2) ? 3 : 0;
            sim::fs::config.short_io = choose(2) ? 2 : 0;
            bool io = choose(3) == 1;
            sim::fs::config.io_error = io ? 2 + choose(10) : 0;
            sim::fs::config.open_error = choose(6) == 1 ? 2 : 0;
            if (choose(5) == 1) sim::fs::config.disk_capacity = choose(600);
            auto errs = sim::fs::n_errors;
            bool af = choose(4) == 1;
            u64 at = af ? sim::range(1, 60) : 0;
            bool persistent = af && choose(4) == 1;
            Outcome o;
            std::filesystem::path p2(path);
            trace("save %s as '%s'", path.c_str(), std::string(s.config.file_format).c_str());
            if (af) sim::fail_alloc(at, persistent);
            run(o, [&](std::error_code& ec) { return I::try_save(*g.image, p2, loc(), s.config, ec); });
            sim::stop_alloc_faults();
            bool fired = af && sim::alloc_fault_fired();
            sim::fs::config.io_error = sim::fs::config.open_error = sim::fs::config.eintr = sim::fs::config.short_io = 0;
            sim::fs::config.disk_capacity = ~u64(0);
            bool failed = sim::fs::n_errors != errs;
            int err = sim::fs::last_error;
            if (sim::fs::num_open() != 0) fail("descriptor", "The file was left open");
            if (o.ok) {
                if (o.ec != sentinel_ec()) fail("ec", "A successful save changed the error code");
                if (!known) fail("format", "Saving succeeded although the file format is not available");
                check_saved(sim::fs::get(path), g, s.interlace, "the file");
                if (s.use_tracker) s.tracker.check_complete();
                if (s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
            }
            else {
                bool threw = o.alloc || o.interrupted || o.other || o.source_threw;
                if (!threw && o.ec == sentinel_ec()) fail("ec", "A failed save did not set the error code");
                if (o.interrupted != s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
                if ((o.alloc || o.other) && !fired) fail("exception", "Saving threw although no allocation failed: %s", o.what.c_str());
                if (!known && !fired) {
                    auto e = I::make_error_code(s.config.file_format.empty() ? I::Error::file_format_detection_failed : I::Error::file_format_unavailable);
                    if (o.ec != e) fail("ec", "A missing file format was reported as '%s'", o.ec.message().c_str());
                    if (i == 0 && (sim::fs::exists(path) != exists || (exists && sim::fs::get(path) != old))) fail("touched", "The file was touched although the file format is not available");
                }
                else if (!fired && !failed && !o.interrupted) fail("spurious", "Saving failed although nothing below failed: %s %s", o.ec.message().c_str(), o.what.c_str());
                else if (failed && !fired && !o.interrupted && o.ec != std::error_code(err, std::generic_category()) && o.ec != std::error_code(err, std::system_category()))
                    fail("cause", "A failing system call (%s) was reported as '%s'", strerror(err), o.ec.message().c_str());
            }
            sim::state(sim::mix(u64(o.ok) | u64(o.alloc) << 1 | u64(o.interrupted) << 2 | u64(failed) << 3 | u64(s.interlace) << 4, u64(i)));
        }
    }
}

SIM_SCENARIO("C21", "stream", 3, sim::f_leakcheck | sim::f_faults)
{
    prewarm();
    {
        Gen g;
        make_image(g);
        PieceSink sink;
        { sim::NoFault nf; sink.data.reserve(1 << 18); }
        SaveSetup s;
        s.make();
        bool err = choose(2);
        if (err) { sink.fail_at = sim::range(0, 4000); sink.throws = choose(4) == 1; static const int errs[] = { EIO, ENOSPC, EPIPE }; sink.error = std::error_code(errs[choose(3)], std::generic_category()); }
        I::Output output(sink);
        static const char* mimes[] = { "image/png", "", "image/x" };
        static const char* exts[] = { ".png", "", ".x" };
        output.mime_type = mimes[choose(3)];
        output.filename_extension = exts[choose(3)];
        s.config.file_format = choose(3) == 1 ? "png" : "";
        bool known = s.config.file_format == "png" || output.mime_type == "image/png" || output.filename_extension == ".png";
        bool af = choose(4) == 1;
        u64 at = af ? sim::range(1, 60) : 0;
        bool persistent = af && choose(4) == 1;
        Outcome o;
        if (af) sim::fail_alloc(at, persistent);
        run(o, [&](std::error_code& ec) { return I::try_save_a(*g.image, output, loc(), s.config, ec); });
        sim::stop_alloc_faults();
        bool fired = af && sim::alloc_fault_fired();
        if (o.ok) {
            if (o.ec != sentinel_ec()) fail("ec", "A successful save changed the error code");
            if (sink.failed) fail("swallowed", "The failure of the sink was not reported");
            check_saved(sink.data, g, s.interlace, "the sink");
            if (s.use_tracker) s.tracker.check_complete();
            if (s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
        }
        else {
            bool threw = o.alloc || o.interrupted || o.other || o.source_threw;
            if (!threw && o.ec == sentinel_ec()) fail("ec", "A failed save did not set the error code");
            if (o.interrupted != s.tracker.interrupted) fail("tracker", "The exception of the progress tracker was lost");
            if ((o.alloc || o.other) && !fired) fail("exception", "Saving threw although no allocation failed: %s", o.what.c_str());
            if (o.source_threw != (sink.failed && sink.throws) && !fired) fail("cause", "The exception of the sink was lost");
            if (!known && !fired) { if (o.ec != I::make_error_code(I::Error::file_format_detection_failed)) fail("ec", "A missing file format was reported as '%s'", o.ec.message().c_str()); }
            else if (!fired && !sink.failed && !o.interrupted) fail("spurious", "Saving failed although nothing was wrong: %s %s", o.ec.message().c_str(), o.what.c_str());
            else if (sink.failed && !sink.throws && !fired && !o.interrupted && o.ec != sink.error) fail("cause", "A failing sink ('%s') was reported as '%s'", sink.error.message().c_str(), o.ec.message().c_str());
        }
        sim::state(sim::mix(u64(o.ok) | u64(o.alloc) << 1 | u64(o.interrupted) << 2 | u64(sink.failed) << 3 | u64(s.interlace) << 4, u64(sink.data.size())));
    }
}

static sim::Info info_c20("C20",
    "A loaded image has exactly the pixels of the stored one, for every split of the reads; or loading fails with the cause, and the destination unchanged.",
    { "image loading, detection, registry, PNG file format, sources, files", "libpng and zlib (allocating through the simulator)" },
    { "POSIX files, sources, file formats other than PNG" });
static sim::Info info_c21("C21",
    "A saved file that is reported as good decodes (with plain libpng) to exactly the pixels of the image; every failure is reported with its cause.",
    { "image saving, PNG file format, pixel formats, sinks, files", "libpng and zlib (allocating through the simulator)" },
    { "POSIX files, sinks" });
