HARNESSES = {
    "file": dict(sources=["file.cpp"], archon=["core"]),
    "guard": dict(stores=True, sources=["guard.cpp"], archon=["core"]),
    "text": dict(sources=["text.cpp"], archon=["core"]),
    "codec": dict(sources=["codec.cpp"], archon=["core"]),
    "container": dict(sources=["container.cpp"], archon=["core"]),
    "memstream": dict(sources=["memstream.cpp"], archon=["core"]),
    "log": dict(stores=True, sources=["log.cpp"], archon=["log", "core"]),
    "image": dict(sources=["image.cpp"], archon=["image", "log", "util", "core"], simlibs=["libpng16.a", "libz.a"]),
    "render": dict(sources=["render.cpp"], archon=["render", "display", "image", "math", "util", "log", "core"], libs="-lpng -lSDL2 -lX11 -lXrandr -lXrender -lXext"),
    "display": dict(sources=["display.cpp", "display_sdl.cpp", "display_x11.cpp"], archon=["display", "image", "math", "util", "log", "core"], libs="-lpng -lX11 -lXrandr -lXrender -lXext -lGL", wraps=["poll"], flags="-I/usr/include/SDL2 -D_REENTRANT"),
    "font": dict(sources=["font.cpp"], archon=["font", "image", "log", "util", "core"], simlibs=["libfreetype.a", "libbrotlidec.a", "libbrotlicommon.a", "libbz2.a", "libpng16.a", "libz.a"],
                 wraps=["mmap", "munmap"] + ["FT_" + f for f in "New_Face Open_Face New_Memory_Face Done_Face Init_FreeType Load_Glyph Load_Char Set_Char_Size Request_Size Select_Size Get_Kerning Outline_Render".split()]),
    "runner": dict(stores=True, sources=["runner.cpp"], archon=["check", "log", "core"], wraps=["get_nprocs", "uname", "getcwd", "realpath"]),
    "testfiles": dict(stores=True, sources=["testfiles.cpp"], archon=["check", "log", "core"], wraps=["get_nprocs"]),
}


def chk(h, technique, note, q=20, t=400, **k):
    return dict(harness=h, technique=technique, note=note, quick_s=q, thorough_s=t, **k)


CHECKS = {
    "C01": chk("file", "histories of file operations on a simulated file system compared with a byte-file model",
               "Real core::File code on a simulated POSIX file layer with EINTR, short transfers, EIO, ENOSPC, open, seek and stat failures."),
    "C02": chk("file", "whole-file operations on a simulated file system with failing calls and allocations",
               "Real core::File code on a simulated POSIX file layer; every failure kind of the layer and allocation failures."),
    "C03": chk("file", "histories of opens, moves, closes over a simulated descriptor table",
               "Real core::File objects; the simulator's descriptor table decides leaks, double closes and uses after close."),
    "C04": chk("file", "seeded schedules of threads over simulated flock with signals and failures",
               "Real core::File code; threads are scheduled by the simulator with preemption between basic blocks."),
    "C05": chk("file", "read, rewind, write and flush histories over faulty simulated streams",
               "Real source and sink classes; the simulator splits, interrupts and fails the transfers below."),
    "C06": chk("text", "histories of writes, retries and flushes on a simulated file system compared with a reference encoder",
               "Real text file, buffered text file and stream buffer classes on a simulated POSIX file layer with short transfers, EINTR, EIO and ENOSPC; a state dependent codecvt facet is a stub."),
    "C07": chk("text", "histories of reads on a simulated file system compared with a reference decoder",
               "As C06, for reading; files with invalid, truncated and growing contents."),
    "C08": chk("text", "histories of mixed operations and reopening compared with a model of position and contents",
               "As C06, with every operation of the interface and two files."),
    "C09": chk("codec", "seeded schedules of input pieces and output room for every incremental codec, compared with reference coders",
               "Real codecs driven step by step; the simulator decides every piece size, amount of room and allocation failure."),
    "C16": chk("container", "histories of vector operations with failing allocations and constructors compared with a model",
               "Real core::Vector with tracked element types (copyable, copy-only, move-only, trivial) and static capacities."),
    "C17": chk("container", "histories of queue operations with failing allocations and constructors compared with a model",
               "Real core::Deque with tracked element types; the histories move the contents around the circular storage."),
    "C18": chk("container", "histories of buffer operations with failing allocations and unrepresentable sizes compared with a model",
               "Real buffer classes; element types are trivial."),
    "C19": chk("container", "histories of map and set operations with failing allocations, constructors and comparisons compared with a model",
               "Real flat maps and sets with tracked keys and values."),
    "C29": chk("container", "histories of slab and uninitialised memory operations with failing allocations and constructors",
               "Real core::Slab and core::uninit_*() with tracked element types; order of destruction recorded."),
    "C28": chk("memstream", "histories of stream operations with failing allocations and full buffers compared with a model",
               "Real memory streams, formatters and composition helpers for char and wchar_t; what is written is compared with std::ostringstream, what is read with std::istringstream."),
    "C10": chk("log", "seeded schedules of threads logging through generated trees of loggers, compared with a model of the routes",
               "Real loggers; threads, mutexes, clocks and files under the simulator with preemption between basic blocks; EINTR, short writes, failing writes and allocations."),
    "C11": chk("log", "histories of clock readings, jumps and failures compared with exact arithmetic and an independent calendar",
               "Real Timer, timestamp formatter and timestamp loggers on simulated clocks."),
    "C20": chk("image", "loads of generated PNG files over faulty simulated files and streams, compared with the pixels they were made from",
               "Real image loading, detection and PNG code with libpng and zlib, which allocate through the simulator; failing, short and interrupted reads, truncated and corrupted data, failing allocations, interrupting progress trackers."),
    "C21": chk("image", "saves of generated images to faulty simulated files and streams, decoded with plain libpng",
               "Real image saving and PNG code with libpng and zlib, which allocate through the simulator; failing, short and interrupted writes, full disks, failing allocations, interrupting progress trackers."),
    "C26": chk("render", "seeded timings of events, frames and calls against the real render engine, compared with a model of the frame schedule and of what must be rendered",
               "Real render engine, key bindings and trackball; the display connection, OpenGL, the clock and the scene are simulated."),
    "C27": chk("render", "histories of key, button and focus events and bindings compared with a model of the documented bindings",
               "As C26; key handlers call back into the engine."),
    "C24": chk("display", "seeded histories of platform events, deadlines, interruptions, windows and faults against the real display implementations, compared with a model of the documented event contract",
               "Real display implementations; the SDL library, Xlib and X server, and the clock are simulated; failing allocations and calls, late and early timeouts, throwing handlers."),
    "C25": chk("display", "seeded histories of platform events over months of simulated time, compared with exact arithmetic",
               "As C24; 32-bit time stamps wrap around, events are processed late, pauses of up to 120 days."),
    "C30": chk("display", "seeded histories of windows, textures, images, resizes and faults against the real display implementations, compared with a model of the pixels that must be shown",
               "Real display implementations and image library; the SDL library, Xlib and X server are simulated, with visuals and colormaps of all classes; failing allocations and calls."),
    "C31": chk("display", "seeded histories of screen configuration changes during event processing and queries, compared with the simulated server's configuration",
               "Real X11-based display implementation; Xlib, XRandR and X server are simulated; the configuration changes between requests, requests fail, EDID data is short, damaged or unreadable."),
    "C22": chk("font", "seeded histories of size selections, glyph loads and renderings with failing I/O, allocations and FreeType calls, compared with plain FreeType",
               "Real FreeType-based loader and face and the real FreeType library over simulated files and mappings; fonts with generated tables (fixed sizes, odd metrics) derived from the bundled ones. Pixels of fixed-size bitmaps are not covered."),
    "C32": chk("font", "seeded histories of regenerations with failing source faces, I/O and allocations; the result is loaded and compared with the source",
               "Real regeneration, rectangle packer, PNG and text file code, and loader; sources are generated faces (a stub) and real FreeType faces."),
    "C23": chk("font", "seeded histories of loads, damages, faults and threads against the real font loaders, compared with a model of the font and with plain FreeType",
               "Real font loaders and image library with FreeType, libpng and zlib, which allocate through the simulator; damaged specifications and images, failing, short and interrupted reads, failing allocations, threads scheduled with preemption between basic blocks."),
    "C12": chk("runner", "seeded schedules of the real test runner over generated test suites",
               "Real archon::check runner; threads, mutexes, clocks under the simulated scheduler with preemption between basic blocks; thread creation failures."),
    "C13": chk("runner", "seeded schedules of the real test runner, totals compared with what the tests did",
               "As C12; also checks made concurrently by threads that tests spawn."),
    "C14": chk("runner", "seeded schedules of the real test runner, reporter history checked",
               "As C12; histories recorded by reporters, XML and log output parsed."),
    "C33": chk("testfiles", "seeded schedules and file system faults against the real test runner and its test file guards, compared with a model of the files",
               "As C12, with tests that use test file and directory guards; directories in the simulated file system, failures of creation, removal and listing, short and interrupted writes."),
    "C34": chk("runner", "seeded command lines, suites, schedules and faults against the real test command, compared with what the tests did",
               "As C12, with the whole test command: command line processing, default test list, filter, order, path mapping, output to simulated standard streams, log files and the XML file; failures of the file layer and of thread creation."),
    "C15": chk("guard", "seeded schedules and histories of thread guards",
               "Real ThreadGuard over real std::thread objects scheduled by the simulator, with preemption between basic blocks and thread creation failures."),
}
_pure = "A pure function of its arguments: no schedule, time, I/O, fault or multi-party behaviour for a simulation to control; "
NOT_APPLICABLE = {
    "D01": _pure + "command line processing is in-memory parsing.",
    "D02": _pure + "pixel and colour conversion is arithmetic.",
    "D03": _pure + "value formatting and parsing is in-memory text processing.",
    "D04": _pure + "integer conversions are arithmetic.",
    "D05": _pure + "the geometric structures are in-memory computations.",
}
