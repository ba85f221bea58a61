#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for wording is this file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    if len(title) > 80: print('TOO LONG', id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

S = "src/archon/"

prop("C01", "File transfers are exact under interrupts, short transfers, and errors",
 "For every sequence of opens, reads, writes, seeks, and position queries on a file object, in every access, creation, and write mode, the bytes delivered and the bytes stored are those of an ideal byte file, and every reported byte count is exactly the number of bytes transferred, no matter where the operating system interrupts a call by a signal or transfers only a part. "
 "Full reads and writes continue until everything is transferred or the end of input or a real failure is reached; a signal interruption is never reported as a failure or as end of file by the auto-resuming operations, and is reported as an interruption, with nothing transferred, by the single-attempt ones. "
 "A failing system call is reported with the error code of the operating system, a success leaves the error code untouched, and a failed chunk operation leaves the count of single-attempt operations untouched and sets the count of full operations to what was transferred before the failure.",
 ["inputs", "fault_sequences", "histories"],
 "Every operation history over several file objects and paths, and every sequence of EINTR results, short reads and writes, EIO, ENOSPC, EACCES, EMFILE and similar failures injected at any system call.",
 "The tests write and read a handful of small files on a healthy local file system, where no call is interrupted, transfers are never short, and no call fails.",
 [S+"core/file.hpp", S+"core/file.cpp"],
 [("resumption loops around single system calls", "File::try_read(), File::try_write(), File::try_read_some(), File::try_write_some() in file.hpp/file.cpp"),
  ("open flag translation", "File::do_try_open() in file.cpp")],
 observe=["open/read/write/lseek/fstat system calls", "return value, byte count, error code"])

prop("C02", "Whole-file load, save, and touch are all-or-error",
 "Loading a file either yields exactly the bytes of the file or reports a failure with the error of the operating system and leaves the destination string unchanged; saving reports success only when the file exists with exactly the given bytes, truncated and overwritten if it already existed; touching a file creates it when missing, keeps the contents of an existing file, and updates its modification time to the current time. "
 "This holds for every file size and contents, wherever calls are interrupted, transfer short, or fail, and when memory runs out while loading. No open descriptor is left behind in any of these cases.",
 ["inputs", "fault_sequences"],
 "Every file size from empty to many times the internal buffer size, every split of the transfers, and every injected failure of a system call or an allocation.",
 "The tests load and save a few small strings; the buffer growth boundaries, partial transfers, and failures in the middle are not reached.",
 [S+"core/file.cpp", S+"core/file.hpp"],
 [("load loop with growing buffer", "File::try_load() in file.cpp"), ("save and touch", "File::try_save(), File::try_touch() in file.cpp")],
 observe=["simulated file contents and modification time", "destination string", "open descriptor table"])

prop("C03", "Each file descriptor has exactly one owning file object and is closed once",
 "Through every history of opening (successfully or not), reopening, moving, move-assigning (also onto itself), closing, and destroying file objects, each descriptor obtained from the operating system is closed exactly once, is never used after that, and never leaks. "
 "A file object that was opened successfully refers to that file until it is closed, reopened, or moved from; an open that fails, for whatever reason and in whichever of its steps (a directory counts as a failure), leaves nothing of its own behind: the object is empty or still refers to the file it referred to before. "
 "Descriptors of the standard streams are never closed implicitly, no matter which file object has come to refer to them through moves.",
 ["histories", "fault_sequences"],
 "Every history of open, reopen, move, close, destroy over several file objects, with open failing at any point and in any of its system calls.",
 "The tests open and close files in simple sequences; failures after the descriptor was obtained, and moves of file objects in unusual states, are not exercised and a leaked descriptor is invisible to them.",
 [S+"core/file.hpp", S+"core/file.cpp"],
 [("ownership transfer", "File::adopt(), File::steal_from(), File::implicit_close(), File::close() in file.hpp"),
  ("directory check after open", "File::try_open() in file.cpp")],
 state=[("m_handle", "descriptor, or null when empty", "file.hpp"), ("m_no_implicit_close", "set for standard streams", "file.hpp")],
 observe=["simulated descriptor table", "is_open()"])

prop("C04", "File locks exclude each other and survive signals",
 "While one file object holds an exclusive lock on a file, no other file object, in this process or another, holds any lock on it, and shared locks coexist only with shared locks; a blocking lock request returns only when the lock is held, a non-blocking one returns whether it was obtained and never blocks. "
 "A signal that interrupts a lock or unlock request neither makes the request fail nor makes it report success without effect, and any other failure is reported as a system error. "
 "Unlocking and closing release the lock, so every waiter that can be granted proceeds once the holders are done.",
 ["schedules", "fault_sequences"],
 "Every interleaving of threads using distinct file objects on the same file, with signals interrupting any lock or unlock call and lock calls failing.",
 "The tests check mutual exclusion with real threads under whatever schedule happens; interruptions and lock failures never occur in them.",
 [S+"core/file.hpp", S+"core/file.cpp"],
 [("flock retry loops", "File::do_lock(), File::do_unlock() in file.cpp")],
 observe=["flock calls on the simulated file system", "lock ownership table of the simulator"])

prop("C05", "Sources and sinks deliver the same bytes under any chunking, rewind, and retry",
 "The bytes obtained from any source (file, buffered file, or rewindable) are the bytes of the underlying stream, in order, each exactly once per pass, however the underlying reads are split and however the caller sizes its buffers; a full read is short only at end of input or on failure, and a read that failed can be retried without loss or duplication. "
 "A rewindable source replays exactly the bytes already read after each rewind, until released, and then continues with the rest of the stream. "
 "Bytes written to a sink (file or buffered file) reach the file in order, each exactly once, when a flush succeeds, also when earlier writes or flushes failed part-way and were retried from the reported position.",
 ["inputs", "fault_sequences", "histories"],
 "Every stream contents, buffer size, sequence of read, rewind, release, write and flush calls, and every pattern of short transfers and injected failures in the stream below.",
 "The image and codec tests read healthy in-memory or small files through these classes; rewinds at odd positions, failures in the middle and retries are not tested at all.",
 [S+"core/source.hpp", S+"core/source.cpp", S+"core/sink.hpp", S+"core/file_source.cpp", S+"core/file_sink.cpp", S+"core/rewindable_source.hpp", S+"core/rewindable_source.cpp"],
 [("read-until-full loop", "Source::try_read() in source.cpp"), ("replay buffer", "RewindableSource in rewindable_source.hpp/.cpp"),
  ("buffering with partial flush", "BufferedFileSink in file_sink.cpp"), ("read buffering", "BufferedFileSource in file_source.cpp")],
 observe=["simulated file contents", "bytes handed to the caller"])

prop("C06", "Text written through a text file arrives exactly once and in order",
 "Whatever sequence of writes, flushes, and failed operations that are retried from the reported position, once a flush succeeds the file holds exactly the encoding of the written characters, in order, each exactly once, with every newline represented by the newline sequence of the chosen newline codec and nothing else altered. "
 "The reported number of consumed characters is always exact, whether the operation succeeded or failed (a buffered file may accept a character that cannot be encoded, and report that when flushing), for every internal buffer size and for every way the operating system splits, interrupts, or fails the underlying writes. "
 "This holds for the plain, the buffered, and the stream-based interface, and for every character type.",
 ["inputs", "fault_sequences", "histories"],
 "Every text, buffer size, character type, newline codec, split into write calls, and sequence of injected short writes, interrupts, and transient write failures.",
 "The tests write short texts through default sized buffers to a healthy file, and never continue after a failed write.",
 [S+"core/text_file_impl.hpp", S+"core/text_file.hpp", S+"core/buffered_text_file.hpp", S+"core/text_file_stream.hpp", S+"core/impl"],
 [("two level buffering with partial progress", "TextFileImpl2::write()/flush(), PrimPosixTextFileImpl, PrimWindowsTextFileImpl in core/impl"),
  ("streambuf on top", "TextFileStream in text_file_stream.hpp")],
 observe=["simulated file contents", "reported character counts"])

prop("C07", "Text read from a file is independent of chunking, interrupts, transient errors",
 "The characters delivered by any sequence of reads of a text file are exactly the decoding of the bytes of the file with each newline sequence delivered as one newline character, independent of internal buffer sizes, of the sizes of the caller's buffers, and of how the operating system splits or interrupts the underlying reads. "
 "A failed read reports the failure and the exact number of characters delivered before it, and reading can be continued afterwards with no character lost or repeated; end of file is reported exactly at the end of the contents, also when it arrives in the middle of a read. "
 "Reading lines yields the same lines under the same freedom, except that a failed attempt to read a line may lose the part of that line that was already extracted (never anything beyond it).",
 ["inputs", "fault_sequences", "histories"],
 "Every file contents including invalid and truncated character encodings, every buffer size, and every pattern of short reads, interrupts, and transient failures.",
 "The tests read short well-formed files with default buffer sizes, where each underlying read returns everything at once.",
 [S+"core/text_file_impl.hpp", S+"core/text_file.hpp", S+"core/buffered_text_file.hpp", S+"core/text_file_stream.hpp", S+"core/impl"],
 [("incremental decoding into a ring of buffers", "TextFileImpl1/TextFileImpl2::read() in core/impl"), ("line extraction", "text_file_stream / streambuf")],
 observe=["delivered characters and counts"])

prop("C08", "Text file positions, mode switches, and reopening never corrupt data",
 "A position obtained from a text file and later sought to makes reading resume with exactly the characters that followed when the position was taken; switching between reading and writing, with the discards, flushes, and seeks the interface performs or requires, never writes stale data, never skips or repeats characters, and never overwrites bytes other than those at the position of the write. "
 "Closing and opening another file through the same object starts from a clean state: nothing buffered for the old file is read from or written to the new one. "
 "When an operation inside such a switch fails, the failure is reported and a later retry completes it.",
 ["histories", "inputs", "fault_sequences"],
 "Every history of reads, writes, position queries, seeks, flushes, discards, closes and reopens, and every injected failure in them.",
 "The tests check one or two seeks per test on tiny files; histories that switch modes repeatedly in the middle of buffered data, or reopen a dirty file, are not sampled.",
 [S+"core/text_file.hpp", S+"core/buffered_text_file.hpp", S+"core/text_file_impl.hpp", S+"core/impl"],
 [("mode tracking", "GenericTextFile (m_reading / m_writing) in text_file.hpp"), ("tell by re-simulating the decoder", "TextFileImpl2::tell()/siphon in core/impl")],
 observe=["simulated file contents", "delivered characters"])

prop("C09", "Incremental codecs give the same result for every chunking",
 "Encoding or decoding a stream piece by piece through the incremental codecs (base64, newline, and character codecs) produces exactly the output, and the same error at the same place, as processing it in one piece, for every way of splitting the input and the output space. "
 "Each step reports exactly how much it consumed and produced, never consumes or produces more than it was offered, always makes progress when there is room and input, and can be resumed after any stop. "
 "Decoding what was encoded gives back the original.",
 ["inputs", "schedules"],
 "Every input, every sequence of input chunk sizes and output buffer sizes, including empty and one-unit ones, and every stop and resume point.",
 "The tests process whole strings, or split them at one place; the interplay of an arbitrary input split with an arbitrary output split is not reachable by a handful of cases.",
 [S+"core/base64.hpp", S+"core/base64.cpp", S+"core/newline_codec.hpp", S+"core/newline_codec.cpp", S+"core/char_codec.hpp", S+"core/text_codec_impl.hpp"],
 [("resumable codec state", "Base64Encoder/Base64Decoder in base64.cpp, newline codecs in newline_codec.hpp, CharCodec in char_codec.hpp")],
 observe=["output so far", "consumed and produced counts", "codec state"])

prop("C10", "Concurrent log messages are written whole, once, and in order",
 "Under every interleaving of threads logging through loggers that share one root, every message that passes the log limit is written exactly once, as one uninterrupted sequence of lines each carrying the complete prefix, and messages of one thread appear in the order in which that thread logged them; no message of a suppressed level is written. "
 "Each message is handed to every branch of a duplicating logger, and a change of the log limit applies to all messages logged after it in the same thread. "
 "A failing write to the underlying file never makes text appear that is out of order or was not logged. "
 "No interleaving deadlocks.",
 ["schedules", "inputs"],
 "Every interleaving of several threads logging multi-line messages through prefix, limit, channel, timestamp, and duplicating loggers on top of a stream or file.",
 "The tests log from a single thread.",
 [S+"log/logger.hpp", S+"log/stream_logger.hpp", S+"log/prefix_logger.hpp", S+"log/duplicating_logger.hpp", S+"log/limit_logger.hpp", S+"log/channel_logger.hpp", S+"log/timestamp_logger.hpp", S+"log/impl"],
 [("root mutex around formatting and output", "StreamLogger / FileLogger in stream_logger.hpp"), ("prefix chain", "PrefixLogger in prefix_logger.hpp")],
 observe=["bytes arriving at the output stream"])

prop("C11", "Elapsed-time measurement and time stamps survive clock jumps",
 "A timer never reports a negative elapsed time and, whenever the chosen clock advances normally, reports exactly the time that passed between creation or reset and the query, for every clock reading sequence including backward jumps and adjustments. "
 "A time stamp written in front of a log message denotes the simulated instant at which the message was logged, to the configured precision and in the configured time zone, including instants just before and after second boundaries, before the epoch, and far in the future. "
 "A failing clock is reported as a system error rather than as a wrong time.",
 ["fault_sequences", "histories"],
 "Every sequence of clock readings, with jumps in both directions, sub-second boundaries and failing reads.",
 "The tests read the real clock, which neither jumps nor fails, and can only check that something plausible comes out.",
 [S+"core/timer.hpp", S+"core/timer.cpp", S+"core/timestamp_formatter.hpp", S+"core/time.cpp", S+"log/timestamp_logger.hpp"],
 [("clamping of negative differences", "Timer::get_elapsed() and calc in timer.cpp"), ("sub-second split with floor semantics", "TimestampFormatter in timestamp_formatter.hpp")],
 observe=["reported elapsed time", "formatted time stamp"])

prop("C12", "The test runner executes every selected test exactly once per repetition",
 "For every selection, repetition count, number of threads, and interleaving, the test runner executes each selected and enabled test exactly once per repetition, skips the others, and returns, even when tests fail or throw. "
 "Tests declared as unable to run concurrently never overlap with any other test and run on the thread that called run(), and at most the configured number of threads execute tests at the same time. "
 "Tests are excluded by the configured filter; the concurrent tests, and the nonconcurrent tests, are each initiated in the configured order, and with a single thread all tests run in one sequence in that order within each repetition. "
 "The random seeds seen by a test depend only on the configured seeding and on the repetition, not on the schedule.",
 ["schedules", "configurations", "fault_sequences"],
 "Every interleaving of the worker threads, every mix of concurrent and non-concurrent tests, thread count, repetition count, filter, and pattern of failing and throwing tests.",
 "The tests of the test runner run a fixed handful of small test lists under whatever schedule the machine happens to produce.",
 [S+"check/test_runner.cpp", S+"check/test_runner.hpp", S+"check/wildcard_filter.cpp", S+"check/pattern_based_test_order.cpp"],
 [("shared execution queue under mutex", "test_runner.cpp: ThreadContextImpl::run() and nonconcur_run()"), ("last thread takes the non-concurrent tests", "test_runner.cpp")],
 observe=["start and end of each test body", "active thread count"])

prop("C13", "The verdict and the totals of a test run are the truth under every schedule",
 "A test run reports success exactly when no check failed and no test ended by an unexpected exception, in any thread and in any phase of the run. "
 "The totals (tests included, excluded, disabled, executed, failed, checks performed, and failed) handed to the reporter at the end of the run equal what actually happened. "
 "This includes checks made concurrently by several threads spawned by a single test.",
 ["schedules", "configurations", "fault_sequences"],
 "Every interleaving, every distribution of passing, failing, and throwing tests over concurrent and non-concurrent phases, thread counts and repetitions.",
 "The tests of the runner check the totals for a few single-threaded or tiny runs; which thread finishes last, and therefore whose counters are carried over, is up to the schedule.",
 [S+"check/test_runner.cpp", S+"check/test_context.cpp", S+"check/root_context.hpp", S+"check/thread_context.hpp"],
 [("per thread counters merged under lock", "ThreadContextImpl::finalize(), RootContextImpl in test_runner.cpp")],
 observe=["return value of the run", "summary passed to reporter"])

prop("C14", "Reporters see a well-formed, non-overlapping event sequence",
 "Under every interleaving, the calls to a reporter never overlap in time and form a well-formed history: the run begins before and ends after everything else, each thread begins and ends exactly once around its tests, and each executed test has one begin and one end on its thread with its failures in between. "
 "Every failed check and every test exception is reported exactly once, attributed to the test in which it happened, with the location of the check, and the elapsed time reported for a test covers the execution of its function. "
 "A duplicating reporter forwards each event once to each of its branches, in order, and the XML reporter's output is a well-formed document containing every test with its correct status.",
 ["schedules", "configurations", "fault_sequences"],
 "Every interleaving of worker threads and threads spawned by tests, every mix of outcomes, for simple, duplicating, XML and log-per-thread reporting.",
 "The existing tests check a few reports of single-threaded runs textually.",
 [S+"check/test_runner.cpp", S+"check/reporter.hpp", S+"check/duplicating_reporter.cpp", S+"check/xml_reporter.cpp", S+"check/simple_reporter.cpp"],
 [("reporter mutex", "RootContextImpl in test_runner.cpp")],
 observe=["reporter callbacks", "report output"])

prop("C33", "Test runs keep to their directories, and test files are fresh, removed, or kept",
 "Under every interleaving of tests, a test run places test files and directories only in the configured subdirectory of the configured base directory, which it creates segment by segment if necessary, and log files only at the paths that the log path template expands to, one for each thread; files that do not belong to the run are left alone and earlier contents of log files are preserved. A test directory or log path that is absolute or escapes from the base directory, a log path that is not specific to a thread, a base directory that does not exist, or a directory that cannot be made, makes the run fail before any test is executed. "
 "No path is handed out to two executions or for two suffixes. A test file or directory guard begins with nothing, or an empty directory, no matter what was left over at its path, never touches the files of others, and removes everything when it ends, by the end of its scope, by an exception, or because another guard is moved into it, unless files are to be kept, in which case they remain intact; a guard that was moved from removes nothing. "
 "If the file system fails, then a guard fails only in consequence of that, says so unless an exception is already under way, and never brings the run down: the run returns, and succeeds exactly when no exception escaped from a test. Each message logged by a test appears exactly once, in the log file of its thread, or in the common log.",
 ["schedules", "configurations", "fault_sequences", "histories"],
 "Every suite of tests, thread count, interleaving, nesting and moving of guards, exception, left-over file or tree, directory specification and log path template, and every failure of creating, listing and removing files and directories.",
 "The tests of the runner use neither test directory nor log templates, and guards are merely used, never under file system errors, exceptions, moves or left-over trees.",
 [S+"check/test_path.hpp", S+"check/test_runner.cpp", S+"check/test_context.cpp", S+"check/test_config.hpp"],
 [("removal and preparation of test files", "TestPathGuard in test_path.hpp"), ("directory creation confined to the base directory", "ensure_subdir() in test_runner.cpp")],
 observe=["simulated file system tree", "exceptions from guards and runs", "log files"])

prop("C34", "The test command does what its arguments say, and its results can be relied on",
 "When a test suite is executed through the test command, then the tests that are executed are exactly the enabled ones of the default test list whose names match the filter (at least one of the patterns before the dash, or there are none, and none of those after it), each the requested number of times; a single thread executes them in the order of the patterns that were given for the order, repetition by repetition. "
 "The command ends with success if, and only if no execution of a test failed. What it prints says so, with the right numbers of failed and executed tests and checks and of excluded tests, and each failure appears once, in the output or in the log files, with its location relative to the current directory when the program is found in a project, and otherwise relative to the source root. Log files and test files whose location is not specified go to the directory of the project that the program was built in if that is found, and otherwise to the current directory; nothing else is written. When an XML file is asked for (test_results.xml in the current directory unless specified), and the command returns, the file replaces what was there and is a complete, well-formed and true record of the run, attributed to the named suite, with numbers in plain decimal notation in every locale; when the file cannot be written completely, the command does not return normally. "
 "When help is asked for, or an argument is unknown, missing, malformed or out of range, or names of tests clash, or the directory or log path specification is bad, no test is executed; help is printed and is a success, everything else is not, and bad arguments are explained on standard error and leave the XML file alone.",
 ["schedules", "configurations", "fault_sequences"],
 "Every suite, argument list, locale, project layout, thread interleaving, and failure of the standard streams, the log and XML files, directories and thread creation.",
 "There are no tests of the command; its options are only ever used by hand.",
 [S+"check/command.cpp", S+"check/wildcard_filter.cpp", S+"check/pattern_based_test_order.hpp", S+"check/standard_path_mapper.cpp", S+"check/simple_reporter.cpp", S+"check/xml_reporter.cpp", S+"core/build_environment.cpp"],
 [("test command", "check::command() in command.cpp")],
 observe=["exit status", "standard output and error", "log files", "XML file", "executed tests"])

prop("C15", "A guarded thread's exceptions, name, and join are never lost",
 "An exception that escapes a function run by a guarded thread is delivered, exactly once and unchanged, to the one who joins that thread, also when the guard object was moved, move-assigned, or swapped while the thread was running, under every interleaving. "
 "The function is run exactly once, joining returns only after it has finished, a guard that still owns a running thread when destroyed or overwritten joins it first, and no interleaving loses a thread or deadlocks. "
 "When the thread cannot be created the failure is reported to the creator and the function is not run.",
 ["schedules", "fault_sequences", "histories"],
 "Every interleaving of starting, moving, joining and destroying guards with the running of their functions, with functions that throw at any point and thread creation that fails.",
 "There are no tests that move a guard while its thread is running; whether an exception arrives depends on timing.",
 [S+"core/thread_guard.hpp", S+"core/thread.hpp", S+"core/thread.cpp"],
 [("exception capture in the thread function", "thread_guard.hpp"), ("rethrow on join", "thread_guard.hpp")],
 observe=["exceptions seen by the joiner", "threads alive in the simulator"])

prop("C16", "The vector matches its model through failing allocations and throwing elements",
 "For every sequence of operations, element type, and static capacity, a vector holds exactly the elements the corresponding standard vector would hold, destroys every element exactly once, and never touches memory outside the storage it owns. "
 "When an allocation fails or an element constructor throws, the exception is passed on, no element is leaked or destroyed twice, the vector remains valid, and operations that only append a single element or reserve memory leave the contents unchanged. "
 "As long as the resulting size does not exceed the current capacity, growing does not allocate or move existing elements; reserving guarantees a capacity of at least the requested one.",
 ["histories", "inputs", "fault_sequences"],
 "Every history of construction, move, append, insert, reserve, resize, clear, remove and assignment, with arguments that do not refer into the vector, with every placement of allocation failures and throwing constructors.",
 "The tests run a few sequences with small integers on a machine where allocation never fails.",
 [S+"core/vector.hpp", S+"core/impl/vector_impl.hpp"],
 [("in-place storage with switch to heap", "impl::VectorImpl in core/impl/vector_impl.hpp")],
 observe=["contents", "capacity", "live element count", "live allocation count"])

prop("C17", "The double-ended queue behaves as its model through failures",
 "For every sequence of operations, a double-ended queue holds exactly the elements, in order, that the corresponding standard queue would hold, destroys every element exactly once, and never reads or writes outside the elements it holds. "
 "When an allocation fails or an element constructor throws, the exception is passed on, no element is leaked or destroyed twice, the queue remains valid, and operations that only add a single element at either end or reserve memory leave the contents unchanged. "
 "As long as the resulting size does not exceed the current capacity, adding elements does not allocate memory, removing elements never reduces the capacity, and reserving guarantees the requested capacity.",
 ["histories", "inputs", "fault_sequences"],
 "Every history of pushes, pops, inserts, erases, reserves, copies, moves, at every wrap-around position of the storage, with every placement of allocation failures and throwing constructors.",
 "The tests run fixed sequences on small integers; the combinations of wrap-around position, erased range, and failure point are far beyond them.",
 [S+"core/deque.hpp"],
 [("circular storage in two chunks", "Deque in deque.hpp"), ("roll-back on exception", "Deque::insert()/erase_near_front()/erase_near_back() in deque.hpp")],
 observe=["contents", "capacity", "live element count"])

prop("C18", "Growable buffers keep their contents and give strong exception safety",
 "For every sequence of operations, a growable buffer of trivially copyable elements and the contents views on top of it (append, prepend, ranges and strings) hold exactly what a simple model holds, never write outside the owned memory, and grow to at least the requested size; access with bounds checking rejects every position outside the buffer. "
 "When an allocation fails, the requested size is not representable or beyond the given maximum, or the function passed to the operation throws, the operation reports it by an exception and leaves both the buffer and its contents exactly as they were. "
 "Nothing is leaked or freed twice.",
 ["histories", "inputs", "fault_sequences"],
 "Every history of reserve, expand, append, prepend, assign, move, and clear, with allocation failing at any point and sizes up to the representable limits.",
 "The tests run a few successful sequences; allocation failure is never provoked.",
 [S+"core/buffer.hpp", S+"core/array_seeded_buffer.hpp", S+"core/buffer_contents.hpp", S+"core/string_buffer_contents.hpp"],
 [("allocate-copy-commit", "Buffer::reserve*(), expand() in buffer.hpp")],
 observe=["contents", "size", "allocation count"])

prop("C19", "Flat maps and sets behave as ordered containers through failures",
 "For every sequence of operations, a flat map, multimap, set, or multiset finds, contains, counts, and enumerates exactly what the corresponding standard container would, and duplicates are rejected or kept accordingly. "
 "When an allocation fails, a key or value cannot be constructed, or a comparison throws, the exception is passed on and the container remains valid, with all keys still unique or ordered as required, every element destroyed exactly once, and a failed insertion of a single element leaves the contents unchanged.",
 ["histories", "inputs", "fault_sequences"],
 "Every history of insert, emplace, find, erase, reserve, clear and move, with failing allocations and throwing constructors and comparisons.",
 "The tests perform a few insertions and look-ups in containers of a handful of elements with no failures.",
 [S+"core/flat_map.hpp", S+"core/flat_multimap.hpp", S+"core/flat_set.hpp", S+"core/flat_multiset.hpp", S+"core/impl"],
 [("slots kept in a vector", "impl::FlatMapImpl in core/impl/flat_map_impl.hpp")],
 observe=["contents", "live element count"])

prop("C20", "Loading an image yields the same image however the stream arrives, or an error",
 "Loading a PNG image yields exactly the pixels and colour information stored in it, independent of how the underlying reads are split or interrupted, and of whether the format is given, detected by file name, or detected from the contents. "
 "When a read or an allocation fails, the data is truncated or corrupted, or the load is interrupted by the progress tracker, the load reports failure (or succeeds with the correct image if nothing essential was lost), sets an error that names the actual cause for system errors, leaves the destination image unchanged, and neither crashes nor leaks. "
 "Detection tries the registered file formats in the documented order (MIME type, file name extension, then registration order, each at most once), gives each the leading bytes, passes the complete data to the first that recognizes them, and no two registered file formats share an identifier. "
 "A progress tracker that is called sees progress that never decreases and never exceeds the total, and a completed load ends with progress equal to the total.",
 ["inputs", "fault_sequences"],
 "Every image of any supported pixel layout, size, and interlacing, every split of the reads, every position of an injected read error, truncation, corrupted byte, failing allocation, or cancellation.",
 "The tests load a few small well-formed files.",
 [S+"image/load.cpp", S+"image/load.hpp", S+"image/file_format_png.cpp", S+"image/file_format_registry.cpp", S+"core/rewindable_source.cpp"],
 [("libpng callbacks with exception barrier", "file_format_png.cpp"), ("detection on rewindable source", "load.cpp, file_format_registry.cpp")],
 observe=["loaded pixels", "error code", "warnings and errors logged"])

prop("C21", "Saving an image either writes a complete faithful file or reports failure",
 "When saving an image as PNG reports success, the file holds a complete image (interlaced if, and only if requested) with exactly the saved pixels, whatever the memory layout of the image and however the underlying writes were split or interrupted. "
 "When any write, flush, or allocation fails, or the progress tracker interrupts, saving reports failure with the actual cause, and neither crashes nor leaks; it never reports success for a file that is incomplete.",
 ["inputs", "fault_sequences"],
 "Every image of any supported pixel layout and size, and every position at which a write fails (EIO, ENOSPC), is short, or is interrupted.",
 "The tests save a few small images to a healthy file system.",
 [S+"image/save.cpp", S+"image/save.hpp", S+"image/file_format_png.cpp", S+"core/file_sink.cpp"],
 [("libpng callbacks with exception barrier", "file_format_png.cpp"), ("flush of buffered sink at end of save", "save.cpp")],
 observe=["simulated file contents", "error code"])

prop("C22", "FreeType font faces agree with FreeType, and survive failures",
 "A font face loaded through the FreeType-based loader finds the same glyph for every code point, and reports the same advances, bearings, kerning and pixel aligned boxes as plain use of the FreeType library at the selected size does; the baseline offsets and spacings are the scaled (and for grid fitting, rounded) ascender, descender, height and maximum advance of the font, with the vertical baseline at the middle; with grid fitting, all of them are whole numbers of pixels; and a rendered glyph has exactly the pixels that FreeType produces, at the target position, with every pixel of the target outside of the glyph, or beyond the target area, left alone, for every memory layout of the target and through image writers. "
 "A size can be selected among the fixed sizes of the font, by scaling when the font is scalable (and only then), or approximately: an exactly matching fixed size if there is one, otherwise by scaling if possible, otherwise the nearest fixed size. Indexes that are out of range are rejected by an exception. "
 "When opening, reading, or mapping of the font file, an allocation, or a call to the FreeType library fails, this is reported by an exception, nothing is leaked or left open, no failure is reported without cause, and the face and the loader remain usable.",
 ["histories", "fault_sequences", "inputs"],
 "Every sequence of size selections, glyph loads, translations and renderings on fonts that are scalable, that have fixed sizes, or both, and every position of a failure.",
 "The tests do not exercise the font library on faults, nor fonts with fixed sizes.",
 [S+"font/loader_freetype.cpp", S+"font/face.cpp", S+"font/loader.cpp"],
 [("size selection and metrics", "loader_freetype.cpp"), ("direct rendering through spans with clipping", "loader_freetype.cpp"), ("resource guards", "loader_freetype.cpp")],
 observe=["metrics", "rendered pixels", "exceptions", "open files and mappings"])

prop("C23", "The fallback font is loaded as specified, or rejected with every flaw reported",
 "A face of the fallback font has exactly the name, style, size, baselines, code points, glyph metrics and glyph pixels that are specified by the specification file and the image, with blank lines, comments, and extra spaces being of no consequence, and however the underlying reads are split or interrupted; glyphs are rendered at the target position plus translation, and clipped to the target area. "
 "When there are flaws in the specification (bad, missing or superfluous fields, overlapping ranges, glyphs of negative size or outside of the image, negative advances, a code point with several glyphs, missing parts), loading fails by an exception, and for every flawed line, and no other, an error that names the file and the line is logged; a missing, damaged, or differently sized image, a failed read or allocation makes loading fail too, and nothing is leaked or left open. After any failure, the same loader loads the font when the files are fine. "
 "A loader can be used by several threads at the same time: each gets a working face, the font is loaded at most once, and font faces of one FreeType library are opened and closed by one thread at a time.",
 ["fault_sequences", "inputs", "schedules"],
 "Every generated font, every flaw, every position of a failure in opening, reading and allocating, and every schedule of the threads.",
 "The tests load the bundled font from a healthy file system.",
 [S+"font/loader.cpp", S+"font/loader_freetype.cpp", S+"font/loader_fallback.cpp", S+"font/face.cpp"],
 [("parsing of specification with error recovery", "loader_fallback.cpp"), ("font shared under mutex", "loader_fallback.cpp"), ("FreeType library shared under mutex", "loader_freetype.cpp")],
 observe=["metrics", "rendered pixels", "logged errors", "exceptions"])

prop("C32", "A regenerated fallback font reproduces its source",
 "When regeneration of the fallback font succeeds, the new specification and image, when put in place of the old ones, are loadable in the same locale, and the resulting font has the family name, style, size and grid fitted baselines of the source face, and for every code point in the ranges (which are disjoint and in order) that has a glyph in the source, and for no other code point, a glyph with the metrics and the pixels of that of the source, shared between code points exactly as in the source; this for every locale, also one that groups digits or has another decimal point. "
 "When no ranges are specified, those of the old font are used, or 0 to 127 when the old specification is missing or unusable; when the original size is to be kept, the size of the old font is selected in the source face if the old font is usable, otherwise the size of the source is unchanged. "
 "The files of the old font are never changed. When the source face fails, when the new files cannot be written in full, or when memory runs out, this is reported by an exception (which does not otherwise happen), nothing is leaked or left open, and a later attempt succeeds.",
 ["fault_sequences", "inputs", "histories"],
 "Every source face, set of ranges, state of the old font, locale and position of a failure.",
 "The tests do not regenerate fonts.",
 [S+"font/loader_fallback.cpp", S+"util/rectangle_packer.hpp", S+"image/save.cpp"],
 [("regeneration and loading agree on the format", "loader_fallback.cpp"), ("packing of glyphs into an image", "rectangle_packer.hpp")],
 observe=["generated files as loaded by the fallback font loader", "exceptions"])

prop("C24", "Display event processing honours deadlines, interruption, and window protocol",
 "When a handler interrupts event processing, or a window's events are processed, no handler is called afterwards until processing is started again, and processing returns as interrupted exactly then; with a deadline, processing returns at, and not before, the deadline, after a bounded number of events even when events keep arriving; if it returns because the deadline has passed while events are available, at least one of them is processed before that can happen again. "
 "Events are delivered to the handlers of the window they belong to, each exactly once and in order, with time stamps that do not go backwards, and none are delivered to a window after it is destroyed. "
 "Before processing goes to sleep, and at regular intervals while saturated with events, the pre-sleep handler is called exactly as documented, and an expose event follows every change of a window's size.",
 ["schedules", "histories", "fault_sequences"],
 "Every sequence and timing of arriving events, deadlines, interruptions by handlers, clock behaviour, windows created and destroyed in between.",
 "The tests need a real display server and can only probe a few interactive situations by hand; no event timing is controlled.",
 [S+"display/sdl_implementation.cpp", S+"display/x11_implementation.cpp", S+"display/connection.hpp", S+"display/event_handler.hpp"],
 [("event loops", "ConnectionImpl::process_events_a() in sdl_implementation.cpp and x11_implementation.cpp")],
 observe=["event handler callbacks", "simulated clock at return"])

prop("C31", "Reported screen configuration is the current one, and every change is announced",
 "On platforms that report screen configurations, the viewports reported for a screen are exactly those of the enabled and connected outputs, in order, each with the name of the output, its area within the screen, the name of the attached monitor when the monitor provides valid identification data that contains one, the resolution in pixels per centimeter along each direction, taking rotation into account, when the physical size is known, and the refresh rate when it is known. "
 "This holds initially, and again once the notifications about changes that arrived meanwhile have been processed, no matter how the configuration changes while it is being fetched. Every change of what is reported is announced exactly once through the screen change handler with the index of that screen, the handler is not called when nothing changed, and it can interrupt event processing.",
 ["histories", "schedules", "fault_sequences"],
 "Every history of modes, outputs, monitors, rotations and reflections, changing also between the requests of one fetch, with failing requests and damaged identification data, on every screen.",
 "No test has a display server, let alone one whose configuration changes at a chosen moment.",
 [S+"display/x11_implementation.cpp", S+"display/noinst/x11/support.cpp", S+"display/noinst/edid.cpp"],
 [("configuration snapshot with retry", "x11::update_screen_conf() in noinst/x11/support.cpp"), ("change detection", "process_event_batch() in x11_implementation.cpp")],
 observe=["reported viewports", "screen change callbacks"])

prop("C30", "What a window shows is what was drawn into it",
 "After present(), every pixel of a window of a display connection shows the last thing that was drawn there since the window was last filled as a whole: the colour of a fill of the window or of an area, or the pixel of the texture that was put there, and drawing operations affect no pixel outside their area, however large and however far outside the window the area is. "
 "A texture of any size, including an empty one, shows the last image that was put into it, black (or nothing) where the image did not cover it, and never anything of what lies outside the image. Colours are reproduced as precisely as the visual allows: for every visual class (TrueColor, DirectColor, PseudoColor, StaticColor, GrayScale, StaticGray), depth, channel order, and colormap (default colormap, also when it is full, standard colormaps, private ones), exactly when the colours are those of the colormap, and within the precision of the colour channels otherwise. "
 "No history of windows, textures, images, resizes, and platform events leads to a request that the display server rejects (which would terminate the program), to a use of something already destroyed, or to a leak of display server resources or memory, and this holds also when allocations and platform calls fail; a failed operation is reported by an exception and leaves the window usable.",
 ["histories", "configurations", "fault_sequences"],
 "Every history of windows, textures, opaque images, fills, resizes and events, on every combination of visuals and colormaps, with failing allocations and platform calls.",
 "No test has a display server, and nothing ever looks at the pixels.",
 [S+"display/x11_implementation.cpp", S+"display/sdl_implementation.cpp", S+"display/noinst/x11/support.cpp", S+"display/noinst/palette_map.hpp"],
 [("pixel formats and colormaps", "PixelFormatCreator in noinst/x11/support.cpp"), ("textures", "TextureImpl in x11_implementation.cpp and sdl_implementation.cpp"), ("clipping of areas", "x11_implementation.cpp")],
 observe=["pixels of windows", "requests to the display server", "exceptions", "leaks"])

prop("C25", "Event time stamps are unwrapped monotonically",
 "Time stamps of display events, delivered by the display server as 32-bit millisecond counters that wrap around about every 49.7 days, are turned into session times that are strictly consistent with the true elapsed time: events in order get non-decreasing session times, and the difference between two of them is the true difference, however long the pauses between events and however delayed or reordered the events are, within the documented limits. ",
 ["histories", "schedules"],
 "Every sequence of event times over many wrap-around periods, with pauses and delays up to the documented limits.",
 "No test lasts 49.7 days, and those that exist check a few hand-picked values.",
 [S+"display/noinst/timestamp_unwrapper.hpp"],
 [("reference clock based unwrapping", "TimestampUnwrapper in timestamp_unwrapper.hpp")],
 observe=["unwrapped time stamps"])

prop("C26", "The render engine keeps its frame schedule and renders exactly when needed",
 "While running, the render engine calls the tick function of the scene exactly once per expired frame deadline, never before its time: successive ticks are one frame period (rounded down to whole nanoseconds) apart when the engine is not late, and never closer. When a frame is late, the engine carries on at once and re-synchronises instead of accumulating a backlog; a changed frame rate takes effect without first sleeping through a period of the old one. "
 "The scene is rendered, followed by one buffer swap, before the engine goes on with event processing after each change that requires it (exposure, resize, a tick that asks for it, changes of background, zoom, interest size, resolution, orientation, or spin, toggles, view reset, and changes of the tracked display configuration), an exposed window is redrawn before the engine goes to sleep, and nothing is rendered when nothing has changed. "
 "What is rendered reflects the current window size, resolution, zoom factor, interest size, background colour, headlight and wireframe modes, and orientation, and the orientation is always finite, also while the trackball spins. While the left mouse button is held down, the scene follows the pointer such that the grabbed point of the ball (inscribed in the window, round on the screen, pointer outside the ball projected onto its edge) stays under the pointer; when the button is released, the scene keeps turning at the average rate since the ball was grabbed if that was at most 100 milliseconds ago, and it stays at rest if the pointer was at rest for the last 100 milliseconds or if the ball was held for less than 200 milliseconds and moved less than 4 pixels. When tracking is enabled, frame rate and resolution are those of the first viewport of the screen that intersects with the window, also when the screen is the default screen and its configuration changes. "
 "After a request to quit or a close request, nothing further is ticked or rendered. This holds for every timing of events and every duration of ticking and rendering.",
 ["schedules", "histories", "configurations"],
 "Every timing of events, duration of tick and render, frame rate changes, sleeps that overrun, display reconfiguration, trackball histories, and quit requests at any moment.",
 "Tests of the engine would need a display and real time; there are none that control event timing or rendering duration.",
 [S+"render/engine.hpp", S+"render/engine.cpp", S+"render/noinst/engine_impl.cpp", S+"render/virt_trackball.cpp"],
 [("deadline advance per frame", "EngineImpl::run() in render/noinst/engine_impl.cpp"), ("redraw decision", "need_redraw handling in render/noinst/engine_impl.cpp"), ("spin of the trackball", "render/virt_trackball.cpp")],
 observe=["scene callbacks with simulated time", "OpenGL calls", "window present calls"])

prop("C27", "Key bindings deliver balanced, correctly matched actions for every key history",
 "For every history of key, mouse button, modifier, and focus events, a pressed key or mouse button invokes exactly the handler bound to it for the exact set of modifier keys held down (each kind of modifier counts as held while its left, its right, or both of its keys are down) and for the press multiplicity (number of consecutive presses under the same set of modifiers with no more than 250 milliseconds from one to the next, starting over after the largest multiplicity bound for that key). "
 "A handler that is told that a key went down is told so once per press, and is told exactly once that it went up again, at the latest when the window loses focus, and also when the key was bound to something else in the meantime. Repeated or missing down and up events never cause an additional or unbalanced invocation, and no history leaves a binding stuck in the pressed state once all keys are released. "
 "Handlers may register handlers, bind keys, and call the other functions of the engine. When a handler interrupts event processing, no handler is called until event processing is resumed.",
 ["histories"],
 "Every order of key down, key up, repeat, modifier change, and focus loss, every set of registered bindings, and rebinding at any moment.",
 "The few existing uses are interactive; lost key-up events, blur in the middle of a chord, combined modifiers, and rebinding while pressed are not tested.",
 [S+"render/engine.hpp", S+"render/key_binding_support.hpp", S+"render/impl/key_bindings.hpp", S+"render/impl/key_bindings.cpp", S+"render/noinst/engine_impl.cpp"],
 [("press tracking and matching", "render/impl/key_bindings.hpp/.cpp"), ("release on blur, modifier tracking", "render/noinst/engine_impl.cpp")],
 observe=["handler invocations"])

prop("C28", "Memory streams and text composition survive memory exhaustion",
 "Text written to in-memory output streams (seeded, growing, or fixed size) and read through in-memory input streams is exactly the text given, for every mix of formatted output, seeks, clears, and sizes around the internal buffer size. "
 "When memory runs out, or a fixed buffer is full, the stream reports the failure through its state or by an exception, the text already accepted stays intact, nothing is leaked, and the stream can be used again after being cleared.",
 ["inputs", "fault_sequences", "histories"],
 "Every sequence of stream operations, initial buffer size, and allocation failure position.",
 "The tests write short strings with no failing allocations.",
 [S+"core/memory_output_stream.hpp", S+"core/memory_input_stream.hpp", S+"core/seed_memory_output_stream.hpp"],
 [("stream buffers over growable memory", "memory_output_stream.hpp, seed_memory_output_stream.hpp")],
 observe=["accumulated text", "stream state"])

prop("C29", "Memory slabs construct and destroy in order through failures",
 "Objects created in a memory slab stay where they are until the slab is destroyed, also when the slab is moved, and are then destroyed exactly once, in the reverse order of their creation, also when a later construction throws or the creation of the slab stops part-way. "
 "The operations that fill, copy, or move arrays of objects in uninitialised memory either complete or leave nothing behind and the original objects in place; every object is destroyed exactly once.",
 ["histories", "fault_sequences"],
 "Every number and order of creations with a constructor failing or an allocation failing at any of them.",
 "The tests create a couple of objects without failures.",
 [S+"core/memory.hpp"],
 [("slab with reverse destruction", "Slab in memory.hpp")],
 observe=["construction and destruction order"])

# --- Not decided by this technique ---
prop("D01", "Command lines are parsed and dispatched as specified",
 "Every command line is either matched to the one pattern and the option actions that the specification defines, with all arguments converted exactly, or rejected with an error, and help and error output describe the specification that was given.",
 ["inputs", "programs"], "Every specification and every command line.",
 "The tests cover a finite sample of specifications and command lines.",
 [S+"cli/processor.hpp", S+"cli/impl"], [("pattern matching automaton", "cli/impl")])
prop("D02", "Pixel and colour conversions are exact and saturate correctly",
 "Converting pixels between representations, colour spaces, and bit depths gives the mathematically rounded value, is the identity where the formats agree, and never overflows.",
 ["inputs"], "Every pixel value and every pair of formats.", "The tests check a few values per format pair.",
 [S+"image/comp_repr.hpp", S+"image/pixel_convert.hpp", S+"image/color_space.cpp"], [("component conversion", "image/comp_repr.hpp")])
prop("D03", "Values formatted as text and parsed back are equal",
 "Formatting any integer, float, or enumerated value and parsing the text gives back the same value, and parsing rejects every text that is not a valid representation or is out of range.",
 ["inputs"], "Every value and every text.", "The tests check a sample of values.",
 [S+"core/value_formatter.hpp", S+"core/value_parser.hpp", S+"core/integer_parser.hpp", S+"core/integer_formatter.hpp"], [("locale independent formatting and parsing", "core/value_formatter.hpp, core/value_parser.hpp")])
prop("D04", "Integer casts and arithmetic detect overflow exactly",
 "Checked casts, checked arithmetic, and clamping conversions between integer types report overflow exactly when the mathematical result is not representable and otherwise give that result.",
 ["inputs"], "Every pair of integer types and operand values.", "The tests sample boundary values.",
 [S+"core/integer.hpp"], [("two's complement reasoning", "core/integer.hpp")])
prop("D05", "Geometric structures answer queries exactly",
 "Nearest-neighbour search in a k-d tree returns the nearest point, and the rectangle packer places every rectangle inside the area without overlap or reports that it cannot.",
 ["inputs"], "Every point set, query, and rectangle list.", "The tests sample a few configurations.",
 [S+"util/kdtree.hpp", S+"util/rectangle_packer.hpp"], [("recursive search", "util/kdtree.hpp"), ("bottom-left packing", "util/rectangle_packer.hpp")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
