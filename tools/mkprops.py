#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LS = "src/engine/logsystem.cpp"; LSH = "src/include/falcon/logsystem.h"
ST = "src/engine/logstream.cpp"; STH = "src/include/falcon/logstream.h"
LG = "src/engine/logger.cpp"; LGH = "src/include/falcon/logger.h"; LPH = "src/include/falcon/logproxy.h"
FX = "src/include/falcon/futex.h"; FXC = "src/engine/futex.cpp"
PS = "src/include/falcon/engine/pagedstack.h"
UT = "src/fut/unittest.cpp"; TC = "src/fut/testcase.cpp"; MT = "src/fut/marktime-unix.c++"; TL = "src/include/falcon/fut/timelapse.h"

p("L01", "Every accepted log message is delivered exactly once, unchanged",
  "While the logging service is running, every message whose level passes the system threshold is handed to each listener that accepts it exactly once, with its source file, line, level, category and text exactly as the caller gave them. Delivery is asynchronous but happens within a bounded number of steps once the callers pause, however long the backlog and whatever the sizes of the texts.",
  ["schedules", "inputs", "histories"],
  "All interleavings of any number of logging threads with the delivering thread, all message contents and backlogs.",
  "The tests log one message from one thread and wait for it; no test has two concurrent callers, a backlog, a recycled message or a text longer than a few bytes.",
  [LS, LSH], [("queue under lock, condition variable wake-up", f"{LS}: log(), loggingThread()"), ("message pool", f"{LS}: allocateMsg(), disposeMsg()")],
  [("message queue", "messages accepted and not yet delivered", LSH)], ["Listener::onMessage"])
p("L02", "Listeners see one common order that respects the callers' order",
  "All listeners of a logging service observe the messages in one common order; messages logged by one thread appear in the order they were logged, and a message whose log call returned before another's began appears first. Listener callbacks are never run concurrently with one another.",
  ["schedules", "histories"],
  "All interleavings of logging threads, for any sequence of log calls.",
  "No test logs more than one message per service instance, so none can observe an order.",
  [LS], [("FIFO queue drained by one thread", f"{LS}: log(), loggingThread()")], None, ["Listener::onMessage"])
p("L03", "Level, category and enable filters decide delivery, and only they do",
  "A listener is handed a message if and only if the message's level passes both the system's and the listener's level, the listener is enabled, and its category pattern matches the whole category (an empty pattern or an empty category matches everything); a setting change is in force for every message logged after the change returned, and a message logged and delivered entirely before a change is judged by the old setting. An invalid pattern is rejected with an error and leaves the filter in force as it was. Filtering has no other observable effect such as output on the process's standard streams.",
  ["schedules", "inputs", "histories"],
  "All settings, categories, levels and all interleavings of setting changes with log calls and deliveries.",
  "The tests check five fixed single-message cases with settings made before the message is logged; no test changes a filter while messages flow.",
  [LS, LSH], [("level/enabled atomics, category regex under a mutex", f"{LSH}: Listener"), ("eligibility test", f"{LS}: sendMessageToListeners(), checkCategory()")], None, ["Listener::onMessage", "std::cout"])
p("L04", "Attach and detach take effect at once; listeners are released safely",
  "A listener attached before a message is logged receives it, even when attached from inside a listener callback or while a backlog is being delivered, and a listener whose detach has returned receives no message logged afterwards. The service shares ownership: a listener is never used after its destruction, and a detached listener is let go once delivery moves on.",
  ["schedules", "histories"],
  "All interleavings of attach, detach, release of the caller's reference, logging and delivery.",
  "The tests attach two listeners before logging one message and never detach one while the service is in use (the logger test that does is excluded as flaky).",
  [LS, LSH], [("pending listener list merged by the delivery thread", f"{LS}: addListener(), processNewListeners()"), ("removal of detached listeners", f"{LS}: cleanupTerminatedListeners()")], None, ["Listener::onMessage", "Listener destructor"])
p("L05", "Starting, stopping and destroying the log service is safe at any moment",
  "Stopping the service returns within a bounded number of steps, and once it has returned no listener is called until the service is started again; starting it resumes delivery, including of messages accepted while it was stopped. Start, stop and log may be called in any order, repeatedly and from several threads without deadlock, lost or duplicated messages; a newly created service works whatever memory it was created in, and destroying it releases everything it holds.",
  ["schedules", "histories", "fault_sequences"],
  "All orders and interleavings of create, start, stop, log, destroy, including spurious wake-ups and backlogs.",
  "Each test starts the service once, stops it once when idle and destroys it; restart, concurrent start/stop and stop with a backlog are never run.",
  [LS, LSH], [("termination flag + join under a mutex", f"{LS}: start(), stop(), loggingThread()")], [("termination flag", "tells the delivery thread to leave", LSH)], ["Listener::onMessage", "return of stop()"])
p("L06", "Log message storage is bounded, recycled and returned exactly once",
  "However many messages of whatever size are logged, once the backlog is delivered the service retains at most its fixed pool of message buffers plus what those buffers hold, so memory in use does not grow with the number of messages logged. No buffer is ever owned by two messages at once, and destroying the service, running or stopped, with or without a backlog, returns all memory it obtained.",
  ["schedules", "inputs", "histories"],
  "All histories of log calls and backlogs, all interleavings, all text sizes.",
  "The tests check the pool counter after one short message; no test measures memory, reuses a buffer or exceeds the pool.",
  [LS, LSH], [("bounded pool", f"{LS}: allocateMsg(), disposeMsg()"), ("release in destructor", f"{LS}: ~LogSystem()")], [("message pool", "idle buffers kept for reuse", LSH)], ["heap", "LogSystem::getDiags"])
p("L07", "Diagnostics can be read from any thread at any time and are truthful",
  "The service's diagnostic figures can be requested from any thread, including from a listener callback, at any moment without disturbing the service or one another. The received-message count never decreases and never exceeds the number of messages accepted, the pool figure never exceeds its fixed bound, and when the service is idle every figure equals what actually happened: messages received, longest backlog, buffers created and discarded, listeners pending, active and enabled.",
  ["schedules", "histories"],
  "All interleavings of diagnostic reads with logging, delivery, attach, detach and stop.",
  "Tests read the diagnostics only after the service has stopped or before it has done anything.",
  [LS], [("diagnostics snapshot", f"{LS}: getDiags()")], None, ["LogSystem::getDiags"])
p("L08", "Logging survives failed allocations, failed threads and throwing listeners",
  "When memory or a thread cannot be obtained, the affected call reports an error to its caller or drops only the one message (or the delivery of that message to the one listener) affected, and nothing leaks; the process is not terminated, no other message is lost, duplicated or altered, and once the faults stop the service logs normally. A listener that throws out of its callback harms neither the service nor the other listeners.",
  ["fault_sequences", "schedules"],
  "All points at which an allocation or thread creation inside the logging calls can fail or a listener can throw, in all interleavings.",
  "No test injects a failure of any kind.",
  [LS, LSH], [("construction and queueing of messages", f"{LS}: LogSystem(), log(), processNewListeners(), sendMessageToListeners(), disposeMsg()")], None, ["Listener::onMessage", "exceptions", "process termination"])
p("L09", "A proxy listener passes on exactly what its own filters accept",
  "A proxy listener hands its target every message that the proxy's own level, category and enable settings accept while the proxy is attached, each exactly once per proxy and unchanged, whatever the target's own settings and attachment are, and nothing else; a detached proxy passes on nothing logged after its detach returned. Several proxies may share a target. Using a proxy changes no setting of the target, the target lives at least as long as its proxies and is let go after them, and a target that throws harms neither the service nor other listeners.",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "All settings of proxies and targets, all interleavings of setting changes, attach and detach with logging, all deliveries at which the target can throw.",
  "The proxy is exercised only through the logger's test program, which is excluded as flaky; no test uses a proxy with filters, a shared target or concurrency.",
  [LPH, LS, LSH], [("forwarding to the target", f"{LPH}: LogProxyListener::onMessage()"), ("eligibility test on the proxy", f"{LS}: sendMessageToListeners()")], None, ["target's Listener::onMessage", "target's settings and destructor"])
p("L10", "Log services in one process are independent, even sharing listeners",
  "Each log service delivers its own messages only, to the listeners attached to it, in its own order and by its own level, whatever other services in the process do. A listener shared by several services gets every message of each that it accepts exactly once; detaching it takes it off all of them. Stopping, destroying or renewing one service leaves the others delivering, leaves shared listeners alive and attached to them, and no service's diagnostics count another's messages or buffers.",
  ["schedules", "histories"],
  "All interleavings of logging, start, stop, attach, detach, creation and destruction on several services with shared and private listeners.",
  "Every test uses one service at a time with its own listeners.",
  [LS, LSH], [("per-service queue, pool, thread and listener lists", f"{LSH}: LogSystem members; {LS}")], None, ["Listener::onMessage", "LogSystem::getDiags", "Listener destructor"])
p("S01", "Each log line lands whole on the stream that was current, and on no other",
  "Each message handed to a stream listener is written as exactly one complete line, and flushed, to the stream that is installed at some moment during that hand-over, never split over two streams or interleaved with another line of the listener, also when a proxy or another log service feeds the same listener. Once a call that changes the stream has returned, the previous stream is not touched again, and streams whose ownership was given to the listener are destroyed exactly once and never while in use.",
  ["schedules", "histories"],
  "All interleavings of deliveries from one or more services with stream changes, for all three ways of giving a stream.",
  "The tests change the stream only while no message is in flight and write one line.",
  [ST, STH, LPH], [("stream mutex", f"{STH}: own(), share(), writeOn(); {ST}: onMessage()"), ("proxying", f"{LPH}: onMessage()")], None, ["bytes on each std::ostream"])
p("S02", "A log line's text shows the message faithfully and a true local time",
  "Each line consists of the local time, the level mark, the category in parentheses if there is one, the base name of the source file, the line number and the message text. The time shown is the local civil time (date, hours, minutes, seconds) at some moment between the start and the end of the hand-over of that message to the listener, whatever the system clock does (jumps, daylight-saving changes, year ends) and however many log services write at the same time. The text is the same whatever formatting state or locale the stream has, and that state is left as it was.",
  ["schedules", "inputs", "fault_sequences"],
  "All clock values, clock jumps and time zones; all interleavings of several services' delivery threads; all message contents.",
  "The tests look for the message text only and never look at the time or control the clock.",
  [ST], [("time stamp and formatting", f"{ST}: onMessage()"), ("level names", f"{LS}: levelToString()")], None, ["bytes on the std::ostream"])
p("S03", "A failing output stream does not harm logging to anything else",
  "When a listener's output stream fails in the middle of a line, whether it sets its error state or throws, the process keeps running, the log service keeps delivering, and every other listener still receives every message completely and in order. Bytes that do reach the failing stream are a part of the lines written to it, in order, and replacing the failed stream with a good one, or clearing its error state once it works again, restores complete lines.",
  ["fault_sequences", "schedules"],
  "All positions and kinds of stream failure (error return, short write, exception, failed flush), in all interleavings.",
  "No test uses a stream that fails.",
  [ST, LS], [("write under lock", f"{ST}: onMessage()"), ("delivery loop", f"{LS}: sendMessageToListeners()")], None, ["bytes on each std::ostream", "process termination"])
p("G01", "A composed log line contains exactly its own statement's parts",
  "A log line composed with the streaming logger consists of exactly the parts streamed by its own statement or block on its own thread, with that statement's level, file, line and category (the thread's category, or the message's temporary one, which is used for that message only), whatever other threads log at the same time. A statement whose level is not enabled produces no message and its parts are not turned into text. Neither leftover text nor formatting state of a previous, enclosing, nested, failed or abandoned statement ever appears in a later message, and a statement that runs out of memory loses at most its own message and never ends the process.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "All interleavings of composing threads, level changes while composing, nested statements, statements abandoned by an exception or a failed allocation, all streamed values.",
  "The logger test program is single threaded, flaky and excluded from the stable set; nothing else touches the logger.",
  [LGH, LG], [("thread-local composer", f"{LG}: thread_local members"), ("statement and block guards", f"{LGH}: AutoEnd, BlockEnd, commit()")], None, ["Listener::onMessage", "default listener's stream"])
p("G02", "The logger's category filter adds what it should and undoes itself fully",
  "While a category filter is set on the logger, messages whose category matches are written to the default listener's stream up to the filter's level, and all others only up to the level in force before the filter was set; setting another filter replaces the first; while a filter is being set or replaced, a message that neither the setting before nor the one after admits is not written. Clearing the filter restores the levels in force before the first filter was set, clearing when none is set does nothing, and an invalid filter is rejected with nothing changed.",
  ["schedules", "histories", "inputs"],
  "All sequences of set, replace, clear and failed set, with other threads logging meanwhile.",
  "The only test of it is in the excluded flaky program and uses one set and one clear, with no concurrent logging.",
  [LG, LGH, LPH], [("proxy listener with filter", f"{LG}: categoryFilter(), clearFilter()")], None, ["default listener's stream", "LogSystem::level"])
p("I01", "A singleton is built exactly once and is complete when first seen",
  "Whatever number of threads first use a singleton at the same moment, its instance is constructed exactly once, every thread obtains the same fully constructed instance through every accessor, and if construction fails the failing caller sees the error and a later use tries again.",
  ["schedules", "fault_sequences"],
  "All interleavings of first uses from several threads, all patterns of failing constructions.",
  "The only test uses one thread and an infallible type.",
  ["src/include/falcon/singleton.h", LGH], [("lazy instance", "src/include/falcon/singleton.h: get()"), ("logger instance", f"{LGH}: Logger::instance()")], None, ["Singleton accessors", "constructor calls"])
p("F01", "The spin lock excludes, and publishes what the previous holder wrote",
  "At most one thread holds a lock of this kind at any moment, whatever its spin setting, a lock once released can be taken again, and everything written by a thread while it held the lock is visible to the next holder. The locked query answers true while some thread holds the lock and false when none does.",
  ["schedules", "fault_sequences", "configurations"],
  "All interleavings of any number of threads, spurious failures of weak compare-and-swap, all spin settings.",
  "The tests count increments on one machine's real scheduler; they neither control the interleaving nor would notice a missing release ordering on x86.",
  [FX], [("compare-and-swap with acquire, release store", f"{FX}: Futex::lock(), unlock()")], None, ["Futex::lock/unlock/isLocked"])
p("F02", "A contended spin lock yields as configured and is always obtained",
  "A thread waiting for the lock obtains it within a bounded number of its own attempts once it is free and stays free. With spin setting one the waiter gives up the processor each time it finds the lock taken, with a larger setting each time the set number of consecutive attempts has failed, for as long as it waits, and with setting zero never.",
  ["schedules", "configurations", "fault_sequences"],
  "All interleavings, spin settings and lengths of contention, including a single processor scheduled only at yields.",
  "The tests only check that counters add up; a waiter that yields once and then never again passes them.",
  [FX], [("spin counter and yield", f"{FX}: Futex::lock()")], None, ["std::this_thread::yield calls", "return of lock()"])
p("F03", "The recursive lock is exclusive across threads and counts per owner",
  "A thread can take the recursive lock any number of times and owns it, excluding all other threads, until it has released it as many times; a free lock is obtained within a bounded number of steps and what one holder wrote is visible to the next. The queries answer truthfully: locked while any thread owns it, owned exactly for the owning thread, also for threads that never used any such lock.",
  ["schedules", "histories"],
  "All interleavings of any number of threads, nesting depths and locks.",
  "There is no test of the recursive lock at all.",
  [FX, FXC], [("owner id and count", f"{FX}: RFutex"), ("thread ids", FXC)], [("thread id counter", "source of unique per-thread ids", FXC)], ["RFutex::lock/unlock/isLocked/isOwner"])
p("A01", "Each atomic integer operation is one indivisible, correctly valued step",
  "Every concurrent history of the atomic integer operations (increment, decrement, add, fetch, set, exchange, compare-and-set, and, or, xor) is equivalent to executing them one at a time in an order that respects real time, where increment, decrement and add return the new value, exchange and the bit operations the previous one, and compare-and-set reports whether it stored. No update is ever lost or torn.",
  ["schedules", "inputs"],
  "All interleavings of operations on shared atomics and all operand values.",
  "No test or library code uses the atomic header.",
  ["src/include/falcon/atomic_gcc.h", "src/include/falcon/atomic.h"], [("compiler atomic builtins", "src/include/falcon/atomic_gcc.h")], None, ["return values and final value"])
p("P01", "The paged stack behaves as a stack for every sequence of operations",
  "For every page size, every preallocation and every sequence of push, emplace, pop, peek, top, discard (by count or to an iterator, removing that element too), clear and shrink, the paged stack holds exactly the elements a plain stack would, and size, emptiness, all forward and reverse traversals and all read orders agree with it. When an allocation or an element copy fails in the middle of an operation the error reaches the caller and the stack still holds exactly its previous elements (for an operation on several values: with a completed prefix of them applied), and stays fully usable.",
  ["histories", "fault_sequences", "configurations"],
  "All operation sequences, page geometries and all points at which an allocation or element copy can fail.",
  "The tests run about thirty short fixed sequences on pages of four elements and inject no failures; several page-boundary cases are never reached.",
  [PS], [("page list with current page", f"{PS}: advance(), internal_push(), internal_pop_one(), internal_discard(), discard(), clear()"), ("iterators", f"{PS}: iterator_base, reverse_iterator_base")], [("current page", "page holding the top", PS)], ["all public operations"])
p("P02", "A mutex-guarded paged stack is linearizable",
  "When the stack is built with a real lock, every concurrent history of push, emplace, pop, reversed pop, peek (from the top or from a depth), discard (by count or to an iterator), replacing the top, clearing, size and emptiness queries is equivalent to executing the calls one at a time in an order that respects real time, where each multi-value call is a single step; no call is lost, torn or deadlocks, with any lock type that offers lock and unlock.",
  ["schedules", "histories"],
  "All interleavings of any number of threads over all operation sequences, for standard mutexes and the project's own locks.",
  "The tests use the mutex only single threaded, to notice self-deadlock.",
  [PS, FX], [("lock guard in every operation", PS)], None, ["all public operations"])
p("P03", "Synchronised stack iterators stay valid while the stack changes",
  "A synchronised iterator denotes a position counted from the bottom of the stack; reading or moving it while other threads push, pop and discard is always safe and is one indivisible step that yields the element at that position, or the current top if the position no longer exists, or an error if the stack is empty. A traversal that is not disturbed visits every element from the top to the bottom once, and any iterator, including copies, can be used and destroyed in any order.",
  ["schedules", "histories"],
  "All interleavings of iterators with stack modification, all stack depths and page geometries, all copy/destroy orders.",
  "The tests move one iterator in a single thread over two or four pages and never copy one.",
  [PS], [("resynchronisation under the lock", f"{PS}: sync_iterator_base")], [("iterator count", "live synchronised iterators", PS)], ["sync iterators"])
p("P04", "Stack memory is accounted exactly and never reclaimed under an iterator",
  "Each element is constructed and destroyed exactly once, and a removed element is destroyed by the operation that removes it or, at the latest, before its slot is used again; all memory obtained from the stack's allocator is returned to it with the size it was obtained with when the stack is destroyed. Shrinking releases exactly the pages beyond the one in use, at once if no synchronised iterator is alive and otherwise when the last one goes, never earlier and never forgotten; nothing else releases a page.",
  ["histories", "fault_sequences", "schedules"],
  "All operation and iterator-lifetime sequences, interleavings and failing allocations.",
  "Tests check two fixed allocator sequences without iterators, and one deferred shrink with one iterator.",
  [PS], [("page list release", f"{PS}: internal_shrink_to_fit(), removeSyncIterator()"), ("allocator use", f"{PS}: growBase()")], [("deferred shrink flag", "a shrink was asked while iterators were alive", PS)], ["allocator calls", "element constructor/destructor calls", "getStats()"])
p("C01", "Compiling a stream depends only on its bytes and yields a self-owned unit",
  "What the compiler makes of an input stream is the first whitespace-delimited token of the bytes the stream delivers before it ends or fails, whatever bytes they are, however they are split into reads and however long they are; what follows the token is left in the stream for the next call. The code object it returns keeps its text unchanged for its whole life, independently of any other object, however it is copied, assigned, moved and destroyed, by whatever thread. Lack of memory, or an error the stream is set to throw, reaches the caller and changes no other object.",
  ["inputs", "fault_sequences", "histories", "schedules"],
  "All inputs, lengths, chunkings and failure points of the stream; all sequences of copies, moves, assignments and destructions across threads.",
  "The one test compiles a one-character string and never copies the result.",
  ["src/engine/compiler.cpp", "src/engine/code.cpp", "src/include/falcon/engine/code.h"], [("stream extraction", "src/engine/compiler.cpp"), ("owned text buffer", "src/engine/code.cpp")], None, ["Code::toString"])
p("V01", "Items own their values: no leak, double release or sharing, ever",
  "An item created from a number, truth value, text or big number gives back that value for as long as it lives, and a copy is an independent item with the same value and type. Creating, copying, assigning, moving and destroying items in any order and on any thread, and having any of their allocations fail, never leaks, releases twice or shares a value, and values allocated through a type's handler can be released through the same handler.",
  ["fault_sequences", "histories", "schedules"],
  "All sequences of item operations on several threads sharing the static type handlers, with allocations failing at any point.",
  "The tests create five temporary items and never copy, assign or move one, and no allocation fails.",
  ["src/include/falcon/engine/item.h", "src/include/falcon/engine/itemdata.h", "src/include/falcon/engine/deephandler.h", "src/include/falcon/engine/deepflatcopyhandler.h", "src/include/falcon/engine/flathandler.h", "src/engine/handlerfactory.cpp"], [("type handler owns release", "src/include/falcon/engine/deephandler.h: allocate(), destroy()"), ("item life cycle", "src/include/falcon/engine/item.h")], None, ["heap", "Item::toString/toInt/toBool/get"])
p("U01", "The test runner runs each selected test once and never misreports one",
  "A run of the unit test framework executes each selected test exactly once and reports a test as passed exactly if its set-up, body and tear-down ended normally with no failed check and (while output is captured) its set-up and body wrote nothing to the error stream, whatever the other tests did, threw, printed or changed in the standard streams' formatting; the fixture is set up before and torn down after every test body that ends without an exception. Status lines, failure messages and the summary agree with these verdicts and name no test that was not performed, and a failure message gives the reason: what the check, or the exception that ended the test, said. The process status is zero exactly when every selected test passed, also when the clock misbehaves, the report file cannot be written, the number of failures is large or the tests are performed again.",
  ["inputs", "fault_sequences", "configurations"],
  "All sets of tests and their behaviours (pass, fail, throw anything, print), all command-line options, and clock and disk faults during the run.",
  "The framework's tests only check passing cases and a few fixed messages; the fixture test checks nothing (its condition is inverted).",
  [UT, TC, "src/include/falcon/fut/fut.h"], [("run loop", f"{UT}: runAllTests(), hasPassed(), report()"), ("test life cycle", f"{TC}: run(), beginTest(), endTest()")], None, ["exit status", "status lines", "SetUp/test/TearDown calls"])
p("U02", "Reported test times are the time that really passed",
  "The elapsed time a test reports, so far while it runs and in total after its run (also when its set-up, body or tear-down throws), is the time that actually passed to within a millisecond of rounding at each end, also when the system's wall clock is set forwards or backwards meanwhile; it is never negative. The times shown for a test, a component and the whole run, in the status lines, the summary and the report file, are those times. A timed wait of the framework lasts at least as long as asked, even when interrupted.",
  ["fault_sequences", "inputs"],
  "All clock steps and jumps at any moment, all durations, interrupted sleeps.",
  "The timing tests measure nine real waits under a well-behaved clock.",
  [MT, TL, TC], [("time marks", MT), ("lapse arithmetic", TL)], None, ["TestCase::elapsedTime/elapsedTimeNow", "waitTime"])
p("U03", "Captured output belongs to its test and the streams are always restored",
  "With capturing on, what a test writes to the standard output and error streams during one execution (text without zero bytes) is kept as exactly that execution's output and appears in the report only where the verbosity asks for it, once; after every test, however it ended and whatever it did to the standard streams, these write where they wrote before it, in a good state and with their formatting settings. With capturing off the output passes through unchanged and in order.",
  ["inputs", "histories", "fault_sequences"],
  "All sequences of tests, outputs, ways to end, verbosities and option sets.",
  "The verbosity test checks five fixed cases; nothing checks restoration after a throwing test or attribution between tests.",
  [TC, UT], [("stream buffer swap", f"{TC}: beginTest(), endTest()"), ("verbosity", f"{UT}: beginTest(), endTest()")], None, ["std::cout/std::cerr buffers", "TestCase::capturedOut/capturedErr"])
p("U04", "The XML report is complete and well-formed, or its failure is reported",
  "When the report file could be written, it is a well-formed document that lists every performed test exactly once under its component with its verdict, with the reason, file and line of a failed check or the text of the exception of that execution, and with matching totals, whatever bytes the names and failure messages contain. When the file cannot be opened or written completely, the runner says so on the error stream.",
  ["fault_sequences", "inputs"],
  "All points at which opening, writing or closing the report can fail (disk full, I/O error, short writes, interruption), all test outcomes and messages.",
  "No test looks at the report; it is known to be malformed for messages with quotes.",
  [UT], [("report writer", f"{UT}: saveToXML()")], None, ["report file", "std::cerr"])
p("N01", "Item conversions to text, integer and truth value are faithful",
  "For every value, an item's text, integer and truth-value conversions give the documented result for its type: numbers print as decimal, texts as themselves, truth values as true/false, and zero, empty and nil convert to false.",
  ["inputs"],
  "All values of every item type.",
  "Four fixed values are tested.",
  ["src/include/falcon/engine/inthandler.h", "src/include/falcon/engine/floathandler.h", "src/include/falcon/engine/stringhandler.h", "src/include/falcon/engine/bignumhandler.h", "src/include/falcon/engine/boolhandler.h"], [("per-type conversions", "src/include/falcon/engine/*handler.h")], None, ["Item::toString/toInt/toBool"])
p("N02", "A compile-time log level removes the statements above it, and nothing else",
  "A log statement or block whose level is above the compile-time limit produces no message, does not evaluate its operands or enter its block and cannot fail, whatever the run-time level and whatever other threads do; every other statement is logged as if there were no limit, at most once, with its level and under its thread's category, whatever expression gives its level and wherever a statement may stand. With logging disabled at compile time no statement does anything.",
  ["configurations", "schedules", "histories", "fault_sequences"],
  "All compile-time limits, statement forms and levels, all sequences of category and run-time level changes, all interleavings, failing allocations.",
  "No test compiles with a limit; the logger's test program is single threaded and excluded from the stable set.",
  [LGH], [("macros", f"{LGH}: LOG, LOG_BLOCK, LOG_CATEGORY, FALCON_MIN_LOG_LEVEL"), ("guards", f"{LGH}: AutoEnd, BlockEnd")], None, ["Listener::onMessage", "evaluation of operands"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
