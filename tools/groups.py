"""Which simulation program decides which property."""
GROUPS = {
    "locks": {"scen": ["locks.cpp"], "repo": ["engine/*.cpp"]},
    "logsys": {"scen": ["logsys.cpp"], "repo": ["engine/*.cpp"]},
    "logstream": {"scen": ["logstream.cpp"], "repo": ["engine/*.cpp"]},
    "logger": {"scen": ["logger.cpp"], "repo": ["engine/*.cpp"]},
    # the logger under several compile-time limits, each in a namespace of its own, in one program
    "limits": {"scen": ["limits.cpp"], "repo": [], "variants": [
        {"scen": ["limit.cpp"], "repo": ["engine/*.cpp"], "defs": ["-DSIM_LIMIT=%d" % i, "-Dfalcon=falcon_limit%d" % i, "-DFALCON_MIN_LOG_LEVEL=::falcon::" + n]}
        for i, n in enumerate(["LLDISABLE", "LLCRIT", "LLWARN", "LLDEBUG"])]},
    "code": {"scen": ["code.cpp"], "repo": ["engine/*.cpp"]},
    "item": {"scen": ["item.cpp"], "repo": ["engine/*.cpp"]},
    "fut": {"scen": ["fut.cpp"], "repo": ["fut/*.cpp", "fut/marktime-unix.c++"], "defs": ["-Dmain=fut_main_"]},
    "stack": {"scen": ["stack.cpp"], "repo": ["engine/*.cpp"]},
}
RT = "simulated: thread scheduler, mutexes, condition variables, static-init guards, clocks, sleeping, allocator (sim/rt.cpp)"
LOCKS = ["falcon/futex.h", "falcon/atomic_gcc.h", "falcon/singleton.h", "src/engine/futex.cpp", "libstdc++ templates (compiled in, instrumented)"]
LOG = ["falcon/logsystem.h", "src/engine/logsystem.cpp", "libstdc++ templates incl. std::regex (compiled in, instrumented)"]
STREAM = ["falcon/logstream.h", "src/engine/logstream.cpp", "falcon/logproxy.h"] + LOG
SINK = "stream buffers below std::ostream (recording, fault-injecting test doubles)"
LOGGER = ["falcon/logger.h (macros and Logger)", "src/engine/logger.cpp"] + STREAM
STACK = ["falcon/engine/pagedstack.h", "falcon/engine/distribute.h", "libstdc++ templates (compiled in, instrumented)"]
CODE = ["src/engine/code.cpp", "src/engine/compiler.cpp", "falcon/engine/code.h", "std::istream extraction (libstdc++)"]
ITEM = ["falcon/engine/item.h", "falcon/engine/itemdata.h", "falcon/engine/*handler.h", "src/engine/handlerfactory.cpp", "boost::multiprecision (compiled in, instrumented)"]
FUT = ["src/fut/unittest.cpp", "src/fut/testcase.cpp", "src/fut/marktime-unix.c++", "falcon/fut/*.h", "libstdc++ file stream (its binary, on the simulated disk)"]
PROPS = {
    "F01": {"group": "locks", "real": LOCKS, "stub": [RT]},
    "F02": {"group": "locks", "real": LOCKS, "stub": [RT]},
    "F03": {"group": "locks", "real": LOCKS, "stub": [RT]},
    "A01": {"group": "locks", "real": LOCKS, "stub": [RT]},
    "I01": {"group": "locks", "real": LOCKS, "stub": [RT]},
    "P01": {"group": "stack", "real": STACK, "stub": [RT]},
    "P02": {"group": "stack", "real": STACK, "stub": [RT]},
    "P03": {"group": "stack", "real": STACK, "stub": [RT]},
    "P04": {"group": "stack", "real": STACK, "stub": [RT]},
    "L01": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L02": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L03": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L04": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L05": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L06": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L07": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L08": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "L09": {"group": "logsys", "real": LOG + ["falcon/logproxy.h"], "stub": [RT, "target listeners (recording test doubles)"]},
    "L10": {"group": "logsys", "real": LOG, "stub": [RT, "listeners (recording test doubles)"]},
    "S01": {"group": "logstream", "real": STREAM, "stub": [RT, SINK]},
    "S02": {"group": "logstream", "real": STREAM, "stub": [RT, SINK]},
    "S03": {"group": "logstream", "real": STREAM, "stub": [RT, SINK]},
    "G01": {"group": "logger", "real": LOGGER, "stub": [RT, "recording listener"]},
    "G02": {"group": "logger", "real": LOGGER, "stub": [RT, "recording listener", SINK]},
    "N02": {"group": "limits", "real": LOGGER, "stub": [RT, "recording listener"]},
    "C01": {"group": "code", "real": CODE, "stub": [RT, "input stream buffer (piecewise, failing test double)"]},
    "V01": {"group": "item", "real": ITEM, "stub": [RT]},
    "U01": {"group": "fut", "real": FUT, "stub": [RT, "report file: simulated disk below the file API", "buffers of std::cout and std::cerr (recording)", "generated test cases"]},
    "U02": {"group": "fut", "real": FUT, "stub": [RT, "report file: simulated disk below the file API", "buffers of std::cout and std::cerr (recording)", "generated test cases"]},
    "U03": {"group": "fut", "real": FUT, "stub": [RT, "report file: simulated disk below the file API", "buffers of std::cout and std::cerr (recording)", "generated test cases"]},
    "U04": {"group": "fut", "real": FUT, "stub": [RT, "report file: simulated disk below the file API", "buffers of std::cout and std::cerr (recording)", "generated test cases"]},
}
