// N02: one copy of the logger for each compile-time limit (groups.py compiles scen/limit.cpp and the
// engine once per limit, each in a namespace of its own).
#pragma once
#include "common.h"
enum { N_LIMITS = 4 };
extern void (*limit_run[N_LIMITS])(const Program&);
struct SetLimitRun { SetLimitRun(int i, void (*f)(const Program&)) { limit_run[i] = f; } };
enum { LIM_STMT, LIM_CATEGORY, LIM_SETLEVEL, LIM_PAUSE, LIM_NOPS };
enum { LIM_AUTO, LIM_NAMED, LIM_RUNTIME, LIM_BLOCK, LIM_NAMED_BLOCK, LIM_CHOICE, LIM_UNBRACED, LIM_NKINDS };
enum { LP_EXCISED = LIM_NOPS, LP_SUPPRESSED, LP_MESSAGES, LP_LIMIT0 };
