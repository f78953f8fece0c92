#pragma once
#include "sim.h"
namespace sim
{
struct Shared  // between the search process and its workers
{
   volatile u64 index;     // seed index being run
   volatile u32 op, obj, code;
   volatile u32 cat;       // set by signal handlers
   volatile u32 refusals, signal, foreign;
   volatile u32 found;     // a violation was seen at index
   volatile u64 found_index;
   char cls[48], opname[48];
};
extern Shared *shared;
struct RunResult
{
   bool violated, completed;
   u64 hash, sched, refusals, midswitches, foreign;
};
struct OpStat { u64 n, refused, max_steps, max_stack; OpStat(): n(0), refused(0), max_steps(0), max_stack(0) {} };
enum { MAXCLASS = 96, MAXOPS = 64 };
extern OpStat opstats[MAXCLASS][MAXOPS];
struct DecLog
{
   enum { MAX = 1 << 17 };
   u32 n;
   Decision d[MAX];
};
extern DecLog *declog; // decisions taken, kept where the search process can read them after a crash
RunResult run(const Plan &p);
void fill_violation(u32 cat, const char *msg);
bool stats_refused_run();
bool stats_reclaims_run();
bool applies_crash(u32 cat);
void aborted_quietly() __attribute__((noreturn));
void reset_registries();
void on_reset(void (*f)());
void install_signals();
}
