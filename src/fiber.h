// Controlled scheduler: the code under test runs on fibers of one OS thread and
// every basic block of it (and every lock operation) is a point where the
// explorer may switch to another fiber.
#pragma once
#include "mc.h"

namespace sched {
struct Preempt { long pos; int to; };      // at the pos-th point switch to the fiber 'to' places further
struct Result { long points = 0, switches = 0; bool deadlock = false; std::string error; uint64_t trace = 0; };
// runs the bodies to completion; forced switches pick the first runnable fiber of 'order'
Result run(const std::vector<std::function<void()>>& bodies, const std::vector<int>& order, const std::vector<Preempt>& pre);
void point();                              // explicit scheduling point (environment models)
int self();                                // fiber number, -1 outside
long now();                                // number of points so far
void reset_locks();
// If set, only accesses it accepts are scheduling points (function entries and exits are not): the others commute.
extern bool (*filter)(const void* p, long n, bool write);
// the same for calls into libraries: the registers arguments travel in
extern bool (*ext_filter)(const uintptr_t* regs, int n);
// Enumerates every schedule of the bodies with at most 'bound' preemptions.
// 'fresh' resets the world before a run; 'judge' looks at the outcome of the run.
struct World { std::function<void()> fresh; std::function<std::vector<std::function<void()>>()> bodies; std::function<void(const Result&)> judge; };
void explore(mc::Ctx& c, int nthreads, int bound, uint64_t memo_key, const World& w);
}
