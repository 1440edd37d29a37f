// A scheduler for real threads, one running at a time. Every control-flow edge
// of the instrumented code is a point where it may park the running thread and
// release another. Built without sanitizers, and its hand-over is invisible to
// ThreadSanitizer, so threads stay unordered in its eyes.
#pragma once
#include <cstdint>

namespace sim
{

struct Slice
{
	uint32_t who;
	uint32_t budget; // edges before the next hand-over
};

struct SchedResult
{
	uint64_t switches;
	uint64_t used; // slices consumed
	uint64_t locks_held; // hand-overs put off because of a held lock
	uint64_t edges[8];
};

constexpr uint32_t MAX_THREADS = 8;

// Runs body(args[i]) on n threads under the given slices, then to the end.
void sched_run(void (*body)(void*), void** args, uint32_t n, Slice const* s, uint64_t ns, SchedResult* r);

} // namespace sim
