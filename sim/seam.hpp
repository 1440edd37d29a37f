// The clock and the process-wide random sources as the code under test sees
// them. It uses neither; should it start to, it gets simulated ones.
#pragma once
#include <cstdint>

namespace sim
{

struct Ctx;
void seam_start(Ctx const* c); // a run begins (or, without one, has ended)
uint64_t seam_reads();         // times the code under test asked
double wall_seconds();         // the real clock, for time budgets

} // namespace sim
