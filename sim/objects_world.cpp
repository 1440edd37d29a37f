// C18 runs over both kinds of viewer: those that only move forward through a
// duel (with crashes and resynchronisation) and those that scrub a recording and branch
// off.
#include "core.hpp"

namespace sim
{

void duel_entry(Ctx& c);
void tape_world(Ctx& c);
void branch_world(Ctx& c);

namespace
{
void objects_world(Ctx& c)
{
	switch(c.ch.n(4))
	{
	case 2: tape_world(c); break;
	case 3: branch_world(c); break;
	default: duel_entry(c); break;
	}
}
WorldReg const r18("C18", objects_world);
} // namespace

} // namespace sim
