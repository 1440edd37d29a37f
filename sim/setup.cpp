// How a simulated duel is configured, per property and swarm-style per run.
#include "engine.hpp"
#include <algorithm>

namespace sim
{

void default_weights(std::string const& prop, std::vector<uint32_t>& w);
void configure(Ctx& c, Engine& e, std::string const& prop);
uint32_t choose_steps(Ctx& c, Engine const& e);

void default_weights(std::string const& prop, std::vector<uint32_t>& w)
{
	w.assign(OP_COUNT, 0);
	auto set = [&](std::initializer_list<std::pair<int, uint32_t>> l)
	{
		for(auto& [o, x] : l)
			w[static_cast<size_t>(o)] = x;
	};
	set({{OP_DRAW, 6}, {OP_MOVE, 14}, {OP_ATTACH, 6}, {OP_DETACH, 5}, {OP_XYZ, 5}, {OP_RANKUP, 3}, {OP_LEAVE, 4}, {OP_LIMBO_ADD, 6}, {OP_LIMBO_DEL, 4}, {OP_SWAP, 6}, {OP_SHUFFLE_SET, 3}, {OP_SWAP_GRAVE, 2}, {OP_REVERSE, 2}, {OP_TAG, 2}, {OP_RELOAD, 1}, {OP_LP, 3}, {OP_TURN, 2}, {OP_PHASE, 2}, {OP_CHAIN, 3}, {OP_CHAIN_POP, 3}, {OP_DISABLED, 1}, {OP_META, 3}, {OP_SELECT_META, 1}, {OP_QUERY_LOC, 1}, {OP_QUERY_ONE, 1}, {OP_ASK, 2}, {OP_NOISE, 2}, {OP_UNKNOWN, 1}, {OP_NATIVE_MOVE, 4}, {OP_NATIVE_PILE, 4}, {OP_NATIVE_STATE, 1}, {OP_MILL, 2}, {OP_MATCH_KILL, 1}, {OP_DECK_TOP, 1}});
	if(prop == "C02")
		set({{OP_LP, 16}, {OP_TURN, 10}, {OP_PHASE, 10}, {OP_CHAIN, 16}, {OP_CHAIN_POP, 9}, {OP_DISABLED, 10}, {OP_RELOAD, 3}, {OP_NATIVE_STATE, 2}, {OP_TURN_BURST, 2}});
	else if(prop == "C03")
		set({{OP_META, 20}, {OP_SELECT_META, 6}, {OP_ASK, 16}, {OP_NOISE, 8}, {OP_UNKNOWN, 4}, {OP_QUERY_LOC, 6}, {OP_QUERY_ONE, 6}, {OP_DECK_TOP, 3}, {OP_RELOAD, 3}, {OP_TAG, 4}, {OP_SWAP_GRAVE, 4}, {OP_SHUFFLE_SET, 5}, {OP_DISABLED, 3}, {OP_NATIVE_MOVE, 1}, {OP_NATIVE_PILE, 1}});
	else if(prop == "C04")
		set({{OP_ATTACH, 18}, {OP_DETACH, 12}, {OP_XYZ, 14}, {OP_RANKUP, 10}, {OP_LEAVE, 10}, {OP_SWAP, 10}, {OP_LIMBO_ADD, 8}, {OP_LIMBO_DEL, 6}, {OP_SHUFFLE_SET, 4}, {OP_RELOAD, 2}, {OP_META, 1}, {OP_ASK, 0}});
	else if(prop == "C05")
		set({{OP_RELOAD, 4}, {OP_NATIVE_STATE, 3}, {OP_CHAIN, 6}, {OP_LP, 5}, {OP_ATTACH, 9}, {OP_XYZ, 7}, {OP_TURN, 4}});
	else if(prop == "C08")
		set({{OP_META, 40}, {OP_SELECT_META, 12}, {OP_ASK, 30}, {OP_CHAIN, 8}, {OP_CHAIN_POP, 4}, {OP_DECK_TOP, 8}, {OP_DRAW, 8}, {OP_MOVE, 14}, {OP_LP, 2}, {OP_PHASE, 2}, {OP_REVERSE, 3}, {OP_ATTACH, 8}});
	else if(prop == "C09")
		set({{OP_QUERY_LOC, 14}, {OP_QUERY_ONE, 18}, {OP_META, 1}, {OP_ASK, 1}});
	else if(prop == "C10")
		set({{OP_ASK, 60}, {OP_MOVE, 12}, {OP_ATTACH, 8}});
	else if(prop == "C17")
		set({{OP_XYZ, 8}, {OP_RANKUP, 5}, {OP_LEAVE, 6}, {OP_MATCH_KILL, 2}, {OP_QUERY_LOC, 3}, {OP_QUERY_ONE, 3}, {OP_META, 6}, {OP_ASK, 4}, {OP_DECK_TOP, 3}, {OP_WIN, 1}});
	else if(prop == "C18")
		set({{OP_LIMBO_ADD, 14}, {OP_LIMBO_DEL, 12}, {OP_TAG, 5}, {OP_RELOAD, 4}, {OP_NATIVE_STATE, 3}, {OP_NATIVE_PILE, 8}});
	else if(prop == "C19")
		set({{OP_MATCH_KILL, 10}, {OP_WIN, 5}, {OP_TURN_BURST, 3}, {OP_LP, 6}, {OP_NOISE, 6}, {OP_META, 8}});
}

void configure(Ctx& c, Engine& e, std::string const& prop)
{
	default_weights(prop, e.cfg.w);
	auto& ch = c.ch;
	// Swarm: most runs use a subset of the operations, some heavily.
	auto mode = ch.n(4);
	for(size_t i = 0; i < OP_COUNT; i++)
	{
		auto r = ch.n(12);
		if(mode == 0)
			continue;
		if(r < 3 && i != OP_DRAW && i != OP_MOVE)
			e.cfg.w[i] = 0;
		else if(r == 3)
			e.cfg.w[i] *= 5;
	}
	if(prop == "C10" && !e.cfg.w[OP_ASK])
		e.cfg.w[OP_ASK] = 40;
	if(prop == "C09" && !e.cfg.w[OP_QUERY_LOC] && !e.cfg.w[OP_QUERY_ONE])
		e.cfg.w[OP_QUERY_ONE] = 20;
	if(prop == "C19" && !e.cfg.w[OP_WIN])
		e.cfg.w[OP_WIN] = 4;
	auto s = ch.n(24);
	e.cfg.scale = s < 12 ? 0 : s < 23 ? 1 : 2;
	if(prop == "C10" && s >= 20)
		e.cfg.scale = 2; // lists longer than a byte can count
	e.cfg.native = ch.p(2, 3);
	e.cfg.skill = e.cfg.native && ch.p(1, 4);
	e.cfg.noise = ch.p(2, 3);
	e.cfg.finish = prop == "C19" || prop == "C17" || prop == "C03";
	if(prop == "C03")
		e.cfg.w[OP_WIN] = 1;
}

uint32_t choose_steps(Ctx& c, Engine const& e)
{
	auto r = c.ch.n(10);
	uint32_t lim = r < 4 ? 120 : r < 9 ? 400 : c.thorough ? 2400 : 900;
	if(e.cfg.scale == 2)
		lim = std::min(lim, c.thorough ? 500u : 200u);
	return 30 + c.ch.n(lim);
}

} // namespace sim
