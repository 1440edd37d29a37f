#include "engine.hpp"
#include <algorithm>

namespace sim
{

uint64_t qf_bit(int f)
{
	static const uint64_t b[QF_COUNT] = {
		0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200, 0x400, 0x800, 0x4000,
		0x40000, 0x80000, 0x100000, 0x200000, 0x400000, 0x1000000, 0x2000000, 0x100000000ull,
		0x200000000ull};
	return b[f];
}

char const* op_name(int op)
{
	static const char* n[OP_COUNT] = {
		"draw", "move", "attach", "detach", "xyz", "rankup", "leave", "limbo_add",
		"limbo_del", "swap", "shuffle_set", "swap_grave", "reverse", "tag", "reload",
		"lp", "turn", "phase", "chain", "chain_pop", "disabled", "meta", "select_meta",
		"query_loc", "query_one", "ask", "noise", "unknown", "native_move", "native_pile",
		"native_state", "mill", "match_kill", "win", "deck_top", "turn_burst"};
	return n[op];
}

namespace
{
// Core side location byte and sequence of a place.
void core_loc(P const& p, uint32_t& loc, uint32_t& seq)
{
	loc = kloc(p.kind);
	seq = p.seq;
	if(p.kind == K_FZ)
	{
		loc = 0x8;
		seq = 5;
	}
	else if(p.kind == K_PZ)
	{
		loc = 0x8;
		seq = 6 + p.seq;
	}
}
} // namespace

int64_t Engine::lit_of(P const& p)
{
	if(p.kind == K_NONE)
		return 2;
	return ((((static_cast<int64_t>(p.con) * 16 + p.kind) << 32) + p.seq) * 256 + (p.oseq + 1)) * 4 + 2;
}
int64_t Engine::lit(P const& p)
{
	return lit_of(p);
}

uint32_t Engine::heavy(uint32_t max)
{
	uint32_t r = c_.ch.n(8);
	if(r < 3)
		return c_.ch.n(std::min(max, 2u) + 1);
	if(r < 6)
		return c_.ch.n(std::min(max, 6u) + 1);
	return c_.ch.n(max + 1);
}

uint32_t Engine::val32()
{
	switch(c_.ch.n(6))
	{
	case 0: return c_.ch.n(16);
	case 1: return c_.ch.n(10000);
	case 2: return 0xFFFFFFFFu;
	case 3: return 1u << c_.ch.n(32);
	case 4: return 0x80000000u - c_.ch.n(2);
	default: return c_.ch.u32();
	}
}
uint64_t Engine::val64()
{
	switch(c_.ch.n(4))
	{
	case 0: return c_.ch.n(1000);
	case 1: return ~0ull;
	case 2: return 1ull << c_.ch.n(64);
	default: return c_.ch.u64();
	}
}
uint64_t Engine::effect(uint32_t& code, uint32_t& index)
{
	code = val32();
	index = c_.ch.p(1, 2) ? c_.ch.n(16) : c_.ch.n(0x100000);
	return (static_cast<uint64_t>(code) << 20) | index;
}

Frm& Engine::emit(W& w, char const* name, int expect)
{
	Frm f;
	f.bytes = std::move(w.s);
	f.name = name;
	f.expect = expect;
	f.after = snap();
	f.at_ms = c_.now_ms;
	out.push_back(std::move(f));
	c_.op(name);
	return out.back();
}

Frm& Engine::emit_native(pd::Msg const& m, char const* name)
{
	Frm f;
	f.native = true;
	m.SerializeToString(&f.bytes);
	f.name = name;
	f.after = snap();
	f.at_ms = c_.now_ms;
	out.push_back(std::move(f));
	c_.op(name);
	return out.back();
}

void Engine::loc(W& w, P const& p, uint32_t pos)
{
	if(p.kind == K_NONE)
	{
		w.u8(static_cast<uint32_t>(p.con)).u8(0).u32(0).u32(0);
		return;
	}
	uint32_t l, s;
	core_loc(p, l, s);
	w.u8(static_cast<uint32_t>(p.con));
	if(p.oseq >= 0)
		w.u8(l | 0x80).u32(s).u32(static_cast<uint32_t>(p.oseq));
	else
		w.u8(l).u32(s).u32(pos);
}
void Engine::overlay(W& w, P const& owner, int oseq)
{
	P q = owner;
	q.oseq = oseq;
	loc(w, q);
}

void Engine::move_msg(P const& from, bool from_ov, P const& to, bool to_ov, uint32_t code,
                      char const* name, int expect, uint32_t reason)
{
	(void)from_ov;
	(void)to_ov;
	W w;
	w.u8(50).u32(code);
	loc(w, from, 1u << c_.ch.n(4));
	loc(w, to, 1u << c_.ch.n(4));
	w.u32(reason);
	auto& f = emit(w, name, expect);
	if(expect == 1)
		f.canon = {CN_CARD, static_cast<int64_t>(reason)};
}

// Picks an existing card.
bool Engine::pick(P& out, bool piles, bool zones, bool mats, bool zones_with_mats)
{
	// Choose the class first so that rare classes are not drowned by piles.
	uint32_t order[3] = {0, 1, 2};
	uint32_t first = c_.ch.n(3);
	std::swap(order[0], order[first]);
	for(auto cls : order)
	{
		if(cls == 0 && piles)
		{
			std::vector<std::pair<int, int>> ne;
			for(int c = 0; c < 2; c++)
				for(int k = 0; k < N_PILES; k++)
					if(!v.pile[c][k].empty())
						ne.emplace_back(c, k);
			if(ne.empty())
				continue;
			auto [c, k] = ne[c_.ch.n(static_cast<uint32_t>(ne.size()))];
			auto sz = static_cast<uint32_t>(v.pile[c][k].size());
			uint32_t s = 0;
			switch(c_.ch.n(4))
			{
			case 0: s = 0; break;
			case 1: s = sz - 1; break;
			default: s = c_.ch.n(sz);
			}
			out = P{c, k, s, -1};
			return true;
		}
		if(cls == 1 && zones)
		{
			std::vector<P> zs;
			for(int c = 0; c < 2; c++)
				for(int zi = 0; zi < N_ZONES; zi++)
				{
					auto& z = v.zone[c][zi];
					P p = zone_place(c, zi);
					if(p.kind == K_SK)
						continue;
					if(z.card && (zones_with_mats || z.mats.empty()))
						zs.push_back(p);
				}
			if(zs.empty())
				continue;
			out = zs[c_.ch.n(static_cast<uint32_t>(zs.size()))];
			return true;
		}
		if(cls == 2 && mats)
		{
			std::vector<P> ms;
			for(int c = 0; c < 2; c++)
				for(int zi = 0; zi < N_ZONES; zi++)
				{
					auto& z = v.zone[c][zi];
					for(size_t i = 0; i < z.mats.size(); i++)
					{
						P p = zone_place(c, zi);
						p.oseq = static_cast<int>(i);
						if(p.kind != K_SK)
							ms.push_back(p);
					}
				}
			if(ms.empty())
				continue;
			out = ms[c_.ch.n(static_cast<uint32_t>(ms.size()))];
			return true;
		}
	}
	return false;
}

// Picks a totally empty zone.
bool Engine::pick_zone(P& out, bool native_ok)
{
	std::vector<P> zs;
	for(int c = 0; c < 2; c++)
		for(int zi = 0; zi < N_ZONES; zi++)
		{
			P p = zone_place(c, zi);
			if(p.kind == K_SK && !(native_ok && cfg.skill))
				continue;
			if(v.zone[c][zi].empty())
				zs.push_back(p);
		}
	if(zs.empty())
		return false;
	out = zs[c_.ch.n(static_cast<uint32_t>(zs.size()))];
	return true;
}

P Engine::pick_pile_pos(int kind_hint)
{
	P p;
	p.con = static_cast<int>(c_.ch.n(2));
	p.kind = kind_hint >= 0 ? kind_hint : static_cast<int>(c_.ch.n(N_PILES));
	auto sz = static_cast<uint32_t>(v.pl(p).size());
	switch(c_.ch.n(3))
	{
	case 0: p.seq = sz; break;
	case 1: p.seq = 0; break;
	default: p.seq = c_.ch.n(sz + 1);
	}
	return p;
}

void Engine::start()
{
	W w;
	uint32_t lp[2], n[2][2];
	w.u8(4).u8(c_.ch.n(6));
	for(auto& l : lp)
	{
		l = c_.ch.p(1, 3) ? val32() : 8000;
		w.u32(l);
	}
	for(auto& side : n)
		for(int i = 0; i < 2; i++)
		{
			uint32_t m = 0;
			if(cfg.scale == 0)
				m = c_.ch.n(i == 0 ? 8 : 5);
			else if(cfg.scale == 1)
				m = i == 0 ? 30 + c_.ch.n(31) : c_.ch.n(16);
			else
				m = i == 0 ? 200 + c_.ch.n(150) : 60 + c_.ch.n(60);
			side[i] = m;
			w.u16(m);
		}
	v = View{};
	for(int c = 0; c < 2; c++)
	{
		v.lp[c] = lp[c];
		for(uint32_t i = 0; i < n[c][0]; i++)
			v.pile[c][K_MD].push_back(tok());
		for(uint32_t i = 0; i < n[c][1]; i++)
			v.pile[c][K_EX].push_back(tok());
	}
	dirty_ = true;
	auto& f = emit(w, "start");
	f.snapshot = true;
	f.sets_turn = true;
	f.canon = {CN_STATE, 0, -1};
}

bool Engine::step()
{
	if(finished)
		return false;
	uint64_t tot = 0;
	for(auto x : cfg.w)
		tot += x;
	auto r = c_.ch.n(static_cast<uint32_t>(tot));
	int op = 0;
	for(; op < OP_COUNT; op++)
	{
		if(r < cfg.w[static_cast<size_t>(op)])
			break;
		r -= cfg.w[static_cast<size_t>(op)];
	}
	auto before = out.size();
	do_op(op);
	return out.size() != before;
}

void Engine::do_op(int op)
{
	if(finished)
		return;
	auto const first = out.size();
	switch(op)
	{
	case OP_DRAW: op_draw(); break;
	case OP_MOVE: op_move(); break;
	case OP_ATTACH: op_attach(); break;
	case OP_DETACH: op_detach(); break;
	case OP_XYZ: op_xyz(false); break;
	case OP_RANKUP: op_xyz(true); break;
	case OP_LEAVE: op_leave(); break;
	case OP_LIMBO_ADD: op_limbo_add(); break;
	case OP_LIMBO_DEL: op_limbo_del(); break;
	case OP_SWAP: op_swap(); break;
	case OP_SHUFFLE_SET:
		if(cfg.shuffle_set)
			op_shuffle_set();
		break;
	case OP_SWAP_GRAVE: op_swap_grave(); break;
	case OP_REVERSE: op_reverse(); break;
	case OP_TAG: op_tag(); break;
	case OP_RELOAD: op_reload(); break;
	case OP_LP: op_lp(); break;
	case OP_TURN: op_turn(); break;
	case OP_PHASE: op_phase(); break;
	case OP_CHAIN: op_chain(); break;
	case OP_CHAIN_POP: op_chain_pop(); break;
	case OP_DISABLED: op_disabled(); break;
	case OP_META: op_meta(); break;
	case OP_SELECT_META: op_select_meta(); break;
	case OP_QUERY_LOC:
		if(cfg.queries)
			op_query_loc();
		break;
	case OP_QUERY_ONE:
		if(cfg.queries)
			op_query_one();
		break;
	case OP_ASK:
		if(cfg.asks && !pending)
			op_ask();
		break;
	case OP_NOISE:
		if(cfg.noise)
			op_noise();
		break;
	case OP_UNKNOWN:
		if(cfg.noise)
			op_unknown();
		break;
	case OP_NATIVE_MOVE:
		if(cfg.native)
			op_native_move();
		break;
	case OP_NATIVE_PILE:
		if(cfg.native)
			op_native_pile();
		break;
	case OP_NATIVE_STATE:
		if(cfg.native)
			op_native_state();
		break;
	case OP_MILL: op_mill(); break;
	case OP_MATCH_KILL:
	{
		W w;
		auto r = 1 + c_.ch.n(3) * 1000 + (c_.ch.p(1, 4) ? 0xFFFFF000u : 0u);
		w.u8(170).u32(r);
		emit(w, "match_kill", 2);
		kills.push_back(r);
		break;
	}
	case OP_WIN:
		if(cfg.finish)
			op_win();
		break;
	case OP_DECK_TOP: op_deck_top(); break;
	case OP_TURN_BURST:
	{
		auto n = 2 + c_.ch.n(6);
		for(uint32_t i = 0; i < n; i++)
			op_turn();
		break;
	}
	default: break;
	}
	for(auto i = first; i + 1 < out.size(); i++)
		if(op == OP_XYZ || op == OP_RANKUP || op == OP_LEAVE)
			out[i].quiescent = false;
}

void Engine::op_draw()
{
	int con = static_cast<int>(c_.ch.n(2));
	auto& d = v.pile[con][K_MD];
	auto n = std::min(heavy(cfg.scale == 2 ? 400 : 8), static_cast<uint32_t>(d.size()));
	W w;
	w.u8(90).u8(static_cast<uint32_t>(con)).u32(n);
	for(uint32_t i = 0; i < n; i++)
	{
		int t = d.back();
		d.pop_back();
		v.pile[con][K_HAND].push_back(t);
		w.u32(c_.ch.p(1, 2) ? code_of(t) : 0).u32(10);
	}
	dirty_ = true;
	emit(w, "draw").canon = {CN_PILE, 0x2000000};
}

void Engine::op_mill()
{
	int con = static_cast<int>(c_.ch.n(2));
	auto n = std::min(heavy(cfg.scale == 2 ? (c_.ch.p(1, 4) ? 400 : 80) : 5), static_cast<uint32_t>(v.pile[con][K_MD].size()));
	int dk = c_.ch.p(1, 4) ? K_BAN : K_GY;
	for(uint32_t i = 0; i < n; i++)
	{
		P from{con, K_MD, static_cast<uint32_t>(v.pile[con][K_MD].size() - 1), -1};
		P to{con, dk, static_cast<uint32_t>(v.pile[con][dk].size()), -1};
		int t = v.take(from);
		v.put(to, t);
		dirty_ = true;
		move_msg(from, false, to, false, code_of(t), "mill", 1, 0x40);
	}
}

void Engine::op_move()
{
	P from;
	if(!pick(from, true, true, true, true))
		return;
	bool const has_mats = kzone(from.kind) && from.oseq < 0 && !v.z(from).mats.empty();
	P to;
	// Destination class: 0 pile, 1 empty zone.
	bool zone_dest = has_mats || c_.ch.p(1, 2);
	uint32_t reason = c_.ch.p(1, 4) ? c_.ch.u32() : 1u << c_.ch.n(29);
	if(zone_dest)
	{
		if(!pick_zone(to, false))
			return;
	}
	else
	{
		int t = v.take(from);
		to = pick_pile_pos();
		v.put(from, t);
	}
	int t = v.take(from);
	v.put(to, t);
	if(has_mats)
		std::swap(v.z(from).mats, v.z(to).mats);
	dirty_ = true;
	move_msg(from, false, to, false, c_.ch.p(1, 2) ? code_of(t) : 0,
	         kpile(to.kind) ? (from.oseq >= 0 ? "move_mat_pile" : kpile(from.kind) ? "move_pile_pile" : "move_zone_pile")
	                        : (from.oseq >= 0 ? "move_mat_zone" : kpile(from.kind) ? "move_pile_zone" : has_mats ? "move_owner" : "move_zone_zone"),
	         1, reason);
}

void Engine::op_attach()
{
	// A card becomes material of a monster already on the field.
	std::vector<P> owners;
	for(int c = 0; c < 2; c++)
		for(int zi = 0; zi < N_ZONES; zi++)
		{
			P p = zone_place(c, zi);
			if(v.zone[c][zi].card && (p.kind == K_MZ || (p.kind == K_SZ && c_.ch.p(1, 8)) || (cfg.native && p.kind == K_PZ)))
				owners.push_back(p);
		}
	if(owners.empty())
		return;
	auto n = 1 + (c_.ch.p(1, 4) ? heavy(cfg.scale == 2 ? (c_.ch.p(1, 8) ? 300 : 40) : 6) : 0);
	if(cfg.scale == 2 && c_.ch.p(1, 12))
		n = 250 + c_.ch.n(40); // more than a byte can count
	P owner = owners[c_.ch.n(static_cast<uint32_t>(owners.size()))];
	for(uint32_t i = 0; i < n; i++)
	{
		P from;
		if(!pick(from, true, true, true, false))
			return;
		if(from.same_zone(owner) && from.oseq < 0)
			return;
		int t = v.take(from);
		P to = owner;
		auto sz = static_cast<uint32_t>(v.z(owner).mats.size());
		to.oseq = static_cast<int>(c_.ch.p(3, 4) ? sz : c_.ch.n(sz + 1));
		v.put(to, t);
		dirty_ = true;
		move_msg(from, false, to, true, code_of(t), from.oseq >= 0 ? "attach_mat" : "attach", 1, 0x40);
	}
}

void Engine::op_detach()
{
	P from;
	std::vector<P> ms;
	for(int c = 0; c < 2; c++)
		for(int zi = 0; zi < N_ZONES; zi++)
			for(size_t i = 0; i < v.zone[c][zi].mats.size(); i++)
			{
				P p = zone_place(c, zi);
				p.oseq = static_cast<int>(i);
				if(p.kind != K_SK)
					ms.push_back(p);
			}
	if(ms.empty())
		return;
	from = ms[c_.ch.n(static_cast<uint32_t>(ms.size()))];
	int t = v.take(from);
	P to = pick_pile_pos(c_.ch.p(3, 4) ? K_GY : -1);
	v.put(to, t);
	dirty_ = true;
	move_msg(from, true, to, false, code_of(t), "detach", 1, 0x80);
}

// A message of no bearing on the cards, in the middle of an operation that
// takes several.
void Engine::interlude()
{
	if(!c_.ch.p(1, 6))
		return;
	switch(c_.ch.n(7))
	{
	case 0: op_lp(); break;
	case 1: op_turn(); break;
	case 2: op_phase(); break;
	case 3: op_disabled(); break;
	case 4: op_chain_pop(); break;
	case 5:
		if(cfg.noise)
			op_noise();
		break;
	default:
		if(cfg.noise)
			op_unknown();
	}
	c_.probe("interlude", 1);
}

// Monster outside of the field gets its materials first, then arrives.
void Engine::op_xyz(bool rankup)
{
	std::vector<P> mons;
	P dest, old;
	// Rank-up: an owner on the field goes under the new monster.
	if(rankup)
	{
		std::vector<P> owners;
		for(int c = 0; c < 2; c++)
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				P p = zone_place(c, zi);
				auto& z = v.zone[c][zi];
				if(z.card && (!z.mats.empty() || c_.ch.p(1, 4)) && p.kind == K_MZ)
					owners.push_back(p);
			}
		if(owners.empty())
			return;
		old = owners[c_.ch.n(static_cast<uint32_t>(owners.size()))];
		if(c_.ch.p(2, 3) || !pick_zone(dest, false))
			dest = old;
	}
	else if(!pick_zone(dest, false))
		return;
	P mon;
	{
		std::vector<std::pair<int, int>> ne;
		for(int c = 0; c < 2; c++)
		{
			if(!v.pile[c][K_EX].empty())
				ne.insert(ne.begin(), {c, K_EX});
			for(int k : {K_GY, K_HAND, K_BAN, K_MD})
				if(!v.pile[c][k].empty() && c_.ch.p(1, 6))
					ne.emplace_back(c, k);
		}
		if(ne.empty())
			return;
		auto [c, k] = ne[c_.ch.n(static_cast<uint32_t>(ne.size()))];
		mon = P{c, k, c_.ch.n(static_cast<uint32_t>(v.pile[c][k].size())), -1};
	}
	int const mt = v.at(mon);
	std::vector<int> placed;
	auto defer = [&](P from)
	{
		W w;
		int t = v.take(from);
		if(kpile(from.kind) && from.con == mon.con && from.kind == mon.kind && from.seq < mon.seq)
			mon.seq--;
		w.u8(50).u32(code_of(t));
		loc(w, from, 1);
		P o = mon;
		o.oseq = static_cast<int>(placed.size());
		loc(w, o);
		w.u32(0x200008);
		placed.push_back(t);
		// Viewers only see all of it once the monster arrives.
		auto& f = emit(w, "attach_deferred", 2);
		f.quiescent = false;
	};
	auto const keep = snap();
	auto extra = [&](uint32_t n)
	{
		for(uint32_t i = 0; i < n; i++)
		{
			P from;
			if(!pick(from, true, true, true, false))
				return;
			if(v.at(from) == mt)
				continue;
			if(kzone(from.kind) && from.oseq < 0 && !v.z(from).mats.empty())
				continue;
			// Remaining materials of the old owner go first, in order.
			if(rankup && from.same_zone(old))
				continue;
			interlude();
			defer(from);
		}
	};
	auto const first = out.size();
	if(c_.ch.p(1, 3))
		extra(heavy(4));
	if(rankup)
	{
		bool const any_order = c_.ch.p(1, 3);
		while(!v.z(old).mats.empty())
		{
			P m = old;
			m.oseq = any_order ? static_cast<int>(c_.ch.n(static_cast<uint32_t>(v.z(old).mats.size()))) : 0;
			defer(m);
			interlude();
			if(c_.ch.p(1, 8))
				extra(1);
		}
		P o = old;
		defer(o);
		if(c_.ch.p(1, 4))
			extra(1);
	}
	else
		extra(1 + heavy(cfg.scale == 2 ? (c_.ch.p(1, 8) ? 300 : 30) : 5));
	// Until the arrival viewers keep the former board.
	View const now = v;
	auto before = keep;
	for(auto i = first; i < out.size(); i++)
	{
		auto const& f = *out[i].after;
		out[i].quiescent = false;
		if(f.lp[0] != before->lp[0] || f.lp[1] != before->lp[1] || f.turn != before->turn || f.turn_con != before->turn_con || f.phase != before->phase || f.blocked != before->blocked || f.chain.size() != before->chain.size())
		{
			auto part = std::make_shared<View>(*keep);
			part->lp[0] = f.lp[0];
			part->lp[1] = f.lp[1];
			part->turn = f.turn;
			part->turn_con = f.turn_con;
			part->phase = f.phase;
			part->blocked = f.blocked;
			part->chain = f.chain;
			before = part;
		}
		out[i].after = before;
	}
	v = now;
	int t = v.take(mon);
	v.put(dest, t);
	v.z(dest).mats = placed;
	dirty_ = true;
	move_msg(mon, false, dest, false, code_of(t), rankup ? (dest == old ? "rankup_same" : "rankup_other") : "xyz_arrive", 1, 0x200800);
	c_.probe("xyz_materials", placed.size());
}

// One or more owners leave the field; their materials are detached later.
void Engine::op_leave()
{
	std::vector<P> owners;
	for(int c = 0; c < 2; c++)
		for(int zi = 0; zi < N_ZONES; zi++)
		{
			P p = zone_place(c, zi);
			if(v.zone[c][zi].card && !v.zone[c][zi].mats.empty() && p.kind != K_SK)
				owners.push_back(p);
		}
	if(owners.empty())
		return;
	uint32_t n = 1 + (c_.ch.p(1, 2) ? c_.ch.n(static_cast<uint32_t>(owners.size())) : 0);
	struct Gone
	{
		P zone;
		P at;
	};
	std::vector<Gone> gone;
	auto detach_one = [&]()
	{
		auto gi = c_.ch.n(static_cast<uint32_t>(gone.size()));
		auto& g = gone[gi];
		auto& m = v.z(g.zone).mats;
		P from = g.at;
		from.oseq = static_cast<int>(c_.ch.n(static_cast<uint32_t>(m.size())));
		P src = g.zone;
		src.oseq = from.oseq;
		int t = v.take(src);
		// Destination never shifts an owner still waiting.
		P to;
		bool under = c_.ch.p(1, 6) && pick(to, false, true, false, true);
		for(auto& x : gone)
			under &= !to.same_zone(x.zone);
		if(under)
		{
			// Straight under another monster.
			auto sz = static_cast<uint32_t>(v.z(to).mats.size());
			to.oseq = static_cast<int>(c_.ch.p(1, 2) ? sz : c_.ch.n(sz + 1));
		}
		else
		{
			to = pick_pile_pos(c_.ch.p(3, 4) ? K_GY : -1);
			to.seq = static_cast<uint32_t>(v.pl(to).size());
		}
		v.put(to, t);
		dirty_ = true;
		move_msg(from, true, to, under, code_of(t), under ? "detach_left_under" : "detach_left", 1, 0x400);
		if(m.empty())
			gone.erase(gone.begin() + gi);
	};
	for(uint32_t i = 0; i < n; i++)
	{
		if(!gone.empty() && c_.ch.p(1, 3))
			detach_one();
		auto oi = c_.ch.n(static_cast<uint32_t>(owners.size()));
		P z = owners[oi];
		owners.erase(owners.begin() + oi);
		P to = pick_pile_pos(c_.ch.p(1, 2) ? K_GY : -1);
		// Owners still waiting for their materials must not be shifted.
		bool shift = false;
		for(auto& g : gone)
			shift |= g.at.con == to.con && g.at.kind == to.kind;
		if(shift)
			to.seq = static_cast<uint32_t>(v.pl(to).size());
		int t = v.take(z);
		v.put(to, t);
		dirty_ = true;
		move_msg(z, false, to, false, code_of(t), "owner_leaves", 1, 0x1);
		gone.push_back({z, to});
	}
	c_.probe("owners_leaving_together", n);
	while(!gone.empty())
	{
		interlude();
		if(c_.ch.p(1, 12))
		{
			bool clear = true;
			for(auto& g : gone)
				clear &= g.at.kind == K_GY || g.at.kind == K_BAN;
			if(clear)
				op_tag();
		}
		if(gone.size() == 1 && c_.ch.p(1, 8))
		{
			// Another card takes the zone, and the materials left under it.
			P from;
			P const z = gone[0].zone;
			if(pick(from, true, false, true, false))
			{
				int t = v.take(from);
				v.put(z, t);
				dirty_ = true;
				move_msg(from, from.oseq >= 0, z, false, code_of(t), "heir_arrives", 1, 0x200800);
				return;
			}
		}
		detach_one();
	}
}

void Engine::op_limbo_add()
{
	P to;
	uint32_t k = c_.ch.n(4);
	if(k == 0)
	{
		if(!pick_zone(to, false))
			return;
	}
	else if(k == 1)
	{
		P o;
		if(!pick(o, false, true, false, true))
			return;
		to = o;
		auto sz = static_cast<uint32_t>(v.z(o).mats.size());
		to.oseq = static_cast<int>(c_.ch.n(sz + 1));
	}
	else
		to = pick_pile_pos();
	int t = tok();
	v.put(to, t);
	dirty_ = true;
	P none;
	none.con = static_cast<int>(c_.ch.n(2));
	move_msg(none, false, to, false, code_of(t), to.oseq >= 0 ? "add_mat" : kpile(to.kind) ? "add_pile" : "add_zone", 1, c_.ch.p(1, 3) ? c_.ch.u32() : 0x40);
}

void Engine::op_limbo_del()
{
	P from;
	if(!pick(from, true, true, true, false))
		return;
	int t = v.take(from);
	dirty_ = true;
	P none;
	none.con = static_cast<int>(c_.ch.n(2));
	move_msg(from, false, none, false, code_of(t), from.oseq >= 0 ? "del_mat" : kpile(from.kind) ? "del_pile" : "del_zone", 1, 0x400);
}

void Engine::op_swap()
{
	P a, b;
	if(!pick(a, true, true, true, true) || !pick(b, true, true, true, true))
		return;
	if(a == b)
		return;
	auto owner = [&](P const& p)
	{
		return kzone(p.kind) && p.oseq < 0 && !v.z(p).mats.empty();
	};
	if((owner(a) && kpile(b.kind)) || (owner(b) && kpile(a.kind)))
		return;
	W w;
	w.u8(55).u32(code_of(v.at(a)));
	loc(w, a, 1);
	w.u32(code_of(v.at(b)));
	loc(w, b, 4);
	if(kzone(a.kind) && kzone(b.kind) && a.oseq < 0 && b.oseq < 0)
		std::swap(v.z(a), v.z(b));
	else
		std::swap(v.ref(a), v.ref(b));
	dirty_ = true;
	emit(w, a.oseq >= 0 || b.oseq >= 0 ? "swap_mat" : "swap").canon = {CN_EXCHANGE, 0};
}

void Engine::op_shuffle_set()
{
	int con = static_cast<int>(c_.ch.n(2));
	int kind = c_.ch.p(1, 2) ? K_SZ : K_MZ;
	std::vector<P> at;
	int const lim = kind == K_MZ && c_.ch.p(1, 3) ? 7 : 5;
	for(int i = 0; i < lim; i++)
	{
		P p{con, kind, static_cast<uint32_t>(i), -1};
		if(v.z(p).card && c_.ch.p(4, 5))
			at.push_back(p);
	}
	if(at.size() < 2)
		return;
	// Order in which the engine lists them is arbitrary.
	for(size_t i = at.size() - 1; i > 0; i--)
		std::swap(at[i], at[c_.ch.n(static_cast<uint32_t>(i + 1))]);
	std::vector<P> to = at;
	for(size_t i = to.size() - 1; i > 0; i--)
		std::swap(to[i], to[c_.ch.n(static_cast<uint32_t>(i + 1))]);
	W w;
	w.u8(36).u8(kloc(kind)).u8(static_cast<uint32_t>(at.size()));
	std::vector<ZoneV> zs;
	std::vector<int> loose;
	for(auto& p : at)
	{
		loc(w, p, 8);
		zs.push_back(v.z(p));
	}
	bool const name_all = c_.ch.p(1, 6);
	for(size_t i = 0; i < at.size(); i++)
	{
		if(name_all || !zs[i].mats.empty())
			loc(w, to[i], 8);
		else
		{
			P none;
			loc(w, none);
			loose.push_back(zs[i].card);
		}
	}
	for(size_t i = 0; i < at.size(); i++)
		v.z(to[i]) = zs[i];
	dirty_ = true;
	auto& f = emit(w, "shuffle_set");
	f.setwise = loose;
	f.unspec = loose;
	f.canon = {CN_CARD, 0};
}

void Engine::op_swap_grave()
{
	int con = static_cast<int>(c_.ch.n(2));
	auto& gy = v.pile[con][K_GY];
	auto& md = v.pile[con][K_MD];
	auto& ex = v.pile[con][K_EX];
	auto ins = c_.ch.p(1, 2) ? static_cast<uint32_t>(ex.size()) : c_.ch.n(static_cast<uint32_t>(ex.size()) + 1);
	auto bytes = (gy.size() + 7) / 8 + c_.ch.n(3);
	std::string bits(bytes, '\0');
	uint32_t mode = c_.ch.n(4);
	std::vector<int> nmd, mv;
	bool run = c_.ch.p(1, 2);
	for(size_t i = 0; i < gy.size(); i++)
	{
		bool b = false;
		if(mode == 1)
			b = true;
		else if(mode == 2)
			b = c_.ch.p(1, 2);
		else if(mode == 3)
		{
			if(c_.ch.p(1, 4))
				run = !run;
			b = run;
		}
		if(b)
		{
			bits[i / 8] = static_cast<char>(bits[i / 8] | (1 << (i % 8)));
			mv.push_back(gy[i]);
		}
		else
			nmd.push_back(gy[i]);
	}
	if(gy.size() > 64)
		c_.probe("swap_grave_over_64");
	W w;
	w.u8(35).u8(static_cast<uint32_t>(con)).u32(ins).u32(static_cast<uint32_t>(bytes));
	w.s += bits;
	gy = md;
	md = nmd;
	ex.insert(ex.begin() + ins, mv.begin(), mv.end());
	dirty_ = true;
	emit(w, "swap_grave").canon = {CN_PILE, 0};
}

void Engine::op_reverse()
{
	for(auto& side : v.pile)
		std::reverse(side[K_MD].begin(), side[K_MD].end());
	dirty_ = true;
	W w;
	w.u8(37);
	emit(w, "reverse_deck").canon = {CN_PILE, 0x40};
}

void Engine::op_tag()
{
	int con = static_cast<int>(c_.ch.n(2));
	auto nsize = [&](size_t cur) -> uint32_t
	{
		auto base = static_cast<uint32_t>(cur);
		switch(c_.ch.n(4))
		{
		case 0: return base;
		case 1: return base + c_.ch.n(cfg.scale == 0 ? 4 : 12);
		case 2: return base - c_.ch.n(base + 1);
		default: return c_.ch.n(cfg.scale == 0 ? 5 : 60);
		}
	};
	uint32_t n[3];
	int k[3] = {K_MD, K_EX, K_HAND};
	Frm* f = nullptr;
	std::vector<int> fresh;
	for(int i = 0; i < 3; i++)
	{
		auto& p = v.pile[con][k[i]];
		n[i] = nsize(p.size());
		p.clear();
		for(uint32_t j = 0; j < n[i]; j++)
		{
			p.push_back(tok());
			fresh.push_back(p.back());
		}
	}
	W w;
	w.u8(161).u8(static_cast<uint32_t>(con)).u32(n[0]).u32(n[1]).u32(c_.ch.n(n[1] + 1)).u32(n[2]).u32(val32());
	for(uint32_t i = 0; i < n[1] + n[2]; i++)
		w.u32(0).u32(10);
	dirty_ = true;
	f = &emit(w, "tag_swap");
	f->unspec = fresh;
	f->canon = {CN_EXCHANGE, con};
}

void Engine::reload_wire(W& w)
{
	w.u8(162).u32(0x400000u * c_.ch.n(2) + 0x800u * c_.ch.n(2) + 0x1000u * c_.ch.n(2) + 0x2000u * c_.ch.n(2) + c_.ch.n(2) * 0x40000001u);
	for(int c = 0; c < 2; c++)
	{
		w.u32(v.lp[c]);
		auto one = [&](P const& p)
		{
			auto& z = v.z(p);
			if(!z.card)
			{
				w.u8(0);
				return;
			}
			w.u8(1).u8(1u << c_.ch.n(4)).u32(static_cast<uint32_t>(z.mats.size()));
		};
		for(uint32_t i = 0; i < 7; i++)
			one(P{c, K_MZ, i, -1});
		for(uint32_t i = 0; i < 5; i++)
			one(P{c, K_SZ, i, -1});
		one(P{c, K_FZ, 0, -1});
		one(P{c, K_PZ, 0, -1});
		one(P{c, K_PZ, 1, -1});
		for(int k : {K_MD, K_HAND, K_GY, K_BAN, K_EX})
			w.u32(static_cast<uint32_t>(v.pile[c][k].size()));
		w.u32(c_.ch.n(4));
	}
	w.u32(static_cast<uint32_t>(v.chain.size()));
	for(auto& l : v.chain)
	{
		w.u32(code_of(l.token));
		loc(w, l.card, 1);
		uint32_t cl, cs;
		core_loc(l.trig, cl, cs);
		w.u8(static_cast<uint32_t>(l.trig.con)).u8(cl).u32(cs);
		w.u64((static_cast<uint64_t>(l.code) << 20) | l.index);
	}
}

void Engine::op_reload()
{
	for(int c = 0; c < 2; c++)
		if(!v.zone[c][zone_base(K_SK)].empty())
			return; // not expressible by this core
	W w;
	reload_wire(w);
	uint32_t fl;
	std::memcpy(&fl, w.s.data() + 1, 4);
	auto& f = emit(w, "reload_field");
	f.snapshot = true;
	f.canon = {CN_STATE, -1, static_cast<int64_t>(((fl >> 22) & 1) | (((fl >> 11) & 1) << 1) | (((fl >> 12) & 1) << 2) | (((fl >> 13) & 1) << 3))};
}

Frm Engine::snapshot()
{
	auto saved = std::move(out);
	out.clear();
	op_reload();
	Frm f;
	if(!out.empty())
		f = std::move(out.back());
	out = std::move(saved);
	return f;
}

void Engine::op_lp()
{
	int con = static_cast<int>(c_.ch.n(2));
	int t = static_cast<int>(c_.ch.n(4));
	uint32_t amt = 0;
	auto& lp = v.lp[con];
	switch(c_.ch.n(5))
	{
	case 0: amt = c_.ch.n(4) * 500; break;
	case 1: amt = lp; break;
	case 2: amt = lp + (lp != 0xFFFFFFFFu ? 1 : 0); break;
	case 3: amt = lp ? lp - 1 : 0; break;
	default: amt = val32();
	}
	static const uint32_t id[] = {91, 92, 94, 100};
	static const char* nm[] = {"damage", "recover", "lp_update", "pay"};
	if(t == 1 && amt > 0xFFFFFFFFu - lp)
		amt = 0xFFFFFFFFu - lp;
	if(t == 0 || t == 3)
		lp = amt > lp ? 0 : lp - amt;
	else if(t == 1)
		lp += amt;
	else
		lp = amt;
	dirty_ = true;
	W w;
	w.u8(id[t]).u8(static_cast<uint32_t>(con)).u32(amt);
	emit(w, nm[t]).canon = {CN_LP, con, t, amt};
}

void Engine::op_turn()
{
	int con = c_.ch.p(3, 4) ? 1 - v.turn_con : v.turn_con;
	v.turn++;
	v.turn_con = con;
	dirty_ = true;
	W w;
	w.u8(40).u8(static_cast<uint32_t>(con));
	emit(w, "new_turn").canon = {CN_TURN, con};
}

void Engine::op_phase()
{
	uint32_t p = c_.ch.p(1, 6) ? c_.ch.n(65536) : 1u << c_.ch.n(10);
	v.phase = p;
	dirty_ = true;
	W w;
	w.u8(41).u16(p);
	emit(w, "new_phase").canon = {CN_PHASE, p};
}

void Engine::op_chain()
{
	auto n = c_.ch.p(1, 8) ? 2 + c_.ch.n(7) : 1;
	if(c_.ch.p(1, 96))
	{
		n = 20 + c_.ch.n(c_.ch.p(1, 4) ? 280 : 30);
		c_.op("long_chain");
	}
	while(n--)
		chain_link();
}

void Engine::chain_link()
{
	P card;
	if(!pick(card, true, true, true, true))
		return;
	ChainV l;
	l.card = card;
	l.token = v.at(card);
	// Where it was triggered may be any place, existing or not.
	if(c_.ch.p(1, 2))
	{
		l.trig = card;
		l.trig.oseq = -1;
	}
	else
	{
		l.trig = c_.ch.p(1, 2) ? zone_place(static_cast<int>(c_.ch.n(2)), static_cast<int>(c_.ch.n(15)))
		                       : P{static_cast<int>(c_.ch.n(2)), static_cast<int>(c_.ch.n(N_PILES)), heavy(400), -1};
	}
	W w;
	w.u8(70).u32(code_of(l.token));
	loc(w, card, 1);
	uint32_t cl, cs;
	core_loc(l.trig, cl, cs);
	w.u8(static_cast<uint32_t>(l.trig.con)).u8(cl).u32(cs);
	w.u64(effect(l.code, l.index));
	w.u32(static_cast<uint32_t>(v.chain.size() + 1));
	int64_t r = ref(l.token);
	v.chain.push_back(l);
	dirty_ = true;
	auto& f = emit(w, "chain_push");
	f.canon = {CN_CHAIN_PUSH, r, lit(l.trig), l.code, l.index};
	if(c_.ch.p(1, 2))
	{
		W w2;
		w2.u8(71).u8(static_cast<uint32_t>(v.chain.size()));
		emit(w2, "chained").canon = {CN_CHAIN_STATUS, 1};
	}
}

void Engine::op_chain_pop()
{
	static const int64_t st[] = {2, 3, 4};
	static const uint32_t id[] = {72, 75, 76};
	if(c_.ch.p(1, 3))
	{
		auto i = c_.ch.n(3);
		W w;
		w.u8(id[i]).u8(static_cast<uint32_t>(v.chain.size()));
		emit(w, "chain_status").canon = {CN_CHAIN_STATUS, st[i]};
	}
	auto n = c_.ch.p(1, 4) ? static_cast<uint32_t>(v.chain.size()) : std::min<uint32_t>(1, static_cast<uint32_t>(v.chain.size()));
	for(uint32_t i = 0; i < n; i++)
	{
		W w;
		w.u8(73).u8(static_cast<uint32_t>(v.chain.size()));
		v.chain.pop_back();
		dirty_ = true;
		emit(w, "chain_pop").canon = {CN_CHAIN_POP};
	}
	if(v.chain.empty() && n && cfg.noise)
	{
		W w;
		w.u8(74);
		emit(w, "chain_end", 2);
	}
}

void Engine::op_disabled()
{
	uint32_t m = 0;
	switch(c_.ch.n(4))
	{
	case 0: m = 0; break;
	case 1: m = 1u << c_.ch.n(32); break;
	case 2: m = c_.ch.u32() & c_.ch.u32() & c_.ch.u32(); break;
	default: m = c_.ch.u32();
	}
	v.blocked.clear();
	for(int c = 0; c < 2; c++)
		for(int i = 0; i < 16; i++)
		{
			if(i == 7 || !((m >> (c * 16 + i)) & 1u))
				continue;
			v.blocked.push_back(i < 7 ? P{c, K_MZ, static_cast<uint32_t>(i), -1}
			                    : i < 13 ? P{c, K_SZ, static_cast<uint32_t>(i - 8), -1}
			                    : i == 13 ? P{c, K_FZ, 0, -1}
			                              : P{c, K_PZ, static_cast<uint32_t>(i - 14), -1});
			if(i >= 8 && i < 13)
				v.blocked.back() = P{c, K_SZ, static_cast<uint32_t>(i - 8), -1};
		}
	dirty_ = true;
	W w;
	w.u8(56).u32(m);
	emit(w, "field_disabled").canon = {CN_BLOCK, static_cast<int64_t>(v.blocked.size())};
}

void Engine::op_deck_top()
{
	int con = static_cast<int>(c_.ch.n(2));
	auto& d = v.pile[con][K_MD];
	if(d.empty())
		return;
	auto off = c_.ch.p(1, 2) ? 0 : c_.ch.n(static_cast<uint32_t>(d.size()));
	int t = d[d.size() - 1 - off];
	W w;
	w.u8(38).u8(static_cast<uint32_t>(con)).u32(off).u32(code_of(t)).u32(1);
	emit(w, "deck_top").canon = {CN_UPDATE, 0, ref(t)};
}

void Engine::op_meta()
{
	W w;
	P p;
	auto wr_u32 = [&](P const& q)
	{
		uint32_t l, s;
		core_loc(q, l, s);
		w.u8(static_cast<uint32_t>(q.con)).u8(l).u32(s);
	};
	auto wr_u8 = [&](P const& q)
	{
		uint32_t l, s;
		core_loc(q, l, s);
		w.u8(static_cast<uint32_t>(q.con)).u8(l).u8(s);
	};
	switch(c_.ch.n(12))
	{
	case 0: // confirmations
	{
		static const uint32_t id[] = {30, 31, 42};
		auto which = c_.ch.n(3);
		w.u8(id[which]).u8(c_.ch.n(2));
		auto n = heavy(cfg.scale == 2 ? 300 : 12);
		std::vector<int64_t> cn{CN_CONFIRM};
		std::vector<std::pair<int, P>> l;
		bool limbo = which == 1 && c_.ch.p(1, 8);
		for(uint32_t i = 0; i < n; i++)
		{
			if(limbo)
				l.emplace_back(0, P{});
			else if(pick(p, true, true, false, true))
				l.emplace_back(v.at(p), p);
		}
		w.u32(static_cast<uint32_t>(l.size()));
		for(auto& [t, q] : l)
		{
			w.u32(code_of(t));
			if(t == 0)
				w.u8(c_.ch.n(2)).u8(0).u32(0);
			else
				wr_u32(q);
			cn.push_back(t == 0 ? 2 : ref(t));
		}
		emit(w, "confirm").canon = cn;
		break;
	}
	case 1: // shuffles of piles (identities are not shown)
	{
		static const uint32_t id[] = {32, 33, 39};
		static const int kk[] = {K_MD, K_HAND, K_EX};
		auto i = c_.ch.n(3);
		int con = static_cast<int>(c_.ch.n(2));
		w.u8(id[i]).u8(static_cast<uint32_t>(con));
		if(i)
		{
			auto n = static_cast<uint32_t>(v.pile[con][kk[i]].size());
			w.u32(n);
			for(uint32_t j = 0; j < n; j++)
				w.u32(c_.ch.p(1, 2) ? 0xFFFFFFFFu : 0);
		}
		emit(w, "shuffle_pile").canon = {CN_SHUFFLE_PILE, con, kk[i]};
		break;
	}
	case 2:
	{
		if(!pick(p, false, true, false, true))
			return;
		w.u8(53).u32(code_of(v.at(p)));
		wr_u8(p);
		w.u8(1).u8(8);
		emit(w, "pos_change").canon = {CN_UPDATE, 0, ref(v.at(p))};
		break;
	}
	case 3:
	{
		if(!pick(p, false, true, false, true))
			return;
		w.u8(54).u32(code_of(v.at(p)));
		wr_u32(p);
		w.u32(8);
		emit(w, "set").canon = {CN_UPDATE, 0, ref(v.at(p))};
		break;
	}
	case 4:
	{
		static const uint32_t id[] = {60, 62, 64};
		static const int64_t rs[] = {0x10, 0x800, 0x2000};
		if(!pick(p, c_.ch.p(1, 4), true, false, true))
			return;
		auto i = c_.ch.n(3);
		w.u8(id[i]).u32(code_of(v.at(p)));
		loc(w, p, 1);
		emit(w, "summoning").canon = {CN_UPDATE, rs[i], ref(v.at(p))};
		break;
	}
	case 5:
	{
		if(!pick(p, false, true, false, true))
			return;
		w.u8(101 + c_.ch.n(2)).u16(c_.ch.n(65536));
		wr_u8(p);
		w.u16(c_.ch.n(65536));
		emit(w, "counter").canon = {CN_UPDATE, 0, ref(v.at(p))};
		break;
	}
	case 6:
	{
		if(!pick(p, false, true, false, true))
			return;
		P t;
		bool direct = c_.ch.p(1, 3) || !pick(t, false, true, false, true);
		if(direct)
			t = P{};
		w.u8(110);
		loc(w, p, 1);
		loc(w, t, 1);
		emit(w, direct ? "attack_direct" : "attack").canon = {CN_ATTACK, ref(v.at(p)), direct ? 0 : ref(v.at(t))};
		break;
	}
	case 7:
	{
		bool coin = c_.ch.p(1, 2);
		auto n = heavy(255);
		auto who = c_.ch.n(2);
		w.u8(coin ? 130 : 131).u8(who).u8(n);
		std::vector<int64_t> cn{coin ? CN_COIN : CN_DICE, who};
		for(uint32_t i = 0; i < n; i++)
		{
			auto x = coin ? c_.ch.n(2) : 1 + c_.ch.n(6);
			w.u8(x);
			cn.push_back(x);
		}
		emit(w, coin ? "coin" : "dice").canon = cn;
		break;
	}
	case 8:
	{
		auto a = 1 + c_.ch.n(3), b = 1 + c_.ch.n(3);
		w.u8(133).u8(a | (b << 2));
		emit(w, "rps_result").canon = {CN_RPS, a, b};
		break;
	}
	case 9:
	{
		uint32_t code, idx;
		auto who = c_.ch.n(2);
		bool add = c_.ch.p(1, 2);
		w.u8(165).u8(who).u8(add ? 1 : 2).u64(effect(code, idx));
		emit(w, "player_hint").canon = {CN_DESCRIPTION, who, add, code, idx};
		break;
	}
	default:
		op_select_meta();
	}
}

void Engine::op_select_meta()
{
	W w;
	P p;
	if(c_.ch.p(1, 3))
	{
		P a, b;
		if(!pick(a, true, true, false, true) || !pick(b, true, true, true, true))
			return;
		w.u8(96 + c_.ch.n(2));
		loc(w, a, 1);
		loc(w, b, 1);
		emit(w, "card_target").canon = {CN_SELECTION, ref(v.at(a)), ref(v.at(b))};
		return;
	}
	static const uint32_t id[] = {80, 81, 83};
	auto i = c_.ch.n(3);
	w.u8(id[i]);
	if(i == 1)
		w.u8(c_.ch.n(2));
	auto n = heavy(cfg.scale == 2 ? 300 : 10);
	std::vector<P> l;
	for(uint32_t j = 0; j < n; j++)
		if(pick(p, true, true, true, true))
			l.push_back(p);
	w.u32(static_cast<uint32_t>(l.size()));
	std::vector<int64_t> cn{CN_SELECTION, 0};
	for(auto& q : l)
	{
		loc(w, q, 1);
		cn.push_back(ref(v.at(q)));
	}
	emit(w, "selected").canon = cn;
}

QUpd Engine::query_blob(W& w, int t, P const& at, bool overlays, std::vector<QUpd>& extra)
{
	QUpd u;
	u.token = t;
	// Which fields, in which order.
	std::vector<int> fs;
	uint32_t mode = c_.ch.n(4);
	constexpr int LINK = 100, TARGETS = 101, COUNTERS = 102, OVER = 103, UNK1 = 104, UNK2 = 105;
	std::vector<int> all;
	for(int f = 0; f < QF_LINK_RATE; f++)
		all.push_back(f);
	for(int f : {LINK, TARGETS, COUNTERS, UNK1, UNK2})
		all.push_back(f);
	if(overlays)
		all.push_back(OVER);
	for(auto f : all)
		if(mode == 0 ? c_.ch.p(1, 6) : mode == 1 ? c_.ch.p(1, 2) : mode == 2 ? true : (f < 6 && c_.ch.p(1, 2)))
			fs.push_back(f);
	if(overlays && fs.empty())
		fs.push_back(OVER);
	if(c_.ch.p(1, 4))
		for(size_t i = fs.size(); i > 1; i--)
			std::swap(fs[i - 1], fs[c_.ch.n(static_cast<uint32_t>(i))]);
	auto hdr = [&](size_t payload, uint32_t flag)
	{
		w.u16(static_cast<uint32_t>(payload + 4)).u32(flag);
	};
	auto add = [&](int f, uint64_t x)
	{
		u.fields.emplace_back(f, x);
	};
	// Values repeat often so that caches get hits.
	auto small32 = [&]() -> uint32_t
	{
		return c_.ch.p(2, 3) ? c_.ch.n(3) : val32();
	};
	for(auto f : fs)
	{
		switch(f)
		{
		case QF_RACE:
		{
			uint64_t x = c_.ch.p(1, 2) ? c_.ch.n(3) : val64();
			hdr(8, 0x80);
			w.u64(x);
			add(f, x);
			break;
		}
		case QF_EQUIP:
		{
			P q;
			if(!pick(q, false, true, true, true))
				break;
			hdr(10, 0x4000);
			loc(w, q, 1);
			add(f, static_cast<uint64_t>(lit(q)));
			break;
		}
		case QF_OWNER:
		{
			auto x = c_.ch.n(2);
			hdr(1, 0x40000);
			w.u8(x);
			add(f, x);
			break;
		}
		case QF_PUBLIC:
		case QF_HIDDEN:
		{
			auto x = c_.ch.n(2);
			hdr(1, static_cast<uint32_t>(qf_bit(f)));
			w.u8(x);
			add(f, x);
			break;
		}
		case LINK:
		{
			auto a = small32(), b = small32();
			hdr(8, 0x800000);
			w.u32(a).u32(b);
			add(QF_LINK_RATE, a);
			add(QF_LINK_ARROW, b);
			break;
		}
		case TARGETS:
		{
			auto n = heavy(c_.ch.p(1, 16) ? 600 : 20);
			u.has_targets = true;
			hdr(4 + n * 10, 0x8000);
			w.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				P q;
				if(!pick(q, true, true, true, true))
					q = P{};
				loc(w, q, 1);
				u.targets.push_back(static_cast<uint64_t>(lit(q)));
			}
			break;
		}
		case COUNTERS:
		{
			auto n = heavy(c_.ch.p(1, 16) ? 600 : 20);
			u.has_counters = true;
			hdr(4 + n * 4, 0x20000);
			w.u32(n);
			for(uint32_t i = 0; i < n; i++)
			{
				uint32_t ty = c_.ch.n(65536), ct = c_.ch.n(65536);
				w.u32(ty | (ct << 16));
				u.counters.emplace_back(ty, ct);
			}
			break;
		}
		case OVER:
		{
			auto& m = v.z(at).mats;
			hdr(4 + m.size() * 4, 0x10000);
			w.u32(static_cast<uint32_t>(m.size()));
			for(auto mt : m)
			{
				auto code = c_.ch.p(1, 2) ? code_of(mt) : small32();
				w.u32(code);
				QUpd x;
				x.token = mt;
				x.fields.emplace_back(QF_CODE, code);
				extra.push_back(x);
			}
			break;
		}
		case UNK1:
			hdr(4, 0x1000);
			w.u32(c_.ch.u32());
			break;
		case UNK2:
		{
			auto n = c_.ch.p(1, 12) ? (c_.ch.p(1, 8) ? 65531 - c_.ch.n(400) : c_.ch.n(1200)) : c_.ch.n(40);
			hdr(n, 0x4000000u << c_.ch.n(5));
			w.s.append(n, '\x80');
			break;
		}
		default:
		{
			auto x = f == QF_CODE && c_.ch.p(1, 2) ? code_of(t) : small32();
			hdr(4, static_cast<uint32_t>(qf_bit(f)));
			w.u32(x);
			add(f, x);
		}
		}
	}
	hdr(0, 0x80000000u);
	return u;
}

void Engine::op_query_loc()
{
	int con = static_cast<int>(c_.ch.n(2));
	uint32_t which = c_.ch.n(7);
	W body;
	std::vector<QUpd> q;
	auto slot = [&](int t, P const& p)
	{
		if(t == 0 || !c_.ch.p(2, 3))
		{
			body.u16(0);
			return;
		}
		bool ov = kzone(p.kind) && !v.z(p).mats.empty() && c_.ch.p(1, 2);
		std::vector<QUpd> ex;
		q.push_back(query_blob(body, t, p, ov, ex));
		for(auto& e : ex)
			q.push_back(e);
	};
	uint32_t wl;
	if(which < 5)
	{
		int k = static_cast<int>(which);
		wl = kloc(k);
		auto sz = static_cast<uint32_t>(v.pile[con][k].size());
		// Large piles: only a window is detailed.
		uint32_t lo = sz > 40 ? c_.ch.n(sz - 20) : 0;
		for(uint32_t i = 0; i < sz; i++)
			if(sz > 40 && (i < lo || i >= lo + 20))
				body.u16(0);
			else
				slot(v.pile[con][k][i], P{con, k, i, -1});
	}
	else if(which == 5)
	{
		wl = 4;
		for(uint32_t i = 0; i < 7; i++)
		{
			P p{con, K_MZ, i, -1};
			slot(v.z(p).card, p);
		}
	}
	else
	{
		wl = 8;
		for(uint32_t i = 0; i < 8; i++)
		{
			P p = i < 5 ? P{con, K_SZ, i, -1} : i == 5 ? P{con, K_FZ, 0, -1} : P{con, K_PZ, i - 6, -1};
			slot(v.z(p).card, p);
		}
	}
	W w;
	w.u8(6).u8(static_cast<uint32_t>(con)).u8(wl).u32(static_cast<uint32_t>(body.s.size()));
	w.s += body.s;
	auto& f = emit(w, "update_data");
	f.queries = q;
	if(!q.empty())
		f.canon = {CN_QUERIES};
}

void Engine::op_query_one()
{
	P p;
	if(!pick(p, true, true, false, true))
		return;
	if(p.seq > 255)
		return;
	uint32_t l, s;
	core_loc(p, l, s);
	W w;
	w.u8(7).u8(static_cast<uint32_t>(p.con)).u8(l).u8(s);
	bool ov = kzone(p.kind) && !v.z(p).mats.empty() && c_.ch.p(1, 2);
	std::vector<QUpd> ex;
	auto u = query_blob(w, v.at(p), p, ov, ex);
	auto& f = emit(w, "update_card");
	f.queries.push_back(u);
	for(auto& e : ex)
		f.queries.push_back(e);
	f.canon = {CN_QUERIES};
}

void Engine::op_noise()
{
	W w;
	auto li = [&]()
	{
		P p;
		if(pick(p, true, true, true, true))
			loc(w, p, 1);
		else
			loc(w, P{});
	};
	switch(c_.ch.n(12))
	{
	case 0: w.u8(1); break;
	case 1: w.u8(2).u8(c_.ch.n(12)).u8(c_.ch.n(2)).u64(c_.ch.u64()); break;
	case 2:
		w.u8(160);
		li();
		w.u8(1 + c_.ch.n(7)).u64(c_.ch.u64());
		break;
	case 3: w.u8(61 + 2 * c_.ch.n(3)); break;
	case 4: w.u8(74); break;
	case 5:
		w.u8(111);
		li();
		w.u32(c_.ch.u32()).u32(2000).u8(0);
		li();
		w.u32(c_.ch.u32()).u32(1000).u8(1);
		break;
	case 6:
		w.u8(93);
		li();
		li();
		break;
	case 7: w.u8(112); break;
	case 8: w.u8(113 + c_.ch.n(2)); break;
	case 9:
		w.u8(120);
		li();
		w.u32(c_.ch.u32());
		break;
	case 10:
	{
		auto n = heavy(c_.ch.p(1, 8) ? 65535 : 40);
		w.u8(163).u16(n);
		w.s.append(n, 'x');
		w.u8(0);
		break;
	}
	default:
		w.u8(50).u32(c_.ch.u32());
		loc(w, P{});
		loc(w, P{});
		w.u32(0x400);
	}
	emit(w, "noise", 2);
	c_.fault("swallowed_message");
}

void Engine::op_unknown()
{
	static const uint32_t ids[] = {0, 3, 8, 9, 17, 27, 34, 43, 51, 66, 77, 82, 95, 98, 103, 115, 121, 122, 123, 134, 145, 164, 166, 171, 180, 200, 254, 255};
	W w;
	w.u8(ids[c_.ch.n(sizeof ids / sizeof *ids)]);
	auto n = c_.ch.n(30);
	for(uint32_t i = 0; i < n; i++)
		w.u8(c_.ch.n(256));
	emit(w, "unknown", 0);
	c_.fault("unknown_message");
}

void Engine::op_win()
{
	auto who = c_.ch.n(3);
	auto r = c_.ch.n(256);
	W w;
	w.u8(5).u8(who).u8(r);
	auto& f = emit(w, "win");
	f.finish = true;
	f.canon = {CN_FINISH, who, r, kills.empty() ? 0 : static_cast<int64_t>(kills.back())};
	finished = true;
}

// ---------------------------------------------------------------------------
// Native events: shapes of the protocol that another core could produce.

namespace
{
void set_place(pd::Place* o, P const& p)
{
	o->set_con(p.con);
	o->set_loc(kloc(p.kind));
	o->set_seq(p.kind == K_NONE ? 0 : p.seq);
	o->set_oseq(p.oseq >= 0 ? p.oseq : -1 - static_cast<int>(p.seq % 3));
}
} // namespace

void Engine::op_native_move()
{
	pd::Msg m;
	auto* card = m.mutable_event()->mutable_card();
	uint64_t const reason = val64();
	card->set_reason(reason);
	auto n = 1 + heavy(6);
	auto free_pos = [&](P& to) -> bool
	{
		switch(c_.ch.n(3))
		{
		case 0: return pick_zone(to, true);
		case 1: to = pick_pile_pos(); return true;
		default:
		{
			P o;
			if(!pick(o, false, true, false, true))
				return false;
			to = o;
			to.oseq = static_cast<int>(c_.ch.n(static_cast<uint32_t>(v.z(o).mats.size()) + 1));
			return true;
		}
		}
	};
	auto any = [&](P& p, bool owners) -> bool
	{
		if(cfg.skill && c_.ch.p(1, 6))
		{
			for(int c = 0; c < 2; c++)
				if(v.zone[c][zone_base(K_SK)].card)
				{
					p = P{c, K_SK, 0, -1};
					if(owners || v.z(p).mats.empty())
						return true;
				}
		}
		return pick(p, true, true, true, owners);
	};
	char const* name = "native_move";
	switch(c_.ch.n(4))
	{
	case 0:
	{
		auto* a = card->mutable_add();
		for(uint32_t i = 0; i < n; i++)
		{
			P to;
			if(!free_pos(to))
				continue;
			set_place(a->add_places(), to);
			v.put(to, tok());
		}
		name = "native_add";
		break;
	}
	case 1:
	{
		auto* r = card->mutable_remove();
		for(uint32_t i = 0; i < n; i++)
		{
			P from;
			if(!any(from, false))
				continue;
			set_place(r->add_places(), from);
			v.take(from);
		}
		name = "native_remove";
		break;
	}
	case 2:
	{
		auto* mv = card->mutable_move();
		for(uint32_t i = 0; i < n; i++)
		{
			P from, to;
			if(!any(from, true))
				continue;
			bool owner = kzone(from.kind) && from.oseq < 0 && !v.z(from).mats.empty();
			if(owner)
			{
				if(!pick_zone(to, true))
					continue;
				std::swap(v.z(from), v.z(to));
			}
			else
			{
				int t = v.take(from);
				bool ok = free_pos(to);
				// a zone just emptied may be chosen again: not a move
				if(!ok || (to == from && kzone(to.kind) && to.oseq < 0))
				{
					v.put(from, t);
					continue;
				}
				v.put(to, t);
			}
			auto* op = mv->add_ops();
			set_place(op->mutable_old_place(), from);
			set_place(op->mutable_new_place(), to);
		}
		break;
	}
	default:
	{
		auto* ex = card->mutable_exchange();
		for(uint32_t i = 0; i < n; i++)
		{
			P a, b;
			if(!any(a, true) || !any(b, true) || a == b)
				continue;
			auto owner = [&](P const& p)
			{
				return kzone(p.kind) && p.oseq < 0 && !v.z(p).mats.empty();
			};
			if((owner(a) && kpile(b.kind)) || (owner(b) && kpile(a.kind)))
				continue;
			auto* op = ex->add_ops();
			set_place(op->mutable_place_a(), a);
			set_place(op->mutable_place_b(), b);
			if(kzone(a.kind) && kzone(b.kind) && a.oseq < 0 && b.oseq < 0)
				std::swap(v.z(a), v.z(b));
			else
				std::swap(v.ref(a), v.ref(b));
		}
		name = "native_exchange";
	}
	}
	dirty_ = true;
	auto& f = emit_native(m, name);
	bool exch = !std::strcmp(name, "native_exchange");
	f.canon = {exch ? CN_EXCHANGE : CN_CARD, static_cast<int64_t>(reason)};
}

void Engine::op_native_pile()
{
	pd::Msg m;
	uint32_t which = c_.ch.n(3);
	if(which < 2)
	{
		auto* pe = m.mutable_event()->mutable_pile();
		uint64_t const reason = val64();
		pe->set_reason(reason);
		auto n = 1 + heavy(4);
		if(which == 0)
		{
			auto* s = pe->mutable_splice();
			for(uint32_t i = 0; i < n; i++)
			{
				P from{static_cast<int>(c_.ch.n(2)), static_cast<int>(c_.ch.n(N_PILES)), 0, -1};
				auto sz = static_cast<uint32_t>(v.pl(from).size());
				from.seq = c_.ch.n(sz + 1);
				auto cnt = c_.ch.p(1, 3) ? sz - from.seq : c_.ch.n(sz - from.seq + 1);
				P to{static_cast<int>(c_.ch.n(2)), c_.ch.p(1, 4) ? from.kind : static_cast<int>(c_.ch.n(N_PILES)), 0, -1};
				auto tsz = static_cast<uint32_t>(v.pl(to).size());
				if(to.con == from.con && to.kind == from.kind)
					tsz -= cnt;
				to.seq = c_.ch.p(1, 3) ? tsz : c_.ch.n(tsz + 1);
				bool rev = c_.ch.p(1, 2);
				auto* op = s->add_ops();
				set_place(op->mutable_from(), from);
				set_place(op->mutable_to(), to);
				op->set_count(cnt);
				op->set_reverse(rev);
				v.splice(from, cnt, to, rev);
			}
		}
		else
		{
			auto* e = pe->mutable_exchange();
			for(uint32_t i = 0; i < n; i++)
			{
				P a{static_cast<int>(c_.ch.n(2)), static_cast<int>(c_.ch.n(N_PILES)), 0, -1};
				P b{static_cast<int>(c_.ch.n(2)), static_cast<int>(c_.ch.n(N_PILES)), 0, -1};
				if(a == b)
					continue;
				auto* op = e->add_ops();
				set_place(op->mutable_place_a(), a);
				set_place(op->mutable_place_b(), b);
				std::swap(v.pl(a), v.pl(b));
			}
		}
		dirty_ = true;
		auto& f = emit_native(m, which ? "native_pile_exchange" : "native_splice");
		f.canon = {CN_PILE, static_cast<int64_t>(reason)};
		return;
	}
	// Board exchange: resizes, removals and additions in one step.
	auto* e = m.mutable_event()->mutable_board()->mutable_exchange();
	int con = static_cast<int>(c_.ch.n(2));
	e->set_con(con);
	std::vector<int> fresh;
	for(int k = 0; k < N_PILES; k++)
	{
		if(!c_.ch.p(1, 2))
			continue;
		P p{con, k, 0, -1};
		auto sz = static_cast<uint32_t>(v.pl(p).size());
		auto ns = c_.ch.p(1, 2) ? c_.ch.n(sz + 1) : sz + c_.ch.n(6);
		auto* op = e->mutable_resize()->add_ops();
		set_place(op->mutable_place(), p);
		op->set_count(ns);
		v.pl(p).clear();
		for(uint32_t i = 0; i < ns; i++)
		{
			v.pl(p).push_back(tok());
			fresh.push_back(v.pl(p).back());
		}
	}
	auto nr = heavy(3);
	for(uint32_t i = 0; i < nr; i++)
	{
		P from;
		if(!pick(from, true, true, true, false))
			continue;
		set_place(e->mutable_remove()->add_places(), from);
		v.take(from);
	}
	auto na = heavy(3);
	for(uint32_t i = 0; i < na; i++)
	{
		P to = pick_pile_pos();
		if(c_.ch.p(1, 2) && !pick_zone(to, true))
			continue;
		set_place(e->mutable_add()->add_places(), to);
		v.put(to, tok());
	}
	dirty_ = true;
	auto& f = emit_native(m, "native_board_exchange");
	f.unspec = fresh;
	f.canon = {CN_EXCHANGE, con};
}

void Engine::churn()
{
	pd::Msg m;
	auto* e = m.mutable_event()->mutable_board()->mutable_exchange();
	int con = static_cast<int>(c_.ch.n(2));
	e->set_con(con);
	P at{con, K_GY, 0, -1};
	auto& pile = v.pl(at);
	for(auto n = pile.size(); n != 0; n--)
	{
		at.seq = static_cast<uint32_t>(n - 1);
		set_place(e->mutable_remove()->add_places(), at);
	}
	pile.clear();
	auto const n = 300 + c_.ch.n(400);
	for(uint32_t i = 0; i < n; i++)
	{
		at.seq = i;
		set_place(e->mutable_add()->add_places(), at);
		pile.push_back(tok());
	}
	dirty_ = true;
	auto& f = emit_native(m, "native_churn");
	f.canon = {CN_EXCHANGE, con};
}

void Engine::op_native_state()
{
	pd::Msg m;
	auto* st = m.mutable_event()->mutable_board()->mutable_state();
	bool const turn = c_.ch.p(1, 2);
	int64_t tc = -1;
	if(turn)
	{
		v.turn = c_.ch.n(3) ? c_.ch.n(40) : 0x7FFFFFFFu;
		tc = v.turn;
	}
	else if(c_.ch.p(1, 2))
		tc = -5;
	st->set_turn_counter(static_cast<int32_t>(tc));
	for(auto& l : v.lp)
		st->add_lps(l);
	if(c_.ch.p(1, 2))
		st->mutable_shape()->set_has_skill_zone(true);
	int64_t shape = st->has_shape() ? 16 : -1;
	v.each(
		[&](P const& p, int)
		{
			if(kzone(p.kind))
				set_place(st->mutable_add()->add_places(), p);
		});
	// Some piles come as additions, some as sizes, some as both.
	for(int c = 0; c < 2; c++)
		for(int k = 0; k < N_PILES; k++)
		{
			auto sz = static_cast<uint32_t>(v.pile[c][k].size());
			uint32_t by_add = sz > 50 ? 0 : c_.ch.p(1, 3) ? sz : c_.ch.n(sz + 1);
			for(uint32_t i = 0; i < by_add; i++)
				set_place(st->mutable_add()->add_places(), P{c, k, i, -1});
			if(by_add != sz || c_.ch.p(1, 2))
			{
				auto* op = st->mutable_resize()->add_ops();
				set_place(op->mutable_place(), P{c, k, 0, -1});
				op->set_count(sz);
			}
		}
	for(auto& l : v.chain)
	{
		auto* ch = st->add_chains();
		set_place(ch->mutable_card_place(), l.card);
		set_place(ch->mutable_place(), l.trig);
		ch->mutable_effect()->set_code(l.code);
		ch->mutable_effect()->set_index(l.index);
	}
	dirty_ = true;
	auto& f = emit_native(m, "native_state");
	f.snapshot = true;
	f.sets_turn = turn;
	f.canon = {CN_STATE, tc < 0 ? -1 : tc, shape};
}

// ---------------------------------------------------------------------------
// Requests

void Engine::op_ask()
{
	auto a = std::make_shared<Ask>();
	a->kind = static_cast<AskKind>(c_.ch.n(ASK_COUNT));
	a->replier = static_cast<int>(c_.ch.n(2));
	W w;
	pd::Msg nat;
	auto R = static_cast<uint32_t>(a->replier);
	std::vector<int64_t> cn;
	auto req = [&](int64_t t)
	{
		cn.push_back(CN_REQ + t);
		cn.push_back(a->replier);
	};
	auto wr_u32 = [&](P const& q)
	{
		uint32_t l, s;
		core_loc(q, l, s);
		w.u8(static_cast<uint32_t>(q.con)).u8(l).u32(s);
	};
	auto wr_u8 = [&](P const& q)
	{
		uint32_t l, s;
		core_loc(q, l, s);
		w.u8(static_cast<uint32_t>(q.con)).u8(l).u8(s);
	};
	auto cards = [&](uint32_t n, bool piles, bool mats) -> std::vector<Ask::Opt>
	{
		std::vector<Ask::Opt> l;
		P p;
		if(piles && c_.ch.p(1, 12))
		{
			// A search through everything one pile holds.
			auto con = static_cast<int>(c_.ch.n(2));
			auto k = c_.ch.p(1, 2) ? static_cast<int>(K_MD) : static_cast<int>(c_.ch.n(N_PILES));
			auto& d = v.pile[con][k];
			auto const sz = static_cast<uint32_t>(d.size());
			bool const rev = c_.ch.p(1, 2);
			for(uint32_t i = 0; i < sz; i++)
			{
				p = P{con, k, rev ? sz - 1 - i : i, -1};
				l.push_back({v.at(p), p, 0});
			}
			if(!l.empty())
				return l;
		}
		for(uint32_t i = 0; i < n; i++)
			if(pick(p, piles, true, mats, true))
				l.push_back({v.at(p), p, 0});
		return l;
	};
	auto unique = [&](std::vector<Ask::Opt>& l)
	{
		std::vector<Ask::Opt> r;
		for(auto& o : l)
		{
			bool dup = false;
			for(auto& x : r)
				dup |= x.token == o.token;
			if(!dup)
				r.push_back(o);
		}
		l = r;
	};
	auto code = [&](int t) -> uint32_t
	{
		return c_.ch.p(3, 4) ? code_of(t) : 0;
	};
	uint32_t const big = cfg.scale == 2 ? 300 : 12;
	uint32_t ec, ei;
	char const* name = "";
	switch(a->kind)
	{
	case ASK_ATTRIB:
	{
		name = "ask_attribute";
		uint32_t m = c_.ch.p(1, 3) ? val32() : c_.ch.n(128);
		if(m == 0)
			m = 1;
		a->mask = m;
		a->count = 1 + c_.ch.n(c_.ch.p(1, 6) ? 255 : 2);
		w.u8(141).u8(R).u8(a->count).u32(m);
		req(2);
		cn.insert(cn.end(), {a->count, m});
		break;
	}
	case ASK_RACE:
	{
		name = "ask_race";
		uint64_t m = c_.ch.n(3) ? c_.ch.u32() : val64();
		if(m == 0)
			m = 2;
		if(c_.ch.p(1, 4))
			m |= 0x100000000ull << c_.ch.n(32);
		a->mask = m;
		a->count = 1 + c_.ch.n(c_.ch.p(1, 6) ? 255 : 2);
		w.u8(140).u8(R).u8(a->count).u64(m);
		req(10);
		cn.insert(cn.end(), {a->count, static_cast<int64_t>(m)});
		break;
	}
	case ASK_NUMBER:
	{
		name = "ask_number";
		auto n = 1 + heavy(254);
		w.u8(143).u8(R).u8(n);
		req(8);
		cn.push_back(1);
		a->lists.emplace_back();
		for(uint32_t i = 0; i < n; i++)
		{
			auto x = val64();
			w.u64(x);
			cn.push_back(static_cast<int64_t>(x));
			a->lists[0].push_back({0, {}, x});
		}
		break;
	}
	case ASK_OPTION:
	{
		name = "ask_option";
		auto n = 1 + heavy(254);
		w.u8(14).u8(R).u8(n);
		req(6);
		cn.push_back(1);
		a->lists.emplace_back();
		for(uint32_t i = 0; i < n; i++)
		{
			auto x = effect(ec, ei);
			w.u64(x);
			cn.insert(cn.end(), {ec, ei});
			a->lists[0].push_back({0, {}, x});
		}
		break;
	}
	case ASK_POSITION:
	{
		name = "ask_position";
		auto m = 1 + c_.ch.n(15);
		auto cc = val32();
		a->mask = m;
		w.u8(19).u8(R).u32(cc).u8(m);
		req(9);
		cn.insert(cn.end(), {1, cc, m});
		break;
	}
	case ASK_RPS:
		name = "ask_rps";
		w.u8(132).u8(R);
		req(11);
		cn.push_back(1);
		break;
	case ASK_CHAIN:
	{
		name = "ask_chain";
		auto l = cards(heavy(big), true, true);
		auto spe = c_.ch.p(1, 4) ? c_.ch.n(256) : c_.ch.n(4) * 64 + c_.ch.n(2);
		a->flag1 = !l.empty() && c_.ch.p(1, 3); // forced
		w.u8(16).u8(R).u8(spe).u8(a->flag1).u32(c_.ch.u32()).u32(c_.ch.u32()).u32(static_cast<uint32_t>(l.size()));
		req(12);
		cn.insert(cn.end(), {a->flag1, (spe & 0x7F) > 0});
		for(auto& o : l)
		{
			w.u32(code(o.token));
			loc(w, o.place, 1);
			o.value = effect(ec, ei);
			w.u64(o.value).u8(c_.ch.n(2));
			cn.insert(cn.end(), {ref(o.token), ec, ei});
		}
		a->lists.push_back(l);
		break;
	}
	case ASK_EFFECTYN:
	{
		name = "ask_effect_yes_no";
		auto l = cards(1, true, true);
		if(l.empty())
			return;
		auto cc = code(l[0].token);
		w.u8(12).u8(R).u32(cc);
		loc(w, l[0].place, 1);
		w.u64(effect(ec, ei));
		req(13);
		cn.insert(cn.end(), {cc, ref(l[0].token), ec, ei});
		break;
	}
	case ASK_YESNO:
	{
		name = "ask_yes_no";
		w.u8(13).u8(R).u64(effect(ec, ei));
		req(13);
		cn.insert(cn.end(), {0, 0, ec, ei});
		break;
	}
	case ASK_PLACE:
	case ASK_DISFIELD:
	{
		name = a->kind == ASK_PLACE ? "ask_place" : "ask_disfield";
		uint32_t m = 0;
		switch(c_.ch.n(3))
		{
		case 0: m = c_.ch.u32(); break;
		case 1: m = 0; break;
		default: m = ~(c_.ch.u32() & c_.ch.u32());
		}
		std::vector<Ask::Opt> l;
		for(int h = 0; h < 2; h++)
			for(int i = 0; i < 16; i++)
			{
				if(i == 7 || ((m >> (h * 16 + i)) & 1u))
					continue;
				int c = h == 0 ? a->replier : 1 - a->replier;
				P p = i < 7 ? P{c, K_MZ, static_cast<uint32_t>(i), -1}
				      : i < 13 ? P{c, K_SZ, static_cast<uint32_t>(i - 8), -1}
				               : P{c, K_PZ, static_cast<uint32_t>(i - 14), -1};
				if(i == 13)
					p = P{c, K_FZ, 0, -1};
				l.push_back({0, p, 0});
			}
		if(l.empty())
			return;
		a->count = 1 + c_.ch.n(static_cast<uint32_t>(c_.ch.p(1, 6) ? l.size() : std::min<size_t>(l.size(), 5)));
		w.u8(a->kind == ASK_PLACE ? 18 : 24).u8(R).u8(a->count).u32(m);
		req(14);
		cn.insert(cn.end(), {a->kind == ASK_DISFIELD, a->count});
		for(auto& o : l)
			cn.push_back(lit(o.place));
		a->lists.push_back(l);
		break;
	}
	case ASK_SORT:
	{
		name = "ask_sort";
		auto l = cards(1 + heavy(cfg.scale == 2 ? 120 : 12), true, false);
		unique(l);
		if(l.size() > 120)
			l.resize(120); // its ranks are single bytes
		if(l.empty())
			return;
		w.u8(c_.ch.p(1, 2) ? 21 : 25).u8(R).u32(static_cast<uint32_t>(l.size()));
		req(15);
		for(auto& o : l)
		{
			uint32_t lo, s;
			core_loc(o.place, lo, s);
			w.u32(code(o.token)).u8(static_cast<uint32_t>(o.place.con)).u32(lo).u32(s);
			cn.push_back(ref(o.token));
		}
		a->lists.push_back(l);
		break;
	}
	case ASK_CARD:
	case ASK_CARD_LIMBO:
	{
		bool limbo = a->kind == ASK_CARD_LIMBO;
		name = limbo ? "ask_card_limbo" : "ask_card";
		std::vector<Ask::Opt> l;
		if(limbo)
		{
			auto n = 1 + heavy(c_.ch.p(1, 8) ? 600 : big);
			auto const code0 = c_.ch.u32();
			for(uint32_t i = 0; i < n; i++)
				l.push_back({0, {}, n > 40 ? static_cast<uint32_t>(mix64(code0 + i)) : c_.ch.u32()});
		}
		else
		{
			l = cards(1 + heavy(big), true, true);
			unique(l);
		}
		if(l.empty())
			return;
		auto n = static_cast<uint32_t>(l.size());
		a->min = c_.ch.p(1, 2) ? c_.ch.n(n + 1) : c_.ch.n(std::min(n, 3u) + 1);
		a->max = std::max(1u, a->min + (c_.ch.p(1, 2) ? c_.ch.n(n - a->min + 1) : c_.ch.n(std::min(n - a->min, 3u) + 1)));
		a->flag1 = c_.ch.p(1, 3);
		w.u8(15).u8(R).u8(a->flag1).u32(a->min).u32(a->max).u32(n);
		req(3);
		cn.insert(cn.end(), {limbo ? 2 : 1, a->flag1, a->min, a->max});
		for(auto& o : l)
		{
			if(limbo)
			{
				w.u32(static_cast<uint32_t>(o.value));
				w.u8(c_.ch.n(2)).u8(0).u32(0).u32(0);
				cn.push_back(static_cast<int64_t>(o.value));
			}
			else
			{
				auto cc = code(o.token);
				w.u32(cc);
				loc(w, o.place, 1);
				cn.insert(cn.end(), {cc, ref(o.token)});
			}
		}
		a->lists.push_back(l);
		break;
	}
	case ASK_UNSELECT:
	{
		name = "ask_unselect";
		auto l = cards(heavy(big), true, true), d = cards(heavy(big), true, true);
		unique(l);
		unique(d);
		a->flag1 = c_.ch.p(1, 2) || (l.empty() && d.empty());
		a->flag2 = c_.ch.p(1, 2);
		a->min = c_.ch.n(c_.ch.p(1, 6) ? 300 : 4);
		a->max = a->min + c_.ch.n(c_.ch.p(1, 6) ? 300 : 4);
		w.u8(26).u8(R).u8(a->flag1).u8(a->flag2).u32(a->min).u32(a->max);
		req(3);
		cn.insert(cn.end(), {3, a->flag1, a->flag2, a->min, a->max});
		for(auto* x : {&l, &d})
		{
			w.u32(static_cast<uint32_t>(x->size()));
			cn.push_back(static_cast<int64_t>(x->size()));
			for(auto& o : *x)
			{
				auto cc = code(o.token);
				w.u32(cc);
				loc(w, o.place, 1);
				cn.insert(cn.end(), {cc, ref(o.token)});
			}
		}
		a->lists = {l, d};
		break;
	}
	case ASK_TRIBUTE:
	{
		name = "ask_tribute";
		auto l = cards(1 + heavy(12), false, false);
		unique(l);
		if(l.empty())
			return;
		auto n = static_cast<uint32_t>(l.size());
		a->min = 1 + c_.ch.n(n);
		a->max = a->min + c_.ch.n(c_.ch.p(1, 6) ? 300 : 3);
		a->flag1 = c_.ch.p(1, 3);
		w.u8(20).u8(R).u8(a->flag1).u32(a->min).u32(a->max).u32(n);
		req(3);
		cn.insert(cn.end(), {5, a->flag1, a->min, a->max});
		for(auto& o : l)
		{
			auto cc = code(o.token);
			auto pr = 1 + c_.ch.n(c_.ch.p(1, 4) ? 255 : 3);
			w.u32(cc);
			wr_u32(o.place);
			w.u8(pr);
			cn.insert(cn.end(), {cc, ref(o.token), pr});
		}
		a->lists.push_back(l);
		break;
	}
	case ASK_IDLE:
	case ASK_BATTLE:
	{
		bool battle = a->kind == ASK_BATTLE;
		name = battle ? "ask_battle" : "ask_idle";
		w.u8(battle ? 10 : 11).u8(R);
		std::vector<std::vector<Ask::Opt>> ls;
		std::vector<std::vector<int64_t>> cl;
		auto places = [&](bool u8seq, bool piles)
		{
			auto l = cards(heavy(big), piles, false);
			w.u32(static_cast<uint32_t>(l.size()));
			std::vector<int64_t> c;
			for(auto& o : l)
			{
				w.u32(code(o.token));
				u8seq ? wr_u8(o.place) : wr_u32(o.place);
				c.push_back(ref(o.token));
			}
			ls.push_back(l);
			cl.push_back(c);
		};
		auto acts = [&]()
		{
			auto l = cards(heavy(big), true, false);
			w.u32(static_cast<uint32_t>(l.size()));
			std::vector<int64_t> c;
			for(auto& o : l)
			{
				w.u32(code(o.token));
				wr_u32(o.place);
				o.value = effect(ec, ei);
				w.u64(o.value).u8(c_.ch.n(2));
				c.insert(c.end(), {ref(o.token), ec, ei});
			}
			ls.push_back(l);
			cl.push_back(c);
		};
		req(7);
		if(battle)
		{
			acts();
			auto l = cards(heavy(14), false, false);
			w.u32(static_cast<uint32_t>(l.size()));
			std::vector<int64_t> c;
			for(auto& o : l)
			{
				w.u32(code(o.token));
				wr_u8(o.place);
				auto d = c_.ch.n(2);
				w.u8(d);
				c.insert(c.end(), {ref(o.token), d});
			}
			ls.push_back(l);
			cl.push_back(c);
			a->flag1 = c_.ch.p(1, 2);
			a->flag2 = c_.ch.p(2, 3);
			w.u8(a->flag1).u8(a->flag2);
			cn.insert(cn.end(), {1, (a->flag1 ? 0x100 : 0) | (a->flag2 ? 0x200 : 0), 0});
		}
		else
		{
			places(false, true);
			places(false, true);
			places(true, false);
			places(false, true);
			places(false, true);
			acts();
			a->flag1 = c_.ch.p(1, 2);
			a->flag2 = c_.ch.p(2, 3);
			a->flag3 = c_.ch.p(1, 2);
			w.u8(a->flag1).u8(a->flag2).u8(a->flag3);
			cn.insert(cn.end(), {0, (a->flag1 ? 0x80 : 0) | (a->flag2 ? 0x200 : 0), a->flag3});
		}
		for(auto& c : cl)
		{
			cn.push_back(static_cast<int64_t>(c.size()));
			cn.insert(cn.end(), c.begin(), c.end());
		}
		a->lists = ls;
		// There must be something to answer.
		bool any = a->flag1 || a->flag2 || a->flag3;
		for(auto& l : ls)
			any |= !l.empty();
		if(!any)
			return;
		break;
	}
	case ASK_SUM:
	{
		if(!cfg.native)
			return;
		name = "ask_sum";
		auto l = cards(1 + heavy(big), true, true);
		unique(l);
		if(l.empty())
			return;
		auto& u = *nat.mutable_request()->mutable_select_card()->mutable_unique_sum();
		a->flag1 = c_.ch.p(1, 3);
		a->min = 1;
		u.set_can_cancel(a->flag1);
		u.set_sum_exactly(c_.ch.p(1, 2));
		u.set_sum_min(c_.ch.n(30));
		u.set_sum_max(u.sum_min() + c_.ch.n(30));
		req(3);
		cn.insert(cn.end(), {4, a->flag1, u.sum_exactly(), u.sum_min(), u.sum_max()});
		for(auto& o : l)
		{
			auto& x = *u.add_cards();
			set_place(x.mutable_place(), o.place);
			x.set_code(code(o.token));
			x.set_param_1(1 + c_.ch.n(12));
			x.set_param_2(c_.ch.n(13));
			cn.insert(cn.end(), {x.code(), ref(o.token), x.param_1(), x.param_2()});
		}
		a->lists.push_back(l);
		break;
	}
	case ASK_CODE:
	{
		if(!cfg.native)
			return;
		name = "ask_card_code";
		auto& u = *nat.mutable_request()->mutable_select_card_code();
		u.set_count(1);
		req(4);
		cn.push_back(1);
		for(uint32_t i = 0, n = heavy(20); i < n; i++)
		{
			u.add_opcodes(val64());
			cn.push_back(static_cast<int64_t>(u.opcodes(static_cast<int>(i))));
		}
		break;
	}
	default: return;
	}
	if(nat.has_request())
		nat.mutable_request()->set_replier(a->replier);
	auto& f = nat.has_request() ? emit_native(nat, name) : emit(w, name);
	f.ask = a;
	f.canon = cn;
	pending = a;
}

std::vector<int64_t> Engine::parse_answer(Ask const& a, std::vector<uint8_t> const& b, std::string& err)
{
	std::vector<int64_t> r;
	auto i32 = [&](size_t at) -> int64_t
	{
		int32_t x = 0;
		if(b.size() < at + 4)
		{
			err = "response too short";
			return INT64_MIN;
		}
		std::memcpy(&x, b.data() + at, 4);
		return x;
	};
	auto ident = [&](Ask::Opt const& o) -> int64_t
	{
		return o.token ? static_cast<int64_t>(o.token) * 4 + 1 : static_cast<int64_t>(o.value);
	};
	auto exact = [&](size_t n)
	{
		if(b.size() != n && err.empty())
			err = "response of " + std::to_string(b.size()) + " bytes, " + std::to_string(n) + " expected";
	};
	switch(a.kind)
	{
	case ASK_ATTRIB:
		exact(4);
		return {static_cast<int64_t>(static_cast<uint32_t>(i32(0)))};
	case ASK_RACE:
	{
		if(b.size() == 8)
		{
			int64_t x;
			std::memcpy(&x, b.data(), 8);
			return {x};
		}
		// Missing bytes read as zero.
		exact(4);
		return {static_cast<int64_t>(static_cast<uint32_t>(i32(0)))};
	}
	case ASK_NUMBER:
	case ASK_OPTION:
	{
		exact(4);
		auto i = i32(0);
		if(i < 0 || static_cast<size_t>(i) >= a.lists[0].size())
		{
			err = "index out of range";
			return {};
		}
		return {i, static_cast<int64_t>(a.lists[0][static_cast<size_t>(i)].value)};
	}
	case ASK_CODE:
		exact(4);
		return {static_cast<int64_t>(static_cast<uint32_t>(i32(0)))};
	case ASK_POSITION:
	case ASK_RPS:
		exact(4);
		return {i32(0)};
	case ASK_EFFECTYN:
	case ASK_YESNO:
		exact(4);
		return {i32(0) != 0};
	case ASK_CHAIN:
	{
		exact(4);
		auto i = i32(0);
		if(i == -1 && !a.flag1)
			return {-1};
		if(i < 0 || static_cast<size_t>(i) >= a.lists[0].size())
		{
			err = "chain index out of range";
			return {};
		}
		auto& o = a.lists[0][static_cast<size_t>(i)];
		return {ident(o), static_cast<int64_t>(o.value)};
	}
	case ASK_PLACE:
	case ASK_DISFIELD:
	{
		exact(3u * a.count);
		for(size_t i = 0; i + 2 < b.size(); i += 3)
		{
			P p;
			p.con = b[i];
			uint32_t l = b[i + 1], s = b[i + 2];
			if(l == 4 && s < 7)
				p.kind = K_MZ, p.seq = s;
			else if(l == 8 && s < 5)
				p.kind = K_SZ, p.seq = s;
			else if(l == 8 && s == 5)
				p.kind = K_FZ, p.seq = 0;
			else if(l == 8 && s < 8)
				p.kind = K_PZ, p.seq = s - 6;
			else
			{
				err = "zone named by location " + std::to_string(l) + " sequence " + std::to_string(s);
				return {};
			}
			bool ok = false;
			for(auto& o : a.lists[0])
				ok |= o.place == p;
			if(!ok)
			{
				err = "zone not selectable: " + pstr(p);
				return {};
			}
			r.push_back(lit_of(p));
		}
		return r;
	}
	case ASK_SORT:
	{
		if(!b.empty() && b[0] == 0xFF)
			return {-1};
		auto n = a.lists[0].size();
		size_t off = b.size() == n + 1 ? 1 : 0;
		exact(n + off);
		if(!err.empty())
			return {};
		if(off && b[0] != n)
			err = "sort size byte";
		std::vector<bool> seen(n);
		for(size_t i = 0; i < n; i++)
		{
			auto x = b[i + off];
			if(x >= n || seen[x])
			{
				err = "not a permutation";
				return {};
			}
			seen[x] = true;
			r.push_back(x);
		}
		// r[i]: rank given to card i
		std::vector<int64_t> o;
		for(size_t i = 0; i < n; i++)
			o.push_back(ident(a.lists[0][i])), o.push_back(r[i]);
		return o;
	}
	case ASK_CARD:
	case ASK_CARD_LIMBO:
	case ASK_TRIBUTE:
	case ASK_SUM:
	{
		auto t = i32(0);
		if(t == -1)
		{
			exact(4);
			if(!a.flag1 && a.min != 0)
				err = "cancelled a mandatory selection";
			return {-1};
		}
		auto n = i32(4);
		if(!err.empty())
			return {};
		size_t es = t == 0 ? 4 : t == 1 ? 2 : t == 2 ? 1 : 0;
		if(!es || n < 0)
		{
			err = "bad selection header";
			return {};
		}
		exact(8 + es * static_cast<size_t>(n));
		if(!err.empty())
			return {};
		std::vector<bool> seen(a.lists[0].size());
		for(int64_t i = 0; i < n; i++)
		{
			uint32_t x = 0;
			std::memcpy(&x, b.data() + 8 + es * static_cast<size_t>(i), es);
			if(x >= a.lists[0].size() || seen[x])
			{
				err = "bad index in selection";
				return {};
			}
			seen[x] = true;
			r.push_back(ident(a.lists[0][x]));
		}
		return r;
	}
	case ASK_UNSELECT:
	{
		auto t = i32(0);
		if(t == -1)
		{
			exact(4);
			if(!a.flag1)
				err = "finished an unfinishable selection";
			return {-1};
		}
		exact(8);
		auto i = i32(4);
		if(!err.empty() || t != 1)
		{
			err = "bad selection header";
			return {};
		}
		auto ns = static_cast<int64_t>(a.lists[0].size()), nd = static_cast<int64_t>(a.lists[1].size());
		if(i < 0 || i >= ns + nd)
		{
			err = "index out of range";
			return {};
		}
		if(i < ns)
			return {1, ident(a.lists[0][static_cast<size_t>(i)])};
		return {2, ident(a.lists[1][static_cast<size_t>(i - ns)])};
	}
	case ASK_IDLE:
	case ASK_BATTLE:
	{
		exact(4);
		auto x = static_cast<uint32_t>(i32(0));
		uint32_t t = x & 0xFFFF, s = x >> 16;
		if(!err.empty())
			return {};
		if(a.kind == ASK_BATTLE)
		{
			if(t == 2 && a.flag1)
				return {100, 0x100};
			if(t == 3 && a.flag2)
				return {100, 0x200};
			if(t > 1)
			{
				err = "bad battle command";
				return {};
			}
			auto& l = a.lists[t];
			if(s >= l.size())
			{
				err = "bad battle index";
				return {};
			}
			return {t == 0 ? 0 : 6, ident(l[s]), static_cast<int64_t>(l[s].value)};
		}
		if(t == 6 && a.flag1)
			return {100, 0x80};
		if(t == 7 && a.flag2)
			return {100, 0x200};
		if(t == 8 && a.flag3)
			return {101};
		if(t > 5)
		{
			err = "bad idle command";
			return {};
		}
		auto& l = a.lists[t];
		if(s >= l.size())
		{
			err = "bad idle index";
			return {};
		}
		static const int64_t act[] = {1, 2, 3, 4, 5, 0};
		return {act[t], ident(l[s]), static_cast<int64_t>(l[s].value)};
	}
	default: return {};
	}
}

} // namespace sim
