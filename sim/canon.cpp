#include "canon.hpp"
#include <algorithm>

namespace sim
{

P from_place(pd::Place const& p)
{
	P r;
	r.con = p.con();
	r.kind = loc_kind(p.loc());
	r.seq = p.seq();
	r.oseq = p.oseq() < 0 ? -1 : p.oseq();
	if(r.kind == K_NONE)
		return P{};
	return r;
}

std::string canon_str(std::vector<int64_t> const& c)
{
	std::string s;
	for(size_t i = 0; i < c.size() && i < 40; i++)
	{
		auto x = c[i];
		if(i)
			s += ' ';
		s += std::to_string(x);
	}
	return s;
}

namespace
{
int64_t lit_place(pd::Place const& p)
{
	P q = from_place(p);
	if(q.kind < 0)
		return -7777;
	return Engine::lit_of(q);
}
} // namespace

std::vector<int64_t> canon_of(pd::Msg const& m, Resolver const& res)
{
	std::vector<int64_t> c;
	if(m.t_case() == pd::Msg::kRequest)
	{
		auto& r = m.request();
		c = {CN_REQ + static_cast<int64_t>(r.t_case()), r.replier()};
		auto act = [&](auto& l)
		{
			for(auto& a : l)
				c.insert(c.end(), {res(a.place()), a.effect().code(), a.effect().index()});
		};
		switch(static_cast<int>(r.t_case()))
		{
		case 2: c.insert(c.end(), {r.select_attribute().count(), r.select_attribute().attribute()}); break;
		case 3:
		{
			auto& s = r.select_card();
			if(s.has_unique_range())
			{
				auto& u = s.unique_range();
				c.insert(c.end(), {1, u.can_cancel(), u.min(), u.max()});
				for(auto& x : u.cards())
					c.insert(c.end(), {x.code(), res(x.place())});
			}
			else if(s.has_limbo())
			{
				auto& u = s.limbo();
				c.insert(c.end(), {2, u.can_cancel(), u.min(), u.max()});
				for(auto x : u.card_codes())
					c.push_back(x);
			}
			else if(s.has_recursive())
			{
				auto& u = s.recursive();
				c.insert(c.end(), {3, u.can_finish(), u.accept(), u.min(), u.max()});
				c.push_back(u.selectable_cards_size());
				for(auto& x : u.selectable_cards())
					c.insert(c.end(), {x.code(), res(x.place())});
				c.push_back(u.deselectable_cards_size());
				for(auto& x : u.deselectable_cards())
					c.insert(c.end(), {x.code(), res(x.place())});
			}
			else if(s.has_unique_sum())
			{
				auto& u = s.unique_sum();
				c.insert(c.end(), {4, u.can_cancel(), u.sum_exactly(), u.sum_min(), u.sum_max()});
				for(auto& x : u.cards())
					c.insert(c.end(), {x.code(), res(x.place()), x.param_1(), x.param_2()});
			}
			else if(s.has_unique_tributes())
			{
				auto& u = s.unique_tributes();
				c.insert(c.end(), {5, u.can_cancel(), u.tribute_min(), u.tribute_max()});
				for(auto& x : u.cards())
					c.insert(c.end(), {x.code(), res(x.place()), x.count_as()});
			}
			break;
		}
		case 4:
			c.push_back(r.select_card_code().count());
			for(auto x : r.select_card_code().opcodes())
				c.push_back(static_cast<int64_t>(x));
			break;
		case 6:
			c.push_back(r.select_effect().count());
			for(auto& e : r.select_effect().effects())
				c.insert(c.end(), {e.code(), e.index()});
			break;
		case 7:
		{
			auto& s = r.select_idle();
			c.insert(c.end(), {s.is_battle_cmd(), s.available_phase(), s.can_shuffle()});
			auto places = [&](auto& l)
			{
				c.push_back(l.size());
				for(auto& p : l)
					c.push_back(res(p));
			};
			auto acts = [&]()
			{
				c.push_back(s.activable_cards_size() * 3);
				act(s.activable_cards());
			};
			if(s.is_battle_cmd())
			{
				acts();
				c.push_back(s.can_attack_cards_size() * 2);
				for(auto& a : s.can_attack_cards())
					c.insert(c.end(), {res(a.place()), a.can_attack_directly()});
				if(s.summonable_cards_size() || s.spsummonable_cards_size() || s.repositionable_cards_size() || s.msetable_cards_size() || s.ssetable_cards_size())
					c.push_back(-99);
			}
			else
			{
				places(s.summonable_cards());
				places(s.spsummonable_cards());
				places(s.repositionable_cards());
				places(s.msetable_cards());
				places(s.ssetable_cards());
				acts();
				if(s.can_attack_cards_size())
					c.push_back(-99);
			}
			break;
		}
		case 8:
			c.push_back(r.select_number().count());
			for(auto x : r.select_number().numbers())
				c.push_back(static_cast<int64_t>(x));
			break;
		case 9: c.insert(c.end(), {r.select_position().count(), r.select_position().code(), r.select_position().position()}); break;
		case 10: c.insert(c.end(), {r.select_race().count(), static_cast<int64_t>(r.select_race().race())}); break;
		case 11: c.push_back(r.select_rock_paper_scissors()); break;
		case 12:
			c.insert(c.end(), {r.select_to_chain().forced(), r.select_to_chain().triggering()});
			act(r.select_to_chain().activable_cards());
			break;
		case 13:
		{
			auto& s = r.select_yes_no();
			c.insert(c.end(), {s.code(), s.has_place() ? res(s.place()) : 0, s.effect().code(), s.effect().index()});
			break;
		}
		case 14:
			c.insert(c.end(), {r.select_zone().blocking(), r.select_zone().count()});
			for(auto& p : r.select_zone().places())
				c.push_back(lit_place(p));
			break;
		case 15:
			for(auto& p : r.sort().places())
				c.push_back(res(p));
			break;
		default: break;
		}
		return c;
	}
	if(m.t_case() != pd::Msg::kEvent)
		return m.queries_size() ? std::vector<int64_t>{CN_QUERIES} : std::vector<int64_t>{};
	auto& e = m.event();
	switch(e.t_case())
	{
	case pd::Msg::Event::kBoard:
		if(e.board().has_exchange())
			return {CN_EXCHANGE, e.board().exchange().con()};
		else
		{
			auto& s = e.board().state();
			int64_t sh = -1;
			if(s.has_shape())
				sh = s.shape().three_columns() | (s.shape().has_pzones() << 1) | (s.shape().has_separate_pzones() << 2) | (s.shape().has_emzones() << 3) | (s.shape().has_skill_zone() << 4);
			return {CN_STATE, s.turn_counter() < 0 ? -1 : s.turn_counter(), sh};
		}
	case pd::Msg::Event::kCard:
		return {e.card().has_exchange() ? CN_EXCHANGE : CN_CARD, static_cast<int64_t>(e.card().reason())};
	case pd::Msg::Event::kChainStack:
		if(e.chain_stack().has_push())
		{
			auto& p = e.chain_stack().push();
			return {CN_CHAIN_PUSH, res(p.card_place()), lit_place(p.place()), p.effect().code(), p.effect().index()};
		}
		return {CN_CHAIN_POP};
	case pd::Msg::Event::kNextTurn: return {CN_TURN, e.next_turn()};
	case pd::Msg::Event::kFinish:
	{
		auto& f = e.finish();
		int64_t who = f.t_case() == pd::Msg::Event::Finish::kWinner ? f.winner() : f.draw() ? 2 : -1;
		return {CN_FINISH, who, f.win_reason(), f.match_win_reason()};
	}
	case pd::Msg::Event::kLp:
	{
		auto& l = e.lp();
		switch(l.t_case())
		{
		case pd::Msg::Event::LP::kDamage: return {CN_LP, l.controller(), 0, l.damage()};
		case pd::Msg::Event::LP::kRecover: return {CN_LP, l.controller(), 1, l.recover()};
		case pd::Msg::Event::LP::kBecome: return {CN_LP, l.controller(), 2, l.become()};
		case pd::Msg::Event::LP::kPay: return {CN_LP, l.controller(), 3, l.pay()};
		default: return {CN_LP, -1};
		}
	}
	case pd::Msg::Event::kMeta:
	{
		auto& t = e.meta();
		switch(t.t_case())
		{
		case pd::Msg::Event::Meta::kAttack:
			return {CN_ATTACK, res(t.attack().attacker()), t.attack().has_attack_target() && t.attack().attack_target().loc() ? res(t.attack().attack_target()) : 0};
		case pd::Msg::Event::Meta::kChainStatus: return {CN_CHAIN_STATUS, t.chain_status()};
		case pd::Msg::Event::Meta::kConfirm:
			c = {CN_CONFIRM};
			for(auto& p : t.confirm().places())
				c.push_back(res(p));
			return c;
		case pd::Msg::Event::Meta::kDescription:
		{
			auto& d = t.description();
			auto& ef = d.has_add() ? d.add() : d.remove();
			return {CN_DESCRIPTION, d.con(), d.has_add(), ef.code(), ef.index()};
		}
		case pd::Msg::Event::Meta::kSelection:
			c = {CN_SELECTION, t.selection().has_selector() ? res(t.selection().selector()) : 0};
			for(auto& p : t.selection().selected_places())
				c.push_back(res(p));
			return c;
		case pd::Msg::Event::Meta::kShufflePile:
			c = {CN_SHUFFLE_PILE};
			for(auto& p : t.shuffle_pile().places())
				c.insert(c.end(), {p.con(), loc_kind(p.loc())});
			return c;
		case pd::Msg::Event::Meta::kUpdate:
			c = {CN_UPDATE, static_cast<int64_t>(t.update().reason())};
			for(auto& p : t.update().places())
				c.push_back(res(p));
			return c;
		default: return {CN_OTHER};
		}
	}
	case pd::Msg::Event::kNextPhase: return {CN_PHASE, e.next_phase()};
	case pd::Msg::Event::kPile: return {CN_PILE, static_cast<int64_t>(e.pile().reason())};
	case pd::Msg::Event::kResult:
	{
		auto& r = e.result();
		if(r.has_coin())
		{
			c = {CN_COIN, r.coin().actor()};
			for(auto x : r.coin().values())
				c.push_back(x);
		}
		else if(r.has_dice())
		{
			c = {CN_DICE, r.dice().actor()};
			for(auto x : r.dice().values())
				c.push_back(x);
		}
		else
		{
			c = {CN_RPS};
			for(auto x : r.rps().values())
				c.push_back(x);
		}
		return c;
	}
	case pd::Msg::Event::kZoneBlock: return {CN_BLOCK, e.zone_block().zones_size()};
	default: return {CN_OTHER};
	}
}

void make_answer(Choices& ch, pd::Msg::Request const& r, Resolver const& res,
                 pd::Answer& out, std::vector<int64_t>& intent)
{
	intent.clear();
	auto pick = [&](int n) -> int
	{
		// Ends of the list are the interesting indexes.
		switch(ch.n(3))
		{
		case 0: return 0;
		case 1: return n - 1;
		default: return static_cast<int>(ch.n(static_cast<uint32_t>(n)));
		}
	};
	auto subset = [&](int n, uint32_t lo, uint32_t hi)
	{
		std::vector<int> ix;
		for(int i = 0; i < n; i++)
			ix.push_back(i);
		hi = std::min<uint32_t>(hi, static_cast<uint32_t>(n));
		lo = std::max(1u, std::min(lo, hi));
		auto k = lo + ch.n(hi - lo + 1);
		if(ch.p(1, 3))
			k = std::min(hi, lo + ch.n(4)); // few
		// Many at once follow from one draw.
		uint64_t st = k > 40 ? ch.u32() : 0;
		for(uint32_t i = 0; i < k; i++)
		{
			auto const m = static_cast<uint32_t>(n) - i;
			std::swap(ix[i], ix[i + (k > 40 ? static_cast<uint32_t>((st = mix64(st)) % m) : ch.p(1, 4) ? m - 1 : ch.n(m))]);
		}
		ix.resize(k);
		if(ch.p(1, 2))
			std::sort(ix.begin(), ix.end());
		return ix;
	};
	auto effect64 = [](pd::Effect const& e)
	{
		return static_cast<int64_t>((static_cast<uint64_t>(e.code()) << 20) | e.index());
	};
	auto mask_pick = [&](uint64_t m, uint32_t count) -> uint64_t
	{
		std::vector<uint64_t> b;
		for(int i = 0; i < 64; i++)
			if((m >> i) & 1)
				b.push_back(1ull << i);
		uint64_t v = 0;
		for(uint32_t i = 0; i < count && !b.empty(); i++)
		{
			auto j = pick(static_cast<int>(b.size()));
			v |= b[static_cast<size_t>(j)];
			b.erase(b.begin() + j);
		}
		return v;
	};
	switch(static_cast<int>(r.t_case()))
	{
	case 2:
	{
		auto v = mask_pick(r.select_attribute().attribute(), r.select_attribute().count());
		out.set_select_attribute(static_cast<uint32_t>(v));
		intent = {static_cast<int64_t>(v)};
		break;
	}
	case 4:
	{
		auto v = ch.p(1, 2) ? ch.u32() : ch.n(100000000);
		out.set_select_card_code(v);
		intent = {static_cast<int64_t>(v)};
		break;
	}
	case 3:
	{
		auto& s = r.select_card();
		auto* a = out.mutable_select_card();
		if(s.has_recursive())
		{
			auto& u = s.recursive();
			int ns = u.selectable_cards_size(), nd = u.deselectable_cards_size();
			if(u.can_finish() && (ns + nd == 0 || ch.p(1, 4)))
			{
				if(u.accept())
					a->set_finish(true);
				else
					a->set_cancel(true);
				intent = {-1};
				break;
			}
			// Deselectable cards are numbered after the selectable ones.
			bool d = nd > 0 && (ns == 0 || ch.p(1, 2));
			int i = pick(d ? nd : ns);
			auto& x = d ? u.deselectable_cards(i) : u.selectable_cards(i);
			a->mutable_indexes()->add_values(static_cast<uint32_t>(d ? ns + i : i));
			intent = {d ? 2 : 1, res(x.place())};
			break;
		}
		bool cancel = false;
		uint32_t lo = 1, hi = 1;
		int n = 0;
		if(s.has_unique_range())
		{
			auto& u = s.unique_range();
			cancel = u.can_cancel() || u.min() == 0;
			lo = u.min();
			hi = u.max();
			n = u.cards_size();
		}
		else if(s.has_limbo())
		{
			auto& u = s.limbo();
			cancel = u.can_cancel() || u.min() == 0;
			lo = u.min();
			hi = u.max();
			n = u.card_codes_size();
		}
		else if(s.has_unique_sum())
		{
			auto& u = s.unique_sum();
			cancel = u.can_cancel();
			hi = static_cast<uint32_t>(u.cards_size());
			n = u.cards_size();
		}
		else
		{
			auto& u = s.unique_tributes();
			cancel = u.can_cancel();
			lo = 1;
			hi = u.tribute_max();
			n = u.cards_size();
		}
		if(n == 0 || (cancel && ch.p(1, 5)))
		{
			a->set_cancel(true);
			intent = {-1};
			break;
		}
		for(int i : subset(n, lo, hi))
		{
			a->mutable_indexes()->add_values(static_cast<uint32_t>(i));
			intent.push_back(s.has_unique_range() ? res(s.unique_range().cards(i).place())
			                 : s.has_limbo()      ? static_cast<int64_t>(s.limbo().card_codes(i))
			                 : s.has_unique_sum() ? res(s.unique_sum().cards(i).place())
			                                      : res(s.unique_tributes().cards(i).place()));
		}
		break;
	}
	case 6:
	{
		int i = pick(r.select_effect().effects_size());
		out.set_select_effect(static_cast<uint32_t>(i));
		intent = {i, effect64(r.select_effect().effects(i))};
		break;
	}
	case 7:
	{
		auto& s = r.select_idle();
		using A = pd::Answer::SelectIdle;
		auto* a = out.mutable_select_idle();
		struct O
		{
			A::Action act;
			int n;
		};
		std::vector<O> os;
		auto add = [&](A::Action x, int n)
		{
			if(n)
				os.push_back({x, n});
		};
		add(A::ACTION_ACTIVATE, s.activable_cards_size());
		if(s.is_battle_cmd())
			add(A::ACTION_ATTACK, s.can_attack_cards_size());
		else
		{
			add(A::ACTION_SUMMON, s.summonable_cards_size());
			add(A::ACTION_SPSUMMON, s.spsummonable_cards_size());
			add(A::ACTION_REPOSITION, s.repositionable_cards_size());
			add(A::ACTION_MSET, s.msetable_cards_size());
			add(A::ACTION_SSET, s.ssetable_cards_size());
		}
		std::vector<uint32_t> ph;
		for(uint32_t b : {0x80u, 0x100u, 0x200u})
			if(s.available_phase() & b)
				ph.push_back(b);
		uint32_t extra = static_cast<uint32_t>(ph.size()) + s.can_shuffle();
		auto c = ch.n(static_cast<uint32_t>(os.size()) + extra);
		if(c < os.size())
		{
			auto& o = os[c];
			int i = pick(o.n);
			a->mutable_card_action()->set_action(o.act);
			a->mutable_card_action()->set_index(static_cast<uint32_t>(i));
			auto place = [&]() -> pd::Place const&
			{
				switch(o.act)
				{
				case A::ACTION_ACTIVATE: return s.activable_cards(i).place();
				case A::ACTION_ATTACK: return s.can_attack_cards(i).place();
				case A::ACTION_SUMMON: return s.summonable_cards(i);
				case A::ACTION_SPSUMMON: return s.spsummonable_cards(i);
				case A::ACTION_REPOSITION: return s.repositionable_cards(i);
				case A::ACTION_MSET: return s.msetable_cards(i);
				default: return s.ssetable_cards(i);
				}
			}();
			intent = {static_cast<int64_t>(o.act), res(place), o.act == A::ACTION_ACTIVATE ? effect64(s.activable_cards(i).effect()) : 0};
		}
		else if(c - os.size() < ph.size())
		{
			a->set_phase(ph[c - os.size()]);
			intent = {100, ph[c - os.size()]};
		}
		else
		{
			a->set_shuffle(true);
			intent = {101};
		}
		break;
	}
	case 8:
	{
		int i = pick(r.select_number().numbers_size());
		out.set_select_number(static_cast<uint32_t>(i));
		intent = {i, static_cast<int64_t>(r.select_number().numbers(i))};
		break;
	}
	case 9:
	{
		auto v = mask_pick(r.select_position().position(), 1);
		out.set_select_position(static_cast<uint32_t>(v));
		intent = {static_cast<int64_t>(v)};
		break;
	}
	case 10:
	{
		auto v = mask_pick(r.select_race().race(), r.select_race().count());
		out.set_select_race(v);
		intent = {static_cast<int64_t>(v)};
		break;
	}
	case 11:
	{
		auto v = 1 + static_cast<int>(ch.n(3));
		out.set_select_rock_paper_scissors(v);
		intent = {v};
		break;
	}
	case 12:
	{
		auto& s = r.select_to_chain();
		int n = s.activable_cards_size();
		if(n == 0 || (!s.forced() && ch.p(1, 3)))
		{
			out.mutable_select_to_chain()->set_no_op(true);
			intent = {-1};
			break;
		}
		int i = pick(n);
		out.mutable_select_to_chain()->set_index(static_cast<uint32_t>(i));
		intent = {res(s.activable_cards(i).place()), effect64(s.activable_cards(i).effect())};
		break;
	}
	case 13:
	{
		bool y = ch.p(1, 2);
		out.set_select_yes_no(y);
		intent = {y};
		break;
	}
	case 14:
	{
		auto& s = r.select_zone();
		for(int i : subset(s.places_size(), s.count(), s.count()))
		{
			*out.mutable_select_zone()->add_places() = s.places(i);
			intent.push_back(lit_place(s.places(i)));
		}
		break;
	}
	case 15:
	{
		auto& s = r.sort();
		if(ch.p(1, 5))
		{
			out.mutable_sort()->set_skip(true);
			intent = {-1};
			break;
		}
		int n = s.places_size();
		std::vector<int> ix;
		for(int i = 0; i < n; i++)
			ix.push_back(i);
		for(int i = n - 1; i > 0; i--)
			std::swap(ix[static_cast<size_t>(i)], ix[ch.n(static_cast<uint32_t>(i + 1))]);
		for(int i = 0; i < n; i++)
		{
			out.mutable_sort()->mutable_indexes()->add_values(static_cast<uint32_t>(ix[static_cast<size_t>(i)]));
			intent.push_back(res(s.places(i)));
			intent.push_back(ix[static_cast<size_t>(i)]);
		}
		break;
	}
	default: break;
	}
}

} // namespace sim
