// Viewers: real boards fed with translated messages, compared with the
// engine's view of the world after every message.
#pragma once
#include "canon.hpp"
#include <algorithm>
#include <array>
#include <cassert>
#include <list>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <ygopen/client/board.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
// Brings default_card_traits.hpp, which has no include guard.
#include <ygopen/server/basic_encode_context.hpp>

namespace sim
{

namespace yc = YGOpen::Client;
namespace yd = YGOpen::Duel;

// Register of card objects of one board.
struct Reg
{
	int next = 1;
	uint64_t built = 0, released = 0;
	std::unordered_set<int> live;
	std::string bad; // misuse noticed by a card object itself
};

// A value, or the value a recording field shows at present.
template<typename T, typename = void>
struct IsRecording : std::false_type
{};
template<typename T>
struct IsRecording<T, std::void_t<typename T::ValueType, typename T::ContainerType>> : std::true_type
{};
template<typename T>
auto const& shown(T const& v)
{
	if constexpr(IsRecording<T>::value)
		return static_cast<typename T::ValueType const&>(v);
	else
		return v;
}

// Card fields that keep their history.
struct RecordingCardTraits
{
#define X(NAME, Name, name, value) \
	using Name##Type = yc::BasicUndoable<typename yc::DefaultCardTraits::Name##Type>;
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
};

template<typename CardTraits>
class TCardT : public yc::BasicCard<CardTraits>
{
	using Base = yc::BasicCard<CardTraits>;

public:
	Reg* reg = nullptr;
	int serial = 0;

	TCardT() noexcept : Base() {}
	explicit TCardT(Reg* r) noexcept : Base(), reg(r)
	{
		if(!r)
			return;
		serial = r->next++;
		r->built++;
		r->live.insert(serial);
	}
	TCardT(TCardT&& o) noexcept : Base(std::move(o)), reg(o.reg), serial(o.serial)
	{
		o.reg = nullptr;
	}
	TCardT& operator=(TCardT&& o) noexcept
	{
		drop();
		Base::operator=(std::move(o));
		reg = o.reg;
		serial = o.serial;
		o.reg = nullptr;
		return *this;
	}
	TCardT(TCardT const&) = delete;
	TCardT& operator=(TCardT const&) = delete;
	~TCardT() noexcept { drop(); }

private:
	void drop() noexcept
	{
		if(!reg)
			return;
		if(!reg->live.erase(serial))
			reg->bad = "released twice";
		reg->released++;
		reg = nullptr;
	}
};

template<typename Card>
struct TBuilderT
{
	Reg* reg = nullptr;
	[[nodiscard]] auto build() noexcept -> Card { return Card(reg); }
};

using TCard = TCardT<yc::DefaultCardTraits>;
using TBuilder = TBuilderT<TCard>;
using RCard = TCardT<RecordingCardTraits>;
using RBuilder = TBuilderT<RCard>;

struct PlainTraits
{
	using BlockedZonesType = std::vector<pd::Place>;
	using ChainStackType = std::vector<pd::Chain>;
	using FrameType = yc::BasicFrame<TCard, TBuilder>;
	using LPType = uint32_t;
	using PhaseType = yd::Phase;
	using TurnControllerType = yd::Controller;
	using TurnType = uint32_t;
};
// Recording frame, scalars not recorded.
struct LimboTraits : PlainTraits
{
	using FrameType = yc::LimboFrame<TCard, TBuilder>;
};
// Cards that record, on either frame.
struct CardTapeTraits : PlainTraits
{
	using FrameType = yc::BasicFrame<RCard, RBuilder>;
};
struct CardTapeLimboTraits : PlainTraits
{
	using FrameType = yc::LimboFrame<RCard, RBuilder>;
};
// Recording board.
struct TapeTraits
{
	using BlockedZonesType = yc::BasicUndoable<std::vector<pd::Place>>;
	using ChainStackType = yc::BasicUndoable<std::vector<pd::Chain>>;
	using FrameType = yc::LimboFrame<TCard, TBuilder>;
	using LPType = yc::BasicUndoable<uint32_t>;
	using PhaseType = yc::BasicUndoable<yd::Phase>;
	using TurnControllerType = yc::BasicUndoable<yd::Controller>;
	using TurnType = yc::BasicUndoable<uint32_t>;
};
// Recording board whose history is erased now and then.
struct BranchTraits : TapeTraits
{};

enum Chk : uint32_t
{
	CHK_LAYOUT = 1,  // pile sizes, occupied zones, material counts
	CHK_IDENT = 2,   // the same card object followed
	CHK_SCORE = 4,   // lp, turn, player, phase, chain, blocked
	CHK_RESYNC = 8,  // lp and chain only (carried by snapshots)
	CHK_CANON = 16,  // places and values of announcements and requests
	CHK_INFO = 32,   // card information
	CHK_OBJECTS = 64,// object lifetime
	CHK_FINISH = 128,
	CHK_MATS = 256,  // materials' identity and order only
};

struct Info
{
	std::array<uint64_t, QF_COUNT> f{};
	std::vector<uint64_t> targets;
	std::vector<std::pair<uint32_t, uint32_t>> counters;
	Info()
	{
		f[QF_EQUIP] = static_cast<uint64_t>(Engine::lit_of(P{}));
	}
	bool operator==(Info const& o) const
	{
		return f == o.f && targets == o.targets && counters == o.counters;
	}
};

template<typename T>
uint64_t u64v(T const& v)
{
	if constexpr(std::is_same_v<T, bool>)
		return v;
	else if constexpr(std::is_enum_v<T>)
		return u64v(static_cast<std::underlying_type_t<T>>(v));
	else if constexpr(sizeof(T) == 8)
		return static_cast<uint64_t>(v);
	else if constexpr(sizeof(T) == 4)
		return static_cast<uint32_t>(v);
	else
		return static_cast<uint64_t>(v);
}

inline uint64_t place_u64(pd::Place const& p)
{
	P q = from_place(p);
	return q.kind < 0 ? ~0ull : static_cast<uint64_t>(Engine::lit_of(q));
}

template<typename Card>
Info info_of(Card const& c)
{
	Info i;
	i.f[QF_CODE] = u64v(shown(c.code()));
	i.f[QF_POSITION] = u64v(shown(c.position()));
	i.f[QF_ALIAS] = u64v(shown(c.alias()));
	i.f[QF_TYPE] = u64v(shown(c.type()));
	i.f[QF_LEVEL] = u64v(shown(c.level()));
	i.f[QF_RANK] = u64v(shown(c.xyz_rank()));
	i.f[QF_ATTRIBUTE] = u64v(shown(c.attribute()));
	i.f[QF_RACE] = u64v(shown(c.race()));
	i.f[QF_ATK] = u64v(shown(c.atk()));
	i.f[QF_DEF] = u64v(shown(c.def()));
	i.f[QF_BATK] = u64v(shown(c.base_atk()));
	i.f[QF_BDEF] = u64v(shown(c.base_def()));
	i.f[QF_EQUIP] = place_u64(shown(c.equipped_to()));
	i.f[QF_OWNER] = u64v(shown(c.owner()));
	i.f[QF_STATUS] = u64v(shown(c.status()));
	i.f[QF_PUBLIC] = u64v(shown(c.is_public()));
	i.f[QF_LSCALE] = u64v(shown(c.pend_l_scale()));
	i.f[QF_RSCALE] = u64v(shown(c.pend_r_scale()));
	i.f[QF_HIDDEN] = u64v(shown(c.is_hidden()));
	i.f[QF_COVER] = u64v(shown(c.cover()));
	i.f[QF_LINK_RATE] = u64v(shown(c.link_rate()));
	i.f[QF_LINK_ARROW] = u64v(shown(c.link_arrow()));
	for(auto& t : shown(c.targets()))
		i.targets.push_back(place_u64(t));
	for(auto& k : shown(c.counters()))
		i.counters.emplace_back(k.type(), k.count());
	return i;
}

// Everything a board shows, with object identities.
struct Shot
{
	std::vector<int> cards; // flattened serials with separators
	uint32_t lp[2] = {0, 0};
	uint32_t turn = 0;
	uint64_t turn_con = 0, phase = 0;
	std::vector<uint64_t> chain, blocked;
	bool operator==(Shot const& o) const
	{
		return cards == o.cards && lp[0] == o.lp[0] && lp[1] == o.lp[1] &&
		       turn == o.turn && turn_con == o.turn_con && phase == o.phase &&
		       chain == o.chain && blocked == o.blocked;
	}
	std::string diff(Shot const& o) const
	{
		if(cards != o.cards)
			return "cards";
		if(lp[0] != o.lp[0] || lp[1] != o.lp[1])
			return "life points";
		if(turn != o.turn)
			return "turn";
		if(turn_con != o.turn_con)
			return "turn player";
		if(phase != o.phase)
			return "phase";
		if(chain != o.chain)
			return "chain";
		if(blocked != o.blocked)
			return "blocked zones";
		return "";
	}
};

template<typename Traits>
class Viewer
{
public:
	using Board = yc::BasicBoard<Traits>;
	using Frame = typename Traits::FrameType;
	using Card = typename Frame::CardType;
	static constexpr bool recording = IsRecording<typename Card::CodeType>::value;
	Ctx& c;
	uint32_t chk;
	std::string name;
	bool plain; // non-recording frame
	bool cache = false; // use the caching query reader
	Reg reg;
	std::unique_ptr<Board> board;

	Viewer(Ctx& ctx, uint32_t checks, std::string n)
		: c(ctx), chk(checks), name(std::move(n)),
		  plain(std::is_same_v<Frame, yc::BasicFrame<Card, TBuilderT<Card>>>)
	{
		fresh();
	}

	// A brand new board (client process restarted).
	void fresh()
	{
		teardown();
		board = std::make_unique<Board>();
		board->frame().builder().reg = &reg;
		tok2ser_.clear();
		ser2tok_.clear();
		info_.clear();
		m_turn = 0;
		m_turn_con = 0;
		m_phase = 0;
		m_blocked.clear();
	}

	void teardown()
	{
		if(!board)
			return;
		board.reset();
		if((chk & CHK_OBJECTS) && (!reg.live.empty() || reg.built != reg.released))
			c.fail("objects", name + ": " + std::to_string(reg.live.size()) + " card objects outlive their board");
		reg.live.clear();
		reg.built = reg.released = 0;
	}
	~Viewer() { board.reset(); }

	static auto loc_of(int kind) { return static_cast<yd::Location>(kloc(kind)); }
	static auto con_of(int con) { return static_cast<yd::Controller>(con); }

	Card const* at(P const& p) const
	{
		auto const& f = static_cast<Board const&>(*board).frame();
		if(p.con < 0 || p.con > 1 || p.kind < 0 || p.kind >= K_NONE)
			return nullptr;
		if(kpile(p.kind))
		{
			auto& pl = f.pile(con_of(p.con), loc_of(p.kind));
			return p.seq < pl.size() ? pl[p.seq] : nullptr;
		}
		if(p.seq >= static_cast<uint32_t>(zone_count(p.kind)))
			return nullptr;
		auto& z = f.zone(con_of(p.con), loc_of(p.kind), p.seq);
		if(p.oseq < 0)
			return z.card;
		return static_cast<size_t>(p.oseq) < z.materials.size() ? z.materials[static_cast<size_t>(p.oseq)] : nullptr;
	}

	int64_t resolve(pd::Place const& pl) const
	{
		P p = from_place(pl);
		if(p.kind < 0)
			return -7777;
		if(auto* card = at(p))
		{
			auto it = ser2tok_.find(card->serial);
			if(it != ser2tok_.end())
				return static_cast<int64_t>(it->second) * 4 + 1;
			return -8888;
		}
		return Engine::lit_of(p);
	}
	Resolver resolver() const
	{
		return [this](pd::Place const& p) { return resolve(p); };
	}

	// Applies one translated message; `f` says what must result. `quiet`
	// applies without comparing (used to build a board for later checks).
	void apply(pd::Msg const& m, Frm const& f)
	{
		if((chk & CHK_CANON) && !f.canon.empty())
		{
			auto got = canon_of(m, resolver());
			if(got != f.canon)
			{
				c.fail("meaning", name + ": " + f.name + " reads [" + canon_str(got) + "], engine meant [" + canon_str(f.canon) + "]");
				return;
			}
		}
		if(chk & CHK_FINISH)
		{
			bool const fin = m.t_case() == pd::Msg::kEvent && m.event().t_case() == pd::Msg::Event::kFinish;
			if(fin != f.finish)
			{
				c.fail("finish", name + ": " + f.name + (fin ? " ended the duel" : " did not end the duel"));
				return;
			}
			if(fin)
			{
				auto got = canon_of(m, resolver());
				if(got != f.canon)
				{
					c.fail("finish", name + ": outcome reads [" + canon_str(got) + "], engine meant [" + canon_str(f.canon) + "]");
					return;
				}
			}
		}
		auto const built = reg.built, released = reg.released;
		if(m.t_case() == pd::Msg::kEvent)
			yc::parse_event(*board, m.event());
		track(f);
		check(f, built, released);
		if(c.failed())
			return;
		queries(m, f);
	}

	// Model of what only the viewer's own history determines.
	void track(Frm const& f)
	{
		if(f.canon.empty())
			return;
		switch(f.canon[0])
		{
		case CN_TURN:
			m_turn++;
			m_turn_con = static_cast<uint64_t>(f.after->turn_con);
			break;
		case CN_PHASE: m_phase = f.after->phase; break;
		case CN_STATE:
			if(f.sets_turn)
				m_turn = f.after->turn;
			break;
		case CN_BLOCK:
			m_blocked.clear();
			for(auto& p : f.after->blocked)
				m_blocked.push_back(static_cast<uint64_t>(Engine::lit_of(p)));
			break;
		default: break;
		}
	}

	template<typename A>
	static uint32_t as32(A const& a)
	{
		return static_cast<uint32_t>(u64v(unwrap(a)));
	}
	template<typename A>
	static auto const& unwrap(A const& a)
	{
		if constexpr(std::is_arithmetic_v<A> || std::is_enum_v<A>)
			return a;
		else
			return static_cast<typename A::ValueType const&>(a);
	}
	template<typename A>
	static auto const& list_of(A const& a)
	{
		if constexpr(std::is_same_v<A, std::vector<pd::Place>> || std::is_same_v<A, std::vector<pd::Chain>>)
			return a;
		else
			return static_cast<typename A::ValueType const&>(a);
	}

	Shot shot() const
	{
		Shot s;
		auto const& b = static_cast<Board const&>(*board);
		auto const& f = b.frame();
		for(int con = 0; con < 2; con++)
		{
			for(int k = 0; k < N_PILES; k++)
			{
				for(auto* x : f.pile(con_of(con), loc_of(k)))
					s.cards.push_back(x->serial);
				s.cards.push_back(-1);
			}
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				P p = zone_place(con, zi);
				auto& z = f.zone(con_of(con), loc_of(p.kind), p.seq);
				s.cards.push_back(z.card ? z.card->serial : 0);
				for(auto* x : z.materials)
					s.cards.push_back(x->serial);
				s.cards.push_back(-1);
			}
			s.lp[con] = as32(b.lp(con_of(con)));
		}
		s.turn = as32(b.turn());
		s.turn_con = u64v(unwrap(b.turn_controller()));
		s.phase = u64v(unwrap(b.phase()));
		for(auto& x : list_of(b.chain_stack()))
		{
			s.chain.push_back(place_u64(x.card_place()));
			s.chain.push_back(place_u64(x.place()));
			s.chain.push_back(x.effect().code());
			s.chain.push_back(x.effect().index());
		}
		for(auto& x : list_of(b.blocked_zones()))
			s.blocked.push_back(place_u64(x));
		return s;
	}

	void forget_identities()
	{
		tok2ser_.clear();
		ser2tok_.clear();
		info_.clear();
	}

	// Recomputes who is who from a known correspondence (after a rewind).
	void rebind(View const& v)
	{
		forget_identities();
		v.each(
			[&](P const& p, int t)
			{
				if(auto* card = at(p))
				{
					tok2ser_[t] = card->serial;
					ser2tok_[card->serial] = t;
				}
			});
	}

	bool layout(View const& v, char const* what)
	{
		auto const& f = static_cast<Board const&>(*board).frame();
		for(int con = 0; con < 2; con++)
		{
			for(int k = 0; k < N_PILES; k++)
			{
				auto n = f.pile(con_of(con), loc_of(k)).size();
				if(n != v.pile[con][k].size())
				{
					c.fail("layout", name + ": after " + what + " " + std::to_string(con) + ":" + kname(k) + " holds " + std::to_string(n) + " cards, engine has " + std::to_string(v.pile[con][k].size()));
					return false;
				}
				P p{con, k, static_cast<uint32_t>(n), -1};
				if(!asks(p, false, what))
					return false;
				if(n && !asks(P{con, k, static_cast<uint32_t>(n - 1), -1}, true, what))
					return false;
			}
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				P p = zone_place(con, zi);
				auto& z = f.zone(con_of(con), loc_of(p.kind), p.seq);
				auto& e = v.zone[con][zi];
				if((z.card != nullptr) != (e.card != 0))
				{
					c.fail("layout", name + ": after " + what + " zone " + pstr(p) + (z.card ? " is occupied, engine has it empty" : " is empty, engine has a card there"));
					return false;
				}
				if(z.materials.size() != e.mats.size())
				{
					c.fail("layout", name + ": after " + what + " zone " + pstr(p) + " has " + std::to_string(z.materials.size()) + " materials, engine has " + std::to_string(e.mats.size()));
					return false;
				}
				if(!asks(p, z.card != nullptr, what))
					return false;
				p.oseq = static_cast<int>(z.materials.size());
				if(!asks(p, false, what))
					return false;
				if(p.oseq-- && !asks(p, true, what))
					return false;
			}
		}
		return true;
	}

	// The board's own word on whether there is a card, and which.
	bool asks(P const& p, bool want, char const* what)
	{
		auto const& f = static_cast<Board const&>(*board).frame();
		pd::Place pl;
		pl.set_con(con_of(p.con));
		pl.set_loc(loc_of(p.kind));
		pl.set_seq(p.seq);
		pl.set_oseq(p.oseq);
		bool const has = f.has_card(pl);
		if(has == want && (!want || &f.card(pl) == at(p)))
			return true;
		c.fail("layout", name + ": after " + what + " " + pstr(p) + (has != want ? (has ? " is said to hold a card" : " is said to hold none") : " gives another card than the one there"));
		return false;
	}

	void identities(Frm const& f)
	{
		View const& v = *f.after;
		std::unordered_set<int> loose(f.setwise.begin(), f.setwise.end());
		std::unordered_set<int> unspec(f.unspec.begin(), f.unspec.end());
		std::set<int> old_serials, new_serials;
		if(f.snapshot)
			forget_identities();
		for(auto t : f.setwise)
		{
			auto it = tok2ser_.find(t);
			if(it == tok2ser_.end())
				continue;
			old_serials.insert(it->second);
			ser2tok_.erase(it->second);
			tok2ser_.erase(it);
		}
		std::unordered_set<int> here;
		bool ok = true;
		v.each(
			[&](P const& p, int t)
			{
				if(!ok)
					return;
				here.insert(t);
				auto* card = at(p);
				if(!card)
					return;
				auto it = tok2ser_.find(t);
				if(it == tok2ser_.end())
				{
					// A card never seen before, or one whose object is free
					// to be any of a set.
					auto jt = ser2tok_.find(card->serial);
					bool taken = jt != ser2tok_.end() && v_has(v, jt->second, f);
					if(taken)
					{
						c.fail("identity", name + ": after " + f.name + " the object at " + pstr(p) + " is another card's object");
						ok = false;
						return;
					}
					if(loose.count(t))
						new_serials.insert(card->serial);
					else if(!f.snapshot && !unspec.count(t) && card->serial < next_serial_)
					{
						c.fail("identity", name + ": after " + f.name + " the new card at " + pstr(p) + " is shown with an object that was already in use");
						ok = false;
						return;
					}
					if(jt != ser2tok_.end())
					{
						tok2ser_.erase(jt->second);
						info_.erase(jt->second);
					}
					tok2ser_[t] = card->serial;
					ser2tok_[card->serial] = t;
					if(unspec.count(t))
						info_[t] = info_of(*card);
					else
						info_[t] = Info{};
				}
				else if(it->second != card->serial)
				{
					auto jt = ser2tok_.find(card->serial);
					c.fail("identity", name + ": after " + f.name + " the card at " + pstr(p) + " should be object of token " + std::to_string(t) + (jt == ser2tok_.end() ? " but is an unknown object" : " but is the object of token " + std::to_string(jt->second)));
					ok = false;
				}
				else if(unspec.count(t))
					info_[t] = info_of(*card);
			});
		if(!ok)
			return;
		if(loose.size() && old_serials != new_serials)
		{
			c.fail("identity", name + ": shuffled cards are not the same objects as before");
			return;
		}
		// Cards gone from the engine's board.
		for(auto it = tok2ser_.begin(); it != tok2ser_.end();)
		{
			if(here.count(it->first))
			{
				++it;
				continue;
			}
			auto jt = ser2tok_.find(it->second);
			if(jt != ser2tok_.end() && jt->second == it->first)
				ser2tok_.erase(jt);
			info_.erase(it->first);
			it = tok2ser_.erase(it);
		}
		next_serial_ = reg.next;
	}

	void check(Frm const& f, uint64_t built0, uint64_t released0)
	{
		View const& v = *f.after;
		auto const& b = static_cast<Board const&>(*board);
		bool const need_id = chk & (CHK_IDENT | CHK_CANON | CHK_INFO | CHK_MATS | CHK_OBJECTS);
		if(chk & (CHK_LAYOUT | CHK_MATS | CHK_IDENT))
			if(!layout(v, f.name))
				return;
		if(chk & CHK_OBJECTS)
		{
			if(!reg.bad.empty())
			{
				c.fail("objects", name + ": after " + f.name + " a card object was " + reg.bad);
				return;
			}
			if(plain && reg.live.size() != v.count())
			{
				c.fail("objects", name + ": after " + f.name + " " + std::to_string(reg.live.size()) + " card objects exist for " + std::to_string(v.count()) + " cards on the board");
				return;
			}
			if(f.unspec.empty() || f.snapshot)
			{
				uint64_t fresh = 0, gone = 0;
				if(f.snapshot)
				{
					fresh = v.count();
					gone = tok2ser_.size();
				}
				else
				{
					uint64_t kept = 0;
					v.each(
						[&](P const&, int t)
						{
							if(tok2ser_.count(t))
								kept++;
							else
								fresh++;
						});
					gone = tok2ser_.size() - kept;
				}
				if(reg.built - built0 != fresh)
				{
					c.fail("objects", name + ": " + f.name + " built " + std::to_string(reg.built - built0) + " card objects for " + std::to_string(fresh) + " cards appearing");
					return;
				}
				if(reg.released - released0 != (plain ? gone : 0))
				{
					c.fail("objects", name + ": " + f.name + " released " + std::to_string(reg.released - released0) + " card objects for " + std::to_string(gone) + " cards leaving");
					return;
				}
			}
			// Each object at one place only, and alive.
			std::unordered_set<int> seen;
			bool ok = true;
			each_card(
				[&](P const& p, Card const& x)
				{
					if(!ok)
						return;
					if(!seen.insert(x.serial).second || !reg.live.count(x.serial))
					{
						c.fail("objects", name + ": after " + f.name + " the object at " + pstr(p) + (reg.live.count(x.serial) ? " is shown twice" : " is not alive"));
						ok = false;
					}
				});
			if(!ok)
				return;
			if(plain && seen.size() != reg.live.size())
			{
				c.fail("objects", name + ": after " + f.name + " objects exist that are not on the board");
				return;
			}
		}
		if(need_id)
		{
			bool const blame = chk & (CHK_IDENT | CHK_MATS | CHK_OBJECTS | CHK_CANON | CHK_INFO);
			if(blame)
				identities(f);
			if(c.failed())
				return;
		}
		if(chk & (CHK_SCORE | CHK_RESYNC))
		{
			for(int con = 0; con < 2; con++)
				if(as32(b.lp(con_of(con))) != v.lp[con])
				{
					c.fail("lp", name + ": after " + f.name + " player " + std::to_string(con) + " shows " + std::to_string(as32(b.lp(con_of(con)))) + " life points, engine has " + std::to_string(v.lp[con]));
					return;
				}
			auto& ch = list_of(b.chain_stack());
			bool same = ch.size() == v.chain.size();
			for(size_t i = 0; same && i < v.chain.size(); i++)
			{
				auto& e = v.chain[i];
				same = place_u64(ch[i].card_place()) == static_cast<uint64_t>(Engine::lit_of(e.card)) &&
				       place_u64(ch[i].place()) == static_cast<uint64_t>(Engine::lit_of(e.trig)) &&
				       ch[i].effect().code() == e.code && ch[i].effect().index() == e.index;
				if(!same)
					c.fail("chain", name + ": after " + f.name + " chain link " + std::to_string(i + 1) + " differs from the engine's");
			}
			if(ch.size() != v.chain.size())
				c.fail("chain", name + ": after " + f.name + " the chain shows " + std::to_string(ch.size()) + " links, engine has " + std::to_string(v.chain.size()));
			if(c.failed())
				return;
			if(as32(b.turn()) != m_turn)
			{
				c.fail("turn", name + ": after " + f.name + " shows turn " + std::to_string(as32(b.turn())) + ", expected " + std::to_string(m_turn));
				return;
			}
		}
		if(chk & CHK_SCORE)
		{
			if(u64v(unwrap(b.turn_controller())) != m_turn_con)
			{
				c.fail("turn_player", name + ": after " + f.name + " wrong turn player");
				return;
			}
			if(u64v(unwrap(b.phase())) != m_phase)
			{
				c.fail("phase", name + ": after " + f.name + " wrong phase");
				return;
			}
			std::vector<uint64_t> bl;
			for(auto& x : list_of(b.blocked_zones()))
				bl.push_back(place_u64(x));
			auto want = m_blocked;
			std::sort(bl.begin(), bl.end());
			std::sort(want.begin(), want.end());
			if(bl != want)
			{
				c.fail("blocked", name + ": after " + f.name + " " + std::to_string(bl.size()) + " blocked zones, engine has " + std::to_string(want.size()) + (bl.size() == want.size() ? " (other ones)" : ""));
				return;
			}
		}
	}

	void queries(pd::Msg const& m, Frm const& f)
	{
		auto& frame = board->frame();
		size_t const want = f.queries.size();
		if((chk & CHK_INFO) && static_cast<size_t>(m.queries_size()) != want && want != 0)
		{
			// Cards with no information need not be listed; judged by content.
			c.probe("query_count_differs");
		}
		std::map<int64_t, uint64_t> hits_got, hits_want, hits_may;
		std::map<int64_t, std::vector<uint64_t>> per;
		// Expected hits: fields whose value equals the current one. A card is
		// listed at most once per message by the engine.
		if(chk & CHK_INFO)
			for(auto& q : f.queries)
			{
				uint64_t hit = 0;
				auto it = info_.find(q.token);
				if(it == info_.end())
					continue;
				for(auto& [fl, x] : q.fields)
					if(it->second.f[static_cast<size_t>(fl)] == x)
						hit |= qf_bit(fl);
				hits_want[q.token] |= hit;
				// Lists may be stored anew even when nothing changed.
				if(q.has_targets && it->second.targets == q.targets)
					hits_may[q.token] |= 0x8000;
				if(q.has_counters && it->second.counters == q.counters)
					hits_may[q.token] |= 0x20000;
			}
		for(auto const& q : m.queries())
		{
			int64_t who = 0;
			if(chk & CHK_INFO)
			{
				who = resolve(q.place());
				if((who & 3) != 1)
				{
					c.fail("info", name + ": " + f.name + " carries information for a place without a card");
					return;
				}
				who = (who - 1) / 4;
			}
			else if(!frame.has_card(q.place()))
				continue;
			uint64_t h = 0;
			if(cache)
			{
				h = static_cast<uint64_t>(yc::parse_query<true>(frame, q));
				hits_got[who] |= h;
			}
			else
				static_cast<void>(yc::parse_query(frame, q));
#ifdef SIM_RECORDING_CARDS
			if constexpr(recording)
				if(chk & CHK_INFO)
					step_back(q, h, static_cast<int>(who), f.name);
#endif
			if(c.failed())
				return;
		}
		if(!(chk & CHK_INFO))
			return;
		for(auto& q : f.queries)
		{
			auto it = info_.find(q.token);
			if(it == info_.end())
				continue;
			for(auto& [fl, x] : q.fields)
				it->second.f[static_cast<size_t>(fl)] = x;
			if(q.has_targets)
				it->second.targets = q.targets;
			if(q.has_counters)
				it->second.counters = q.counters;
		}
		if(!f.queries.empty() || m.queries_size() || ++since_info_ >= 16)
			check_info(f.name);
		if(c.failed())
			return;
		if(cache)
			for(auto& [t, h] : hits_want)
			{
				auto g = hits_got.count(t) ? hits_got[t] : 0;
				if((g & ~hits_may[t]) != h)
				{
					char bf[160];
					snprintf(bf, sizeof bf, ": %s reports fields %llx as already known, %llx were", f.name, static_cast<unsigned long long>(g), static_cast<unsigned long long>(h));
					c.fail("cache_hits", name + bf);
					return;
				}
			}
	}

#ifdef SIM_RECORDING_CARDS
	// Steps back what a query changed (all but the reported hits) and reads
	// the query again. What was known before must show in between.
	void step_back(pd::Msg::Query const& q, uint64_t hits, int tok, char const* what)
	{
		if(!c.ch.p(1, 3))
			return;
		auto& card = board->frame().card(q.place());
		auto const now = info_of(card);
		auto const miss = ~static_cast<yc::QueryCacheHit>(hits);
		auto const& data = q.data();
#define X(NAME, Name, name, value) \
	if(data.has_##name() && !(~miss & yc::QueryCacheHit::NAME) && !!(miss & yc::QueryCacheHit::NAME)) \
		card.name().undo();
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
		c.probe("query_stepped_back");
		auto it = info_.find(tok);
		if(it != info_.end() && !(info_of(card) == it->second))
		{
			c.fail("info", name + ": " + what + ": stepping the query back does not show what was known before");
			return;
		}
		uint64_t h = 0;
		if(cache)
			h = static_cast<uint64_t>(yc::parse_query<true>(board->frame(), q));
		else
			static_cast<void>(yc::parse_query(board->frame(), q));
		if(!(info_of(card) == now) || h != hits)
			c.fail("info", name + ": " + what + ": reading the query again after stepping back gives something else");
	}
#endif

	void check_info(char const* what)
	{
		since_info_ = 0;
		each_card(
			[&](P const& p, Card const& x)
			{
				if(c.failed())
					return;
				auto jt = ser2tok_.find(x.serial);
				if(jt == ser2tok_.end())
					return;
				auto it = info_.find(jt->second);
				if(it == info_.end())
					return;
				auto got = info_of(x);
				if(got == it->second)
					return;
				std::string d;
				for(size_t i = 0; i < QF_COUNT; i++)
					if(got.f[i] != it->second.f[i])
						d = "field " + std::to_string(i) + " is " + std::to_string(got.f[i]) + ", last revealed " + std::to_string(it->second.f[i]);
				if(got.targets != it->second.targets)
					d = "targets";
				if(got.counters != it->second.counters)
					d = "counters";
				c.fail("info", name + ": after " + what + " information of the card at " + pstr(p) + " is wrong: " + d);
			});
	}

	template<typename F>
	void each_card(F fn) const
	{
		auto const& f = static_cast<Board const&>(*board).frame();
		for(int con = 0; con < 2; con++)
		{
			for(int k = 0; k < N_PILES; k++)
			{
				auto& pl = f.pile(con_of(con), loc_of(k));
				for(size_t i = 0; i < pl.size(); i++)
					fn(P{con, k, static_cast<uint32_t>(i), -1}, *pl[i]);
			}
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				P p = zone_place(con, zi);
				auto& z = f.zone(con_of(con), loc_of(p.kind), p.seq);
				if(z.card)
					fn(p, *z.card);
				for(size_t i = 0; i < z.materials.size(); i++)
				{
					P q = p;
					q.oseq = static_cast<int>(i);
					fn(q, *z.materials[i]);
				}
			}
		}
	}

	uint32_t m_turn = 0;
	uint64_t m_turn_con = 0, m_phase = 0;
	std::vector<uint64_t> m_blocked;

private:
	std::unordered_map<int, int> tok2ser_, ser2tok_;
	std::unordered_map<int, Info> info_;
	int next_serial_ = 1;
	int since_info_ = 0;

	static bool v_has(View const& v, int tok, Frm const& f)
	{
		(void)f;
		P p;
		return v.find(tok, p);
	}
};

} // namespace sim
