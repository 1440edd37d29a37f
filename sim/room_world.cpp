// Rooms: the real room between simulated clients on faulty uplinks, a simulated
// deck validator and a scripted random generator, against a reference model.
#include "core.hpp"
#include <algorithm>
#include <array>
#include <google/protobuf/stubs/logging.h>
#include <cassert>
#include <deque>
#include <new>
#include <optional>
#include <string_view>
#include <variant>
#include <client_msg.pb.h>
#include <server_msg.pb.h>
#include <ygopen/server/room.hpp>

namespace sim
{

namespace
{

namespace pr = YGOpen::Proto::Room;
using YGOpen::Proto::Deck;
using YGOpen::Proto::DeckError;
using YGOpen::Proto::User;
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;

constexpr uint32_t MAX_CLIENTS = 14;

template<typename M>
std::string ser(M const& m)
{
	std::string s;
	m.SerializeToString(&s);
	return s;
}

class SimClient
{
public:
	User user;
	std::vector<std::string> got; // during the current step
	void send(Ev const& e) noexcept
	{
		YGOpen::Proto::ServerMsg m;
		*m.mutable_room_event() = e;
		got.push_back(ser(m));
	}
	void fill_user(User& u) const noexcept { u = user; }
};

struct ValCall
{
	std::string banlist, deck;
};
struct ValPlan
{
	bool ok = false;
	bool scribble = false; // leaves remarks behind although it accepts
	DeckError err;
	std::vector<ValCall> calls;
};
class SimValidator
{
public:
	ValPlan* plan = nullptr;
	bool check(std::string_view banlist, Deck const& d, DeckError& e) const noexcept
	{
		plan->calls.push_back({std::string(banlist), ser(d)});
		if(!plan->ok || plan->scribble)
			e = plan->err;
		return plan->ok;
	}
};
struct SimFactory
{
	void make_duel() const noexcept {}
};

// The generator's future, decided by the simulator.
struct Script
{
	uint64_t seed = 1;
	std::vector<uint64_t> fixed;
	std::vector<uint64_t> drawn;
	uint64_t next()
	{
		uint64_t v = drawn.size() < fixed.size() ? fixed[drawn.size()] : mix64(seed + drawn.size());
		drawn.push_back(v);
		return v;
	}
};
template<typename R>
struct SimRng
{
	using result_type = R;
	Script* s = nullptr;
	static constexpr R min() { return 0; }
	static constexpr R max() { return std::numeric_limits<R>::max(); }
	R operator()()
	{
		auto v = static_cast<R>(s->next());
		s->drawn.back() = v;
		return v;
	}
};
template<typename R>
struct Traits
{
	using ClientType = SimClient;
	using DeckValidatorType = SimValidator;
	using CoreDuelFactoryType = SimFactory;
	using RNGType = SimRng<R>;
};

struct IRoom
{
	virtual ~IRoom() = default;
	virtual void enter(uint32_t i) = 0;
	virtual void signal(uint32_t i, Sig const& s) = 0;
	std::vector<SimClient> cl;
	ValPlan plan;
	Script script;
	std::vector<std::vector<std::string>> take()
	{
		std::vector<std::vector<std::string>> r;
		for(auto& x : cl)
			r.push_back(std::move(x.got)), x.got.clear();
		return r;
	}
};

template<typename R>
class RoomBox final : public IRoom
{
	using Room = YGOpen::Server::BasicRoom<Traits<R>>;

public:
	RoomBox(uint32_t pattern, std::vector<User> const& us) : pattern_(pattern)
	{
		cl.resize(us.size());
		for(size_t i = 0; i < us.size(); i++)
			cl[i].user = us[i];
	}
	void open(pr::Options const& o)
	{
		mem_ = static_cast<unsigned char*>(::operator new(sizeof(Room), std::align_val_t{alignof(Room)}));
		auto* volatile m = mem_;
		for(size_t i = 0; i < sizeof(Room); i++)
			*const_cast<unsigned char volatile*>(m + i) = static_cast<unsigned char>(pattern_ >> ((i & 3) * 8));
		val_.plan = &plan;
		room_ = new(m) Room(val_, fac_, SimRng<R>{&script}, cl[0], o);
	}
	~RoomBox() override
	{
		if(room_)
			room_->~Room();
		if(mem_)
			::operator delete(mem_, std::align_val_t{alignof(Room)});
	}
	void enter(uint32_t i) override { room_->enter(cl[i]); }
	void signal(uint32_t i, Sig const& s) override { room_->visit(cl[i], s); }

private:
	uint32_t pattern_;
	unsigned char* mem_ = nullptr;
	SimValidator val_;
	SimFactory fac_;
	Room* room_ = nullptr;
};

struct Seat
{
	int who = -1;
	bool deck = false, ready = false;
};

// What one client can tell from its own events.
struct View
{
	bool entered = false;
	struct D
	{
		std::string user;
		bool host = false, ready = false;
		bool operator==(D const& o) const { return user == o.user && host == o.host && ready == o.ready; }
	};
	std::map<std::pair<uint32_t, uint32_t>, D> seats;
	uint32_t spect = 0;
	bool dft = false;
};

std::string show(std::map<std::pair<uint32_t, uint32_t>, View::D> const& m)
{
	std::string s;
	for(auto& [k, d] : m)
		s += "(" + std::to_string(k.first) + "," + std::to_string(k.second) + (d.host ? " host" : "") + (d.ready ? " ready" : "") + ")";
	return s;
}

std::string describe(Sig const& s)
{
	if(s.has_configuring())
	{
		auto& x = s.configuring();
		switch(x.t_case())
		{
		case Sig::Configuring::kUpdateDeck: return "deck of " + std::to_string(ser(x.update_deck()).size()) + " bytes";
		case Sig::Configuring::kReadyStatus: return x.ready_status() ? "ready" : "not ready";
		case Sig::Configuring::kStartDueling: return "start";
		default: return "empty configuring signal";
		}
	}
	if(s.has_deciding_first_turn())
	{
		auto& x = s.deciding_first_turn();
		if(x.t_case() == Sig::DecidingFirstTurn::kTeamGoingFirst)
			return "team " + std::to_string(x.team_going_first()) + " goes first";
		return "empty deciding signal";
	}
	return "empty signal";
}

View::D duelist(pr::Duelist const& d) { return {ser(d.user()), d.is_host(), d.is_ready()}; }

enum Stim
{
	ST_ENTER,
	ST_SIGNAL
};

class RoomWorld
{
public:
	explicit RoomWorld(Ctx& c) : c(c) {}

	void run()
	{
		auto& ch = c.ch;
		twin_on_ = c.prop == "C15";
		nclients_ = 1 + ch.n(MAX_CLIENTS);
		if(ch.p(1, 2))
			nclients_ = std::min(nclients_, 5u);
		// A crowd of spectators, more than any narrow counter holds.
		if(crowd_ = ch.p(1, 96) && (on("C12") || on("C11")); crowd_)
		{
			nclients_ = ch.p(1, 2) ? 130 + ch.n(20) : 258 + ch.n(20);
			c.op("crowd");
		}
		for(uint32_t i = 0; i < nclients_; i++)
		{
			User u;
			std::string id{static_cast<char>(i), static_cast<char>(i >> 8)};
			for(uint32_t k = ch.n(4); k-- > 0;)
				id += static_cast<char>(ch.n(256));
			u.set_id(id);
			if(ch.p(2, 3))
				u.set_name("p" + std::to_string(ch.n(3)));
			users_.push_back(u);
		}
		options();
		auto pattern = ch.p(2, 3) ? ch.u32() : 0u;
		if(pattern)
			c.fault("dirty_memory");
		bool const wide = ch.p(1, 3);
		script_.seed = ch.u32();
		rng_script(wide);
		faults_ = ch.p(3, 4);
		chaos_ = ch.n(3);
		accept_ = 1 + ch.n(4);
		uplink_.resize(nclients_);
		a_ = make(wide, pattern);
		if(twin_on_)
			b_ = make(wide, ch.u32());
		view_.resize(nclients_);
		in_.assign(nclients_, false);
		// The room opens: the host enters.
		opening_ = true;
		entered(0);
		opening_ = false;
		auto const steps = 15 + ch.n(ch.p(1, 8) ? (c.thorough ? 600 : 250) : 90);
		while(!c.failed() && !stop_ && c.step < steps && ch.next_step())
		{
			c.step++;
			c.tick(2000);
			step();
			mark();
		}
		if(!c.failed() && !stop_)
			closing();
		if(rigged_)
			if(auto n = std::min(a_->script.drawn.size(), script_.fixed.size()))
				c.fault(rigged_, n);
	}

private:
	Ctx& c;
	bool twin_on_ = false, stop_ = false, opening_ = false;
	uint32_t nclients_ = 0;
	std::vector<User> users_;
	pr::Options opt_;
	std::string seen_caps_; // max_duelists as the host was told
	uint32_t cap_[2] = {1, 1};
	Script script_;
	bool faults_ = false, crowd_ = false;
	uint32_t chaos_ = 0, accept_ = 1;
	std::vector<std::deque<std::string>> uplink_;
	std::unique_ptr<IRoom> a_, b_;
	std::vector<View> view_;
	std::vector<bool> in_;
	Seat seat_[2][3];
	uint32_t spect_ = 0;
	bool dft_ = false;
	bool result_seen_ = false;
	bool asked_ = false;
	uint32_t entered_ = 0;
	char const* rigged_ = nullptr;
	using Step = std::vector<std::vector<Ev>>;

	std::unique_ptr<IRoom> make(bool wide, uint32_t pattern)
	{
		auto go = [&](auto* t) -> std::unique_ptr<IRoom>
		{
			using R = std::remove_pointer_t<decltype(t)>;
			auto r = std::make_unique<RoomBox<R>>(pattern, users_);
			r->script = script_;
			r->open(opt_);
			return r;
		};
		if(wide)
			return go(static_cast<uint64_t*>(nullptr));
		return go(static_cast<uint32_t*>(nullptr));
	}

	void options()
	{
		auto& ch = c.ch;
		static uint32_t const odd[] = {0, 1, 2, 3, 4, 7, 255, 256, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 257};
		auto n = ch.p(1, 2) ? 2 : ch.n(5);
		for(uint32_t i = 0; i < n; i++)
			opt_.add_max_duelists(ch.p(1, 4) ? odd[ch.n(12)] : 1 + ch.n(3));
		for(int t = 0; t < 2; t++)
		{
			uint32_t v = t < opt_.max_duelists_size() ? opt_.max_duelists(t) : 1;
			cap_[t] = v < 1 ? 1 : v > 3 ? 3 : v;
		}
		switch(ch.n(4))
		{
		case 0: break;
		case 1: opt_.set_banlist_id("2024.4 TCG"); break;
		case 2: opt_.set_banlist_id(std::string("b\0x", 3)); break;
		case 3: opt_.mutable_custom_banlist(); break;
		}
		if(ch.p(1, 3))
		{
			opt_.mutable_deck_limits()->mutable_main()->set_min(ch.n(61));
			opt_.mutable_deck_limits()->mutable_side()->set_max(static_cast<int32_t>(ch.n(20)) - 2);
		}
		auto f = ch.n(c.prop == "C14" ? 8 : 6);
		opt_.set_ftdm(f == 0 ? pr::FTDM_HOST_CHOOSES : f == 1 ? pr::FTDM_COIN : f == 2 ? pr::FTDM_RPS : f == 3 ? pr::FTDM_HOST_CHOOSES : f & 1 ? pr::FTDM_COIN : pr::FTDM_DICE);
	}

	void rng_script(bool wide)
	{
		auto& ch = c.ch;
		uint64_t const top = wide ? ~0ull : 0xFFFFFFFFull;
		switch(ch.n(5))
		{
		case 0: break;
		case 1: // ties, tie after tie
		{
			uint32_t n = 1 + ch.n(c.thorough ? 3000 : 400);
			for(uint32_t i = 0; i < n; i++)
			{
				uint64_t v = mix64(script_.seed * 977 + i) & top;
				uint64_t w = v >= 6000 ? v - 6 * (1 + (v >> 40) % 900) : v + 6;
				script_.fixed.push_back(v);
				script_.fixed.push_back(w);
			}
			rigged_ = "rigged_random_tie_run";
			break;
		}
		case 2: // extreme values
		{
			uint32_t n = 2 + ch.n(12);
			for(uint32_t i = 0; i < n; i++)
			{
				static uint64_t const x[] = {0, 1, 5, 6, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x8000000000000000ull, ~0ull, ~0ull - 1, 0x100000000ull};
				script_.fixed.push_back(x[ch.n(12)] & top);
			}
			rigged_ = "rigged_random_extreme";
			break;
		}
		case 3: // a stuck generator that recovers
		{
			uint32_t n = 2 + 2 * ch.n(60);
			uint64_t v = ch.u64() & top;
			script_.fixed.assign(n, v);
			rigged_ = "rigged_random_stuck";
			break;
		}
		case 4: // one short run of ties
			for(uint32_t i = 0, n = ch.n(4); i < n; i++)
			{
				uint64_t v = ch.u64() & top;
				script_.fixed.push_back(v);
				script_.fixed.push_back(v);
			}
			break;
		}
	}

	bool on(char const* p) const { return c.prop == p; }

	std::optional<std::pair<uint32_t, uint32_t>> seat_of(uint32_t i) const
	{
		for(uint32_t t = 0; t < 2; t++)
			for(uint32_t p = 0; p < 3; p++)
				if(seat_[t][p].who == static_cast<int>(i))
					return std::make_pair(t, p);
		return std::nullopt;
	}
	bool can_start() const
	{
		for(auto& t : seat_)
		{
			bool any = false;
			for(auto& s : t)
			{
				if(s.who < 0)
					continue;
				any = true;
				if(!s.deck || !s.ready)
					return false;
			}
			if(!any)
				return false;
		}
		return true;
	}

	void mark()
	{
		uint64_t h = dft_;
		for(auto& t : seat_)
			for(auto& s : t)
				h = mix64(h * 31 + (s.who < 0 ? 0 : 1 + s.deck * 2 + s.ready));
		h = mix64(h + spect_ * 7 + cap_[0] * 100 + cap_[1] * 1000 + static_cast<uint64_t>(opt_.ftdm()) * 10000);
		c.state(h);
	}

	// ---- stimuli ----
	void step()
	{
		auto& ch = c.ch;
		auto r = ch.n(20);
		if(crowd_ && r < 8 && entered_ < nclients_ && !dft_)
		{
			// They come in bursts.
			for(uint32_t k = 0, n = 1 + ch.n(120); k < nclients_ && n > 0 && !c.failed(); k++)
				if(!in_[k])
				{
					entered(k);
					n--;
				}
			return;
		}
		if(r < 3 && entered_ < nclients_ && !dft_)
		{
			// Any client that is not in yet.
			auto k = ch.n(nclients_ - entered_);
			for(uint32_t i = 0; i < nclients_; i++)
				if(!in_[i] && k-- == 0)
				{
					entered(i);
					return;
				}
			return;
		}
		if(r < 2 && entered_ < nclients_ && dft_)
		{
			late(ch.n(nclients_ - entered_));
			return;
		}
		if(r < 11 || !any_queued())
		{
			compose();
			if(ch.p(1, 2))
				return;
		}
		transmit();
	}
	// Too late to enter: the room takes nobody in once it is being decided who
	// goes first.
	void late(uint32_t k)
	{
		uint32_t i = 0;
		while(in_[i] || k-- > 0)
			i++;
		c.note("client %u comes too late", i);
		c.op("late");
		c.fault("entry_for_other_phase");
		auto const drawn = a_->script.drawn.size();
		a_->enter(i);
		auto raw = a_->take();
		hash_step(raw);
		auto ev = decode(raw);
		if(on("C15") && (!silent(ev) || a_->script.drawn.size() != drawn))
			c.fail("effect", "events follow the late entry of " + cn(i));
		if(on("C12"))
			views(ev, -1);
	}
	bool any_queued() const
	{
		for(auto& q : uplink_)
			if(!q.empty())
				return true;
		return false;
	}
	void compose()
	{
		auto& ch = c.ch;
		auto i = ch.n(nclients_);
		Sig s;
		bool const odd = chaos_ && ch.n(8) < chaos_ * 2;
		if(!odd && !dft_)
		{
			// Someone who wants the duel to start.
			auto st = seat_of(i);
			if(!st)
			{
				i = 0;
				st = seat_of(0);
			}
			if(!st)
				return;
			auto& se = seat_[st->first][st->second];
			if(i == 0 && (can_start() || ch.p(1, 6)))
				s.mutable_configuring()->set_start_dueling(true);
			else if(!se.deck || ch.p(1, 8))
				deck(s);
			else
				s.mutable_configuring()->set_ready_status(ch.p(1, 8) ? se.ready : !se.ready || !ch.p(3, 4));
		}
		else
			switch(ch.n(7))
			{
			case 0: deck(s); break;
			case 1: s.mutable_configuring()->set_ready_status(ch.p(2, 3)); break;
			case 2: s.mutable_configuring()->set_start_dueling(true); break;
			case 3:
				if(ch.p(1, 2))
					i = 0;
				s.mutable_deciding_first_turn()->set_team_going_first(ch.n(2));
				break;
			case 4:
			{
				static uint32_t const x[] = {2, 3, 0xFFFFFFFF, 0x80000000, 256, 65536, 255};
				if(ch.p(1, 2))
					i = 0;
				s.mutable_deciding_first_turn()->set_team_going_first(x[ch.n(7)]);
				c.fault("out_of_range_signal");
				break;
			}
			case 5:
				if(ch.p(1, 2))
					s.mutable_configuring();
				else
					s.mutable_deciding_first_turn();
				c.fault("empty_signal");
				break;
			case 6: c.fault("empty_signal"); break;
			}
		YGOpen::Proto::ClientMsg m;
		*m.mutable_room_signal() = s;
		uplink_[i].push_back(ser(m));
		c.note("client %u composes %s", i, describe(s).c_str());
	}
	void deck(Sig& s)
	{
		auto& ch = c.ch;
		auto& d = *s.mutable_configuring()->mutable_update_deck();
		// From nothing to far beyond any legal size.
		for(uint32_t k = ch.p(1, 12) ? 40 + ch.n(ch.p(1, 8) ? 400 : 40) : ch.n(4); k-- > 0;)
			d.mutable_data()->add_main_cards(ch.n(3) ? ch.n(100) : ch.u32());
		if(ch.p(1, 3))
			d.mutable_data()->add_extra_cards(ch.u32());
		if(ch.p(1, 4))
			d.mutable_data()->add_side_cards(ch.u32());
		if(ch.p(1, 4))
			d.set_title("t" + std::to_string(ch.n(9)));
		if(ch.p(1, 4))
			d.set_banlist_id("elsewhere");
		if(ch.p(1, 6))
			d.add_useful(ch.u32());
	}

	// The network: each uplink keeps its signals until one is picked, and may
	// drop, duplicate, reorder or damage them.
	void transmit()
	{
		auto& ch = c.ch;
		std::vector<uint32_t> who;
		for(uint32_t i = 0; i < nclients_; i++)
			if(!uplink_[i].empty())
				who.push_back(i);
		if(who.empty())
			return;
		auto i = who[ch.n(static_cast<uint32_t>(who.size()))];
		auto& q = uplink_[i];
		size_t at = 0;
		std::string bytes;
		auto const f = faults_ ? ch.n(24) : 0u;
		if(f == 1 && q.size() > 1)
		{
			at = ch.n(static_cast<uint32_t>(q.size()));
			if(at)
				c.fault("signal_reordered");
		}
		bytes = q[at];
		if(f == 2)
			c.fault("signal_duplicated");
		else
			q.erase(q.begin() + static_cast<long>(at));
		if(f == 3)
		{
			c.fault("signal_lost");
			c.note("a signal of client %u is lost", i);
			return;
		}
		if(f == 4 && !bytes.empty())
		{
			auto k = ch.n(static_cast<uint32_t>(bytes.size()));
			bytes[k] = static_cast<char>(bytes[k] ^ (1u << ch.n(8)));
			c.fault("signal_damaged");
		}
		else if(f == 5 && !bytes.empty())
		{
			bytes.resize(ch.n(static_cast<uint32_t>(bytes.size())));
			c.fault("signal_truncated");
		}
		if(q.size() > 3)
			c.fault("slow_uplink");
		YGOpen::Proto::ClientMsg m;
		if(!m.ParseFromString(bytes) || !m.has_room_signal())
		{
			c.fault("signal_undecodable");
			return;
		}
		signal(i, m.room_signal());
	}

	void draw_verdict(ValPlan& p)
	{
		auto& ch = c.ch;
		p.calls.clear();
		p.ok = ch.n(6) >= accept_;
		p.scribble = p.ok && ch.p(1, 4);
		p.err.Clear();
		if(ch.p(3, 4))
			p.err.mutable_excessive_copies()->add_cards(ch.n(1000));
		if(ch.p(1, 4))
		{
			auto& o = *p.err.mutable_out_of_limit();
			o.set_got(ch.n(100));
			o.set_limit_type(DeckError::OutOfLimit::LT_OVER);
		}
		if(p.scribble)
			c.fault("validator_remarks_on_accept");
		if(!p.ok)
			c.fault("deck_refused");
	}

	Step decode(std::vector<std::vector<std::string>> const& raw)
	{
		Step r(nclients_);
		for(uint32_t i = 0; i < nclients_; i++)
			for(auto& b : raw[i])
			{
				YGOpen::Proto::ServerMsg m;
				m.ParseFromString(b);
				r[i].push_back(std::move(*m.mutable_room_event()));
			}
		return r;
	}

	void hash_step(std::vector<std::vector<std::string>> const& raw)
	{
		for(uint32_t i = 0; i < nclients_; i++)
			for(auto& b : raw[i])
			{
				c.h(i);
				c.hs(b);
			}
	}

	// ---- classification of received events ----
	enum Kind
	{
		E_SNAPSHOT,
		E_VERDICT,
		E_ASK,
		E_ENTERS,
		E_SPECT,
		E_UPDATE,
		E_DFT,
		E_RESULT,
		E_OTHER
	};
	static Kind kind(Ev const& e)
	{
		switch(e.t_case())
		{
		case Ev::kConfiguring:
			switch(e.configuring().t_case())
			{
			case Ev::Configuring::kEnteringState: return E_SNAPSHOT;
			case Ev::Configuring::kDuelistEnters: return E_ENTERS;
			case Ev::Configuring::kUpdateDuelist: return E_UPDATE;
			case Ev::Configuring::kDeckStatus: return E_VERDICT;
			default: return E_OTHER;
			}
		case Ev::kDecidingFirstTurn:
			switch(e.deciding_first_turn().t_case())
			{
			case Ev::DecidingFirstTurn::kEnteringState: return E_DFT;
			case Ev::DecidingFirstTurn::kDecideFirstTurn: return E_ASK;
			case Ev::DecidingFirstTurn::kResult: return E_RESULT;
			default: return E_OTHER;
			}
		case Ev::kSpectatorCount: return E_SPECT;
		default: return E_OTHER;
		}
	}
	static char const* kname(Kind k)
	{
		static char const* const n[] = {"snapshot", "deck verdict", "ask", "duelist enters", "spectator count", "duelist update", "decision phase", "result", "other event"};
		return n[k];
	}
	static Ev const* first(std::vector<Ev> const& l, Kind k)
	{
		for(auto& e : l)
			if(kind(e) == k)
				return &e;
		return nullptr;
	}
	static uint32_t count(std::vector<Ev> const& l, Kind k)
	{
		uint32_t n = 0;
		for(auto& e : l)
			n += kind(e) == k;
		return n;
	}
	Ev const* anyone(Step const& s, Kind k) const
	{
		for(auto& l : s)
			if(auto* e = first(l, k))
				return e;
		return nullptr;
	}
	static bool silent(Step const& s)
	{
		for(auto& l : s)
			if(!l.empty())
				return false;
		return true;
	}
	std::string cn(uint32_t i) const { return "client " + std::to_string(i); }

	// ---- entering ----
	void entered(uint32_t i)
	{
		c.note("client %u enters", i);
		c.op("enter");
		if(!opening_)
		{
			a_->enter(i);
			if(b_)
				b_->enter(i);
		}
		in_[i] = true;
		entered_++;
		auto raw = a_->take();
		hash_step(raw);
		auto ev = decode(raw);
		// Where it should sit.
		int t = -1, p = -1;
		uint32_t n[2] = {0, 0};
		int free[2] = {-1, -1};
		for(int k = 0; k < 2; k++)
			for(uint32_t q = 0; q < cap_[k]; q++)
			{
				if(seat_[k][q].who >= 0)
					n[k]++;
				else if(free[k] < 0)
					free[k] = static_cast<int>(q);
			}
		if(free[0] >= 0 && (n[0] <= n[1] || free[1] < 0))
			t = 0, p = free[0];
		else if(free[1] >= 0)
			t = 1, p = free[1];
		// Where it is said to sit.
		Ev const* e = first(ev[i], E_ENTERS);
		Ev const* sp = first(ev[i], E_SPECT);
		if(!e && !sp)
		{
			e = anyone(ev, E_ENTERS);
			sp = anyone(ev, E_SPECT);
		}
		if(on("C11"))
		{
			if(e)
			{
				auto& d = e->configuring().duelist_enters();
				if(static_cast<int>(d.team()) != t || static_cast<int>(d.pos()) != p)
					c.fail("seat", cn(i) + " is seated at (" + std::to_string(d.team()) + "," + std::to_string(d.pos()) + "), expected " + (t < 0 ? "a spectator" : "(" + std::to_string(t) + "," + std::to_string(p) + ")"));
			}
			else if(sp && t >= 0)
				c.fail("seat", cn(i) + " becomes a spectator while (" + std::to_string(t) + "," + std::to_string(p) + ") is free");
			if(auto* s = first(ev[i], E_SNAPSHOT))
			{
				auto& o = s->configuring().entering_state().options();
				if(o.max_duelists_size() != 2 || o.max_duelists(0) != cap_[0] || o.max_duelists(1) != cap_[1])
					c.fail("clamp", "team sizes are announced as " + caps(o));
				// Nobody else may have moved.
				for(auto& d : s->configuring().entering_state().duelists())
					if(d.team() < 2 && d.pos() < 3)
					{
						auto w = seat_[d.team()][d.pos()].who;
						if(w < 0 || ser(d.user()) != ser(users_[static_cast<size_t>(w)]))
							c.fail("seat", "someone else is shown at (" + std::to_string(d.team()) + "," + std::to_string(d.pos()) + ")");
					}
			}
			if(c.failed())
				return;
		}
		// Follow what was announced.
		if(e)
		{
			auto& d = e->configuring().duelist_enters();
			if(d.team() < 2 && d.pos() < 3 && seat_[d.team()][d.pos()].who < 0)
				t = static_cast<int>(d.team()), p = static_cast<int>(d.pos());
		}
		else if(sp)
			t = -1;
		auto before = View{};
		for(uint32_t k = 0; k < 2; k++)
			for(uint32_t q = 0; q < 3; q++)
				if(seat_[k][q].who >= 0)
					before.seats[{k, q}] = truth(k, q);
		before.spect = spect_;
		if(t >= 0)
		{
			seat_[t][p] = Seat{};
			seat_[t][p].who = static_cast<int>(i);
			c.probe("seated");
		}
		else
		{
			spect_++;
			c.probe("spectating");
		}
		if(on("C12"))
		{
			auto* s = first(ev[i], E_SNAPSHOT);
			if(!s || count(ev[i], E_SNAPSHOT) != 1 || kind(ev[i][0]) != E_SNAPSHOT)
			{
				c.fail("snapshot", cn(i) + " is not first sent one picture of the room on entering");
				return;
			}
			auto& es = s->configuring().entering_state();
			pr::Options want = opt_;
			if(seen_caps_.empty())
				seen_caps_ = caps(es.options());
			if(caps(es.options()) != seen_caps_)
				c.fail("snapshot", cn(i) + " is told team sizes " + caps(es.options()) + ", the host " + seen_caps_);
			*want.mutable_max_duelists() = es.options().max_duelists();
			if(ser(want) != ser(es.options()))
				c.fail("snapshot", cn(i) + " is told other options than the room's");
			std::map<std::pair<uint32_t, uint32_t>, View::D> got;
			for(auto& d : es.duelists())
				if(!got.emplace(std::make_pair(d.team(), d.pos()), duelist(d)).second)
					c.fail("snapshot", "two duelists on one seat are shown to " + cn(i));
			if(got != before.seats)
				c.fail("snapshot", cn(i) + " is shown " + show(got) + ", present are " + show(before.seats));
			if(es.spectator_count() != before.spect)
				c.fail("snapshot", cn(i) + " is shown " + std::to_string(es.spectator_count()) + " spectators of " + std::to_string(before.spect));
			if(c.failed())
				return;
			for(uint32_t k = 0; k < nclients_; k++)
				if(in_[k] && count(ev[k], t >= 0 ? E_ENTERS : E_SPECT) != 1)
				{
					c.fail("announce", "the arrival of " + cn(i) + " was announced " + std::to_string(count(ev[k], t >= 0 ? E_ENTERS : E_SPECT)) + " times to " + cn(k));
					return;
				}
			views(ev, i);
		}
		else if(on("C13"))
			gate(ev, i, nullptr, false);
		if(b_ && b_->take() != raw)
			c.fail("course", "the arrival of " + cn(i) + " is answered differently than without the earlier idle signals");
	}
	static std::string caps(pr::Options const& o)
	{
		std::string s;
		for(auto v : o.max_duelists())
			s += std::to_string(v) + " ";
		return s.empty() ? "none" : s;
	}
	View::D truth(uint32_t t, uint32_t p) const
	{
		auto& s = seat_[t][p];
		return {ser(users_[static_cast<size_t>(s.who)]), s.who == 0, s.ready};
	}

	// C12: every client's events lead to the same, true picture.
	void views(Step const& ev, int entrant)
	{
		std::vector<std::string> common;
		int of = -1;
		for(uint32_t i = 0; i < nclients_; i++)
		{
			if(!in_[i])
			{
				if(!ev[i].empty())
				{
					c.fail("stray", "an event was sent to " + cn(i) + ", who never entered");
					return;
				}
				continue;
			}
			auto& v = view_[i];
			std::vector<std::string> shared;
			uint32_t seen[E_OTHER + 1] = {};
			for(auto& e : ev[i])
			{
				auto k = kind(e);
				if(++seen[k] > 1)
				{
					c.fail("repeat", std::string(kname(k)) + " sent twice at once to " + cn(i));
					return;
				}
				bool news = true;
				switch(k)
				{
				case E_SNAPSHOT:
				{
					if(static_cast<int>(i) != entrant)
					{
						c.fail("stray", "a picture of the room was sent to " + cn(i) + " without entering");
						return;
					}
					auto& es = e.configuring().entering_state();
					v = View{};
					v.entered = true;
					for(auto& d : es.duelists())
						v.seats[{d.team(), d.pos()}] = duelist(d);
					v.spect = es.spectator_count();
					continue;
				}
				case E_VERDICT:
				case E_ASK: continue;
				case E_ENTERS:
				{
					auto& d = e.configuring().duelist_enters();
					news = v.seats.emplace(std::make_pair(d.team(), d.pos()), duelist(d)).second;
					break;
				}
				case E_UPDATE:
				{
					auto& d = e.configuring().update_duelist();
					auto it = v.seats.find({d.team(), d.pos()});
					news = it != v.seats.end() && !(it->second == duelist(d));
					if(news)
						it->second = duelist(d);
					break;
				}
				case E_SPECT:
					news = v.spect != e.spectator_count();
					v.spect = e.spectator_count();
					break;
				case E_DFT:
					news = !v.dft;
					v.dft = true;
					break;
				case E_RESULT:
					news = v.dft;
					break;
				case E_OTHER:
					c.fail("stray", "an empty event was sent to " + cn(i));
					return;
				}
				if(!news)
				{
					c.fail("repeat", std::string(kname(k)) + " sent to " + cn(i) + " without any change");
					return;
				}
				shared.push_back(ser(e));
			}
			if(of < 0)
			{
				of = static_cast<int>(i);
				common = shared;
			}
			else if(shared != common)
			{
				c.fail("disagree", cn(i) + " and " + cn(static_cast<uint32_t>(of)) + " are told different things");
				return;
			}
			// Against the truth.
			std::map<std::pair<uint32_t, uint32_t>, View::D> want;
			for(uint32_t t = 0; t < 2; t++)
				for(uint32_t p = 0; p < 3; p++)
					if(seat_[t][p].who >= 0)
						want[{t, p}] = truth(t, p);
			if(want != v.seats)
				c.fail("view", cn(i) + " sees " + show(v.seats) + ", the room is " + show(want));
			else if(v.spect != spect_)
				c.fail("view", cn(i) + " counts " + std::to_string(v.spect) + " spectators of " + std::to_string(spect_));
			else if(v.dft != dft_)
				c.fail("view", cn(i) + " is wrong about the phase");
			if(c.failed())
				return;
		}
	}

	// ---- signals ----
	void signal(uint32_t i, Sig const& s)
	{
		c.note("client %u signals %s", i, describe(s).c_str());
		c.op("signal");
		auto const st = seat_of(i);
		Seat* se = st ? &seat_[st->first][st->second] : nullptr;
		bool const conf = s.t_case() == Sig::kConfiguring, dec = s.t_case() == Sig::kDecidingFirstTurn;
		auto const cc = conf ? s.configuring().t_case() : Sig::Configuring::T_NOT_SET;
		auto const dc = dec ? s.deciding_first_turn().t_case() : Sig::DecidingFirstTurn::T_NOT_SET;
		// Signals that must be without effect, whatever the room thinks of decks.
		bool idle = true;
		if(!dft_ && conf)
			switch(cc)
			{
			case Sig::Configuring::kUpdateDeck: idle = !se; break;
			case Sig::Configuring::kReadyStatus: idle = !se || s.configuring().ready_status() == se->ready; break;
			case Sig::Configuring::kStartDueling: idle = i != 0; break;
			default: break;
			}
		else if(dft_ && dec && dc == Sig::DecidingFirstTurn::kTeamGoingFirst)
			idle = opt_.ftdm() != pr::FTDM_HOST_CHOOSES || i != 0 || s.deciding_first_turn().team_going_first() > 1;
		if(idle)
			c.fault(!in_[i] ? "signal_from_stranger" : !se ? "signal_from_spectator" : dft_ != dec ? "signal_for_other_phase" : "signal_without_entitlement_or_effect");
		draw_verdict(a_->plan);
		auto const drawn = a_->script.drawn.size();
		a_->signal(i, s);
		auto raw = a_->take();
		hash_step(raw);
		auto ev = decode(raw);
		if(b_)
		{
			if(idle)
			{
				if(!silent(ev))
					c.fail("effect", "events follow " + describe(s) + " from " + cn(i) + (in_[i] ? se ? "" : " (spectator)" : " (never entered)"));
				else if(a_->script.drawn.size() != drawn)
					c.fail("effect", "random numbers were drawn because of " + describe(s) + " from " + cn(i));
				else if(b_->script.drawn != a_->script.drawn)
					c.fail("course", "the random numbers drawn differ from a room without idle signals");
			}
			else
			{
				b_->plan = a_->plan;
				b_->plan.calls.clear();
				b_->signal(i, s);
				auto r2 = b_->take();
				if(r2 != raw)
					c.fail("course", describe(s) + " from " + cn(i) + " is answered differently than without the earlier idle signals");
			}
			if(c.failed())
				return;
		}
		// What happened, as far as anyone was told.
		bool started = false;
		if(!dft_)
			started = anyone(ev, E_DFT) || anyone(ev, E_RESULT) || anyone(ev, E_ASK);
		bool const may_start = !dft_ && cc == Sig::Configuring::kStartDueling && i == 0 && can_start();
		if(on("C13"))
		{
			if(!dft_)
				gate(ev, i, &s, may_start);
			if(c.failed())
				return;
		}
		if(!dft_ && cc == Sig::Configuring::kUpdateDeck && se)
		{
			se->deck = a_->plan.ok;
			c.op("deck");
		}
		if(!dft_)
		{
			// Ready marks as announced.
			Ev const* up = nullptr;
			for(auto& l : ev)
				for(auto& e : l)
					if(!up && kind(e) == E_UPDATE)
						up = &e;
			if(up)
			{
				auto& d = up->configuring().update_duelist();
				auto const own = se && cc == Sig::Configuring::kReadyStatus;
				if(own)
				{
					se->ready = on("C12") ? s.configuring().ready_status() : d.is_ready();
					c.op("ready_change");
				}
			}
			else if(on("C13") && se && cc == Sig::Configuring::kReadyStatus && (se->deck || !s.configuring().ready_status()))
				se->ready = s.configuring().ready_status();
		}
		if(may_start && !started && opt_.ftdm() == pr::FTDM_RPS)
			stop_ = true; // nothing would tell
		if(started)
		{
			c.op("start");
			dft_ = true;
		}
		if(on("C12"))
			views(ev, -1);
		if(on("C12") && !c.failed())
			private_events(ev, i, se && cc == Sig::Configuring::kUpdateDeck && !started);
		if(on("C14") && !c.failed())
			decision(ev, i, s, started, drawn, idle);
		if(started || (dft_ && anyone(ev, E_RESULT)))
			result_seen_ = true;
	}

	// C12: verdicts reach only their client.
	void private_events(Step const& ev, uint32_t from, bool deck_step)
	{
		for(uint32_t k = 0; k < nclients_; k++)
			if(count(ev[k], E_VERDICT) && (k != from || !deck_step))
				c.fail("private", cn(k) + " is told a deck verdict that does not concern it");
	}

	// C13: start gate, ready rule and verdicts.
	void gate(Step const& ev, uint32_t i, Sig const* s, bool may_start)
	{
		bool const started = anyone(ev, E_DFT) || anyone(ev, E_RESULT) || anyone(ev, E_ASK);
		auto const st = seat_of(i);
		if(started && !may_start)
			c.fail("gate", std::string("the room starts although ") + why_not(i, s));
		else if(may_start && !started && opt_.ftdm() != pr::FTDM_RPS)
			c.fail("gate", "the room does not start although everyone is ready");
		if(!s || c.failed())
			return;
		auto const cc = s->t_case() == Sig::kConfiguring ? s->configuring().t_case() : Sig::Configuring::T_NOT_SET;
		for(auto& l : ev)
			for(auto& e : l)
				if(kind(e) == E_UPDATE)
				{
					auto& d = e.configuring().update_duelist();
					if(d.team() < 2 && d.pos() < 3 && d.is_ready() && !seat_[d.team()][d.pos()].deck)
					{
						c.fail("ready", "a duelist without an accepted deck is marked ready");
						return;
					}
				}
		if(cc == Sig::Configuring::kUpdateDeck && st)
		{
			auto& p = a_->plan;
			if(p.calls.empty())
				c.fail("verdict", "a deck was not judged");
			for(auto& call : p.calls)
			{
				if(call.banlist != opt_.banlist_id())
					c.fail("verdict", "a deck was judged with another banlist");
				if(call.deck != ser(s->configuring().update_deck()))
					c.fail("verdict", "another deck than the submitted one was judged");
			}
			if(c.failed())
				return;
			if(count(ev[i], E_VERDICT) != 1)
			{
				c.fail("verdict", cn(i) + " is told " + std::to_string(count(ev[i], E_VERDICT)) + " verdicts on its deck");
				return;
			}
			auto& ds = first(ev[i], E_VERDICT)->configuring().deck_status();
			if(p.ok && ds.has_deck_error())
				c.fail("verdict", "an accepted deck is reported with reasons for refusal");
			else if(!p.ok && (!ds.has_deck_error() || ser(ds.deck_error()) != ser(p.err)))
				c.fail("verdict", "a refused deck is not reported with the validator's reasons");
		}
	}
	std::string why_not(uint32_t i, Sig const* s) const
	{
		if(!s || s->t_case() != Sig::kConfiguring || s->configuring().t_case() != Sig::Configuring::kStartDueling)
			return "nobody asked to start";
		if(i != 0)
			return "not the host asked to start";
		return "not every duelist is ready with an accepted deck on two manned teams";
	}

	// C14: the decision.
	void decision(Step const& ev, uint32_t from, Sig const& s, bool started, size_t drawn, bool idle)
	{
		using FTDM = pr::FirstTurnDecideMethod;
		auto const m = opt_.ftdm();
		if(!dft_)
			return;
		if(started)
		{
			std::string res;
			for(uint32_t i = 0; i < nclients_; i++)
			{
				if(!in_[i])
					continue;
				if(count(ev[i], E_DFT) != 1 || kind(ev[i][0]) != E_DFT)
				{
					c.fail("told", cn(i) + " is not told once and first that the decision phase started");
					return;
				}
				auto const n = count(ev[i], E_RESULT);
				bool const want = m == FTDM::FTDM_DICE || m == FTDM::FTDM_COIN;
				if(n != (want ? 1u : 0u))
				{
					c.fail("result", cn(i) + " is sent " + std::to_string(n) + " results");
					return;
				}
				if(n)
				{
					auto b = ser(*first(ev[i], E_RESULT));
					if(res.empty())
						res = b;
					if(res != b)
					{
						c.fail("result", cn(i) + " is sent another result");
						return;
					}
				}
			}
			int winner = -1;
			auto const& d = a_->script.drawn;
			if(m == FTDM::FTDM_DICE || m == FTDM::FTDM_COIN)
			{
				auto& r = anyone(ev, E_RESULT)->deciding_first_turn().result();
				winner = static_cast<int>(r.team_going_first());
				if(m == FTDM::FTDM_DICE)
				{
					if(!r.has_dice() || r.dice().results_size() == 0)
					{
						c.fail("dice", "no dice were reported");
						return;
					}
					auto const n = r.dice().results_size();
					c.probe("dice_ties", static_cast<uint64_t>(n) - 1);
					for(int k = 0; k < n; k++)
					{
						auto& x = r.dice().results(k);
						if(x.team0() < 1 || x.team0() > 6 || x.team1() < 1 || x.team1() > 6)
							c.fail("dice", "a die shows " + std::to_string(x.team0()) + "/" + std::to_string(x.team1()));
						else if(k + 1 < n && x.team0() != x.team1())
							c.fail("dice", "dice were rolled again without a tie");
						else if(k + 1 == n && x.team0() == x.team1())
							c.fail("dice", "the last roll is a tie");
						else if(k + 1 == n && winner != (x.team0() > x.team1() ? 0 : 1))
							c.fail("dice", "team " + std::to_string(winner) + " wins " + std::to_string(x.team0()) + " to " + std::to_string(x.team1()));
						else if(d.size() != drawn + 2 * static_cast<size_t>(n))
							c.fail("dice", std::to_string(d.size() - drawn) + " numbers were drawn for " + std::to_string(n) + " pairs of rolls");
						else if(d[drawn + 2 * static_cast<size_t>(k)] % 6 + 1 != x.team0() || d[drawn + 2 * static_cast<size_t>(k) + 1] % 6 + 1 != x.team1())
							c.fail("dice", "roll " + std::to_string(k) + " is not what was drawn");
						if(c.failed())
							return;
					}
				}
				else
				{
					if(r.t_case() != Ev::DecidingFirstTurn::Result::kCoinResult)
						c.fail("coin", "no coin was reported");
					else if(winner < 0 || winner > 1 || static_cast<int>(r.coin_result()) != winner)
						c.fail("coin", "side " + std::to_string(static_cast<int>(r.coin_result())) + " makes team " + std::to_string(winner) + " win");
					else if(d.size() == drawn)
						c.fail("coin", "the coin was not tossed");
					else if(static_cast<int>(d[drawn] % 2) != winner)
						c.fail("coin", "the toss is not what was drawn");
					if(c.failed())
						return;
				}
			}
			// Who is asked.
			int want = -1;
			if(m == FTDM::FTDM_HOST_CHOOSES)
				want = 0;
			else if(winner >= 0)
				for(int p = 2; p >= 0; p--)
					if(seat_[winner][p].who >= 0)
						want = seat_[winner][p].who;
			for(uint32_t i = 0; i < nclients_; i++)
			{
				uint32_t n = 0;
				bool late = false;
				for(size_t k = 0; k < ev[i].size(); k++)
					if(kind(ev[i][k]) == E_ASK)
					{
						n += ev[i][k].deciding_first_turn().decide_first_turn();
						late = k + 1 == ev[i].size();
					}
				if(n != (static_cast<int>(i) == want ? 1u : 0u))
					c.fail("asked", cn(i) + " is asked " + std::to_string(n) + " times who goes first, " + (want < 0 ? "nobody" : cn(static_cast<uint32_t>(want))) + " should be");
				else if(n && !late)
					c.fail("asked", cn(i) + " is asked before it knows the result");
			}
			c.probe(m == FTDM::FTDM_DICE ? "by_dice" : m == FTDM::FTDM_COIN ? "by_coin" : m == FTDM::FTDM_RPS ? "by_rps" : "by_host");
			return;
		}
		if(idle)
		{
			if(anyone(ev, E_RESULT) || anyone(ev, E_ASK) || anyone(ev, E_DFT))
				c.fail("result", "the decision changes because of " + describe(s) + " from " + cn(from));
			return;
		}
		// The host's choice.
		for(uint32_t i = 0; i < nclients_; i++)
		{
			if(!in_[i])
				continue;
			if(count(ev[i], E_RESULT) != 1)
			{
				c.fail("relay", cn(i) + " is sent " + std::to_string(count(ev[i], E_RESULT)) + " results for the host's choice");
				return;
			}
			auto& r = first(ev[i], E_RESULT)->deciding_first_turn().result();
			if(r.team_going_first() != s.deciding_first_turn().team_going_first() || r.t_case() != Ev::DecidingFirstTurn::Result::T_NOT_SET)
			{
				c.fail("relay", cn(i) + " is told another choice than the host's");
				return;
			}
		}
		c.op("host_choice");
	}

	// The later course, once faults stop: everybody cooperates.
	void closing()
	{
		faults_ = false;
		chaos_ = 0;
		if(!dft_)
		{
			// A last look by newcomers.
			for(uint32_t i = 0, n = 0; i < nclients_ && n < 3 && !c.failed(); i++)
				if(!in_[i])
				{
					c.step++;
					entered(i);
					n++;
				}
			for(uint32_t i = 0; i < nclients_ && !c.failed(); i++)
			{
				auto st = seat_of(i);
				if(!st)
					continue;
				auto& se = seat_[st->first][st->second];
				Sig s;
				for(int k = 0; k < 40 && !se.deck && !c.failed(); k++)
				{
					c.step++;
					accept_ = 1;
					s.mutable_configuring()->mutable_update_deck()->set_title("last");
					signal(i, s);
				}
				if(!se.ready && !c.failed())
				{
					c.step++;
					s.mutable_configuring()->set_ready_status(true);
					signal(i, s);
				}
			}
			if(!c.failed() && !stop_)
			{
				Sig s;
				c.step++;
				s.mutable_configuring()->set_start_dueling(true);
				signal(0, s);
			}
		}
		if(dft_ && !c.failed())
		{
			Sig s;
			for(uint32_t t = 0; t < 3 && !c.failed(); t++)
			{
				c.step++;
				s.mutable_deciding_first_turn()->set_team_going_first(t);
				signal(t == 2 ? nclients_ - 1 : 0, s);
			}
		}
		mark();
	}
};

void room_world(Ctx& c)
{
	static auto* const quiet = google::protobuf::SetLogHandler(nullptr);
	(void)quiet;
	RoomWorld w(c);
	w.run();
}
WorldReg const r11("C11", room_world), r12("C12", room_world), r13("C13", room_world), r14("C14", room_world), r15("C15", room_world);

} // namespace

} // namespace sim
