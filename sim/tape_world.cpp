// Recording boards: stepping back and forth, and branching off.
#include "server.hpp"

namespace sim
{

namespace
{

template<typename Traits>
class Tape
{
public:
	struct Ev
	{
		pd::Msg m;
		size_t frame;
		std::shared_ptr<Frm const> f;
	};
	Ctx& c;
	Viewer<Traits> v;
	std::unique_ptr<Viewer<PlainTraits>> live;
	bool const objects;
	std::vector<Ev> evs;     // everything that arrived
	std::vector<Shot> shots; // what was first shown after each event
	size_t cur = 0;

	Tape(Ctx& ctx, bool obj)
		: c(ctx), v(ctx, obj ? CHK_OBJECTS : 0, "recording"), objects(obj)
	{
		shots.push_back(v.shot());
		new_live();
	}

	void new_live()
	{
		live = std::make_unique<Viewer<PlainTraits>>(c, 0, "live");
		l2t_.clear();
		t2l_.clear();
	}

	size_t frontier() const { return shots.size() - 1; }

	bool forward()
	{
		if(cur == evs.size())
			return false;
		auto& ev = evs[cur];
		auto const built = v.reg.built, released = v.reg.released;
		if(cur == frontier())
		{
			auto const next = v.reg.next;
			auto const lnext = live->reg.next;
			v.apply(ev.m, *ev.f);
			if(c.failed())
				return false;
			live->apply(ev.m, *ev.f);
			cur++;
			shots.push_back(v.shot());
			compare_live(ev.f->name, next, lnext);
			c.op("tape_first_show");
			return true;
		}
		yc::parse_event(*v.board, ev.m.event());
		cur++;
		compare("forward", ev.f->name, built, released);
		c.op("tape_forward");
		return true;
	}

	bool back()
	{
		if(cur == 0)
			return false;
		auto& ev = evs[cur - 1];
		auto const built = v.reg.built, released = v.reg.released;
		yc::undo_parse_event(*v.board, ev.m.event());
		cur--;
		compare("back", ev.f->name, built, released);
		c.op("tape_back");
		return true;
	}

	void compare(char const* dir, char const* what, uint64_t built, uint64_t released)
	{
		Shot s = v.shot();
		if(objects)
		{
			for(auto x : s.cards)
				if(x > 0 && !v.reg.live.count(x))
				{
					c.fail("objects", std::string("after stepping ") + dir + " over " + what + " a released object is shown");
					return;
				}
			if(v.reg.built != built || v.reg.released != released)
				c.fail("objects", std::string("stepping ") + dir + " over " + what + " built or released card objects");
			if(!v.reg.bad.empty())
				c.fail("objects", "a card object was " + v.reg.bad);
			return;
		}
		if(!(s == shots[cur]))
			c.fail("scrub", std::string("stepping ") + dir + " over " + what + " to position " + std::to_string(cur) + " of " + std::to_string(evs.size()) + " does not show what was first shown there: " + s.diff(shots[cur]) + " differ");
	}

	// First showing: the same as a plain live viewer shows.
	void compare_live(char const* what, int next, int lnext)
	{
		if(objects)
			return;
		auto const& s = shots.back();
		auto const l = live->shot();
		auto bad = [&](std::string const& w)
		{
			c.fail("live", std::string("after ") + what + " the recording board differs from a live board: " + w);
		};
		if(s.cards.size() != l.cards.size())
			return bad("cards");
		std::vector<std::pair<int, int>> fresh;
		for(size_t i = 0; i < s.cards.size(); i++)
		{
			int const a = s.cards[i], b = l.cards[i];
			if(a <= 0 || b <= 0)
			{
				if(a != b)
					return bad("cards");
				continue;
			}
			auto it = l2t_.find(b);
			if(it == l2t_.end())
			{
				if(b < lnext)
					continue;
				if(a < next)
					return bad("a new card is shown with an object that was used before");
				fresh.emplace_back(b, a);
			}
			else if(it->second != a)
				return bad("a card changed its object");
		}
		for(auto& [b, a] : fresh)
		{
			if(t2l_.count(a))
				return bad("two cards share an object");
			l2t_[b] = a;
			t2l_[a] = b;
		}
		Shot x = l, y = s;
		x.cards.clear();
		y.cards.clear();
		if(!(x == y))
			bad(x.diff(y));
	}

	// Correspondence after a rewind: same places, same cards.
	void rebuild_live()
	{
		new_live();
		for(size_t i = 0; i < cur; i++)
			live->apply(evs[i].m, *evs[i].f);
		auto const l = live->shot();
		auto const& s = shots[cur];
		for(size_t i = 0; i < std::min(s.cards.size(), l.cards.size()); i++)
			if(s.cards[i] > 0 && l.cards[i] > 0)
			{
				l2t_[l.cards[i]] = s.cards[i];
				t2l_[s.cards[i]] = l.cards[i];
			}
	}

	void goto_pos(size_t to)
	{
		while(cur > to && !c.failed())
			back();
		while(cur < to && !c.failed())
			if(!forward())
				break;
	}

	void truncate()
	{
		evs.resize(cur);
		shots.resize(cur + 1);
	}

private:
	std::unordered_map<int, int> l2t_, t2l_;
};

template<typename Traits>
class TapeWorld
{
public:
	TapeWorld(Ctx& c, bool objects) : c(c), e(c), tape(c, objects) {}

	void run()
	{
		configure(c, e, c.prop == "C18" ? "C18" : "C06");
		e.cfg.queries = false;
		e.cfg.asks = false;
		e.cfg.finish = false;
		auto steps = choose_steps(c, e);
		steps = std::min(steps, c.thorough ? 700u : 260u);
		mode_ = static_cast<int>(c.ch.n(3));
		srv_ = std::make_unique<Server>(c, 0, mode_);
		e.start();
		// Now and then a duel that had been recorded for long.
		uint32_t const old = c.ch.p(1, 48) ? 100 + c.ch.n(c.thorough ? 6000 : 1500) : 0;
		if(old)
		{
			c.op("long_recording");
			steps = std::min(steps, 60u);
			auto const was = e.cfg.w;
			for(int op : {OP_LP, OP_TURN, OP_PHASE, OP_CHAIN, OP_CHAIN_POP, OP_DISABLED, OP_TURN_BURST})
				if(c.ch.p(1, 2))
					e.cfg.w[static_cast<size_t>(op)] += 30;
			arrive(old);
			e.cfg.w = was;
			tape.goto_pos(tape.evs.size());
			if(c.failed())
				return;
		}
		// Rarely, more cards came and went than two bytes can count.
		if(e.cfg.native && c.prop != "C18" && c.ch.p(1, 160))
		{
			c.op("marathon_recording");
			steps = std::min(steps, 40u);
			for(auto n = 100 + c.ch.n(60); n != 0; n--)
			{
				e.churn();
				take();
			}
			tape.goto_pos(tape.evs.size());
			if(c.failed())
				return;
		}
		while(c.step < steps && c.ch.next_step())
		{
			c.step++;
			c.tick(500);
			action();
			if(c.failed())
				return;
		}
		// To the start, to the end, back to the start.
		c.step++;
		tape.goto_pos(0);
		if(!c.failed())
			tape.goto_pos(tape.evs.size());
		if(!c.failed() && tape.cur != tape.evs.size())
			c.fail("liveness", "cannot step to the end");
		if(!c.failed() && c.prop != "C18")
		{
			tape.goto_pos(0);
			if(!c.failed())
				tape.goto_pos(tape.evs.size());
		}
		if(!c.failed())
			tape.v.teardown();
	}

private:
	Ctx& c;
	Engine e;
	Tape<Traits> tape;
	std::unique_ptr<Server> srv_;
	int mode_ = 0;
	std::vector<std::shared_ptr<Frm const>> frames_;

	void take()
	{
		for(auto& f : e.out)
		{
			auto idx = frames_.size();
			frames_.push_back(std::make_shared<Frm const>(std::move(f)));
			auto r = srv_->process(frames_.back());
			if(!r.has)
				continue;
			c.hs(r.msg);
			pd::Msg m;
			if(!m.ParseFromString(r.msg) || m.t_case() != pd::Msg::kEvent)
				continue;
			typename Tape<Traits>::Ev ev;
			ev.m = std::move(m);
			ev.frame = idx;
			ev.f = frames_.back();
			tape.evs.push_back(std::move(ev));
		}
		e.out.clear();
	}

	void arrive(uint32_t n)
	{
		for(uint32_t i = 0; i < n; i++)
		{
			e.step();
			take();
		}
		c.state(mix64(e.v.shape() ^ mix64(tape.cur * 64 + std::min<size_t>(63, tape.evs.size() - tape.cur))));
	}

	void action()
	{
		auto a = c.ch.n(20);
		if(a < 6)
		{
			bool const behind = tape.cur != tape.evs.size();
			if(behind)
				c.fault("arrival_while_behind");
			arrive(1 + c.ch.n(4));
		}
		else if(a < 10)
		{
			auto n = 1 + c.ch.n(8);
			while(n-- && !c.failed() && tape.forward()) {}
		}
		else if(a < 13)
		{
			auto n = 1 + c.ch.n(c.ch.p(1, 3) ? 60 : 6);
			while(n-- && !c.failed() && tape.back()) {}
			c.fault("rewind");
		}
		else if(a == 13)
		{
			tape.goto_pos(0);
			c.fault("rewind_to_start");
		}
		else if(a < 16)
			tape.goto_pos(tape.evs.size());
		else if(a == 16)
		{
			// Back and forth around one spot.
			auto n = 1 + c.ch.n(4);
			auto k = 1 + c.ch.n(5);
			for(uint32_t i = 0; i < n && !c.failed(); i++)
			{
				auto at = tape.cur;
				tape.goto_pos(at > k ? at - k : 0);
				if(!c.failed())
					tape.goto_pos(at);
			}
		}
		else if(a == 17)
			tape.goto_pos(c.ch.n(static_cast<uint32_t>(tape.evs.size()) + 1));
		else
		{
			if constexpr(std::is_same_v<Traits, BranchTraits>)
			{
				if(c.ch.p(1, 3) && tape.cur == tape.frontier())
				{
					erase_scalars();
					tape.v.board->frame().erase_history();
					c.fault("erase_at_latest");
					reachable();
					if(c.failed())
						return;
					Shot s = tape.v.shot();
					if(!(s == tape.shots[tape.cur]))
						c.fail("erase", "erasing at the latest point changed " + s.diff(tape.shots[tape.cur]));
				}
				else
					branch();
			}
			else
			{
				arrive(1);
				tape.goto_pos(tape.evs.size());
			}
		}
	}

	// Whatever can still be shown must still exist.
	void reachable()
	{
		if(!tape.objects || c.failed())
			return;
		for(auto& s : tape.shots)
			for(auto x : s.cards)
				if(x > 0 && !tape.v.reg.live.count(x))
				{
					c.fail("objects", "erasing the later history released an object that stepping back still shows");
					return;
				}
	}

	void erase_scalars()
	{
		if constexpr(std::is_same_v<Traits, BranchTraits>)
		{
			auto& b = *tape.v.board;
			b.blocked_zones().erase_history();
			b.chain_stack().erase_history();
			b.lp(yd::CONTROLLER_0).erase_history();
			b.lp(yd::CONTROLLER_1).erase_history();
			b.phase().erase_history();
			b.turn().erase_history();
			b.turn_controller().erase_history();
		}
	}

	void branch()
	{
		// Branch only where the engine could have stood.
		while(tape.cur > 0 && !c.failed() && !tape.evs[tape.cur - 1].f->quiescent)
			tape.back();
		if(c.failed())
			return;
		c.fault("branch");
		bool const twice = c.ch.p(1, 6);
		erase_scalars();
		tape.v.board->frame().erase_history();
		if(twice)
			tape.v.board->frame().erase_history();
		tape.truncate();
		reachable();
		if(c.failed())
			return;
		Shot s = tape.v.shot();
		if(!(s == tape.shots[tape.cur]))
		{
			c.fail("erase", "erasing the later history changed " + s.diff(tape.shots[tape.cur]));
			return;
		}
		tape.rebuild_live();
		size_t const keep = tape.cur ? tape.evs[tape.cur - 1].frame + 1 : 0;
		frames_.resize(keep);
		std::vector<uint32_t> kills;
		srv_ = std::make_unique<Server>(c, c.ch.u32(), mode_);
		for(auto& f : frames_)
		{
			static_cast<void>(srv_->process(f));
			if(!f->native && f->bytes.size() == 5 && static_cast<uint8_t>(f->bytes[0]) == 170)
			{
				uint32_t r;
				std::memcpy(&r, f->bytes.data() + 1, 4);
				kills.push_back(r);
			}
		}
		View const now = keep ? *frames_.back()->after : View{};
		if(tape.objects)
			tape.v.rebind(now);
		e.restore(now, false, kills);
		if(!keep)
			e.start();
		arrive(1 + c.ch.n(3));
	}
};

} // namespace

void tape_world(Ctx& c)
{
	TapeWorld<TapeTraits> w(c, c.prop == "C18");
	w.run();
}
void branch_world(Ctx& c)
{
	TapeWorld<BranchTraits> w(c, c.prop == "C18");
	w.run();
}

namespace
{
WorldReg const r6("C06", tape_world), r7("C07", branch_world);
} // namespace

} // namespace sim
