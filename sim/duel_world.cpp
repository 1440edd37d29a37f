// Duels: stub engine -> real translator -> ordered links -> real viewers, with
// disconnections, crashes, torn logs, resyncs and slow links.
#ifndef SIM_PLAIN_CARDS
#define SIM_RECORDING_CARDS
#endif
#include "server.hpp"
#include <ygopen/proto/replay.hpp>

namespace sim
{

namespace
{

struct IView
{
	virtual ~IView() = default;
	virtual void apply(pd::Msg const& m, Frm const& f) = 0;
	virtual void fresh() = 0;
	virtual void teardown() = 0;
	virtual Resolver resolver() const = 0;
	virtual void final_info() = 0;
	virtual Shot shot() const = 0;
	virtual std::vector<Info> infos() const = 0;
};
template<typename T>
struct VW final : IView
{
	Viewer<T> v;
	VW(Ctx& c, uint32_t chk, std::string n, bool cache) : v(c, chk, std::move(n)) { v.cache = cache; }
	void apply(pd::Msg const& m, Frm const& f) override { v.apply(m, f); }
	void fresh() override { v.fresh(); }
	void teardown() override { v.teardown(); }
	Resolver resolver() const override { return v.resolver(); }
	void final_info() override { v.check_info("the end"); }
	Shot shot() const override { return v.shot(); }
	std::vector<Info> infos() const override
	{
		std::vector<Info> r;
		v.each_card([&](P const&, auto const& x) { r.push_back(info_of(x)); });
		return r;
	}
};

struct Client
{
	std::unique_ptr<IView> v;
	bool connected = true;
	bool joined = true;
	size_t pos = 0;
	uint64_t lat = 5;
};

uint32_t checks_for(std::string const& p)
{
	if(p == "C01")
		return CHK_LAYOUT | CHK_IDENT;
	if(p == "C02")
		return CHK_SCORE;
	if(p == "C04")
		return CHK_LAYOUT | CHK_MATS;
	if(p == "C05")
		return CHK_LAYOUT | CHK_IDENT | CHK_RESYNC;
	if(p == "C08")
		return CHK_CANON;
	if(p == "C09")
		return CHK_INFO;
	if(p == "C17")
		return CHK_LAYOUT | CHK_IDENT | CHK_SCORE;
	if(p == "C18")
		return CHK_OBJECTS;
	if(p == "C19")
		return CHK_FINISH;
	if(p == "C10")
		return CHK_MATS; // identities are needed to know what was picked
	return 0;
}

class DuelWorld
{
public:
	explicit DuelWorld(Ctx& c) : c(c), e(c) {}

	void run()
	{
		configure(c, e, c.prop);
		steps_ = choose_steps(c, e);
		framing_ = c.prop == "C03";
		answers_ = c.prop == "C10";
		recov_ = c.prop == "C17";
		uint32_t const chk = checks_for(c.prop);
		arena_mode_ = static_cast<int>(c.ch.n(3));
		pattern_ = c.ch.p(2, 3) ? c.ch.u32() : 0;
		if(pattern_)
			c.fault("dirty_memory");
		faulty_ = c.ch.p(4, 5);
		uint32_t nc = 1 + c.ch.n(3);
		for(uint32_t i = 0; i < nc; i++)
		{
			Client cl;
			auto nm = "viewer" + std::to_string(i);
			bool limbo = c.ch.p(1, 3);
			bool cache = c.ch.p(1, 2);
#ifdef SIM_RECORDING_CARDS
			if(c.prop == "C09" && c.ch.p(1, 3))
			{
				if(c.ch.p(1, 3))
					cl.v = std::make_unique<VW<CardTapeLimboTraits>>(c, chk, nm, cache);
				else
					cl.v = std::make_unique<VW<CardTapeTraits>>(c, chk, nm, cache);
			}
			else
#endif
			if(limbo)
				cl.v = std::make_unique<VW<LimboTraits>>(c, chk, nm, cache);
			else
				cl.v = std::make_unique<VW<PlainTraits>>(c, chk, nm, cache);
			if(i == 2)
				cl.joined = cl.connected = false;
			cl.lat = c.ch.n(60);
			cl_.push_back(std::move(cl));
		}
		srv_ = std::make_unique<Server>(c, pattern_, arena_mode_);
		if(recov_)
			twin_ = std::make_unique<Server>(c, c.ch.u32(), static_cast<int>(c.ch.n(3)));
		if(recov_ ? c.ch.p(1, 2) : c.ch.p(1, 12))
			other_duel();
		neighbours_ = c.ch.p(1, 6);
		e.start();
		loop();
		if(!c.failed())
			drain();
		if(!c.failed())
			finale();
		// Boards go down with the run.
		for(auto& cl : cl_)
			if(!c.failed())
				cl.v->teardown();
	}

private:
	struct Other;
	Ctx& c;
	Engine e;
	std::unique_ptr<Other> other_;
	bool neighbours_ = false;
	uint32_t steps_ = 0;
	bool framing_ = false, answers_ = false, recov_ = false, faulty_ = false, over_ = false;
	int arena_mode_ = 0;
	uint32_t pattern_ = 0;
	std::unique_ptr<Server> srv_, twin_;
	std::vector<std::shared_ptr<Frm const>> frames_; // everything the core said
	std::vector<Rec> log_;                           // broadcast so far
	size_t done_ = 0;    // frames translated by the current server process
	size_t synced_ = 0;  // frames durably on disk
	size_t twin_done_ = 0;
	std::vector<Client> cl_;
	size_t ask_at_ = 0;
	uint64_t ask_ms_ = 0;
	std::vector<uint8_t> reply_;

	void loop()
	{
		while(c.step < steps_ && c.ch.next_step())
		{
			c.step++;
			if(e.finished)
			{
				if(!over_)
					steps_ = std::min<uint32_t>(steps_, static_cast<uint32_t>(c.step) + 60);
				over_ = true;
			}
			c.tick(40);
			neighbour();
			action();
			if(c.failed())
				return;
		}
	}

	void take()
	{
		for(auto& f : e.out)
		{
			if(f.ask)
			{
				ask_at_ = frames_.size();
				ask_ms_ = c.now_ms;
			}
			frames_.push_back(std::make_shared<Frm const>(std::move(f)));
		}
		e.out.clear();
	}

	void engine_step()
	{
		if(e.pending || e.finished)
			return;
		e.step();
		take();
		uint64_t lag = 0;
		for(auto& cl : cl_)
			lag = lag * 5 + (cl.connected ? std::min<size_t>(3, frames_.size() - cl.pos) : 4);
		c.state(mix64(e.v.shape() ^ (lag << 40)));
	}

	void put(Rec r)
	{
		if(done_ < log_.size())
		{
			// Re-translation after a crash.
			if(recov_ && (r.has != log_[done_].has || r.msg != log_[done_].msg))
				c.fail("recovery", "frame " + std::to_string(done_) + " (" + r.f->name + ") translates differently after the restart");
			log_[done_] = std::move(r);
		}
		else
		{
			c.hs(r.msg);
			log_.push_back(std::move(r));
		}
		done_++;
		if(twin_ && twin_done_ < done_)
		{
			// A server that never crashed and manages memory differently.
			auto t = twin_->process(frames_[twin_done_]);
			auto& l = log_[twin_done_];
			if(t.has != l.has || t.msg != l.msg)
				c.fail("recovery", "frame " + std::to_string(twin_done_) + " (" + l.f->name + ") translates differently on a server that never crashed");
			twin_done_++;
		}
	}

	void process(size_t n)
	{
		for(size_t i = 0; i < n && done_ < frames_.size() && !c.failed(); i++)
			put(srv_->process(frames_[done_], framing_));
	}

	void process_stream(size_t n)
	{
		std::vector<std::shared_ptr<Frm const>> fs;
		for(size_t i = done_; i < frames_.size() && fs.size() < n; i++)
		{
			if(frames_[i]->native || frames_[i]->expect == 0)
				break;
			fs.push_back(frames_[i]);
		}
		if(fs.empty())
		{
			process(1);
			return;
		}
		std::vector<Rec> out;
		srv_->process_stream(fs, out);
		for(auto& r : out)
			if(!c.failed())
				put(std::move(r));
		c.probe("back_to_back_frames", out.size());
	}

	void deliver(Client& cl, size_t n, bool force)
	{
		if(!cl.connected)
			return;
		pd::Msg m;
		static pd::Msg const none;
		for(size_t i = 0; i < n && cl.pos < done_ && !c.failed();)
		{
			auto& r = log_[cl.pos];
			if(!force && r.f->at_ms + cl.lat > c.now_ms)
				return;
			cl.pos++;
			if(r.has)
			{
				if(!m.ParseFromString(r.msg))
				{
					c.fail("transport", "a translated message does not parse back");
					return;
				}
				cl.v->apply(m, *r.f);
				i++;
			}
			else if(r.f->expect == 1)
				cl.v->apply(none, *r.f);
		}
	}

	// Full snapshot of the present for one viewer.
	bool resync(Client& cl)
	{
		process(SIZE_MAX);
		if(c.failed())
			return true;
		auto f = e.snapshot();
		if(f.bytes.empty())
			return false;
		pd::Msg m;
		auto reps = 1 + (c.ch.p(1, 10) ? 1u : 0u);
		for(uint32_t i = 0; i < reps && !c.failed(); i++)
		{
			if(!srv_->aside(f, m))
			{
				c.fail("snapshot", "the snapshot message was not translated");
				return true;
			}
			cl.v->apply(m, f);
		}
		cl.pos = done_;
		c.fault("snapshot_resync");
		if(e.pending && ask_at_ < done_ && log_[ask_at_].has && !c.failed())
		{
			m.ParseFromString(log_[ask_at_].msg);
			cl.v->apply(m, *log_[ask_at_].f);
		}
		return true;
	}

	// Another duel of this process; what it does must not show in this one.
	struct Other
	{
		Ctx c;
		Engine e;
		Server s;

		Other(uint32_t seed, std::string const& as)
			: e(start(c, seed)), s(c, c.ch.u32(), static_cast<int>(c.ch.n(3)))
		{
			configure(c, e, as);
			e.cfg.scale = 0;
			e.start();
		}
		static Ctx& start(Ctx& c, uint32_t seed)
		{
			c.ch.start_seeded(seed);
			c.ch.next_step();
			return c;
		}
		void go(uint32_t n)
		{
			for(uint32_t i = 0; i < n && !e.finished; i++)
			{
				c.ch.next_step();
				e.step();
				for(auto& f : e.out)
					static_cast<void>(s.process(std::make_shared<Frm const>(std::move(f))));
				e.out.clear();
				e.pending.reset();
			}
		}
	};

	void other_duel()
	{
		Other o(c.ch.u32(), "C17");
		o.go(1 + c.ch.n(40));
		c.fault("other_duel_in_process");
	}

	void neighbour()
	{
		if(neighbours_ && c.ch.p(1, 4))
		{
			if(!other_ || c.ch.p(1, 12))
			{
				other_.reset();
				other_ = std::make_unique<Other>(c.ch.u32(), c.ch.p(1, 2) ? "C17" : c.prop);
			}
			other_->go(1 + c.ch.n(6));
			c.fault("neighbour_duel_steps");
		}
	}

	void server_crash()
	{
		c.fault("server_crash");
		// Only synced frames are surely on disk; of the rest a part may be.
		auto torn = done_ - std::min(synced_, done_);
		size_t keep = std::min(synced_, done_) + (torn ? c.ch.n(static_cast<uint32_t>(torn) + 1) : 0);
		if(keep < done_)
			c.fault("log_tail_lost", done_ - keep);
		srv_.reset();
		if(recov_ && c.ch.p(1, 3))
			other_duel();
		pattern_ = c.ch.u32();
		c.fault("dirty_memory");
		srv_ = std::make_unique<Server>(c, pattern_, static_cast<int>(c.ch.n(3)));
		auto const old = done_;
		done_ = 0;
		synced_ = keep;
		bool const again = c.ch.p(1, 6) && keep > 0;
		if(again)
		{
			// Crashes again while recovering.
			auto part = c.ch.n(static_cast<uint32_t>(keep));
			process(part);
			srv_ = std::make_unique<Server>(c, c.ch.u32(), static_cast<int>(c.ch.n(3)));
			done_ = 0;
			c.fault("crash_during_recovery");
		}
		process(keep);
		c.note("server restarted with %zu of %zu frames", keep, old);
		for(auto& cl : cl_)
			if(cl.joined && c.ch.p(1, 2))
				cl.connected = false;
	}

	void reconnect(Client& cl)
	{
		if(cl.connected)
			return;
		if(!cl.joined)
			c.fault("late_join");
		cl.joined = true;
		cl.connected = true;
		auto how = c.ch.n(4);
		if(how == 0)
		{
			c.fault("log_resume");
			return; // continues where it was
		}
		if(how == 1)
		{
			// Rejoins with nothing and is sent the whole log.
			cl.v->fresh();
			cl.pos = 0;
			c.fault("log_replay");
			return;
		}
		if(how == 2)
			cl.v->fresh();
		if(!resync(cl) && how == 2)
			cl.pos = 0;
	}

	void answer()
	{
		if(!e.pending || done_ <= ask_at_)
			return;
		Client* who = nullptr;
		auto first = c.ch.n(static_cast<uint32_t>(cl_.size()));
		for(size_t i = 0; i < cl_.size() && !who; i++)
		{
			auto& cl = cl_[(first + i) % cl_.size()];
			if(cl.connected && cl.pos > ask_at_)
				who = &cl;
		}
		if(!who || !log_[ask_at_].has)
		{
			if(c.now_ms > ask_ms_ + 180000)
			{
				c.fault("answer_timeout");
				e.pending.reset();
			}
			return;
		}
		pd::Msg m;
		m.ParseFromString(log_[ask_at_].msg);
		if(m.t_case() != pd::Msg::kRequest)
		{
			e.pending.reset();
			return;
		}
		if(answers_)
		{
			pd::Answer a;
			std::vector<int64_t> intent;
			make_answer(c.ch, m.request(), who->v->resolver(), a, intent);
			std::string s;
			a.SerializeToString(&s);
			pd::Answer got;
			got.ParseFromString(s);
			// One buffer is reused for the whole duel; what it held must not
			// matter.
			if(c.ch.p(1, 4))
				reply_.assign(c.ch.n(80), static_cast<uint8_t>(c.ch.n(256)));
			oc::decode_one_answer(m.request(), got, reply_);
			std::vector<uint8_t> clean;
			oc::decode_one_answer(m.request(), got, clean);
			if(clean != reply_)
			{
				c.fail("answer", std::string(log_[ask_at_].f->name) + ": the response depends on what the buffer held before");
				return;
			}
			std::string err;
			auto heard = Engine::parse_answer(*e.pending, reply_, err);
			if(!err.empty())
				c.fail("answer", std::string(log_[ask_at_].f->name) + ": " + err + "; player meant [" + canon_str(intent) + "]");
			else if(heard != intent)
				c.fail("answer", std::string(log_[ask_at_].f->name) + ": engine heard [" + canon_str(heard) + "], player meant [" + canon_str(intent) + "]");
			c.probe("answers_compared");
		}
		c.op("answer");
		e.pending.reset();
	}

	void action()
	{
		auto a = c.ch.n(100);
		if(a < 34)
			engine_step();
		else if(a < 54)
		{
			auto n = 1 + c.ch.n(6);
			if(framing_ && c.ch.p(1, 2))
				process_stream(n);
			else
				process(n);
		}
		else if(a < 80)
		{
			auto i = c.ch.n(static_cast<uint32_t>(cl_.size()));
			deliver(cl_[i], 1 + c.ch.n(8), false);
		}
		else if(a < 87)
			answer();
		else if(a == 87)
			c.now_ms += c.ch.n(60000);
		else if(a == 88 && done_)
			synced_ = done_;
		else if(a == 89)
		{
			srv_->reset_arena();
			c.fault("arena_reset");
		}
		else if(a < 92)
		{
			// A quick exchange: everyone is served.
			engine_step();
			process(SIZE_MAX);
			for(auto& cl : cl_)
				deliver(cl, SIZE_MAX, true);
			answer();
		}
		else if(faulty_)
		{
			auto& cl = cl_[c.ch.n(static_cast<uint32_t>(cl_.size()))];
			switch(a)
			{
			case 92:
				if(cl.connected)
				{
					cl.connected = false;
					c.fault("disconnect");
				}
				break;
			case 93:
			case 94: reconnect(cl); break;
			case 95:
				if(cl.joined)
				{
					cl.connected = false;
					cl.v->fresh();
					cl.pos = 0;
					c.fault("client_crash");
				}
				break;
			case 96: server_crash(); break;
			case 97:
				if(cl.connected)
				{
					cl.lat = 1 + c.ch.n(60000);
					c.fault("slow_link");
				}
				break;
			case 98:
				if(cl.connected)
					resync(cl); // even when up to date
				break;
			default:
				cl.lat = c.ch.n(60);
				break;
			}
		}
	}

	// Faults stop; everything must settle.
	void drain()
	{
		c.step++;
		process(SIZE_MAX);
		for(auto& cl : cl_)
		{
			if(c.failed())
				return;
			if(!cl.joined)
				continue;
			cl.connected = true;
			deliver(cl, SIZE_MAX, true);
		}
		if(c.failed())
			return;
		if(done_ != frames_.size())
			c.fail("liveness", "the server did not process every message");
		for(auto& cl : cl_)
			if(cl.joined && cl.pos != frames_.size())
				c.fail("liveness", "a viewer did not catch up");
		for(auto& cl : cl_)
			if(c.prop == "C09" && cl.joined && !c.failed())
				cl.v->final_info();
	}

	void finale()
	{
		if(!recov_)
			return;
		// Rebuild everything from the log once more.
		if(c.ch.p(1, 2))
			other_duel();
		{
			Server again(c, ~pattern_, ARENA_EACH);
			for(size_t i = 0; i < frames_.size(); i++)
			{
				auto r = again.process(frames_[i]);
				if(r.has != log_[i].has || r.msg != log_[i].msg)
				{
					c.fail("recovery", "frame " + std::to_string(i) + " (" + r.f->name + ") translates differently when the log is re-read");
					return;
				}
			}
		}
		// Save and load a replay, then watch it.
		YGOpen::Proto::Replay rp;
		std::vector<size_t> idx;
		for(size_t i = 0; i < log_.size(); i++)
		{
			if(!log_[i].has)
				continue;
			auto* b = rp.mutable_stream()->add_blocks();
			b->set_time_offset_ms(static_cast<uint32_t>(log_[i].f->at_ms));
			b->mutable_msg()->ParseFromString(log_[i].msg);
			idx.push_back(i);
		}
		std::string s;
		rp.SerializeToString(&s);
		YGOpen::Proto::Replay back;
		if(!back.ParseFromString(s) || back.stream().blocks_size() != static_cast<int>(idx.size()))
		{
			c.fail("replay", "a saved replay does not load");
			return;
		}
		VW<PlainTraits> direct(c, CHK_LAYOUT | CHK_IDENT | CHK_SCORE, "direct replay", false);
		VW<PlainTraits> saved(c, CHK_LAYOUT | CHK_IDENT | CHK_SCORE, "saved replay", false);
		pd::Msg m;
		for(size_t i = 0; i < idx.size() && !c.failed(); i++)
		{
			m.ParseFromString(log_[idx[i]].msg);
			direct.apply(m, *log_[idx[i]].f);
			if(!c.failed())
				saved.apply(back.stream().blocks(static_cast<int>(i)).msg(), *log_[idx[i]].f);
		}
		if(c.failed())
			return;
		if(!(direct.shot() == saved.shot()) || direct.infos() != saved.infos())
			c.fail("replay", "a saved replay ends in a different board");
		c.probe("replays_watched");
	}
};

} // namespace

void duel_entry(Ctx& c)
{
	DuelWorld w(c);
	w.run();
}

namespace
{
WorldReg const r1("C01", duel_entry), r2("C02", duel_entry), r3("C03", duel_entry), r4("C04", duel_entry), r5("C05", duel_entry),
	r8("C08", duel_entry), r9("C09", duel_entry), r10("C10", duel_entry), r17("C17", duel_entry), r19("C19", duel_entry);
} // namespace

} // namespace sim
