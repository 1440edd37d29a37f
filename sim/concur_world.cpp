// Several duels, viewers and rooms in one process: each must do exactly what it
// does alone, however their threads are interleaved, down to inside single
// operations, and they must share nothing without synchronisation.
#include "sched.hpp"
#include "server.hpp"
#include <csignal>
#include <fcntl.h>
#include <google/protobuf/stubs/logging.h>
#include <optional>
#include <poll.h>
#include <string_view>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <variant>
#include <ygopen/server/room.hpp>

namespace sim
{

namespace
{

namespace pr = YGOpen::Proto::Room;
using REv = YGOpen::Server::RoomEvent;
using RSig = YGOpen::Server::RoomSignal;

constexpr uint32_t MAX_OPS = 400;

struct Hash
{
	uint64_t v = 1469598103934665603ull;
	void n(uint64_t x) { v = mix64(v ^ x); }
	void s(std::string const& b)
	{
		n(b.size());
		for(unsigned char ch : b)
			v = (v ^ ch) * 1099511628211ull;
	}
	void b(std::vector<uint8_t> const& x)
	{
		n(x.size());
		for(auto ch : x)
			v = (v ^ ch) * 1099511628211ull;
	}
};

// What one instance is to do; drawn up before any of it runs.
struct Script
{
	enum Kind
	{
		DUEL_PLAIN,
		DUEL_LIMBO,
		DUEL_TAPE,
		ROOM,
		KINDS
	} kind{};
	uint64_t seed = 0;
	// Another script takes the same course up to some point.
	uint64_t seed2 = 0;
	uint32_t fork = 0;
	int style = -1;
	uint32_t pattern = 0;
	int arena_mode = 0;
	std::vector<std::shared_ptr<Frm const>> frames;
	// room
	pr::Options opt;
	uint32_t nclients = 0;
	struct RoomOp
	{
		bool enter = false;
		uint32_t who = 0;
		RSig sig;
		bool ok = false;
		std::string what;
	};
	std::vector<RoomOp> rops;
	size_t ops() const { return kind == ROOM ? rops.size() + 2 : frames.size() + 2; }
	std::string op_name(size_t i) const
	{
		if(i == 0)
			return "setting up";
		if(i + 1 == ops())
			return "shutting down";
		return kind == ROOM ? rops[i - 1].what : std::string(frames[i - 1]->name);
	}
	char const* kind_name() const
	{
		static char const* const n[] = {"duel", "recorded duel", "scrubbed duel", "room"};
		return n[kind];
	}
};

struct Inst
{
	virtual ~Inst() = default;
	virtual void op(size_t i, Hash& h) = 0; // 1..n
	virtual void end(Hash& h) = 0;
};

template<typename Traits>
class DuelInst final : public Inst
{
	Script const& s_;
	Ctx c_;
	std::unique_ptr<Server> srv_;
	std::unique_ptr<Viewer<Traits>> v_;
	Choices ans_;
	std::vector<uint8_t> reply_;
	std::vector<std::pair<pd::Msg, std::shared_ptr<Frm const>>> seen_;
	uint32_t rnd_ = 1;

public:
	explicit DuelInst(Script const& s) : s_(s)
	{
		c_.ch.start_seeded(s.seed);
		c_.ch.next_step();
		ans_.start_seeded(s.seed + 1);
		srv_ = std::make_unique<Server>(c_, s.pattern, s.arena_mode);
		v_ = std::make_unique<Viewer<Traits>>(c_, 0, "viewer");
		v_->cache = (s.seed & 1) != 0;
	}
	void op(size_t i, Hash& h) override
	{
		auto const& f = s_.frames[i - 1];
		auto r = srv_->process(f);
		h.n(r.has);
		h.s(r.msg);
		if(!r.has)
			return;
		pd::Msg m;
		m.ParseFromString(r.msg);
		if(s_.kind != Script::DUEL_TAPE || m.t_case() == pd::Msg::kEvent)
			v_->apply(m, *f);
		if constexpr(std::is_same_v<Traits, TapeTraits>)
		if(m.t_case() == pd::Msg::kEvent)
		{
			seen_.emplace_back(m, f);
			rnd_ = rnd_ * 1103515245u + 12345u;
			if((rnd_ >> 16) % 5 == 0)
			{
				size_t n = 1 + (rnd_ >> 20) % 6;
				n = std::min(n, seen_.size());
				for(size_t k = 0; k < n; k++)
					yc::undo_parse_event(*v_->board, seen_[seen_.size() - 1 - k].first.event());
				shot(h);
				for(size_t k = n; k-- > 0;)
					yc::parse_event(*v_->board, seen_[seen_.size() - 1 - k].first.event());
			}
		}
		if(m.t_case() == pd::Msg::kRequest && f->ask)
		{
			ans_.next_step();
			pd::Answer a;
			std::vector<int64_t> intent;
			make_answer(ans_, m.request(), v_->resolver(), a, intent);
			oc::decode_one_answer(m.request(), a, reply_);
			h.b(reply_);
			for(auto x : intent)
				h.n(static_cast<uint64_t>(x));
		}
		if(i % 4 == 0)
			shot(h);
	}
	void end(Hash& h) override
	{
		shot(h);
		v_->each_card([&](P const&, auto const& x)
		              {
			auto in = info_of(x);
			for(auto y : in.f)
				h.n(y);
			for(auto y : in.targets)
				h.n(y);
			for(auto& [t, k] : in.counters)
				h.n(t * 131ull + k);
		});
		v_.reset();
		srv_.reset();
	}
	void shot(Hash& h)
	{
		auto s = v_->shot();
		for(auto x : s.cards)
			h.n(static_cast<uint64_t>(x));
		h.n(s.lp[0]);
		h.n(s.lp[1]);
		h.n(s.turn);
		h.n(s.turn_con);
		h.n(s.phase);
		for(auto x : s.chain)
			h.n(x);
		h.n(7);
		for(auto x : s.blocked)
			h.n(x);
	}
};

struct RClient
{
	uint32_t id = 0;
	std::vector<std::string> got;
	void send(REv const& e) noexcept
	{
		std::string s;
		e.SerializeToString(&s);
		got.push_back(std::move(s));
	}
	void fill_user(YGOpen::Proto::User& u) const noexcept { u.set_name("u" + std::to_string(id)); }
};
struct RValidator
{
	bool const* ok = nullptr;
	bool check(std::string_view, YGOpen::Proto::Deck const& d, YGOpen::Proto::DeckError& e) const noexcept
	{
		if(!*ok)
			e.mutable_excessive_copies()->add_cards(static_cast<uint32_t>(d.data().main_cards_size()));
		return *ok;
	}
};
struct RFactory
{
	void make_duel() const noexcept {}
};
struct RRng
{
	using result_type = uint32_t;
	uint64_t s = 1;
	static constexpr uint32_t min() { return 0; }
	static constexpr uint32_t max() { return ~0u; }
	uint32_t operator()()
	{
		s = mix64(s);
		return static_cast<uint32_t>(s >> 20);
	}
};
struct RTraits
{
	using ClientType = RClient;
	using DeckValidatorType = RValidator;
	using CoreDuelFactoryType = RFactory;
	using RNGType = RRng;
};

class RoomInst final : public Inst
{
	Script const& s_;
	bool ok_ = false;
	RValidator val_;
	RFactory fac_;
	std::vector<RClient> cl_;
	std::optional<YGOpen::Server::BasicRoom<RTraits>> room_;

	void drain(Hash& h)
	{
		for(auto& x : cl_)
		{
			h.n(x.got.size());
			for(auto& m : x.got)
				h.s(m);
			x.got.clear();
		}
	}

public:
	explicit RoomInst(Script const& s) : s_(s)
	{
		cl_.resize(s.nclients);
		for(uint32_t i = 0; i < s.nclients; i++)
			cl_[i].id = i;
		val_.ok = &ok_;
		room_.emplace(val_, fac_, RRng{s.seed}, cl_[0], s.opt);
	}
	void op(size_t i, Hash& h) override
	{
		auto const& o = s_.rops[i - 1];
		ok_ = o.ok;
		if(o.enter)
			room_->enter(cl_[o.who]);
		else
			room_->visit(cl_[o.who], o.sig);
		drain(h);
	}
	void end(Hash& h) override
	{
		drain(h);
		room_.reset();
	}
};

// One instance as it runs; the transcript is one number per operation.
struct Task
{
	Script const* s = nullptr;
	uint64_t* out = nullptr; // shared with the judge
	std::unique_ptr<Inst> inst;
	size_t at = 0;

	bool step()
	{
		Hash h;
		if(at == 0)
		{
			switch(s->kind)
			{
			case Script::DUEL_PLAIN: inst = std::make_unique<DuelInst<PlainTraits>>(*s); break;
			case Script::DUEL_LIMBO: inst = std::make_unique<DuelInst<LimboTraits>>(*s); break;
			case Script::DUEL_TAPE: inst = std::make_unique<DuelInst<TapeTraits>>(*s); break;
			default: inst = std::make_unique<RoomInst>(*s); break;
			}
		}
		else if(at + 1 == s->ops())
		{
			inst->end(h);
			inst.reset();
		}
		else
			inst->op(at, h);
		out[1 + at] = h.v;
		at++;
		out[0] = at;
		return at < s->ops();
	}
	static void body(void* p)
	{
		auto* t = static_cast<Task*>(p);
		while(t->step())
			;
	}
};

struct Board
{
	SchedResult sr;
	uint64_t solo[MAX_THREADS][MAX_OPS + 8];
	uint64_t both[MAX_THREADS][MAX_OPS + 8];
};

class ConcurWorld
{
public:
	explicit ConcurWorld(Ctx& c) : c(c) {}

	void run()
	{
		auto& ch = c.ch;
		auto n = 2 + ch.n(3);
		bool const threads = ch.n(3) != 2;
		auto const like = ch.n(5); // 1: all of one kind, 2: the very same duel, 3: the same up to some point
		auto const style = ch.n(8);
		auto const kind = ch.n(Script::KINDS);
		for(uint32_t i = 0; i < n; i++)
		{
			Script s;
			s.kind = static_cast<Script::Kind>(like ? kind : ch.n(Script::KINDS));
			s.seed = ch.u32();
			s.pattern = ch.u32();
			s.arena_mode = static_cast<int>(ch.n(3));
			auto len = 4 + ch.n(c.thorough ? 160 : 60);
			if(like == 2 && i > 0)
			{
				s.seed = scripts_[0].seed;
				len = static_cast<uint32_t>(scripts_[0].ops());
			}
			if(like == 3)
			{
				s.style = static_cast<int>(style);
				s.seed2 = ch.u32();
				s.fork = ch.n(20);
				if(i > 0)
					s.seed = scripts_[0].seed;
			}
			if(s.kind == Script::ROOM)
				room_script(s, len);
			else
				duel_script(s, len);
			scripts_.push_back(std::move(s));
			c.op(scripts_.back().kind_name());
		}
		// The schedule.
		auto const longest = ch.n(5);
		bool const lockstep = ch.p(1, 4);
		static uint32_t const lim[] = {3, 20, 200, 2000, 20000};
		auto const ns = 2 + ch.n(c.thorough ? 400 : 160);
		while(slices_.size() < ns && ch.next_step())
		{
			c.step++;
			Slice s;
			s.who = lockstep ? static_cast<uint32_t>(slices_.size() % n) : ch.n(n);
			s.budget = lockstep && !threads ? 3 : 1 + (ch.n(6) ? ch.n(lim[longest]) : ch.n(20000));
			slices_.push_back(s);
			c.now_ms++;
		}
		auto* b = static_cast<Board*>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		judge(*b, threads);
		munmap(b, sizeof(Board));
	}

private:
	Ctx& c;
	std::vector<Script> scripts_;
	std::vector<Slice> slices_;

	void duel_script(Script& s, uint32_t len)
	{
		Ctx ec; // the stub engine's own decisions follow from one seed
		ec.ch.start_seeded(s.seed);
		ec.ch.next_step();
		Engine e(ec);
		static char const* const style[] = {"C01", "C09", "C10", "C02", "C04", "C08", "C17", "C19"};
		std::string const as = s.kind == Script::DUEL_TAPE ? "C06" : style[s.style >= 0 ? static_cast<uint64_t>(s.style) : (s.seed >> 4) % 8];
		configure(ec, e, as);
		e.cfg.scale = std::min(e.cfg.scale, 1);
		bool forked = s.style < 0;
		if(!forked)
			e.cfg.scale = 0; // places coincide more often
		e.cfg.finish = (s.seed & 8) != 0;
		if(s.kind == Script::DUEL_TAPE)
			e.cfg.queries = e.cfg.asks = false;
		e.start();
		for(uint32_t guard = 0; guard < 4000; guard++)
		{
			for(auto& f : e.out)
				if(s.frames.size() < std::min<uint32_t>(len, MAX_OPS - 2))
					s.frames.push_back(std::make_shared<Frm const>(std::move(f)));
			e.out.clear();
			e.pending.reset();
			if(s.frames.size() >= std::min<uint32_t>(len, MAX_OPS - 2) || e.finished)
				break;
			if(!forked && s.frames.size() >= s.fork)
			{
				ec.ch.start_seeded(s.seed2);
				forked = true;
			}
			ec.ch.next_step();
			e.step();
		}
	}

	void room_script(Script& s, uint32_t len)
	{
		Choices ch;
		ch.start_seeded(s.seed);
		ch.next_step();
		s.nclients = 2 + ch.n(8);
		s.opt.add_max_duelists(1 + ch.n(3));
		s.opt.add_max_duelists(1 + ch.n(3));
		s.opt.set_ftdm(static_cast<pr::FirstTurnDecideMethod>(ch.n(4)));
		s.opt.set_banlist_id("b" + std::to_string(ch.n(9)));
		uint32_t in = 1;
		for(uint32_t i = 0; i < len; i++)
		{
			Script::RoomOp o;
			auto k = ch.n(8);
			o.who = ch.n(s.nclients);
			o.ok = ch.p(3, 4);
			if(i + 1 == len || k == 7)
			{
				o.who = 0;
				o.sig.mutable_configuring()->set_start_dueling(true);
				o.what = "start";
			}
			else if(k < 2 && in < s.nclients)
			{
				o.enter = true;
				o.who = in++;
				o.what = "enter";
			}
			else if(k < 5)
			{
				auto& d = *o.sig.mutable_configuring()->mutable_update_deck();
				for(uint32_t j = ch.n(30); j-- > 0;)
					d.mutable_data()->add_main_cards(ch.u32());
				d.set_title("deck");
				o.what = "deck";
			}
			else if(k < 7)
			{
				o.sig.mutable_configuring()->set_ready_status(ch.p(3, 4));
				o.what = "ready";
			}
			else
			{
				o.sig.mutable_deciding_first_turn()->set_team_going_first(ch.n(2));
				o.what = "choose";
			}
			s.rops.push_back(std::move(o));
			// The phase after entering the decision knows no arrivals.
			if(s.rops.back().what == "start")
				in = s.nclients;
		}
		for(uint32_t t = 0; t < 2; t++)
		{
			Script::RoomOp o;
			o.sig.mutable_deciding_first_turn()->set_team_going_first(t);
			o.what = "choose";
			s.rops.push_back(std::move(o));
		}
	}

	// Runs fn in a fresh copy of this process, which has not yet run any of the
	// code under test. Returns 0 or how it ended.
	template<typename F>
	int apart(F fn, std::string& err)
	{
		int fds[2];
		if(pipe(fds))
			return -1;
		fflush(nullptr);
		pid_t pid = fork();
		if(pid == 0)
		{
			close(fds[0]);
			dup2(fds[1], 2);
			alarm(60);
			itimerval it{};
			it.it_value.tv_sec = 15;
			setitimer(ITIMER_PROF, &it, nullptr);
			signal(SIGABRT, SIG_DFL);
			fn();
			_exit(0);
		}
		close(fds[1]);
		char buf[4096];
		ssize_t r;
		while((r = read(fds[0], buf, sizeof buf)) > 0)
			if(err.size() < 100000)
				err.append(buf, static_cast<size_t>(r));
		close(fds[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		if(WIFEXITED(st))
			return WEXITSTATUS(st);
		return 1000 + WTERMSIG(st);
	}

	static std::string reason(std::string const& err, int rc)
	{
		auto p = err.find("SUMMARY: ");
		if(p != std::string::npos)
		{
			auto s = err.substr(p + 9, err.find('\n', p) - p - 9);
			// Only names: paths and addresses vary.
			auto in = s.rfind(" in ");
			auto kind = s.substr(0, s.find('/'));
			return kind.substr(0, kind.find('(')) + (in == std::string::npos ? "" : s.substr(in + 1));
		}
		p = err.find("Assertion");
		if(p != std::string::npos)
			return err.substr(p, std::min<size_t>(120, err.find('\n', p) - p));
		return "status " + std::to_string(rc);
	}

	void judge(Board& b, bool threads)
	{
		auto const n = scripts_.size();
		std::string err;
		for(size_t i = 0; i < n; i++)
		{
			err.clear();
			auto rc = apart([&]
			                {
				Task t;
				t.s = &scripts_[i];
				t.out = b.solo[i];
				Task::body(&t);
			}, err);
			if(rc != 0)
			{
				// Not about sharing: an instance alone does not get through.
				c.probe("solo_failures");
				c.note("instance %zu alone ends with status %d", i, rc);
				return;
			}
		}
		err.clear();
		auto rc = apart([&]
		                {
			std::vector<Task> ts(n);
			for(size_t i = 0; i < n; i++)
			{
				ts[i].s = &scripts_[i];
				ts[i].out = b.both[i];
			}
			if(threads)
			{
				void* args[MAX_THREADS];
				for(size_t i = 0; i < n; i++)
					args[i] = &ts[i];
				sched_run(&Task::body, args, static_cast<uint32_t>(n), slices_.data(), slices_.size(), &b.sr);
			}
			else
			{
				// One thread: whole operations are interleaved.
				size_t k = 0;
				for(;;)
				{
					bool any = false;
					for(auto& t : ts)
						any = any || t.at < t.s->ops();
					if(!any)
						break;
					auto w = k < slices_.size() ? slices_[k].who : static_cast<uint32_t>(k % n);
					auto& t = ts[w];
					for(uint32_t m = k < slices_.size() ? 1 + slices_[k].budget % 3 : 1; m-- > 0 && t.at < t.s->ops();)
						t.step();
					k++;
					b.sr.switches++;
				}
			}
		}, err);
		c.fault(threads ? "threads_preempted_inside_operations" : "operations_interleaved", b.sr.switches);
		if(b.sr.locks_held)
			c.fault("preemption_deferred_by_lock", b.sr.locks_held);
		for(auto e : b.sr.edges)
			c.h(e);
		if(rc == 1000 + SIGALRM)
		{
			c.probe("blocked_runs");
			return;
		}
		if(rc == 66)
		{
			c.fail("race", "unsynchronised shared state: " + reason(err, rc));
			return;
		}
		if(rc != 0)
		{
			c.fail("together", "instances that run alone do not get through together: " + reason(err, rc));
			return;
		}
		for(size_t i = 0; i < n; i++)
		{
			auto const ops = scripts_[i].ops();
			for(size_t k = 0; k <= ops; k++)
			{
				c.h(b.solo[i][k]);
				if(b.solo[i][k] != b.both[i][k])
				{
					c.fail("influence", std::string(scripts_[i].kind_name()) + " " + std::to_string(i) + " behaves differently than alone at " + (k ? scripts_[i].op_name(k - 1) : "the end") + " (operation " + std::to_string(k) + ")");
					return;
				}
				c.state(b.both[i][k]);
			}
		}
		c.op("operations", [&]
		     {
			uint64_t t = 0;
			for(auto& s : scripts_)
				t += s.ops();
			return t;
		}());
	}
};

void concur_world(Ctx& c)
{
	static auto* const quiet = google::protobuf::SetLogHandler(nullptr);
	(void)quiet;
	ConcurWorld w(c);
	w.run();
}
WorldReg const r16("C16", concur_world);

} // namespace

} // namespace sim
