// Deterministic simulation core: choice streams, run context, violation
// recording. Every random decision of a simulated run is drawn from Choices,
// which is either seeded (one integer decides everything) or replays a trace.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim
{

inline uint64_t mix64(uint64_t z)
{
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

using Trace = std::vector<std::vector<uint32_t>>;

// One step = one vector of draws. Step 0 is the run's configuration.
class Choices
{
public:
	void start_seeded(uint64_t seed)
	{
		replay_ = false;
		seed_ = seed;
		rec_.clear();
	}
	void start_replay(Trace const* t)
	{
		replay_ = true;
		src_ = t;
		rec_.clear();
	}
	// Starts a new step; false when a replayed trace has no more steps.
	bool next_step()
	{
		if(replay_ && rec_.size() >= src_->size())
			return false;
		auto idx = rec_.size();
		rec_.emplace_back();
		pos_ = 0;
		state_ = mix64(seed_ * 0x100000001B3ull + idx);
		return true;
	}
	bool replaying() const { return replay_; }
	size_t replay_steps() const { return src_->size() - 1; }
	uint32_t raw()
	{
		uint32_t v = 0;
		if(replay_)
		{
			auto& s = (*src_)[rec_.size() - 1];
			if(pos_ < s.size())
				v = s[pos_];
			pos_++;
		}
		else
		{
			state_ = mix64(state_);
			v = static_cast<uint32_t>(state_ >> 17);
		}
		return v;
	}
	// Uniform in [0, n). 0 is always the "simplest" choice.
	uint32_t n(uint32_t n)
	{
		if(n <= 1)
			return 0;
		uint32_t v = raw() % n;
		rec_.back().push_back(v);
		return v;
	}
	uint32_t u32()
	{
		uint32_t v = raw();
		rec_.back().push_back(v);
		return v;
	}
	uint64_t u64()
	{
		uint64_t hi = u32();
		return (hi << 32) | u32();
	}
	// True with probability num/den (false is the simple choice).
	bool p(uint32_t num, uint32_t den) { return n(den) >= den - num; }
	Trace const& recorded() const { return rec_; }

private:
	bool replay_ = false;
	uint64_t seed_ = 0;
	uint64_t state_ = 0;
	Trace const* src_ = nullptr;
	size_t pos_ = 0;
	Trace rec_;
};

struct Stats
{
	std::map<std::string, uint64_t> c;
	std::unordered_set<uint64_t> states;
	std::unordered_set<uint64_t> histories;
	uint64_t sim_ms = 0;
	void add(std::string const& k, uint64_t n = 1) { c[k] += n; }
};

// Context of a single run.
struct Ctx
{
	Choices ch;
	std::string prop;
	bool thorough = false;
	bool verbose = false;
	uint64_t hash = 1469598103934665603ull;
	uint64_t step = 0;
	uint64_t now_ms = 0;
	int64_t skew_ms = 0; // of the wall clock
	Stats* stats = nullptr;
	std::string fail_tag, fail_msg;
	uint64_t fail_step = 0;
	std::vector<std::string> log;
	std::map<std::string, uint64_t> faults; // this run
	uint64_t progress = 0;                  // non-idle work in this run
	// Memory handed out again at the same address after its owner is gone.
	struct Spare
	{
		std::map<size_t, std::vector<void*>> free;
		~Spare()
		{
			for(auto& [n, l] : free)
				for(void* p : l)
					::operator delete(p);
		}
		void* take(size_t n)
		{
			auto& l = free[n];
			if(l.empty())
				return ::operator new(n);
			auto* p = l.back();
			l.pop_back();
			return p;
		}
		void give(void* p, size_t n) { free[n].push_back(p); }
	} spare;

	bool failed() const { return !fail_tag.empty(); }
	void fail(std::string tag, std::string msg)
	{
		if(failed())
			return;
		fail_tag = std::move(tag);
		fail_msg = std::move(msg);
		fail_step = step;
		note("!! VIOLATION [%s] %s", fail_tag.c_str(), fail_msg.c_str());
	}
	void h(uint64_t v) { hash = (hash ^ v) * 1099511628211ull + (v >> 32); }
	void hs(std::string const& s)
	{
		uint64_t x = 1469598103934665603ull;
		for(unsigned char c : s)
			x = (x ^ c) * 1099511628211ull;
		h(x);
	}
	void note(char const* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char buf[512];
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if(n < 0)
			return;
		uint64_t x = 1469598103934665603ull;
		for(char* q = buf; *q; q++)
			x = (x ^ static_cast<unsigned char>(*q)) * 1099511628211ull;
		h(x);
		if(verbose)
		{
			char pre[48];
			snprintf(pre, sizeof pre, "step %llu t=%llums ",
			         static_cast<unsigned long long>(step),
			         static_cast<unsigned long long>(now_ms));
			log.emplace_back(std::string(pre) + buf);
			if(log.size() > 20000)
				log.erase(log.begin(), log.begin() + 10000);
			if(getenv("SIM_TRACE"))
				fprintf(stderr, "%s\n", log.back().c_str());
		}
	}
	void fault(char const* k, uint64_t n = 1)
	{
		faults[k] += n;
		if(stats)
			stats->add(std::string("fault.") + k, n);
	}
	// Time passes: usually a little, now and then a lot, or the wall clock is
	// set.
	void tick(uint32_t upto)
	{
		now_ms += ch.n(upto);
		if(!ch.p(1, 64))
			return;
		switch(ch.n(3))
		{
		case 0:
			now_ms += ch.n(3600000);
			fault("stall");
			break;
		case 1:
			skew_ms += ch.p(1, 2) ? ch.n(86400000) : ch.n(3650) * 86400000ll;
			fault("clock_jump_forward");
			break;
		case 2:
			skew_ms -= ch.n(86400000);
			fault("clock_jump_backward");
			break;
		}
	}
	void op(char const* k, uint64_t n = 1)
	{
		progress += n;
		if(stats)
			stats->add(std::string("op.") + k, n);
	}
	void probe(char const* k, uint64_t n = 1)
	{
		if(stats)
			stats->add(std::string("probe.") + k, n);
	}
	void state(uint64_t s)
	{
		h(s);
		if(stats && stats->states.size() < 1000000)
			stats->states.insert(s);
	}
};

// A world runs one property's scenario. Returns when done or ctx.failed().
using WorldFn = void (*)(Ctx&);
struct WorldReg
{
	WorldReg(char const* prop, WorldFn fn);
};
WorldFn find_world(std::string const& prop);

} // namespace sim
