// Runner: executes simulated runs (seeded or replayed) and minimises failures.
#include "core.hpp"
#include "seam.hpp"
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_"
	       "null=1:hard_rss_limit_mb=6000:max_malloc_fill_size=1048576:"
	       "detect_stack_use_after_return=1:handle_abort=0:print_legend=0:quarantine_size_mb=8:strict_init_order=0";
}
extern "C" const char* __ubsan_default_options()
{
	return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}
#endif

namespace sim
{
static std::map<std::string, WorldFn>& worlds()
{
	static std::map<std::string, WorldFn> w;
	return w;
}
WorldReg::WorldReg(char const* prop, WorldFn fn) { worlds()[prop] = fn; }
WorldFn find_world(std::string const& prop)
{
	auto it = worlds().find(prop);
	return it == worlds().end() ? nullptr : it->second;
}
} // namespace sim

namespace
{
using namespace sim;

unsigned g_cpu_limit_s = 20;

void on_prof(int)
{
	static char const m[] = "SIM-HANG: run exceeded its CPU limit\n";
	if(write(2, m, sizeof m - 1)) {}
	_exit(12);
}

void arm(unsigned s)
{
	itimerval it{};
	it.it_value.tv_sec = s;
	setitimer(ITIMER_PROF, &it, nullptr);
}

std::string esc(std::string const& s)
{
	std::string o;
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\')
		{
			o += '\\';
			o += static_cast<char>(c);
		}
		else if(c < 32 || c > 126)
		{
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else
			o += static_cast<char>(c);
	}
	return o;
}

void write_trace(std::ostream& os, Trace const& t)
{
	for(auto& s : t)
	{
		os << s.size();
		for(auto v : s)
			os << ' ' << v;
		os << '\n';
	}
}

bool read_trace(std::istream& is, Trace& t)
{
	std::string line;
	while(std::getline(is, line))
	{
		if(line.empty() || line[0] == '#')
			continue;
		std::istringstream ss(line);
		size_t n;
		if(!(ss >> n))
			return false;
		std::vector<uint32_t> v(n);
		for(auto& x : v)
			if(!(ss >> x))
				return false;
		t.push_back(std::move(v));
	}
	return !t.empty();
}

struct Outcome
{
	std::string tag, msg;
	uint64_t hash = 0;
	Trace trace;
	std::vector<std::string> log;
	std::map<std::string, uint64_t> faults;
	uint64_t progress = 0, now_ms = 0, steps = 0;
};

Outcome run_one(std::string const& prop, bool thorough, uint64_t seed,
                Trace const* replay, Stats* stats, bool verbose)
{
	Ctx c;
	c.prop = prop;
	c.thorough = thorough;
	c.stats = stats;
	c.verbose = verbose;
	if(replay)
		c.ch.start_replay(replay);
	else
		c.ch.start_seeded(seed);
	c.ch.next_step();
	arm(g_cpu_limit_s);
	seam_start(&c);
	find_world(prop)(c);
	if(seam_reads())
		c.probe("clock_reads", seam_reads());
	seam_start(nullptr);
	arm(0);
	Outcome o;
	o.tag = c.fail_tag;
	o.msg = c.fail_msg;
	o.hash = c.hash;
	o.trace = c.ch.recorded();
	o.log = std::move(c.log);
	o.faults = c.faults;
	o.progress = c.progress;
	o.now_ms = c.now_ms;
	o.steps = c.step;
	if(stats)
		stats->sim_ms += c.now_ms;
	return o;
}

void print_outcome(std::ostream& os, Outcome const& o)
{
	os << "{\"tag\":\"" << esc(o.tag) << "\",\"msg\":\"" << esc(o.msg)
	   << "\",\"hash\":\"" << std::hex << o.hash << std::dec
	   << "\",\"steps\":" << o.steps << ",\"sim_ms\":" << o.now_ms << "}\n";
}

// Run one trace in a forked child; returns the violation class ("" = none).
std::string classify(std::string const& prop, bool thorough, Trace const& t)
{
	int fds[2];
	if(pipe(fds))
		return "?";
	pid_t pid = fork();
	if(pid == 0)
	{
		close(fds[0]);
		int dn = open("/dev/null", O_WRONLY);
		dup2(dn, 2);
		dup2(dn, 1);
		auto o = run_one(prop, thorough, 0, &t, nullptr, false);
		if(write(fds[1], o.tag.data(), o.tag.size())) {}
		_exit(0);
	}
	close(fds[1]);
	std::string tag;
	char b[256];
	ssize_t r;
	while((r = read(fds[0], b, sizeof b)) > 0)
		tag.append(b, static_cast<size_t>(r));
	close(fds[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return tag;
	if(WIFEXITED(st) && WEXITSTATUS(st) == 12)
		return "hang";
	return "crash";
}

int cmd_minimise(std::string const& prop, bool thorough, std::string in,
                 std::string out, double budget_s)
{
	std::ifstream f(in);
	Trace t;
	if(!read_trace(f, t))
		return 3;
	auto t0 = wall_seconds();
	auto left = [&]
	{
		return budget_s - (wall_seconds() - t0);
	};
	std::string want = classify(prop, thorough, t);
	if(want.empty())
		return 4;
	size_t evals = 1;
	auto same = [&](Trace const& c)
	{
		evals++;
		return classify(prop, thorough, c) == want;
	};
	if(want != "hang")
	{
		bool progress = true;
		while(progress && left() > 0)
		{
			progress = false;
			// 1. Drop chunks of steps (never the configuration step 0).
			for(size_t chunk = (t.size() - 1 + 1) / 2; chunk >= 1 && left() > 0;)
			{
				bool any = false;
				for(size_t at = 1; at < t.size() && left() > 0;)
				{
					Trace c(t.begin(), t.begin() + at);
					size_t e = std::min(at + chunk, t.size());
					c.insert(c.end(), t.begin() + e, t.end());
					if(same(c))
					{
						t = std::move(c);
						any = progress = true;
					}
					else
						at += chunk;
				}
				if(chunk == 1)
				{
					if(!any)
						break;
				}
				else
					chunk = (chunk + 1) / 2;
				if(chunk == 1 && t.size() > 400)
					break;
			}
			// 2. Simplify draws.
			for(size_t s = t.size(); s-- > 0 && left() > 0;)
			{
				for(size_t i = t[s].size(); i-- > 0 && left() > 0;)
				{
					auto v = t[s][i];
					if(v == 0)
						continue;
					for(uint32_t nv : {0u, 1u, v / 2, v - 1})
					{
						if(nv >= v || left() <= 0)
							continue;
						Trace c = t;
						c[s][i] = nv;
						if(same(c))
						{
							t = std::move(c);
							progress = true;
							break;
						}
					}
				}
				// trailing draws that default to zero
				while(!t[s].empty() && t[s].back() == 0)
					t[s].pop_back();
			}
		}
	}
	std::ofstream o(out);
	o << "# minimised class=" << want << " evaluations=" << evals << "\n";
	write_trace(o, t);
	return 0;
}

} // namespace

int main(int argc, char** argv)
{
	std::map<std::string, std::string> a;
	for(int i = 2; i + 1 < argc; i += 2)
		a[argv[i]] = argv[i + 1];
	std::string cmd = argc > 1 ? argv[1] : "";
	std::string prop = a["--prop"];
	bool thorough = a["--tier"] == "thorough";
	struct sigaction sa{};
	sa.sa_handler = on_prof;
	sigaction(SIGPROF, &sa, nullptr);
	if(!find_world(prop))
	{
		fprintf(stderr, "no world for %s\n", prop.c_str());
		return 3;
	}
	if(cmd == "isolated")
	{
		// Every seed in a process of its own: nothing carries over.
		uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
		uint64_t stride = strtoull(a["--stride"].c_str(), nullptr, 10);
		double secs = atof(a["--time"].c_str());
		auto t0 = wall_seconds();
		uint64_t runs = 0;
		for(uint64_t seed = base;; seed += stride ? stride : 1)
		{
			fflush(nullptr);
			pid_t pid = fork();
			if(pid == 0)
			{
				int dn = open("/dev/null", O_WRONLY);
				dup2(dn, 2);
				dup2(dn, 1);
				auto o = run_one(prop, thorough, seed, nullptr, nullptr, false);
				_exit(o.tag.empty() ? 0 : 10);
			}
			int st = 0;
			waitpid(pid, &st, 0);
			runs++;
			if(!WIFEXITED(st) || WEXITSTATUS(st) != 0)
			{
				printf("V %llu {}\n", (unsigned long long)seed);
				break;
			}
			if((wall_seconds() - t0) >= secs)
				break;
		}
		printf("I %llu\n", (unsigned long long)runs);
		return 0;
	}
	if(cmd == "run")
	{
		// Runs seeds base, base+stride, ... until time or count runs out.
		uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
		uint64_t stride = strtoull(a["--stride"].c_str(), nullptr, 10);
		uint64_t count = strtoull(a["--count"].c_str(), nullptr, 10);
		double secs = atof(a["--time"].c_str());
		uint64_t dup = a.count("--dup") ? strtoull(a["--dup"].c_str(), 0, 10) : 0;
		bool hashes = a.count("--hashes");
		if(stride == 0)
			stride = 1;
		int pfd = -1;
		uint64_t* prog = nullptr;
		if(a.count("--progress"))
		{
			pfd = open(a["--progress"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
			if(pfd < 0 || ftruncate(pfd, 16))
				return 3;
			prog = static_cast<uint64_t*>(
				mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, pfd, 0));
		}
		Stats st;
		auto t0 = wall_seconds();
		uint64_t runs = 0, nontrivial = 0, dups = 0;
		std::unordered_set<uint64_t> distinct;
		uint64_t with_faults = 0;
		for(uint64_t i = 0; count == 0 || i < count; i++)
		{
			uint64_t seed = base + i * stride;
			if(prog)
			{
				prog[0] = seed;
				prog[1] = 1;
			}
			auto o = run_one(prop, thorough, seed, nullptr, &st, false);
			runs++;
			if(o.progress >= 5)
			{
				nontrivial++;
				if(distinct.size() < 1000000)
					distinct.insert(o.hash);
			}
			with_faults += !o.faults.empty();
			if(hashes)
				printf("H %llu %llx\n", (unsigned long long)seed,
				       (unsigned long long)o.hash);
			if(!o.tag.empty())
			{
				printf("V %llu ", (unsigned long long)seed);
				std::ostringstream ss;
				print_outcome(ss, o);
				printf("%s", ss.str().c_str());
				break;
			}
			if(i < dup)
			{
				auto o2 = run_one(prop, thorough, seed, nullptr, nullptr, false);
				auto o3 = run_one(prop, thorough, 0, &o.trace, nullptr, false);
				dups++;
				if(o2.hash != o.hash || o3.hash != o.hash)
				{
					printf("N %llu %llx %llx %llx\n", (unsigned long long)seed,
					       (unsigned long long)o.hash, (unsigned long long)o2.hash,
					       (unsigned long long)o3.hash);
				}
			}
			double el = (wall_seconds() - t0);
			if(secs > 0 && el >= secs)
				break;
		}
		if(prog)
			prog[1] = 0;
		double el = (wall_seconds() - t0);
		printf("S {\"runs\":%llu,\"nontrivial\":%llu,\"with_faults\":%llu,\"dups\":%llu,\"elapsed\":%.3f,"
		       "\"sim_ms\":%llu,\"states\":%llu,\"counters\":{",
		       (unsigned long long)runs, (unsigned long long)nontrivial,
		       (unsigned long long)with_faults, (unsigned long long)dups, el,
		       (unsigned long long)st.sim_ms,
		       (unsigned long long)st.states.size());
		bool first = true;
		for(auto& [k, v] : st.c)
		{
			printf("%s\"%s\":%llu", first ? "" : ",", esc(k).c_str(),
			       (unsigned long long)v);
			first = false;
		}
		printf("}}\n");
		if(a.count("--states-out"))
		{
			std::ofstream f(a["--states-out"], std::ios::binary);
			for(auto s : st.states)
				f.write(reinterpret_cast<char const*>(&s), 8);
			std::ofstream g(a["--states-out"] + ".h", std::ios::binary);
			for(auto s : distinct)
				g.write(reinterpret_cast<char const*>(&s), 8);
		}
		return 0;
	}
	if(cmd == "trace") // write the trace of a seed (without running to the end
	                   // if it crashes, the caller re-records step by step)
	{
		// A crash loses in-memory draws, so record through a shared mapping.
		uint64_t seed = strtoull(a["--seed"].c_str(), nullptr, 10);
		size_t const cap = 512u << 20;
		auto* mem = static_cast<uint32_t*>(mmap(nullptr, cap,
		                                        PROT_READ | PROT_WRITE,
		                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		pid_t pid = fork();
		if(pid == 0)
		{
			int dn = open("/dev/null", O_WRONLY);
			dup2(dn, 2);
			Ctx c;
			c.prop = prop;
			c.thorough = thorough;
			c.ch.start_seeded(seed);
			c.ch.next_step();
			arm(g_cpu_limit_s);
			struct Flush
			{
				static Choices*& ch()
				{
					static Choices* c;
					return c;
				}
				static uint32_t*& m()
				{
					static uint32_t* p;
					return p;
				}
				static void dump()
				{
					if(!ch())
						return;
					uint32_t* p = m() + 1;
					auto const& t = ch()->recorded();
					for(auto const& s : t)
					{
						*p++ = static_cast<uint32_t>(s.size());
						for(auto v : s)
							*p++ = v;
					}
					m()[0] = static_cast<uint32_t>(t.size());
					ch() = nullptr;
				}
				static void sig(int)
				{
					dump();
					_exit(77);
				}
			};
			Flush::ch() = &c.ch;
			Flush::m() = mem;
			signal(SIGABRT, Flush::sig);
			signal(SIGILL, Flush::sig);
			signal(SIGTRAP, Flush::sig);
			signal(SIGPROF, Flush::sig);
			signal(SIGSEGV, Flush::sig);
			atexit(Flush::dump);
#if __has_feature(address_sanitizer)
			extern void set_death_cb(void (*)());
			set_death_cb(Flush::dump);
#elif __has_feature(thread_sanitizer)
			extern void set_death_cb(void (*)());
			set_death_cb(Flush::dump);
#endif
			find_world(prop)(c);
			Flush::dump();
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		uint32_t n = mem[0];
		if(n == 0)
			return 5;
		Trace t;
		uint32_t* p = mem + 1;
		for(uint32_t i = 0; i < n; i++)
		{
			uint32_t k = *p++;
			t.emplace_back(p, p + k);
			p += k;
		}
		std::ofstream f(a["--out"]);
		f << "# seed " << seed << "\n";
		write_trace(f, t);
		return 0;
	}
	if(cmd == "minimise")
		return cmd_minimise(prop, thorough, a["--in"], a["--out"],
		                    atof(a["--time"].c_str()));
	if(cmd == "replay")
	{
		std::ifstream f(a["--in"]);
		Trace t;
		if(!read_trace(f, t))
			return 3;
		auto o = run_one(prop, thorough, 0, &t, nullptr, true);
		if(!a.count("--quiet"))
			for(auto& l : o.log)
				printf("L %s\n", l.c_str());
		std::ostringstream ss;
		print_outcome(ss, o);
		printf("R %s", ss.str().c_str());
		return o.tag.empty() ? 0 : 10;
	}
	fprintf(stderr, "usage: run|trace|minimise|replay ...\n");
	return 3;
}
