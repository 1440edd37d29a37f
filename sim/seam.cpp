#include "seam.hpp"
#include "core.hpp"
#include <atomic>
#include <cerrno>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace
{

std::atomic<sim::Ctx const*> ctx{nullptr};
std::atomic<uint64_t> reads{0};

int64_t now_ns(bool steady)
{
	reads++;
	auto* c = ctx.load();
	int64_t ms = c ? static_cast<int64_t>(c->now_ms) : 0;
	if(!steady)
		ms += 1700000000000 + (c ? c->skew_ms : 0);
	else
		ms += 86400000;
	return ms * 1000000;
}

bool is_steady(clockid_t id)
{
	return id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI;
}

} // namespace

namespace sim
{

void seam_start(Ctx const* c)
{
	ctx = c;
	reads = 0;
	srand(1);
	srandom(1);
}

uint64_t seam_reads() { return reads; }

double wall_seconds()
{
	timespec t{};
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}

} // namespace sim

extern "C"
{

time_t __wrap_time(time_t* out)
{
	auto const t = static_cast<time_t>(now_ns(false) / 1000000000);
	if(out)
		*out = t;
	return t;
}

int __wrap_clock_gettime(clockid_t id, timespec* t)
{
	auto const ns = now_ns(is_steady(id));
	t->tv_sec = ns / 1000000000;
	t->tv_nsec = ns % 1000000000;
	return 0;
}

int __wrap_gettimeofday(timeval* t, void*)
{
	auto const ns = now_ns(false);
	t->tv_sec = ns / 1000000000;
	t->tv_usec = ns % 1000000000 / 1000;
	return 0;
}

clock_t __wrap_clock() { return static_cast<clock_t>(now_ns(true) / 1000); }

// std::chrono::system_clock::now and steady_clock::now
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return now_ns(false); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return now_ns(true); }

// std::random_device
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*)
{
	return static_cast<unsigned>(sim::mix64(++reads) >> 20);
}
}
