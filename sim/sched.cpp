#include "sched.hpp"
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>

// Read before ThreadSanitizer is up, so it lives in an uninstrumented file.
extern "C" const char* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:second_deadlock_stack=0";
}

namespace
{
using namespace sim;

struct Shared
{
	void (*body)(void*);
	void** args;
	uint32_t n;
	Slice const* s;
	uint64_t ns;
	SchedResult* r;
	int turn[MAX_THREADS];
	bool done[MAX_THREADS];
	uint64_t budget[MAX_THREADS];
	uint32_t rr;
};
Shared g;

thread_local int me = -1;
thread_local uint64_t left = 0;
thread_local uint64_t ran = 0;
thread_local int depth = 0;

void wake(uint32_t t)
{
	__atomic_store_n(&g.turn[t], 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, &g.turn[t], FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void wait_turn(uint32_t t)
{
	while(!__atomic_load_n(&g.turn[t], __ATOMIC_ACQUIRE))
		syscall(SYS_futex, &g.turn[t], FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(&g.turn[t], 0, __ATOMIC_RELAXED);
	left = g.budget[t];
}
// Who runs next; -1 when all are done.
int pick()
{
	while(g.r->used < g.ns)
	{
		auto const& s = g.s[g.r->used++];
		auto w = s.who % g.n;
		if(g.done[w])
			continue;
		g.budget[w] = s.budget ? s.budget : 1;
		return static_cast<int>(w);
	}
	// The plan is over: everyone gets long turns.
	for(uint32_t k = 0; k < g.n; k++)
	{
		auto w = (g.rr + k) % g.n;
		if(!g.done[w])
		{
			g.rr = w + 1;
			g.budget[w] = 200000;
			return static_cast<int>(w);
		}
	}
	return -1;
}
void* entry(void* p)
{
	auto const i = static_cast<uint32_t>(reinterpret_cast<uintptr_t>(p));
	wait_turn(i);
	me = static_cast<int>(i);
	g.body(g.args[i]);
	me = -1;
	g.r->edges[i] = ran;
	g.done[i] = true;
	int n = pick();
	if(n >= 0)
		wake(static_cast<uint32_t>(n));
	return nullptr;
}
} // namespace

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
	if(me < 0)
		return;
	ran++;
	if(left > 1)
	{
		left--;
		return;
	}
	if(depth > 0)
	{
		if(left == 1)
		{
			g.r->locks_held++;
			left = 0;
		}
		return;
	}
	auto const i = static_cast<uint32_t>(me);
	int n = pick();
	if(n < 0 || n == me)
	{
		left = g.budget[i];
		return;
	}
	g.r->switches++;
	wake(static_cast<uint32_t>(n));
	wait_turn(i);
}

// A thread holding a lock is never parked: what a lock protects is atomic.
extern "C"
{
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	int r = __real_pthread_mutex_lock(m);
	depth += r == 0;
	return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	int r = __real_pthread_mutex_trylock(m);
	depth += r == 0;
	return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	depth--;
	return __real_pthread_mutex_unlock(m);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	int r = __real_pthread_rwlock_rdlock(m);
	depth += r == 0;
	return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	int r = __real_pthread_rwlock_wrlock(m);
	depth += r == 0;
	return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	depth--;
	return __real_pthread_rwlock_unlock(m);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
	depth++;
	int r = __real_pthread_once(o, f);
	depth--;
	return r;
}
int __wrap___cxa_guard_acquire(uint64_t* p)
{
	int r = __real___cxa_guard_acquire(p);
	depth += r != 0;
	return r;
}
void __wrap___cxa_guard_release(uint64_t* p)
{
	__real___cxa_guard_release(p);
	depth--;
}
void __wrap___cxa_guard_abort(uint64_t* p)
{
	__real___cxa_guard_abort(p);
	depth--;
}
}

namespace sim
{

void sched_run(void (*body)(void*), void** args, uint32_t n, Slice const* s, uint64_t ns, SchedResult* r)
{
	g = Shared{};
	g.body = body;
	g.args = args;
	g.n = n;
	g.s = s;
	g.ns = ns;
	g.r = r;
	pthread_t t[MAX_THREADS];
	for(uint32_t i = 0; i < n; i++)
		pthread_create(&t[i], nullptr, entry, reinterpret_cast<void*>(static_cast<uintptr_t>(i)));
	int f = pick();
	wake(static_cast<uint32_t>(f));
	for(uint32_t i = 0; i < n; i++)
		pthread_join(t[i], nullptr);
}

} // namespace sim
