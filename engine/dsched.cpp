// The scheduler behind dsched.h; see there.
#include "dsched.h"

#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <deque>
#include <map>
#include <vector>

extern "C" int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
extern "C" int __interceptor_pthread_join(pthread_t, void**);

namespace pbt
{
	extern Src* current_src;
	extern Ctx* current_ctx;
	extern void (*case_setup)();
	extern void (*case_teardown)();
	extern void (*case_services)();
	[[noreturn]] void report_and_exit(const std::string& tag, const std::string& msg);
}

namespace
{
	const uint64_t Never = ~0ull;
	const size_t MaxKeys = 256;
	const unsigned KeyBase = 1000000;

	struct ThreadState;
	__thread ThreadState* t_self = NULL;

	enum Wait { Ready, OnMutex, OnCond, OnSem, OnSleep, OnJoin, OnOnce, OnPred, OnQuiet, Finished };
	const char* const waitNames[] = { "ready", "mutex", "condition", "semaphore", "sleep", "join", "once", "predicate", "quiescence", "finished" };

	struct ThreadState
	{
		int				id;
		int				go;				// futex
		Wait			wait;
		void*			object;
		pthread_mutex_t*	condMutex;
		uint64_t		deadline;
		bool			timedOut;
		bool			joined, detached;
		pthread_t		handle;
		void*			(*func)(void*);
		void*			arg;
		void*			result;
		const std::function<bool ()>*	pred;
		void*			specific[MaxKeys];
		int				noPreempt;
		bool			dying;
		bool			service;
	};

	struct Key { bool used; void (*dtor)(void*); };

	// used before and after the life of statics, so no constructors or destructors
	template < typename T >
	struct Lazy
	{
		T*	p;
		T& operator * () { if (!p) p = new T; return *p; }
		T* operator -> () { return &**this; }
	};
	Lazy<std::vector<ThreadState*> >	g_threadsPtr;	// [0] is the main one; only unfinished or not yet joined ones
#define g_threads (*g_threadsPtr)
	int				g_nextId = 1;
	void			(*g_services)();
	ThreadState		g_main;
	Key				g_keys[MaxKeys];
	bool			g_ready = false;				// after the construction of statics began; keys created before belong to the runtime
	bool			g_inside = false;				// scheduler code is running
	bool			g_preempt = false;				// preemptions are generated
	bool			g_plain = false;				// plain accesses are places for preemption, too
	bool			g_spurious = false, g_jumps = false;
	uint64_t		g_countdown = Never;
	uint64_t		g_now = 1000ull * 1000000000ull;	// virtual monotonic clock
	uint64_t		g_ticks = 0, g_grain = 1;
	const uint64_t	g_realBase = 1577880000ull * 1000000000ull - 1000ull * 1000000000ull;	// 2020-01-01 12:00 UTC
	uint64_t		g_points = 0, g_sinceSwitch = 0, g_switches = 0, g_preemptions = 0, g_start = 0;
	bool			g_drop = false;
	Lazy<std::deque<std::string> >	g_eventsPtr;
#define g_events (*g_eventsPtr)

	struct Inside
	{
		bool old;
		Inside() : old(g_inside) { g_inside = true; }
		~Inside() { g_inside = old; }
	};

	ThreadState* self()
	{
		if (!t_self)
		{
			// the main thread, possibly of a forked child
			t_self = &g_main;
			g_main.wait = Ready;
			if (g_threads.empty())
				g_threads.push_back(&g_main);
		}
		return t_self;
	}

	int futex(int* a, int op, int v) { return (int)syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, NULL, NULL, 0); }

	void note(const std::string& s)
	{
		if (!pbt::current_ctx || !pbt::current_ctx->verbose)
			return;
		g_events.push_back(s);
		if (g_events.size() > 400)
		{
			g_events.pop_front();
			g_drop = true;
		}
	}

	std::string describe()
	{
		std::string r;
		for (ThreadState* t : g_threads)
		{
			if (t->wait == Finished)
				continue;
			char b[160];
			snprintf(b, sizeof(b), "thread %d: %s%s", t->id, t->wait == Ready ? "" : "waits on ", waitNames[t->wait]);
			r += b;
			if (t->wait == OnMutex)
			{
				const int owner = ((pthread_mutex_t*)t->object)->__data.__owner;
				snprintf(b, sizeof(b), " held by thread %d", owner - 1);
				r += b;
			}
			if (t->wait == OnJoin)
			{
				snprintf(b, sizeof(b), " of thread %d", ((ThreadState*)t->object)->id);
				r += b;
			}
			r += "; ";
		}
		return r;
	}

	[[noreturn]] void violation(const std::string& tag, const std::string& msg)
	{
		g_inside = true;
		pbt::report_and_exit(tag, msg);
	}

	bool can_run(ThreadState* t)
	{
		switch (t->wait)
		{
		case Ready:		return true;
		case OnMutex:	return ((pthread_mutex_t*)t->object)->__data.__owner == 0 || t->deadline <= g_now;
		case OnCond:	return t->deadline <= g_now;
		case OnSem:		return *(int*)t->object > 0 || t->deadline <= g_now;
		case OnSleep:	return t->deadline <= g_now;
		case OnJoin:	return ((ThreadState*)t->object)->wait == Finished;
		case OnOnce:	return *(char*)t->object != 1;
		case OnPred:	return (*t->pred)();
		case OnQuiet:	return false;
		case Finished:	return false;
		}
		return false;
	}

	void draw_countdown()
	{
		g_countdown = Never;
		if (!g_preempt || g_preemptions >= 60)
			return;
		pbt::Src& s = *pbt::current_src;
		uint64_t k;
		if (g_plain)
		{
			k = s.draw(12);
			if (k == 0) return;
			g_countdown = 1 + (k <= 2 ? s.draw(8) : k <= 4 ? s.draw(64) : k <= 8 ? s.draw(512) : s.draw(4096));
		}
		else
		{
			k = s.draw(10);
			if (k == 0) return;
			g_countdown = 1 + (k <= 3 ? s.draw(4) : k <= 6 ? s.draw(16) : s.draw(k == 7 ? 300 : 64));
		}
	}

	// wakes a condition waiter: from now on it competes for its mutex
	void wake_cond(ThreadState* t, bool timedOut)
	{
		t->timedOut = timedOut;
		t->wait = OnMutex;
		t->object = t->condMutex;
		t->deadline = Never;
	}

	// picks the thread to run next; preempted: the current thread could go on, but shall not if somebody else can run
	ThreadState* pick(ThreadState* me, bool preempted)
	{
		for (;;)
		{
			ThreadState* run[64];
			size_t n = 0, start = 0;
			ThreadState *timed = NULL, *quiet = NULL, *cond = NULL;
			const size_t total = g_threads.size();
			for (size_t i = 0; i < total; ++i)
				if (g_threads[i] == me)
					start = i;
			for (size_t k = 1; k <= total; ++k)		// round robin beginning after the current one
			{
				ThreadState* t = g_threads[(start + k) % total];
				if (t->wait == Finished)
					continue;
				if (t->wait == OnQuiet)
					quiet = t;
				if (t->wait == OnCond)
					cond = t;
				if (t == me && preempted)
					continue;
				if (n < 64 && can_run(t))
					run[n++] = t;
				else if (t->wait != Ready && t->deadline != Never && t->deadline > g_now && (!timed || t->deadline < timed->deadline))
					timed = t;
			}

			pbt::Src* s = g_preempt ? pbt::current_src : NULL;
			if (n)
			{
				uint64_t alts = n;
				const bool jump = s && g_jumps && timed && timed->deadline - g_now < 3600ull * 1000000000ull;
				const bool spur = s && g_spurious && cond;
				uint64_t k = s ? s->draw(alts * 8 + (jump ? alts : 0) + (spur ? alts : 0)) : 0;
				if (k < alts * 8)
					return run[k % alts];
				k -= alts * 8;
				if (jump && k < alts)
				{
					g_now = timed->deadline;
					note("time passes");
					continue;
				}
				wake_cond(cond, false);
				note("spurious wakeup of thread " + std::to_string(cond->id));
				continue;
			}
			if (preempted)
				return me;
			if (quiet)
				return quiet;
			if (timed)
			{
				g_now = timed->deadline;
				if (g_now - g_start > 4000000ull * 1000000000ull)
					violation("deadlock", "nobody ever wakes up: " + describe());
				continue;
			}
			violation("deadlock", "deadlock: " + describe());
		}
	}

	void hand_over(ThreadState* to)
	{
		__atomic_store_n(&to->go, 1, __ATOMIC_RELEASE);
		futex(&to->go, FUTEX_WAKE, 1);
	}

	void sleep_until_chosen(ThreadState* me)
	{
		while (__atomic_load_n(&me->go, __ATOMIC_ACQUIRE) == 0)
			futex(&me->go, FUTEX_WAIT, 0);
		__atomic_store_n(&me->go, 0, __ATOMIC_RELAXED);
	}

	// switches to another thread; me->wait tells when it may come back
	void reschedule(ThreadState* me, bool preempted, const char* why)
	{
		ThreadState* next = pick(me, preempted);
		if (next != me)
		{
			++g_switches;
			g_sinceSwitch = 0;
			if (pbt::current_ctx && pbt::current_ctx->verbose)
				note("thread " + std::to_string(me->id) + (preempted ? " preempted at " : " blocks on ") + why + ", thread " + std::to_string(next->id) + " runs");
			hand_over(next);
			sleep_until_chosen(me);
		}
		g_inside = true;
	}

	void block(ThreadState* me, Wait w, void* object, uint64_t deadline)
	{
		Inside in;
		me->wait = w;
		me->object = object;
		me->deadline = deadline;
		reschedule(me, false, waitNames[w]);
		me->deadline = Never;
	}

	void preempt(ThreadState* me, const char* what)
	{
		Inside in;
		++g_preemptions;
		draw_countdown();
		reschedule(me, true, what);
	}

	void sync_point(const char* what)
	{
		if (g_inside)
			return;
		g_now += 1000;
		g_ticks += 1000;
		ThreadState* me = self();
		if (++g_points > 600000 && !me->noPreempt)
		{
			Inside in;
			violation("livelock", "no end in sight after hundreds of thousands of steps: " + describe());
		}
		if (++g_sinceSwitch > 30000 && g_threads.size() > 1 && !me->noPreempt)
		{
			Inside in;
			g_sinceSwitch = 0;
			reschedule(me, true, "fairness");
			return;
		}
		if (!g_preempt || me->noPreempt)
			return;
		if (g_countdown != Never && --g_countdown == 0)
			preempt(me, what);
	}

	inline void plain_point()
	{
		if (!g_plain || g_inside || g_countdown == Never)
			return;
		ThreadState* me = t_self;
		if (!me || me->noPreempt)
			return;
		if (--g_countdown == 0)
			preempt(me, "an access");
	}

	bool recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

	int lock_mutex(pthread_mutex_t* m, bool mayBlock, uint64_t deadline)
	{
		sync_point("mutex lock");
		ThreadState* me = self();
		for (;;)
		{
			if (m->__data.__owner == 0)
			{
				m->__data.__owner = me->id + 1;
				m->__data.__count = 1;
				return 0;
			}
			if (m->__data.__owner == me->id + 1 && recursive(m))
			{
				++m->__data.__count;
				return 0;
			}
			if (!mayBlock)
				return EBUSY;
			block(me, OnMutex, m, deadline);
			me->wait = Ready;
			if (m->__data.__owner != 0 && deadline <= g_now)
				return ETIMEDOUT;
		}
	}

	int unlock_mutex(pthread_mutex_t* m)
	{
		ThreadState* me = self();
		if (m->__data.__owner != me->id + 1)
			return EPERM;
		if (--m->__data.__count == 0)
			m->__data.__owner = 0;
		sync_point("mutex unlock");
		return 0;
	}

	uint64_t to_ns(const timespec* t, int clock)
	{
		const uint64_t v = t->tv_sec < 0 ? 0 : (uint64_t)t->tv_sec > 9000000000ull ? 9000000000ull * 1000000000ull : (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec;
		if (clock == CLOCK_REALTIME)
			return v < g_realBase ? 0 : v - g_realBase;
		return v;
	}

	int wait_cond(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
	{
		ThreadState* me = self();
		if (m->__data.__owner != me->id + 1)
			violation("cond-unlocked", "condition wait without the mutex");
		sync_point("condition wait");
		const unsigned count = m->__data.__count;
		m->__data.__owner = 0;
		m->__data.__count = 0;
		me->condMutex = m;
		me->timedOut = false;
		{
			Inside in;
			me->wait = OnCond;
			me->object = c;
			me->deadline = deadline;
			for (;;)
			{
				reschedule(me, false, "condition");
				if (me->wait == OnCond)		// chosen because of its deadline
					wake_cond(me, true);
				if (m->__data.__owner == 0)
					break;
			}
			me->deadline = Never;
			me->wait = Ready;
			m->__data.__owner = me->id + 1;
			m->__data.__count = count;
		}
		return me->timedOut ? ETIMEDOUT : 0;
	}

	void run_destructors(ThreadState* me)
	{
		for (int round = 0; round < 4; ++round)
		{
			bool any = false;
			for (size_t k = 0; k < MaxKeys; ++k)
				if (g_keys[k].used && g_keys[k].dtor && me->specific[k])
				{
					void* v = me->specific[k];
					me->specific[k] = NULL;
					any = true;
					g_keys[k].dtor(v);
				}
			if (!any)
				break;
		}
	}

	void* trampoline(void* p)
	{
		ThreadState* me = (ThreadState*)p;
		sleep_until_chosen(me);
		t_self = me;
		g_inside = false;
		me->result = me->func(me->arg);
		run_destructors(me);
		g_inside = true;
		me->wait = Finished;
		note("thread " + std::to_string(me->id) + " finished");
		void* const result = me->result;
		ThreadState* next = pick(me, false);
		++g_switches;
		g_sinceSwitch = 0;
		t_self = NULL;
		const bool detached = me->detached;
		if (detached)
			for (size_t i = 0; i < g_threads.size(); ++i)
				if (g_threads[i] == me)
				{
					g_threads.erase(g_threads.begin() + i);
					break;
				}
		hand_over(next);
		return result;
	}

	void setup()
	{
		static bool pinned = false;
		if (!pinned)
		{
			pinned = true;
			cpu_set_t set;
			CPU_ZERO(&set);
			if (sched_getaffinity(0, sizeof(set), &set) == 0)
			{
				int n = CPU_COUNT(&set), k = n ? getpid() % n : 0;
				for (int i = 0; i < CPU_SETSIZE; ++i)
					if (CPU_ISSET(i, &set) && k-- == 0)
					{
						cpu_set_t one;
						CPU_ZERO(&one);
						CPU_SET(i, &one);
						sched_setaffinity(0, sizeof(one), &one);
						break;
					}
			}
		}
		self();
		g_nextId = 1;
		g_main.noPreempt = 0;
		g_preempt = g_plain = false;
		g_countdown = Never;
		g_points = g_sinceSwitch = g_switches = g_preemptions = 0;
		g_now = 1000ull * 1000000000ull;
		g_ticks = 0;
		g_grain = 1;
		g_start = g_now;
		g_events.clear();
		g_drop = false;
	}

	size_t unfinished()
	{
		size_t r = 0;
		for (size_t i = 1; i < g_threads.size(); ++i)
			if (g_threads[i]->wait != Finished && !g_threads[i]->service)
				++r;
		return r;
	}

	// the service threads have nothing to do
	bool idle()
	{
		for (size_t i = 1; i < g_threads.size(); ++i)
			if (g_threads[i]->service && (g_threads[i]->wait == Ready || g_threads[i]->deadline != Never))
				return false;
		return true;
	}

	void teardown()
	{
		g_preempt = g_plain = false;
		g_countdown = Never;
		const std::function<bool ()> done = [] { return unfinished() == 0 && idle(); };
		sched::wait_until(done);
	}

	void services()
	{
		static bool done = false;
		if (done || !g_services)
			return;
		done = true;
		setup();
		g_services();
		for (size_t i = 1; i < g_threads.size(); ++i)
		{
			g_threads[i]->service = true;
			g_threads[i]->id = 90 + (int)i;
		}
		teardown();
	}

	__attribute__((constructor(101))) void init()
	{
		g_ready = true;
		pbt::case_setup = &setup;
		pbt::case_teardown = &teardown;
		pbt::case_services = &services;
	}
}


namespace pbt
{
	std::string schedule_trace()
	{
		std::string r;
		if (g_drop) r += "...\n";
		for (const std::string& e : g_events) r += e + "\n";
		return r;
	}
}


namespace sched
{
	Services::Services(void (*f)()) { g_services = f; }
	void start(pbt::Src& s, const Mode& mode)
	{
		Inside in;
		g_spurious = mode.spurious;
		g_jumps = mode.jumps;
		g_grain = mode.grain;
		g_plain = s.draw(3) == 2;
		g_preempt = true;
		draw_countdown();
	}
	void stop() { g_preempt = g_plain = false; g_countdown = Never; }
	void point(const char* what) { sync_point(what); }
	void wait_until(const std::function<bool ()>& pred)
	{
		ThreadState* me = ::self();
		for (;;)
		{
			{
				Inside in;
				if (pred())
					return;
			}
			me->pred = &pred;
			block(me, OnPred, NULL, Never);
			me->wait = Ready;
		}
	}
	void settle()
	{
		ThreadState* me = ::self();
		block(me, OnQuiet, NULL, Never);
		me->wait = Ready;
	}
	void sleep_ns(uint64_t ns)
	{
		ThreadState* me = ::self();
		block(me, OnSleep, NULL, g_now + ns);
		me->wait = Ready;
	}
	uint64_t now_ns() { return g_now; }
	uint64_t clock_ns() { return g_now - g_now % g_grain; }
	uint64_t ticks_ns() { return g_ticks; }
	int self() { return ::self()->id; }
	size_t live() { return unfinished(); }
	void event(const std::string& s) { Inside in; note("thread " + std::to_string(::self()->id) + ": " + s); }
	size_t switches() { return g_switches; }
	size_t preemptions() { return g_preemptions; }
	NoPreempt::NoPreempt() { ++::self()->noPreempt; }
	NoPreempt::~NoPreempt() { --::self()->noPreempt; }

	struct Thread::Impl
	{
		std::function<void ()>	func;
		pthread_t				handle;
		static void* run(void* p) { ((Impl*)p)->func(); return NULL; }
	};
	Thread::Thread(const std::function<void ()>& f) : _impl(new Impl{ f, pthread_t() })
	{ pthread_create(&_impl->handle, NULL, &Impl::run, _impl.get()); }
	void Thread::join()
	{
		if (!_impl) return;
		pthread_join(_impl->handle, NULL);
		_impl.reset();
	}
}


extern "C"
{
	void pbt_sync_point() { if (g_ready) sync_point("an atomic operation"); }

	void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) { }
	void __sanitizer_cov_trace_pc_guard(uint32_t* guard) { plain_point(); }
#define PBT_ACCESS(N) \
	void __sanitizer_cov_load##N(void*) { plain_point(); } \
	void __sanitizer_cov_store##N(void*) { plain_point(); }
	PBT_ACCESS(1) PBT_ACCESS(2) PBT_ACCESS(4) PBT_ACCESS(8) PBT_ACCESS(16)

	int pthread_create(pthread_t* handle, const pthread_attr_t* attr, void* (*func)(void*), void* arg)
	{
		if (!g_ready)
			return __interceptor_pthread_create(handle, attr, func, arg);
		sync_point("thread creation");
		ThreadState* me = self();
		ThreadState* t = (ThreadState*)calloc(1, sizeof(ThreadState));
		{
			Inside in;
			t->id = g_nextId++;
			t->wait = Ready;
			t->deadline = Never;
			t->func = func;
			t->arg = arg;
			if (attr)
			{
				int state = 0;
				pthread_attr_getdetachstate(attr, &state);
				t->detached = state == PTHREAD_CREATE_DETACHED;
			}
			if (g_threads.size() > 60)
				violation("threads", "too many threads");
			const int r = __interceptor_pthread_create(&t->handle, attr, &trampoline, t);
			if (r)
			{
				free(t);
				return r;
			}
			*handle = t->handle;
			g_threads.push_back(t);
		}
		(void)me;
		sync_point("thread creation");
		return 0;
	}

	static ThreadState* by_handle(pthread_t h)
	{
		for (ThreadState* t : g_threads)
			if (t != &g_main && pthread_equal(t->handle, h))
				return t;
		return NULL;
	}

	int pthread_join(pthread_t handle, void** result)
	{
		sync_point("join");
		ThreadState* t = by_handle(handle);
		if (!t)
			return __interceptor_pthread_join(handle, result);
		ThreadState* me = self();
		while (t->wait != Finished)
		{
			block(me, OnJoin, t, Never);
			me->wait = Ready;
		}
		{
			Inside in;
			for (size_t i = 0; i < g_threads.size(); ++i)
				if (g_threads[i] == t)
				{
					g_threads.erase(g_threads.begin() + i);
					break;
				}
		}
		const int r = __interceptor_pthread_join(handle, result);
		free(t);
		return r;
	}

	int pthread_kill(pthread_t, int) { return 0; }

	int pthread_key_create(pthread_key_t* key, void (*dtor)(void*))
	{
		if (!g_ready)
		{
			typedef int Func(pthread_key_t*, void (*)(void*));
			extern Func __pthread_key_create;
			return __pthread_key_create(key, dtor);
		}
		for (size_t k = 0; k < MaxKeys; ++k)
			if (!g_keys[k].used)
			{
				g_keys[k].used = true;
				g_keys[k].dtor = dtor;
				self()->specific[k] = NULL;
				*key = (pthread_key_t)(KeyBase + k);
				return 0;
			}
		return EAGAIN;
	}
}

#include <dlfcn.h>
namespace
{
	template < typename F >
	F* real(const char* name)
	{
		F* f = (F*)dlsym(RTLD_NEXT, name);
		if (!f)
			abort();
		return f;
	}
}

extern "C"
{
	int pthread_key_delete(pthread_key_t key)
	{
		if (key >= KeyBase)
		{
			g_keys[key - KeyBase].used = false;
			return 0;
		}
		static auto* f = real<int (pthread_key_t)>("pthread_key_delete");
		return f(key);
	}

	int pthread_setspecific(pthread_key_t key, const void* value)
	{
		if (key >= KeyBase)
		{
			self()->specific[key - KeyBase] = (void*)value;
			return 0;
		}
		static auto* f = real<int (pthread_key_t, const void*)>("pthread_setspecific");
		return f(key, value);
	}

	void* pthread_getspecific(pthread_key_t key)
	{
		if (key >= KeyBase)
			return self()->specific[key - KeyBase];
		static auto* f = real<void* (pthread_key_t)>("pthread_getspecific");
		return f(key);
	}

	int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
	{
		memset(m, 0, sizeof(*m));
		if (a)
		{
			int type = 0;
			pthread_mutexattr_gettype(a, &type);
			m->__data.__kind = type;
		}
		return 0;
	}
	int pthread_mutex_destroy(pthread_mutex_t* m)
	{
		if (m->__data.__owner != 0 && g_ready)
			violation("mutex-destroyed", "a mutex is destroyed while thread " + std::to_string(m->__data.__owner - 1) + " holds it");
		for (ThreadState* t : g_threads)
			if (t->wait == OnMutex && t->object == m)
				violation("mutex-destroyed", "a mutex is destroyed while thread " + std::to_string(t->id) + " waits for it");
		m->__data.__kind = -1;
		return 0;
	}
	int pthread_mutex_lock(pthread_mutex_t* m) { return lock_mutex(m, true, Never); }
	int pthread_mutex_trylock(pthread_mutex_t* m) { return lock_mutex(m, false, Never); }
	int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return lock_mutex(m, true, Never); }	// a timeout only makes PosixMutex warn and wait again
	int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_mutex(m); }

	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a)
	{
		memset(c, 0, sizeof(*c));
		clockid_t clock = CLOCK_REALTIME;
		if (a)
			pthread_condattr_getclock(a, &clock);
		*(int*)c = clock;
		return 0;
	}
	int pthread_cond_destroy(pthread_cond_t* c)
	{
		for (ThreadState* t : g_threads)
			if (t->wait == OnCond && t->object == c)
				violation("condition-destroyed", "a condition is destroyed while thread " + std::to_string(t->id) + " waits for it");
		return 0;
	}
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return wait_cond(c, m, Never); }
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return wait_cond(c, m, to_ns(t, *(int*)c)); }
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const timespec* t) { return wait_cond(c, m, to_ns(t, clock)); }
	int pthread_cond_signal(pthread_cond_t* c)
	{
		{
			Inside in;
			ThreadState* w[64];
			size_t n = 0;
			for (ThreadState* t : g_threads)
				if (t->wait == OnCond && t->object == c && n < 64)
					w[n++] = t;
			if (n)
				wake_cond(w[n > 1 && g_preempt ? pbt::current_src->draw(n) : 0], false);
		}
		sync_point("condition signal");
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		for (ThreadState* t : g_threads)
			if (t->wait == OnCond && t->object == c)
				wake_cond(t, false);
		sync_point("condition broadcast");
		return 0;
	}

	int sem_init(sem_t* s, int, unsigned v) { *(int*)s = (int)v; return 0; }
	int sem_destroy(sem_t*) { return 0; }
	int sem_post(sem_t* s) { ++*(int*)s; sync_point("semaphore post"); return 0; }
	static int wait_sem(sem_t* s, uint64_t deadline)
	{
		sync_point("semaphore wait");
		ThreadState* me = self();
		while (*(int*)s <= 0)
		{
			if (deadline <= g_now)
			{
				errno = ETIMEDOUT;
				return -1;
			}
			block(me, OnSem, s, deadline);
			me->wait = Ready;
		}
		--*(int*)s;
		return 0;
	}
	int sem_wait(sem_t* s) { return wait_sem(s, Never); }
	int sem_timedwait(sem_t* s, const timespec* t) { return wait_sem(s, to_ns(t, CLOCK_REALTIME)); }
	int sem_trywait(sem_t* s) { sync_point("semaphore wait"); if (*(int*)s > 0) { --*(int*)s; return 0; } errno = EAGAIN; return -1; }
	int sem_getvalue(sem_t* s, int* v) { *v = *(int*)s; return 0; }

	int pthread_once(pthread_once_t* once, void (*func)())
	{
		char* state = (char*)once;
		for (;;)
		{
			sync_point("once");
			if (*state == 2)
				return 0;
			if (*state == 0)
			{
				*state = 1;
				try
				{ func(); }
				catch (...)
				{ *state = 0; throw; }
				*state = 2;
				sync_point("once");
				return 0;
			}
			block(self(), OnOnce, state, Never);
			self()->wait = Ready;
		}
	}

	int __cxa_guard_acquire(__cxxabiv1::__guard* g)
	{
		char* b = (char*)g;
		for (;;)
		{
			if (b[0])
				return 0;
			if (!b[1])
			{
				b[1] = 1;
				return 1;
			}
			block(self(), OnOnce, b + 1, Never);
			self()->wait = Ready;
		}
	}
	void __cxa_guard_release(__cxxabiv1::__guard* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; }
	void __cxa_guard_abort(__cxxabiv1::__guard* g) { ((char*)g)[1] = 0; }

	int nanosleep(const timespec* t, timespec*)
	{
		ThreadState* me = self();
		sync_point("sleep");
		if (t->tv_sec || t->tv_nsec)
		{
			block(me, OnSleep, NULL, g_now + to_ns(t, CLOCK_MONOTONIC));
			me->wait = Ready;
		}
		else
		{
			Inside in;
			reschedule(me, true, "yield");
		}
		return 0;
	}
	int clock_nanosleep(clockid_t clock, int flags, const timespec* t, timespec* r)
	{
		if (!(flags & TIMER_ABSTIME))
			return nanosleep(t, r);
		ThreadState* me = self();
		block(me, OnSleep, NULL, to_ns(t, clock));
		me->wait = Ready;
		return 0;
	}
	int usleep(useconds_t us) { const timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&t, NULL); }
	int sched_yield() { const timespec t = { 0, 0 }; return nanosleep(&t, NULL); }

	int clock_gettime(clockid_t clock, timespec* t)
	{
		if (!g_inside && g_ready)
			g_now += 200, g_ticks += 200;
		uint64_t v = clock == CLOCK_REALTIME || clock == CLOCK_REALTIME_COARSE ? g_now + g_realBase : g_now;
		v -= v % g_grain;
		t->tv_sec = v / 1000000000ull;
		t->tv_nsec = v % 1000000000ull;
		return 0;
	}
	int gettimeofday(timeval* t, void*)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		t->tv_sec = ts.tv_sec;
		t->tv_usec = ts.tv_nsec / 1000;
		return 0;
	}
	time_t time(time_t* t)
	{
		timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		if (t) *t = ts.tv_sec;
		return ts.tv_sec;
	}
}
