// ENGINE: conc
// FLAGS: -Wno-c++11-narrowing
// Synchronization primitives under generated schedules: mutexes, conditions, semaphores, spinlocks, barriers,
// synchronized values, singletons, thread-local values, threads and the asynchronous byte stream.
#include <stingraykit/string/ToString.h>
#include <stingraykit/PhoenixSingleton.h>
#include <stingraykit/SafeSingleton.h>
#include <stingraykit/Singleton.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/thread/Barrier.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/SyncValue.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/atomic/Spinlock.h>
#include <stingraykit/thread/posix/ThreadLocal.h>
#include "dsched.h"
#include "tracked.h"
#include "util.h"
#include <array>
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	const uint64_t Ms = 1000000;
	const uint64_t Slack = 50 * Ms;

	sched::Services services([] { ExecutorsProfiler::Instance(); });

	void wait_exact(std::vector<sched::Thread>& t) { for (auto& x : t) x.join(); t.clear(); }

	// who is inside a critical section; plain data, so that a second one is a finding
	struct Section
	{
		int		owner = -1;
		int		depth = 0;
		long	counter = 0;
		long	expected = 0;
		void enter(int who)
		{
			{
				sched::NoPreempt np;
				REQUIRE(owner == -1 || owner == who, "thread " << who << " entered a section thread " << owner << " is in");
				owner = who;
				++depth;
				++expected;
			}
			const long c = counter;
			sched::point("inside");
			counter = c + 1;
		}
		void leave(int who)
		{
			sched::NoPreempt np;
			REQUIRE_EQ(owner, who);
			if (--depth == 0)
				owner = -1;
		}
	};
}


PROP(mutexes, 30000, 1000000, 0, "two threads wanted the same mutex and one was preempted while holding it")
{
	struct Step { unsigned kind; size_t mutex; unsigned depth; unsigned ms; };
	const size_t threads = s.range<size_t>(2, 4), mutexes = s.range<size_t>(1, 2);
	std::vector<std::vector<Step> > prog(threads);
	for (size_t i = 0; i < threads; ++i)
	{
		while (s.more(4))
			prog[i].push_back(Step{ s.weighted({ 4u, 2u, 2u, 1u }), (size_t)s.below(mutexes), s.range<unsigned>(1, 3), s.pick<unsigned>({ 0, 1, 20, 4000 }) });
		std::string p;
		for (const Step& x : prog[i]) p += " " + std::to_string(x.kind) + "/" + std::to_string(x.mutex) + "/" + std::to_string(x.depth);
		TR("thread " << i << ":" << p);
	}
	std::vector<std::unique_ptr<Mutex> > m;
	std::vector<Section> sec(mutexes);
	for (size_t i = 0; i < mutexes; ++i) m.emplace_back(new Mutex);
	sched::start(s);
	std::vector<sched::Thread> t;
	for (size_t i = 0; i < threads; ++i)
		t.emplace_back([&, i]
		{
			const int me = (int)i;
			for (const Step& x : prog[i])
			{
				Mutex& mx = *m[x.mutex];
				Section& sx = sec[x.mutex];
				std::function<void (unsigned)> nested = [&](unsigned d)
				{
					MutexLock l(mx);
					sx.enter(me);
					if (d > 1) nested(d - 1);
					if (x.kind == 1 && d == x.depth && x.depth == 1)
					{	// open for a while
						sx.leave(me);
						{
							MutexUnlock ul(l);
							sched::point("unlocked");
						}
						sx.enter(me);
					}
					if (x.kind == 2) sched::sleep_ms(x.ms);
					sx.leave(me);
				};
				if (x.kind == 3)
				{	// the mutex is released when an exception leaves the section
					try
					{
						MutexLock l(mx);
						sx.enter(me);
						sx.leave(me);
						throw std::runtime_error("x");
					}
					catch (const std::runtime_error&)
					{ }
				}
				else
					nested(x.depth);
			}
		});
	wait_exact(t);
	for (size_t i = 0; i < mutexes; ++i)
	{
		REQUIRE_EQ(sec[i].counter, sec[i].expected);
		REQUIRE_EQ(sec[i].owner, -1);
		MutexLock l(*m[i]);		// free in the end
	}
	c.nontrivial_if(sched::preemptions() >= 1 && sec[0].counter >= 2);
}


PROP(conditions, 40000, 1000000, 0, "a broadcast was made while somebody waited, after a preemption")
{
	// each waiter needs tickets; each giver gives some; all are on one mutex and one condition
	const size_t waiters = s.range<size_t>(1, 3), givers = s.range<size_t>(1, 3);
	std::vector<unsigned> needs(waiters);
	std::vector<std::vector<unsigned> > gives(givers);
	size_t need = 0, given = 0;
	for (unsigned& n : needs) need += n = s.range<unsigned>(1, 3);
	for (auto& g : gives) while (s.more(3)) { g.push_back(s.range<unsigned>(0, 2)); given += g.back(); }
	if (given < need) gives[0].push_back((unsigned)(need - given));
	const bool timed = s.chance(1, 3), spurious = s.chance(1, 3), jumps = s.chance(1, 3);
	const unsigned ms = s.pick<unsigned>({ 0, 1, 5, 1000 });
	TR(waiters << " waiters, " << givers << " givers, timed " << timed << " " << ms << "ms, spurious " << spurious);
	Mutex m;
	ConditionVariable cv;
	Section sec;
	size_t tickets = 0, taken = 0, broadcasts = 0;
	bool whileWaiting = false;
	int waiting = 0;
	sched::start(s, sched::Mode(spurious, jumps));
	std::vector<sched::Thread> t;
	for (size_t i = 0; i < waiters; ++i)
		t.emplace_back([&, i]
		{
			const int me = (int)i;
			for (unsigned n = 0; n < needs[i]; ++n)
			{
				MutexLock l(m);
				sec.enter(me);
				while (!tickets)
				{
					const size_t before = broadcasts;
					sec.leave(me);
					++waiting;
					const uint64_t start = sched::now_ns();
					bool r = true;
					if (timed) r = cv.TimedWait(m, TimeDuration(ms));
					else cv.Wait(m);
					--waiting;
					const uint64_t took = sched::now_ns() - start;
					sec.enter(me);
					if (timed && !r)
						REQUIRE(took + 1000 >= ms * Ms, "a wait for " << ms << " ms timed out after " << took << " ns");
					else if (!spurious)
						REQUIRE(broadcasts != before, "a wait ended without a broadcast");
					if (timed && !jumps && waiters + givers <= 6)
						REQUIRE(took <= ms * Ms + Slack, "a wait for " << ms << " ms took " << took / Ms << " ms");
				}
				--tickets;
				++taken;
				sec.leave(me);
			}
		});
	for (size_t i = 0; i < givers; ++i)
		t.emplace_back([&, i]
		{
			const int me = 100 + (int)i;
			for (unsigned n : gives[i])
			{
				MutexLock l(m);
				sec.enter(me);
				tickets += n;
				++broadcasts;
				if (waiting) whileWaiting = true;
				sec.leave(me);
				cv.Broadcast();
			}
		});
	wait_exact(t);
	REQUIRE_EQ(taken, need);
	REQUIRE_EQ(sec.counter, sec.expected);
	c.nontrivial_if(whileWaiting && sched::preemptions() >= 1);
}


PROP(semaphores, 30000, 1000000, 0, "somebody waited for a signal given by another thread")
{
	const int initial = s.range<int>(0, 2);
	const size_t threads = s.range<size_t>(1, 3), signallers = s.range<size_t>(1, 2);
	struct Step { unsigned kind; unsigned ms; };
	std::vector<std::vector<Step> > prog(threads);
	std::vector<std::vector<int> > sig(signallers);
	int must = 0, signals = 0;
	bool locks = false;
	for (auto& p : prog)
		while (s.more(3))
		{
			p.push_back(Step{ s.weighted({ 3u, 2u, 2u, 1u }), s.pick<unsigned>({ 0, 1, 5, 300 }) });
			if (p.back().kind != 3) ++must;		// a timed wait may take one as well
			else locks = true;
		}
	for (auto& p : sig)
		while (s.more(3)) { p.push_back(s.range<int>(1, 2)); signals += p.back(); }
	must += locks;
	if (initial + signals < must) { sig[0].push_back(must - initial - signals); signals = must - initial; }
	const bool jumps = s.chance(1, 3);
	TR("initial " << initial << ", signals " << signals << ", waits " << must);
	Semaphore sem(initial);
	int taken = 0, given = initial, inside = 0;
	bool blocked = false;
	sched::start(s, sched::Mode(true, jumps));
	std::vector<sched::Thread> t;
	for (size_t i = 0; i < threads; ++i)
		t.emplace_back([&, i]
		{
			for (const Step& x : prog[i])
			{
				const int before = given;
				bool got = true;
				const uint64_t start = sched::now_ns();
				switch (x.kind)
				{
				case 0: sem.Wait(); break;
				case 1: got = sem.TimedWait(TimeDuration(x.ms)); break;
				case 2: got = sem.TimedWait(Time::Now() + TimeDuration(x.ms)); break;
				case 3:
					{
						SemaphoreLock l(sem);
						{ sched::NoPreempt np; ++inside; REQUIRE(taken + inside <= given, "a semaphore let too many in"); }
						sched::point("inside");
						--inside;
					}
					break;
				}
				sched::NoPreempt np;
				const uint64_t took = sched::now_ns() - start;
				if (got && x.kind != 3) { ++taken; if (given != before) blocked = true; }
				REQUIRE(taken + inside <= given, "a semaphore gave " << taken << " of " << given);
				if (!got)
					REQUIRE(took + (x.kind == 2 ? 1 : 0) * Ms + 1000 >= x.ms * Ms, "a wait for " << x.ms << " ms timed out after " << took << " ns");
				if (x.kind == 1 || x.kind == 2)
					REQUIRE(jumps || took <= x.ms * Ms + Slack, "a wait for " << x.ms << " ms took " << took / Ms << " ms");
			}
		});
	for (size_t i = 0; i < signallers; ++i)
		t.emplace_back([&, i]
		{
			for (int n : sig[i])
			{
				{ sched::NoPreempt np; given += n; }
				if (n == 1) sem.Signal();
				else sem.Signal(n);
			}
		});
	wait_exact(t);
	// what is left can be taken, and no more
	for (int left = given - taken; left > 0; --left)
		REQUIRE(sem.TimedWait(TimeDuration()), "a signal was lost: " << left << " left");
	REQUIRE(!sem.TimedWait(TimeDuration()), "a semaphore gave more than it had");
	c.nontrivial_if(blocked && sched::switches() >= 2);
}


PROP(spinlocks, 20000, 600000, 0, "a thread was preempted while holding the lock")
{
	const size_t threads = s.range<size_t>(2, 4);
	std::vector<unsigned> rounds(threads);
	for (unsigned& r : rounds) r = s.range<unsigned>(1, 3);
	AtomicFlag::Type flag = 0;
	Section sec;
	sched::start(s);
	std::vector<sched::Thread> t;
	for (size_t i = 0; i < threads; ++i)
		t.emplace_back([&, i]
		{
			for (unsigned n = 0; n < rounds[i]; ++n)
			{
				Spinlock l(flag);
				sec.enter((int)i);
				sec.leave((int)i);
			}
		});
	wait_exact(t);
	REQUIRE_EQ(sec.counter, sec.expected);
	REQUIRE(AtomicFlag::TestAndSet(flag), "a spinlock stays locked");
	c.nontrivial_if(sched::preemptions() >= 1);
}


PROP(barriers, 40000, 1000000, 0, "a thread was preempted while others waited, with two rounds or two groups")
{
	const size_t count = s.range<size_t>(1, 4);
	const bool groups = s.coin();
	const size_t threads = groups ? count * s.range<size_t>(1, 4 / count + 1) : count;
	const unsigned rounds = groups ? 1 : s.range<unsigned>(1, 4);
	const bool spurious = s.coin();
	std::vector<unsigned> pause(threads);
	for (unsigned& p : pause) p = s.pick<unsigned>({ 0, 0, 1, 3 });
	TR(threads << " threads, barrier of " << count << ", " << rounds << " rounds");
	Barrier b(count);
	size_t arrived = 0, passed = 0, last = 0;
	sched::start(s, sched::Mode(spurious, s.coin()));
	std::vector<sched::Thread> t;
	for (size_t i = 0; i < threads; ++i)
		t.emplace_back([&, i]
		{
			for (unsigned r = 0; r < rounds; ++r)
			{
				if (pause[i]) sched::sleep_ms(pause[i]);
				{ sched::NoPreempt np; ++arrived; }
				const bool l = b.Wait();
				sched::NoPreempt np;
				++passed;
				if (l) ++last;
				REQUIRE(passed <= arrived / count * count, "a barrier of " << count << " let " << passed << " pass when " << arrived << " had arrived");
				REQUIRE(last * count <= arrived, "a barrier named " << last << " last ones of " << arrived);
			}
		});
	wait_exact(t);
	REQUIRE_EQ(passed, threads * rounds);
	REQUIRE_EQ(last, threads * rounds / count);
	c.nontrivial_if(threads >= 2 && threads * rounds > count && sched::switches() >= 2);
}


namespace
{
	struct Pair
	{
		int a, b;
		explicit Pair(int v = 0) : a(v), b(v) { }
		void add(int n) { a += n; sched::point("half"); b += n; }
		int sum() const { const int x = a; sched::point("half"); return x + b; }
		bool ok() const { const int x = a; sched::point("half"); return x == b; }
	};
}


PROP(sync_values, 30000, 600000, 0, "two threads changed the value, after a preemption")
{
	const size_t threads = s.range<size_t>(2, 4);
	std::vector<std::vector<std::pair<unsigned, int> > > prog(threads);
	size_t writers = 0;
	long total = 0;
	for (auto& p : prog)
	{
		bool writes = false;
		while (s.more(4))
		{
			p.emplace_back(s.weighted({ 4u, 3u, 2u, 2u, 1u, 1u }), s.range<int>(1, 9));
			if (p.back().first == 0 || p.back().first == 3) { writes = true; total += p.back().second; }
		}
		writers += writes;
	}
	SyncValue<Pair> v;
	SyncValue<int> n(5);
	const SyncValue<Pair>& cv = v;
	sched::start(s);
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < threads; ++i)
			t.emplace_back([&, i]
			{
				for (auto& x : prog[i])
					switch (x.first)
					{
					case 0: v->add(x.second); break;
					case 1: REQUIRE(v->ok(), "a half made change was seen"); break;
					case 2: { const Pair p = v.Get(); REQUIRE_EQ(p.a, p.b); } break;
					case 3:
						{
							SyncValue<Pair>::Lock l(*v);
							SyncValue<Pair>::Lock l2(l);
							const int before = l->a;
							l2->add(x.second);
							REQUIRE_EQ(l->a, before + x.second);
						}
						break;
					case 4: { const Pair p = *v; REQUIRE_EQ(p.a, p.b); } break;
					case 5: n = x.second; { const int r = n.Get(); REQUIRE(r >= 1 && r <= 9, "a value nobody set: " << r); } break;
					}
			});
		wait_exact(t);
	}
	(void)cv;
	REQUIRE_EQ(v.Get().a, total);
	REQUIRE_EQ(v.Get().b, total);
	v = Pair(77);
	REQUIRE_EQ(v.Get().b, 77);
	c.nontrivial_if(writers >= 2 && sched::preemptions() >= 1);
}


namespace
{
	// singletons are made once per process, so each case takes the next type of a row; later cases see them as they are
	struct Plan
	{
		bool fail = false;		// the constructor throws
		int made = 0, gone = 0, failed = 0;
		bool complete = false;
		bool used = false;
	};
	const size_t Row = 64;
	std::array<Plan, Row * 3> g_plans;

	template < int N, int Kind >
	struct Single
	{
		int a, b;
		static Plan& plan() { return g_plans[N * 3 + Kind]; }
		Single() : a(0), b(0)
		{
			{ sched::NoPreempt np; ++plan().made; }
			a = N;
			sched::point("constructor");
			if (plan().fail)
			{
				{ sched::NoPreempt np; ++plan().failed; }
				throw std::runtime_error("planned");
			}
			b = N;
			sched::NoPreempt np;
			plan().complete = true;
		}
		~Single() { ++plan().gone; }
		void check() const
		{
			REQUIRE_EQ(a, N);
			REQUIRE_EQ(b, N);
		}
	};

	template < int N > struct Plain : Single<N, 0>, Singleton<Plain<N> > { using Singleton<Plain<N> >::Instance; };

	struct Result { const void* p; bool threw; };

	template < int N > Result use_plain()
	{
		typedef Single<N, 0> T;
		try
		{
			T& x = Singleton<T>::Instance();
			x.check();
			REQUIRE(Singleton<T>::IsAlive(), "a singleton in use is not alive");
			REQUIRE_EQ(&x, &Singleton<T>::ConstInstance());
			return Result{ &x, false };
		}
		catch (const stingray::Exception& e)
		{
			REQUIRE(!Singleton<T>::IsAlive(), "a failed singleton is alive");
			return Result{ NULL, true };
		}
	}
	template < int N > Result use_safe()
	{
		typedef Single<N, 1> T;
		const shared_ptr<T> x = SafeSingleton<T>::Instance();
		if (!x) return Result{ NULL, true };
		x->check();
		const shared_ptr<T> y = SafeSingleton<T>::Instance();
		REQUIRE(x == y, "two instances of a safe singleton");
		sched::point("holding");
		REQUIRE_EQ(T::plan().gone, 0);
		return Result{ x.get(), false };
	}
	template < int N > Result use_phoenix()
	{
		typedef Single<N, 2> T;
		T& x = PhoenixSingleton<T>::Instance();
		x.check();
		return Result{ &x, false };
	}

	typedef Result (*Use)();
	struct Uses { Use f[Row][3]; };
	template < int N > struct Fill { static void fill(Uses& u) { Fill<N - 1>::fill(u); u.f[N][0] = &use_plain<N>; u.f[N][1] = &use_safe<N>; u.f[N][2] = &use_phoenix<N>; } };
	template < > struct Fill<-1> { static void fill(Uses&) { } };
	Uses& uses() { static Uses u; static bool b = false; if (!b) { Fill<Row - 1>::fill(u); b = true; } return u; }
	size_t g_nextSingle = 0;
}


PROP(singletons, 400, 400, 0, "two threads asked for a singleton nobody had made, and one was preempted")
{
	const size_t n = g_nextSingle++ % Row;
	const unsigned kind = (unsigned)s.below(3);
	Plan& plan = g_plans[n * 3 + kind];
	const bool fresh = !plan.used;
	if (fresh) { plan.used = true; plan.fail = kind != 2 && s.chance(1, 4); }
	const size_t threads = s.range<size_t>(2, 4);
	std::vector<unsigned> times(threads);
	for (unsigned& t : times) t = s.range<unsigned>(1, 2);
	static const char* const names[] = { "Singleton", "SafeSingleton", "PhoenixSingleton" };
	TR(names[kind] << " " << n << (plan.fail ? " which fails" : "") << (fresh ? "" : " again") << ", " << threads << " threads");
	const Use use = uses().f[n][kind];
	std::vector<Result> r;
	sched::start(s);
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < threads; ++i)
			t.emplace_back([&, i]
			{
				for (unsigned k = 0; k < times[i]; ++k)
				{
					const Result x = use();
					sched::NoPreempt np;
					r.push_back(x);
				}
			});
		wait_exact(t);
	}
	REQUIRE_EQ(plan.made, 1);
	REQUIRE_EQ(plan.gone, 0);
	for (const Result& x : r)
	{
		REQUIRE_EQ(x.threw, plan.fail);
		REQUIRE_EQ(x.p, r[0].p);
	}
	c.nontrivial_if(fresh && sched::preemptions() >= 1);
}


namespace
{
	struct Local
	{
		NTracked value;
		int touched;
		Local() : value(-1), touched(0) { }
	};
	STINGRAYKIT_DECLARE_THREAD_LOCAL(Local, TheLocal);
	STINGRAYKIT_DEFINE_THREAD_LOCAL(Local, TheLocal);
	STINGRAYKIT_DECLARE_THREAD_LOCAL(std::string, TheOtherLocal);
	STINGRAYKIT_DEFINE_THREAD_LOCAL(std::string, TheOtherLocal);
}


PROP(thread_locals, 20000, 400000, 0, "two threads used the value, and one was preempted")
{
	const size_t threads = s.range<size_t>(1, 4);
	std::vector<unsigned> times(threads);
	for (unsigned& t : times) t = s.range<unsigned>(0, 4);
	LIVE_BASE(NTracked);
	std::vector<const void*> where;
	sched::start(s);
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < threads; ++i)
			t.emplace_back([&, i]
			{
				for (unsigned k = 0; k < times[i]; ++k)
				{
					Local& l = TheLocal::Get();
					REQUIRE_EQ(l.touched, (int)k);
					REQUIRE_EQ(l.value.get(), k ? (int)(i * 100 + k - 1) : -1);
					REQUIRE_EQ(TheOtherLocal::Get(), k ? std::to_string(i) : std::string());
					sched::point("between");
					l.value = NTracked((int)(i * 100 + k));
					++l.touched;
					TheOtherLocal::Get() = std::to_string(i);
					REQUIRE_EQ(&TheLocal::Get(), &l);
					if (!k) { sched::NoPreempt np; where.push_back(&l); }
				}
			});
		wait_exact(t);
	}
	LIVE_CHECK(NTracked);
	c.nontrivial_if(where.size() >= 2 && sched::preemptions() >= 1);
}


PROP(threads, 20000, 500000, 0, "a thread was cancelled while it ran or waited")
{
	struct Prog { unsigned kind; unsigned life; int timeout; bool throws; };
	const size_t n = s.range<size_t>(1, 3);
	std::vector<Prog> prog(n);
	for (Prog& p : prog)
	{
		p = Prog{ s.weighted({ 2u, 3u, 2u, 2u }), s.pick<unsigned>({ 0, 0, 1, 20 }), s.chance(1, 3) ? s.pick<int>({ 0, 5, 100 }) : -1, s.chance(1, 4) };
		TR("thread: kind " << p.kind << ", lives " << p.life << " ms, timeout " << p.timeout << (p.throws ? ", throws" : ""));
	}
	struct Log { int entered = 0, left = 0; bool wasCancelled = false, wasTimedOut = false; uint64_t endedAt = 0; ThreadId id = 0; std::string name; const void* func = NULL; };
	std::vector<Log> log(n);
	const bool jumps = s.chance(1, 3);
	bool cancelledInside = false;
	sched::start(s, sched::Mode(true, jumps));
	{
		std::vector<ThreadPtr> t;
		std::vector<uint64_t> made;
		for (size_t i = 0; i < n; ++i)
		{
			const Prog p = prog[i];
			Log& me = log[i];
			made.push_back(sched::now_ns());
			t.push_back(make_shared_ptr<Thread>("name" + std::to_string(i), fn<void (const ICancellationToken&)>([&me, p](const ICancellationToken& token)
			{
				{ sched::NoPreempt np; ++me.entered; }
				const std::string name = Thread::GetCurrentThreadName();
				const ThreadId id = Thread::GetCurrentThreadId();
				{ sched::NoPreempt np; me.id = id; me.name = name; }
				switch (p.kind)
				{
				case 0: break;
				case 1: while (token) token.Sleep(TimeDuration::Hour()); break;
				case 2: while (token) Thread::Sleep(1); break;
				case 3:
					{
						Mutex m;
						ConditionVariable cv;
						MutexLock l(m);
						while (token) cv.Wait(m, token);
					}
					break;
				}
				{
					sched::NoPreempt np;
					if (p.kind == 1 || p.kind == 2 || p.kind == 3)
						REQUIRE(!token, "a thread's wait ended, but its token is not cancelled");
					me.wasCancelled = token.IsCancelled(); me.wasTimedOut = token.IsTimedOut();
					me.endedAt = sched::now_ns();
					++me.left;
				}
				if (p.throws) throw std::runtime_error("from a thread");
			}), p.timeout >= 0 ? optional<TimeDuration>(TimeDuration(p.timeout)) : optional<TimeDuration>()));
			const ThreadId id = t.back()->GetId();
			sched::NoPreempt np;
			REQUIRE(!me.entered || !me.name.size() || me.id == id, "the id of a thread is " << id << ", it thinks " << me.id);
		}
		for (size_t i = 0; i < n; ++i)
		{
			if (prog[i].life) sched::sleep_ms(prog[i].life);
			const bool waits = prog[i].kind != 0;
			{
				sched::NoPreempt np;
				if (waits && prog[i].timeout < 0)
				{
					REQUIRE_EQ(log[i].left, 0);
					if (log[i].entered) cancelledInside = true;
				}
			}
			const uint64_t before = sched::now_ns();
			t[i].reset();
			const uint64_t took = sched::now_ns() - before;
			sched::NoPreempt np;
			REQUIRE_EQ(log[i].entered, 1);
			REQUIRE_EQ(log[i].left, 1);
			REQUIRE_EQ(log[i].name, "name" + std::to_string(i));
			REQUIRE(jumps || took <= Slack, "the end of a thread took " << took / Ms << " ms");
			if (waits && prog[i].timeout < 0)
				REQUIRE(log[i].wasCancelled, "a thread ended by itself");
			if (waits && prog[i].timeout >= 0 && !log[i].wasCancelled)
				REQUIRE(log[i].endedAt - made[i] + 1000 >= prog[i].timeout * Ms, "a thread with a timeout of " << prog[i].timeout << " ms ended after " << (log[i].endedAt - made[i]) / Ms << " ms");
			if (waits && prog[i].timeout >= 0 && !jumps)
				REQUIRE(log[i].endedAt - made[i] <= prog[i].timeout * Ms + Slack || log[i].wasCancelled, "a thread with a timeout of " << prog[i].timeout << " ms ended after " << (log[i].endedAt - made[i]) / Ms << " ms");
		}
		REQUIRE_EQ(sched::live(), 0u);
	}
	c.nontrivial_if(cancelledInside && sched::switches() >= 2);
}


namespace
{
	struct Underlying : virtual public IByteStream
	{
		std::vector<u8> data;
		u64 pos = 0;
		std::vector<u64> partial;		// sizes of the next writes
		size_t nextPartial = 0;
		int failAt = -1, ops = 0;
		bool failed = false, inside = false;
		unsigned ms = 0;

		struct In
		{
			Underlying& u;
			explicit In(Underlying& u) : u(u) { sched::NoPreempt np; REQUIRE(!u.inside, "a stream is used by two threads at once"); u.inside = true; }
			~In() { u.inside = false; }
		};
		u64 Read(ByteData, const ICancellationToken&) override { FAIL("an asynchronous stream reads"); return 0; }
		u64 Write(ConstByteData d, const ICancellationToken&) override
		{
			In in(*this);
			if (ms) sched::sleep_ms(ms);
			else sched::point("write");
			REQUIRE(!failed, "a stream is written to after it failed");
			if (ops++ == failAt)
			{
				failed = true;
				throw std::runtime_error("planned");
			}
			u64 n = d.size();
			if (nextPartial < partial.size()) n = std::min(n, partial[nextPartial++]);
			if (data.size() < pos + n) data.resize(pos + n, 0);
			std::copy(d.begin(), d.begin() + n, data.begin() + pos);
			pos += n;
			sched::point("written");
			return n;
		}
		void Seek(s64 o, SeekMode mode) override
		{
			In in(*this);
			switch (mode)
			{
			case SeekMode::Begin: pos = o; break;
			case SeekMode::Current: pos += o; break;
			case SeekMode::End: pos = data.size() + o; break;
			}
		}
		u64 Tell() const override { return pos; }
	};
	struct Syncable : Underlying, virtual public ISyncableByteStream
	{
		std::vector<std::vector<u8> > synced;
		void Sync() override
		{
			In in(*this);
			sched::point("sync");
			REQUIRE(!failed, "a stream is synced after it failed");
			synced.push_back(data);
		}
	};
}


PROP(async_byte_streams, 40000, 1000000, 0, "two writes at different places were made while the stream was busy, or it was reconfigured")
{
	struct Step { unsigned kind; std::vector<u8> data; s64 offset; unsigned mode; size_t size; unsigned ms; };
	auto config = [&](AsyncByteStream::Config& cfg, std::string& text)
	{
		const size_t page = s.range<size_t>(1, 4), merge = s.range<size_t>(1, 3), sub = s.range<size_t>(1, 2);
		const size_t size = 2 * sub * page * merge + s.range<size_t>(0, 20);
		cfg.PageSize(page).MergeablePagesHint(merge).SubStreamsHint(sub).BufferSize(size);
		text = std::to_string(size) + "/" + std::to_string(page) + "x" + std::to_string(merge);
	};
	const bool syncable = s.coin();
	const auto base = syncable ? shared_ptr<Underlying>(make_shared_ptr<Syncable>()) : make_shared_ptr<Underlying>();
	Underlying& under = *base;
	under.data = u8s(s, 12);
	under.pos = s.range<u64>(0, under.data.size());
	while (s.more(6)) under.partial.push_back(s.range<u64>(0, 4));
	if (s.chance(1, 5)) under.failAt = s.range<int>(0, 5);
	under.ms = s.chance(1, 3) ? s.pick<unsigned>({ 1, 30 }) : 0;
	AsyncByteStream::Config cfg;
	std::string text;
	config(cfg, text);
	const bool nonBlocking = s.chance(1, 4);
	if (nonBlocking) cfg.EnableNonBlockingSync();
	TR("stream of " << under.data.size() << " at " << under.pos << ", buffer " << text << (syncable ? ", syncable" : "") << (nonBlocking ? ", non-blocking" : "") << ", fails at " << under.failAt);
	std::vector<Step> prog;
	std::vector<AsyncByteStream::Config> configs;
	while (s.more(10))
	{
		Step x{ s.weighted({ 8u, 3u, 2u, 1u, 2u, 1u }), {}, 0, 0, 0, 0 };
		switch (x.kind)
		{
		case 0: x.data = u8s(s, 9); TR("  write " << x.data.size()); break;
		case 1: x.mode = (unsigned)s.below(3); x.offset = s.range<s64>(-3, 12); TR("  seek " << x.offset << " mode " << x.mode); break;
		case 2: TR("  sync"); break;
		case 3: { AsyncByteStream::Config n; std::string t; config(n, t); configs.push_back(n); TR("  reconfigure " << t); } break;
		case 4: x.ms = s.pick<unsigned>({ 1, 20, 1500 }); TR("  sleep " << x.ms); break;
		case 5: x.size = s.range<size_t>(1, 4); TR("  write all " << x.size); x.data = u8s(s, 12); break;
		}
		prog.push_back(x);
	}
	std::vector<u8> model = under.data;
	u64 pos = under.pos, length = model.size();
	size_t seeks = 0, writes = 0, reconfigured = 0, nextConfig = 0, syncs = 0;
	bool blockingNow = !nonBlocking;
	std::vector<std::vector<u8> > atSync;
	bool refused = false;
	sched::start(s, sched::Mode(s.coin(), s.coin()));
	try
	{
		AsyncByteStream a("test", base, cfg);
		for (const Step& x : prog)
		{
			switch (x.kind)
			{
			case 0:
			case 5:
				{
					size_t done = 0;
					for (int tries = 0; ; ++tries)
					{
						const u64 n = a.Write(ConstByteData(x.data.data() + done, x.data.size() - done), DummyCancellationToken());
						sched::NoPreempt np;
						REQUIRE(n <= x.data.size() - done, "a write of " << x.data.size() - done << " accepted " << n);
						if (n)
						{
							if (model.size() < pos + n) model.resize(pos + n, 0);
							std::copy(x.data.begin() + done, x.data.begin() + done + n, model.begin() + pos);
							pos += n;
							length = std::max(length, pos);
							++writes;
						}
						done += n;
						if (x.kind == 0 || done == x.data.size())
							break;
						REQUIRE(n || tries < 4000, "a buffer stays full");
						if (!n)
							sched::sleep_ms(100);
					}
				}
				break;
			case 1:
				{
					const s64 to = x.offset + (s64)(x.mode == 0 ? 0 : x.mode == 1 ? pos : length);
					const SeekMode mode = x.mode == 0 ? SeekMode::Begin : x.mode == 1 ? SeekMode::Current : SeekMode::End;
					if (to < 0)
					{
						bool threw = false;
						try { a.Seek(x.offset, mode); }
						catch (const IndexOutOfRangeException&) { threw = true; }
						REQUIRE(threw, "a seek to " << to << " is accepted");
					}
					else
					{
						a.Seek(x.offset, mode);
						if ((u64)to != pos) ++seeks;
						pos = to;
					}
				}
				break;
			case 2:
				{
					const size_t before = syncable ? static_cast<Syncable&>(under).synced.size() : 0;
					{ sched::NoPreempt np; atSync.push_back(model); }
					a.Sync();
					sched::NoPreempt np;
					++syncs;
					if (blockingNow)
					{
						REQUIRE(under.data == model, "a sync ended before everything was written");
						if (syncable)
							REQUIRE(static_cast<Syncable&>(under).synced.size() > before, "a sync did not sync the stream");
					}
				}
				break;
			case 3: a.Reconfigure(configs[nextConfig++]); blockingNow = true; ++reconfigured; break;
			case 4: sched::sleep_ms(x.ms); break;
			}
			const u64 at = a.Tell();
			REQUIRE_EQ(at, pos);
		}
	}
	catch (const std::exception& e)
	{
		sched::NoPreempt np;
		REQUIRE(under.failed, "an operation failed: " << e.what());
		refused = true;
	}
	(void)refused;
	sched::NoPreempt np;
	REQUIRE_EQ(sched::live(), 0u);
	if (!under.failed)
	{
		REQUIRE(under.data == model, "written " << show(under.data) << ", expected " << show(model));
		if (syncable)
		{
			const auto& got = static_cast<Syncable&>(under).synced;
			REQUIRE_EQ(got.size(), atSync.size());
		}
	}
	c.label(under.failed ? "failed" : "succeeded");
	c.nontrivial_if((seeks && writes >= 2) || reconfigured);
}
