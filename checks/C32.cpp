// ENGINE: conc
// FLAGS: -Wno-c++11-narrowing
// Task executors, thread pools and life tokens under generated schedules.
#include <stingraykit/string/ToString.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include "dsched.h"
#include "tracked.h"
#include "util.h"
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	sched::Services services([] { ExecutorsProfiler::Instance(); });

	const uint64_t Ms = 1000000;

	// time of the history: grows with every observation
	uint64_t g_stamp = 0;
	uint64_t stamp() { sched::NoPreempt np; return ++g_stamp; }
	const uint64_t Never = ~0ull;

	struct Life
	{
		TaskLifeToken	token;
		uint64_t		relBegin = Never, relEnd = Never;
		int				running = 0;		// guarded tasks being run
		void release(bool inside)
		{
			{ sched::NoPreempt np; relBegin = std::min(relBegin, stamp()); }
			token.Release();
			sched::NoPreempt np;
			if (!inside)
				REQUIRE_EQ(running, 0);
			relEnd = std::min(relEnd, stamp());
		}
	};

	struct Task
	{
		int			id = 0;
		bool		throws = false;
		unsigned	ms = 0;
		int			life = -1;
		int			releases = -1;		// a token released from inside
		std::vector<size_t> nested;	// tasks added from inside
		int			by = 0;
		// history
		uint64_t	addBegin = Never, addEnd = Never, start = Never, end = Never;
		int			starts = 0, handled = 0;
		std::string show() const
		{
			std::string r = " " + std::to_string(id);
			if (throws) r += "!";
			if (ms) r += "(" + std::to_string(ms) + "ms)";
			if (life >= 0) r += "@" + std::to_string(life);
			if (releases >= 0) r += " releases " + std::to_string(releases);
			for (size_t n : nested) r += "+" + std::to_string(n);
			return r;
		}
	};

	struct World
	{
		std::vector<std::unique_ptr<Task> > tasks;
		std::vector<std::unique_ptr<Life> > lives;
		std::vector<std::vector<size_t> > prog;		// tasks of each submitter
		int inside = 0, maxInside = 0;
		int limit = 1;
		std::set<int> threads;
		std::function<void (const function<void ()>&, const FutureExecutionTester&)> add;
		std::vector<uint64_t> stops;

		// draws tasks for submitters; the last ones are nested
		void generate(Src& s, Ctx& c, size_t submitters, size_t maxTasks, size_t nLives)
		{
			prog.resize(submitters);
			for (size_t i = 0; i < nLives; ++i) lives.emplace_back(new Life);
			for (size_t i = 0; i < submitters; ++i)
				while (prog[i].size() < maxTasks && s.more(3))
				{
					prog[i].push_back(one(s, (int)i));
					if (s.chance(1, 5))
					{
						const size_t parent = prog[i].back();
						const size_t n = one(s, -1);
						tasks[parent]->nested.push_back(n);
					}
				}
			for (size_t i = 0; i < submitters; ++i)
			{
				std::string p;
				for (size_t t : prog[i]) p += tasks[t]->show();
				TR("submitter " << i << ":" << p);
			}
		}
		size_t one(Src& s, int by)
		{
			std::unique_ptr<Task> t(new Task);
			t->id = (int)tasks.size();
			t->by = by;
			t->throws = s.chance(1, 6);
			t->ms = s.chance(1, 4) ? s.pick<unsigned>({ 1, 5, 40 }) : 0;
			if (!lives.empty() && s.chance(1, 3)) t->life = (int)s.below(lives.size());
			if (!lives.empty() && s.chance(1, 8)) t->releases = (int)s.below(lives.size());
			tasks.push_back(std::move(t));
			return tasks.size() - 1;
		}
		void submit(size_t n)
		{
			Task& t = *tasks[n];
			t.addBegin = stamp();
			const FutureExecutionTester tester = t.life >= 0 ? lives[t.life]->token.GetExecutionTester() : FutureExecutionTester(null);
			const NTracked canary((int)n);
			add(fn<void ()>([this, n, canary] { REQUIRE_EQ(canary.get(), (int)n); run(n); }), tester);
			t.addEnd = stamp();
		}
		void run(size_t n)
		{
			Task& t = *tasks[n];
			Life* l = t.life >= 0 ? lives[t.life].get() : NULL;
			{
				sched::NoPreempt np;
				t.start = stamp();
				REQUIRE_EQ(++t.starts, 1);
				++inside;
				maxInside = std::max(maxInside, inside);
				REQUIRE(inside <= limit, inside << " tasks run at once");
				threads.insert(sched::self());
				if (l)
				{
					++l->running;
					REQUIRE(t.start < l->relEnd, "task " << n << " started after its token was released");
				}
			}
			if (t.ms) sched::sleep_ms(t.ms);
			else sched::point("task");
			if (t.releases >= 0) lives[t.releases]->release(t.life == t.releases);
			for (size_t k : t.nested) submit(k);
			sched::NoPreempt np;
			t.end = stamp();
			--inside;
			if (l)
			{
				REQUIRE(t.end < l->relEnd || t.releases == t.life, "task " << n << " was running when the release of its token ended");
				--l->running;
			}
			if (t.throws)
				throw std::runtime_error("task " + std::to_string(n));
		}
		void handler(const std::exception& e)
		{
			sched::NoPreempt np;
			const std::string w = diagnostic_information(e);
			const size_t p = w.find("task ");
			REQUIRE(p != std::string::npos, "an unexpected exception is handled: " << w);
			Task& t = *tasks.at(atoi(w.c_str() + p + 5));
			REQUIRE(t.throws && t.end != Never, "the exception of task " << t.id << " is handled before it");
			REQUIRE_EQ(++t.handled, 1);
		}
		// everything accepted is over
		void check(bool fifo, uint64_t finished)
		{
			for (auto& p : tasks)
			{
				const Task& t = *p;
				if (t.addEnd == Never)
				{
					REQUIRE_EQ(t.starts, 0);
					continue;
				}
				if (!t.starts)
				{
					REQUIRE(t.life >= 0 && lives[t.life]->relBegin < finished, "task " << t.id << " was accepted, but did not run");
					continue;
				}
				REQUIRE(t.end < finished, "task " << t.id << " was still running");
				REQUIRE_EQ(t.handled, t.throws ? 1 : 0);
			}
			if (fifo)
				for (auto& a : tasks)
					for (auto& b : tasks)
						if (a->starts && b->starts && a->addEnd < b->addBegin)
							REQUIRE(a->end < b->start, "task " << a->id << " was added before task " << b->id << ", but ran after it");
		}
		void end()
		{
			for (auto& l : lives) l->token.Release();
		}
	};

	struct Releaser { unsigned ms; size_t life; };
	std::vector<Releaser> gen_releases(Src& s, Ctx& c, size_t lives)
	{
		std::vector<Releaser> r;
		if (lives)
			while (r.size() < 3 && s.coin()) { r.push_back(Releaser{ s.pick<unsigned>({ 0, 0, 1, 5, 50 }), s.below(lives) }); TR("releaser: token " << r.back().life << " after " << r.back().ms << " ms"); }
		return r;
	}
	optional<TimeDuration> gen_profile(Src& s)
	{ return s.chance(1, 3) ? optional<TimeDuration>(TimeDuration::FromSeconds(10)) : optional<TimeDuration>(); }
}


PROP(thread_executors, 60000, 2000000, 0, "tasks of two submitters, or a release against tasks of the token, with a preemption")
{
	World w;
	const size_t lives = s.range<size_t>(0, 2);
	w.generate(s, c, s.range<size_t>(1, 3), 4, lives);
	const std::vector<Releaser> rel = gen_releases(s, c, lives);
	const optional<TimeDuration> profile = gen_profile(s);
	const bool jumps = s.coin(), spurious = s.coin();
	g_stamp = 0;
	LIVE_BASE(NTracked);
	sched::start(s, sched::Mode(spurious, jumps));
	uint64_t finished = 0;
	{
		std::unique_ptr<ThreadTaskExecutor> ex(new ThreadTaskExecutor("executor", profile, fn<void (const std::exception&)>([&](const std::exception& e) { w.handler(e); })));
		ThreadTaskExecutor* const p = ex.release();		// nested tasks use it until the end
		w.add = [p](const function<void ()>& f, const FutureExecutionTester& t) { p->AddTask(f, t); };
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < w.prog.size(); ++i)
			t.emplace_back([&, i] { for (size_t n : w.prog[i]) w.submit(n); });
		std::vector<sched::Thread> r;
		for (const Releaser& x : rel)
			r.emplace_back([&, x] { if (x.ms) sched::sleep_ms(x.ms); w.lives[x.life]->release(false); });
		for (auto& x : t) x.join();
		delete p;
		finished = stamp();
		t.clear();
		r.clear();
	}
	w.check(true, finished);
	REQUIRE(w.threads.size() <= 1, "tasks of one executor ran on " << w.threads.size() << " threads");
	w.end();
	LIVE_CHECK(NTracked);
	size_t submitters = 0;
	for (auto& p : w.prog) submitters += !p.empty();
	c.nontrivial_if(sched::preemptions() >= 1 && (submitters >= 2 || (!rel.empty() && !w.tasks.empty())));
}


PROP(threadless_executors, 50000, 1500000, 0, "two threads executed tasks, or tasks were added while others ran, with a preemption")
{
	World w;
	const size_t lives = s.range<size_t>(0, 2);
	w.generate(s, c, s.range<size_t>(1, 2), 4, lives);
	const std::vector<Releaser> rel = gen_releases(s, c, lives);
	const optional<TimeDuration> profile = gen_profile(s);
	struct Act { unsigned kind; unsigned ms; };
	std::vector<std::vector<Act> > acts(s.range<size_t>(1, 2));
	bool clears = false;
	for (auto& a : acts)
		while (s.more(3))
		{
			a.push_back(Act{ s.weighted({ 4u, 1u, 1u, 1u }), s.pick<unsigned>({ 0, 1, 10 }) });
			clears |= a.back().kind == 1;
		}
	g_stamp = 0;
	LIVE_BASE(NTracked);
	size_t cleared = 0, executions = 0;
	sched::start(s);
	{
		ThreadlessTaskExecutor ex("threadless", profile, fn<void (const std::exception&)>([&](const std::exception& e) { w.handler(e); }));
		w.add = [&](const function<void ()>& f, const FutureExecutionTester& t) { ex.AddTask(f, t); };
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < w.prog.size(); ++i)
			t.emplace_back([&, i] { for (size_t n : w.prog[i]) w.submit(n); });
		for (size_t i = 0; i < acts.size(); ++i)
			t.emplace_back([&, i]
			{
				for (const Act& a : acts[i])
				{
					if (a.ms) sched::sleep_ms(a.ms);
					switch (a.kind)
					{
					case 0: ex.ExecuteTasks(); { sched::NoPreempt np; ++executions; } break;
					case 1: ex.ClearTasks(); { sched::NoPreempt np; ++cleared; } break;
					case 2: { CancellationToken token; token.Cancel(); ex.ExecuteTasks(token); } break;
					case 3: { TimedCancellationToken token(TimeDuration(a.ms)); ex.ExecuteTasks(token); } break;
					}
				}
			});
		for (const Releaser& x : rel)
			t.emplace_back([&, x] { if (x.ms) sched::sleep_ms(x.ms); w.lives[x.life]->release(false); });
		for (auto& x : t) x.join();
		ex.ExecuteTasks();
		size_t before = 0, after = 0;
		for (auto& x : w.tasks) before += x->starts;
		ex.ExecuteTasks();
		for (auto& x : w.tasks) after += x->starts;
		REQUIRE_EQ(before, after);
		const uint64_t finished = stamp();
		if (!cleared)
			w.check(true, finished);
		else
			for (auto& a : w.tasks)
				for (auto& b : w.tasks)
					if (a->starts && b->starts && a->addEnd < b->addBegin)
						REQUIRE(a->end < b->start, "task " << a->id << " was added before task " << b->id << ", but ran after it");
	}
	w.end();
	LIVE_CHECK(NTracked);
	c.label(clears ? "cleared" : "all run");
	c.nontrivial_if(sched::preemptions() >= 1 && w.tasks.size() >= 2 && executions >= 1);
}


PROP(thread_pools, 50000, 1500000, 0, "a task was refused or waited for a place, or two ran at once, with a preemption")
{
	struct Step { unsigned kind; size_t task; unsigned ms; };
	struct PTask { unsigned kind; unsigned ms; bool throws; int starts, ends; bool accepted, handled; };
	const size_t maxThreads = s.range<size_t>(1, 3), submitters = s.range<size_t>(1, 3);
	std::vector<PTask> tasks;
	std::vector<std::vector<Step> > prog(submitters);
	size_t longs = 0;
	bool submitted = false;
	for (size_t i = 0; i < submitters; ++i)
	{
		std::string text;
		while (s.more(4))
		{
			Step x{ s.weighted({ 3u, 2u, 3u, 2u }), tasks.size(), s.pick<unsigned>({ 0, 1, 10, 100 }) };
			// long ones run until all submitters are done, and there is always a place left for the others
			const bool longer = longs + 1 < maxThreads && s.chance(1, 4);
			longs += longer;
			tasks.push_back(PTask{ longer ? 3 : s.weighted({ 3u, 2u, 2u }), s.pick<unsigned>({ 1, 10, 50 }), s.chance(1, 6), 0, 0, false, false });
			prog[i].push_back(x);
			text += " " + std::to_string(x.kind) + ":" + std::to_string(x.task) + "/" + std::to_string(tasks.back().kind) + (tasks.back().throws ? "!" : "");
		}
		TR("submitter " << i << ":" << text);
	}
	const optional<TimeDuration> profile = gen_profile(s);
	const optional<TimeDuration> idle = s.coin() ? optional<TimeDuration>(TimeDuration(s.pick<int>({ 1, 2, 20 }))) : optional<TimeDuration>();
	const bool drain = s.coin();
	const bool waitIdle = drain && s.coin(), full = drain && s.coin();
	const bool jumps = s.coin();
	TR("at most " << maxThreads << " threads, idle " << ToString(idle) << (drain ? ", drained" : ", destroyed early"));
	size_t inside = 0, maxInside = 0, attempts = 0, accepted = 0, ended = 0, refused = 0, waited = 0;
	bool destroying = false;
	sched::start(s, sched::Mode(true, jumps));
	{
		std::unique_ptr<ThreadPool> pool(new ThreadPool("pool", maxThreads, profile, idle, fn<void (const std::exception&)>([&](const std::exception& e)
		{
			sched::NoPreempt np;
			const std::string t = diagnostic_information(e);
			const size_t p = t.find("task ");
			REQUIRE(p != std::string::npos, "unexpected exception " << t);
			PTask& x = tasks.at(atoi(t.c_str() + p + 5));
			REQUIRE(x.throws && !x.handled && x.ends == 1, "an exception is handled at a wrong time");
			x.handled = true;
		})));
		ThreadPool* const pp = pool.get();
		auto make = [&](size_t n)
		{
			return fn<void (const ICancellationToken&)>([&, n](const ICancellationToken& token)
			{
				PTask& x = tasks[n];
				{
					sched::NoPreempt np;
					REQUIRE_EQ(++x.starts, 1);
					++inside;
					maxInside = std::max(maxInside, inside);
					REQUIRE(inside <= maxThreads, inside << " tasks run at once in a pool of " << maxThreads);
				}
				switch (x.kind)
				{
				case 0: sched::point("task"); break;
				case 1: sched::sleep_ms(x.ms); break;
				case 2: token.Sleep(TimeDuration(x.ms)); break;
				case 3: { const std::function<bool ()> f = [&] { return submitted; }; sched::wait_until(f); } break;
				}
				sched::NoPreempt np;
				REQUIRE(token || destroying, "the token of a task is cancelled");
				--inside;
				++x.ends;
				++ended;
				if (x.throws) throw std::runtime_error("task " + std::to_string(n));
			});
		};
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < submitters; ++i)
			t.emplace_back([&, i]
			{
				for (const Step& x : prog[i])
				{
					const auto task = make(x.task);
					size_t busyBefore;
					{ sched::NoPreempt np; busyBefore = accepted - ended; ++attempts; }
					switch (x.kind)
					{
					case 0:
						{
							{ sched::NoPreempt np; ++accepted; }	// it may run at once
							const bool ok = pp->TryQueue(task);
							sched::NoPreempt np;
							if (ok) tasks[x.task].accepted = true;
							else
							{
								--accepted;
								++refused;
								REQUIRE(attempts > maxThreads, "a task was refused by a pool of " << maxThreads << " which had got " << attempts - 1);
							}
						}
						break;
					case 1:
						{
							const bool can = submitters == 1 && pp->CanQueue();
							{ sched::NoPreempt np; ++accepted; }
							bool ok = true;
							try { pp->Queue(task); }
							catch (const std::exception&) { ok = false; }
							sched::NoPreempt np;
							REQUIRE(ok || !can, "a pool which can queue refused a task");
							if (ok) tasks[x.task].accepted = true;
							else { --accepted; ++refused; }
						}
						break;
					case 2:
						{
							{ sched::NoPreempt np; ++accepted; if (busyBefore >= maxThreads) ++waited; }
							pp->WaitQueue(task, DummyCancellationToken());
							tasks[x.task].accepted = true;
						}
						break;
					case 3:
						{
							TimedCancellationToken token(TimeDuration(x.ms));
							{ sched::NoPreempt np; ++accepted; }
							bool ok = true;
							try { pp->WaitQueue(task, token); }
							catch (const std::exception& e) { ok = false; }
							sched::NoPreempt np;
							if (ok) tasks[x.task].accepted = true;
							else
							{
								--accepted;
								++refused;
								REQUIRE(!token, "a wait for a place ended before its time");
							}
						}
						break;
					}
				}
			});
		for (auto& x : t) x.join();
		{ sched::NoPreempt np; submitted = true; }
		if (drain)
		{
			const std::function<bool ()> done = [&] { return ended == accepted; };
			sched::wait_until(done);
			if (full)
			{	// a pool with nothing to do takes as many tasks as it may have threads, and no more
				sched::settle();
				CancellationToken stop;
				size_t started = 0;
				for (size_t i = 0; i < maxThreads; ++i)
				{
					REQUIRE(pp->CanQueue(), "a pool of " << maxThreads << " with " << i << " tasks cannot queue");
					REQUIRE(pp->TryQueue(fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { { sched::NoPreempt np; ++started; } while (stop) stop.Sleep(TimeDuration::Hour()); sched::NoPreempt np; --started; })), "a pool of " << maxThreads << " with " << i << " tasks refused one");
				}
				REQUIRE(!pp->CanQueue(), "a full pool can queue");
				REQUIRE(!pp->TryQueue(fn<void (const ICancellationToken&)>([](const ICancellationToken&) { FAIL("a refused task runs"); })), "a full pool took a task");
				const std::function<bool ()> all = [&] { return started == maxThreads; };
				sched::wait_until(all);
				stop.Cancel();
				const std::function<bool ()> none = [&] { return started == 0; };
				sched::wait_until(none);
			}
			if (waitIdle && idle)
			{
				sched::sleep_ms(1000);
				if (!jumps)
					REQUIRE(sched::live() <= 1, sched::live() << " threads are left in an idle pool");
			}
		}
		{ sched::NoPreempt np; destroying = true; }
		pool.reset();
		sched::NoPreempt np;
		REQUIRE_EQ(inside, 0u);
		REQUIRE_EQ(sched::live(), 0u);
	}
	for (size_t i = 0; i < tasks.size(); ++i)
	{
		const PTask& x = tasks[i];
		REQUIRE_EQ(x.starts, x.ends);
		REQUIRE(x.accepted || !x.starts, "task " << i << " was refused, but ran");
		REQUIRE(!drain || !x.accepted || x.starts == 1, "task " << i << " was accepted, but did not run");
		REQUIRE_EQ(x.handled, x.throws && x.ends);
	}
	c.label(refused ? "refused" : "all accepted");
	c.nontrivial_if(sched::switches() >= 2 && (refused || waited || maxInside >= 2));
}


PROP(life_tokens, 60000, 2000000, 0, "a release met a running task or a task met a released token, with a preemption")
{
	struct Step { unsigned kind; unsigned nest; unsigned ms; };
	const size_t threads = s.range<size_t>(1, 3);
	const unsigned kind = s.weighted({ 4u, 3u, 1u, 1u });
	std::vector<std::vector<Step> > prog(threads);
	for (size_t i = 0; i < threads; ++i)
	{
		std::string text;
		while (s.more(4))
		{
			prog[i].push_back(Step{ s.weighted({ 3u, 2u, 2u, 1u }), s.range<unsigned>(1, 3), s.pick<unsigned>({ 0, 0, 1, 10 }) });
			text += " " + std::to_string(prog[i].back().kind) + "x" + std::to_string(prog[i].back().nest);
		}
		TR("thread " << i << ":" << text);
	}
	struct Rel { unsigned kind; unsigned ms; };
	std::vector<Rel> rel;
	while (rel.size() < 3 && s.coin()) { rel.push_back(Rel{ s.weighted({ 3u, 1u }), s.pick<unsigned>({ 0, 0, 1, 10 }) }); TR("controller: " << (rel.back().kind ? "reset" : "release")); }
	static const char* const names[] = { "token", "holder", "dummy", "dead" };
	TR(names[kind]);
	// generations of the token: reset starts a new one
	struct Gen { uint64_t relBegin = Never, relEnd = Never; int running = 0; std::map<int, int> depth; };
	std::vector<Gen> gens(1);
	std::unique_ptr<TaskLifeToken> token;
	std::unique_ptr<TaskLifeHolder> holder;
	if (kind == 0) token.reset(new TaskLifeToken);
	if (kind == 1) holder.reset(new TaskLifeHolder);
	if (kind == 2) token.reset(new TaskLifeToken(TaskLifeToken::CreateDummyTaskToken()));
	if (kind == 3) token.reset(new TaskLifeToken(TaskLifeToken::CreateDeadTaskToken()));
	g_stamp = 0;
	size_t runs = 0, refused = 0, metRunning = 0;
	Mutex m;	// the token itself is not for concurrent use
	auto tester = [&](size_t& gen) { MutexLock l(m); gen = gens.size() - 1; return holder ? holder->GetExecutionTester() : token->GetExecutionTester(); };
	auto enter = [&](size_t g)
	{
		sched::NoPreempt np;
		Gen& x = gens[g];
		++x.running;
		++x.depth[sched::self()];
		++runs;
		if (kind == 2) return;
		REQUIRE(kind != 3, "a task of a dead token runs");
		REQUIRE(x.relEnd == Never, "a task started after its token was released");
		for (auto& d : x.depth)
			REQUIRE(!d.second || d.first == sched::self(), "two threads run tasks of one token at once");
	};
	auto leave = [&](size_t g)
	{
		sched::NoPreempt np;
		Gen& x = gens[g];
		--x.running;
		--x.depth[sched::self()];
		REQUIRE(kind >= 2 || x.relEnd == Never, "a task was running when the release of its token ended");
	};
	auto deny = [&](size_t g)
	{
		sched::NoPreempt np;
		++refused;
		REQUIRE(kind != 2, "a task of a dummy token was refused");
		REQUIRE(kind == 3 || gens[g].relBegin != Never, "a task was refused, but its token is alive");
	};
	gens.reserve(8);
	sched::start(s);
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < threads; ++i)
			t.emplace_back([&, i]
			{
				for (const Step& x : prog[i])
				{
					size_t g = 0;
					const FutureExecutionTester te = tester(g);
					REQUIRE_EQ(te.IsDummy(), kind == 2);
					switch (x.kind)
					{
					case 0:
						{
							std::function<void (unsigned)> nest = [&](unsigned d)
							{
								LocalExecutionGuard guard(te);
								if (!guard) { deny(g); return; }
								enter(g);
								if (x.ms) sched::sleep_ms(x.ms);
								else sched::point("task");
								if (d > 1) nest(d - 1);
								leave(g);
							};
							nest(x.nest);
						}
						break;
					case 1:
						{
							bool ran = false;
							const auto f = MakeCancellableFunction(fn<void (int)>([&](int v) { ran = true; enter(g); REQUIRE_EQ(v, 7); if (x.ms) sched::sleep_ms(x.ms); else sched::point("task"); leave(g); }), te);
							f(7);
							if (!ran) deny(g);
						}
						break;
					case 2:
						{
							const auto f = MakeCancellableFunction(fn<int (int)>([&](int v) { enter(g); sched::point("task"); leave(g); return v * 2; }), te);
							bool threw = false;
							int r = 0;
							try { r = f(21); }
							catch (const std::exception&) { threw = true; }
							if (threw) deny(g);
							else REQUIRE_EQ(r, 42);
						}
						break;
					case 3:
						{	// an exception ends the execution, too
							try
							{
								LocalExecutionGuard guard(te);
								if (!guard) { deny(g); break; }
								enter(g);
								leave(g);
								throw std::runtime_error("x");
							}
							catch (const std::runtime_error&)
							{ }
						}
						break;
					}
				}
			});
		for (const Rel& r : rel)
		{
			if (r.ms) sched::sleep_ms(r.ms);
			size_t g;
			{
				sched::NoPreempt np;
				g = gens.size() - 1;
				if (gens[g].running) ++metRunning;
				gens[g].relBegin = std::min(gens[g].relBegin, stamp());
			}
			if (r.kind == 0)
			{
				if (holder) holder->Release();
				else token->Release();
				sched::NoPreempt np;
				if (kind < 2) REQUIRE_EQ(gens[g].running, 0);
				gens[g].relEnd = std::min(gens[g].relEnd, stamp());
			}
			else if (kind < 2)
			{
				// testers are not taken meanwhile, but what was taken may be in use: a mutex here would deadlock with guards only if testers were taken inside them
				MutexLock l(m);
				if (holder) holder->Reset();
				else token->Reset();
				sched::NoPreempt np;
				REQUIRE_EQ(gens[g].running, 0);
				gens[g].relEnd = std::min(gens[g].relEnd, stamp());
				gens.emplace_back();
			}
		}
		for (auto& x : t) x.join();
		if (kind == 1)
		{
			holder.reset();		// releases
		}
		else
			token->Release();
	}
	c.nontrivial_if(sched::preemptions() >= 1 && (metRunning || (refused && runs)));
}


PROP(async_functions, 40000, 1000000, 0, "a call was made by another thread than the one which waits, or its token was released, with a preemption")
{
	const size_t threads = s.range<size_t>(1, 2);
	struct Call { unsigned kind; int value; unsigned ms; bool throws, guarded; };
	std::vector<std::vector<Call> > prog(threads);
	size_t calls = 0;
	for (size_t i = 0; i < threads; ++i)
	{
		std::string text;
		while (s.more(3))
		{
			prog[i].push_back(Call{ s.weighted({ 3u, 1u, 1u }), s.range<int>(-100, 100), s.chance(1, 4) ? s.pick<unsigned>({ 1, 20 }) : 0, s.chance(1, 5), s.coin() });
			++calls;
			const Call& x = prog[i].back();
			text += " " + std::to_string(x.kind) + (x.throws ? "!" : "") + (x.guarded ? "@" : "");
		}
		TR("caller " << i << ":" << text);
	}
	const bool releases = s.coin();
	const unsigned releaseMs = s.pick<unsigned>({ 0, 1, 20 });
	const bool threadless = s.chance(1, 3);
	if (releases) TR("the token is released after " << releaseMs << " ms");
	TaskLifeToken life;
	bool relBegin = false, relEnd = false;
	size_t broken = 0;
	sched::start(s);
	{
		const shared_ptr<ThreadlessTaskExecutor> tl = make_shared_ptr<ThreadlessTaskExecutor>("threadless", null);
		const ITaskExecutorPtr ex = threadless ? ITaskExecutorPtr(tl) : ITaskExecutorPtr(make_shared_ptr<ThreadTaskExecutor>("executor", null));
		bool stop = false;
		sched::Thread pump;
		if (threadless)
			pump = sched::Thread([&]
			{
				for (;;)
				{
					bool last;
					{ sched::NoPreempt np; last = stop; }
					tl->ExecuteTasks();
					if (last) break;
					sched::sleep_ms(1);
				}
			});
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < threads; ++i)
			t.emplace_back([&, i]
			{
				struct Pending { Call call; future<int> f; bool releasedBefore; };
				std::vector<Pending> pending;
				std::shared_ptr<int> sum = std::make_shared<int>(0);
				int expected = 0;
				for (const Call& x : prog[i])
				{
					const FutureExecutionTester te = x.guarded ? life.GetExecutionTester() : FutureExecutionTester(null);
					bool before;
					{ sched::NoPreempt np; before = relEnd; }
					switch (x.kind)
					{
					case 0:
						{
							const auto f = MakeAsyncFunction(ex, fn<int (int, int)>([x](int a, int b) { if (x.ms) sched::sleep_ms(x.ms); if (x.throws) throw std::runtime_error("planned"); return a + b; }), te);
							pending.push_back(Pending{ x, f(x.value, 5), before });
						}
						break;
					case 1:
						{
							const auto f = MakeAsyncFunction(ex, fn<void (int)>([sum](int a) { sched::NoPreempt np; *sum += a; }), FutureExecutionTester(null));
							f(x.value);
							expected += x.value;
						}
						break;
					case 2:
						{	// called twice
							const auto f = MakeAsyncFunction(ex, fn<int (int)>([x](int a) { if (x.throws) throw std::runtime_error("planned"); return a + 5; }), te);
							pending.push_back(Pending{ x, f(x.value), before });
							{ sched::NoPreempt np; before = relEnd; }
							pending.push_back(Pending{ x, f(x.value), before });
						}
						break;
					}
				}
				for (Pending& p : pending)
				{
					p.f.wait(DummyCancellationToken());
					int r = 0;
					std::string what;
					try { r = p.f.get(); }
					catch (const std::exception& e) { what = diagnostic_information(e); }
					sched::NoPreempt np;
					if (what.empty())
					{
						REQUIRE_EQ(r, p.call.value + 5);
						REQUIRE(!p.call.throws, "an exception of a task was lost");
						REQUIRE(!p.call.guarded || !p.releasedBefore, "a task ran after its token was released");
					}
					else if (what.find("planned") != std::string::npos)
						REQUIRE(p.call.throws && (!p.call.guarded || !p.releasedBefore), "a strange exception " << what);
					else
					{
						REQUIRE(p.call.guarded && relBegin, "a call ended with " << what);
						++broken;
					}
				}
				// tasks of one thread run in order, so a last one sees them all
				const auto f = MakeAsyncFunction(ex, fn<int ()>([sum] { sched::NoPreempt np; return *sum; }), FutureExecutionTester(null));
				REQUIRE_EQ(f().get(), expected);
			});
		if (releases)
		{
			if (releaseMs) sched::sleep_ms(releaseMs);
			{ sched::NoPreempt np; relBegin = true; }
			life.Release();
			{ sched::NoPreempt np; relEnd = true; }
		}
		for (auto& x : t) x.join();
		{ sched::NoPreempt np; stop = true; }
		if (threadless) pump.join();
	}
	life.Release();
	c.label(broken ? "broken" : "kept");
	c.nontrivial_if(calls >= 1 && sched::preemptions() >= 1);
}
