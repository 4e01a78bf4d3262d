// ENGINE: conc
// FLAGS: -Wno-c++11-narrowing
// Timers and execution deferrers on the virtual clock.
#include <stingraykit/string/ToString.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/timer/Timer.h>
#include "dsched.h"
#include "tracked.h"
#include "util.h"
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	sched::Services services([] { ExecutorsProfiler::Instance(); });

	typedef int64_t ns_t;
	const ns_t Ms = 1000000, Eps = 2000;	// the clock of the library has a resolution of a microsecond

	ns_t g_grain = 1;
	// how late something may happen when nobody is busy: the time which the threads needed to run
	ns_t slack() { return (ns_t)sched::ticks_ns() + 2 * g_grain + Ms; }

	uint64_t g_stamp = 0;
	const uint64_t Never = ~0ull;
	// a moment of the history
	struct At
	{
		uint64_t	stamp = Never;
		ns_t		ns = 0;
		bool happened() const { return stamp != Never; }
		static At now()
		{
			sched::NoPreempt np;
			At a;
			a.stamp = ++g_stamp;
			a.ns = (ns_t)sched::clock_ns();
			return a;
		}
	};
	bool operator < (const At& a, const At& b) { return a.stamp < b.stamp; }

	struct Run { At start, end; ns_t dueMin, dueMax; };

	struct Job
	{
		int			id = 0;
		unsigned	kind = 0;			// 0 added, 1 one-shot, 2 periodic, 3 periodic with its own first timeout
		int			timeout = 0, interval = 0;
		unsigned	ms = 0;				// it takes
		bool		throws = false;
		int			resets = -1;		// the job stopped from inside
		unsigned	resetAt = 1;		// in this run
		int			nested = -1;		// set from inside
		// history
		At			setBegin, setEnd, stopBegin, stopEnd;
		bool		stopInside = false;
		std::vector<Run> runs;
		bool		running = false;
		int			handled = 0;
		Token		token;
		TaskLifeToken life;

		bool periodic() const { return kind >= 2; }
		ns_t first() const { return (kind == 0 ? 0 : kind == 2 ? interval : timeout) * Ms; }
		std::string show() const
		{
			std::string r = " " + std::to_string(id) + ":";
			switch (kind)
			{
			case 0: r += "now"; break;
			case 1: r += "in " + std::to_string(timeout); break;
			case 2: r += "every " + std::to_string(interval); break;
			case 3: r += "in " + std::to_string(timeout) + " every " + std::to_string(interval); break;
			}
			if (throws) r += "!";
			if (ms) r += "(" + std::to_string(ms) + "ms)";
			if (resets >= 0) r += " stops " + std::to_string(resets) + " in run " + std::to_string(resetAt);
			if (nested >= 0) r += " sets " + std::to_string(nested);
			return r;
		}
	};

	// time of [from, to] which no interval covers
	ns_t uncovered(const std::vector<std::pair<ns_t, ns_t> >& busy, ns_t from, ns_t to)		// busy is sorted and does not overlap
	{
		ns_t r = 0;
		for (auto& b : busy)
		{
			if (b.second <= from) continue;
			if (b.first >= to) break;
			if (b.first > from) r += b.first - from;
			from = std::max(from, b.second);
		}
		return from < to ? r + to - from : r;
	}

	// when the timer is free after a moment
	ns_t free_at(const std::vector<std::pair<ns_t, ns_t> >& busy, ns_t t)
	{
		for (auto& b : busy)
			if (b.first <= t + slack() && b.second > t) t = b.second;
		return t;
	}

	struct Step { unsigned kind; size_t job; unsigned ms; };		// 0 set, 1 stop, 2 sleep

	struct World
	{
		std::vector<std::unique_ptr<Job> > jobs;
		Timer* timer = NULL;
		int inside = 0;
		std::set<int> threads;
		std::vector<size_t> order;			// of the runs
		ns_t prevEnd = 0;					// of the run before
		std::vector<std::pair<ns_t, ns_t> > busy;
		At dtorBegin, dtorEnd;

		size_t one(Src& s)
		{
			std::unique_ptr<Job> j(new Job);
			j->id = (int)jobs.size();
			j->kind = s.weighted({ 2u, 5u, 2u, 2u });
			j->timeout = s.pick<int>({ 0, 0, 1, 5, 5, 10, 20, 60, -3 });
			j->interval = s.pick<int>({ 5, 7, 10, 30, 100 });
			j->ms = s.chance(1, 3) ? s.pick<unsigned>({ 1, 5, 10, 40 }) : 0;
			j->throws = s.chance(1, 6);
			jobs.push_back(std::move(j));
			return jobs.size() - 1;
		}
		void set(size_t n)
		{
			Job& j = *jobs[n];
			j.setBegin = At::now();
			const NTracked canary((int)n);
			const function<void ()> f = fn<void ()>([this, n, canary] { run(n); REQUIRE_EQ(canary.get(), (int)n); });
			Token t;
			switch (j.kind)
			{
			case 0: timer->AddTask(f, j.life.GetExecutionTester()); break;
			case 1: t = timer->SetTimeout(TimeDuration(j.timeout), f); break;
			case 2: t = timer->SetTimer(TimeDuration(j.interval), f); break;
			case 3: t = timer->SetTimer(TimeDuration(j.timeout), TimeDuration(j.interval), f); break;
			}
			sched::NoPreempt np;
			j.token = std::move(t);
			j.setEnd = At::now();
		}
		void stop(size_t n, bool inTimer)
		{
			Job& j = *jobs[n];
			Token t;
			{
				sched::NoPreempt np;
				if (!j.setEnd.happened() || j.stopBegin.happened())
					return;
				j.stopBegin = At::now();
				j.stopInside = inTimer;
				t = std::move(j.token);
			}
			if (j.kind == 0)
				j.life.Release();
			else
				t.Reset();
			sched::NoPreempt np;
			REQUIRE(!j.running || inTimer, "job " << n << " was running when its token was released");
			j.stopEnd = At::now();
		}
		void run(size_t n)
		{
			Job& j = *jobs[n];
			{
				sched::NoPreempt np;
				Run r;
				r.start = At::now();
				r.dueMin = j.runs.empty() ? j.setBegin.ns + j.first() : std::max(j.runs.back().dueMin, j.runs.back().end.ns) + j.interval * Ms;
				if (!j.runs.empty())
				{
					// it was started after it became due and after the run before it
					r.dueMin = j.runs.back().dueMin + j.interval * Ms;
					r.dueMax = j.runs.back().start.ns + j.interval * Ms;
				}
				else
					r.dueMax = j.setEnd.happened() ? j.setEnd.ns + j.first() : Never >> 1;
				REQUIRE(r.start.ns >= r.dueMin - Eps, "job " << n << " ran " << (r.dueMin - r.start.ns) / 1000 << " us too early in run " << j.runs.size() + 1);
				r.dueMin = std::max(r.dueMin, prevEnd);			// a lower bound of the time when it was started
				j.runs.push_back(r);
				REQUIRE(j.periodic() || j.runs.size() == 1, "job " << n << " ran twice");
				REQUIRE(!j.stopEnd.happened(), "job " << n << " started after its token was released");
				REQUIRE_EQ(inside, 0);
				++inside;
				j.running = true;
				threads.insert(sched::self());
				order.push_back(n);
			}
			if (j.ms) sched::sleep_ms(j.ms);
			else sched::point("job");
			if (j.nested >= 0 && j.runs.size() == 1) set(j.nested);
			if (j.resets >= 0 && j.runs.size() == j.resetAt) stop(j.resets, true);
			sched::NoPreempt np;
			Run& r = j.runs.back();
			r.end = At::now();
			REQUIRE(!j.stopEnd.happened() || j.stopInside, "job " << n << " was running when its token was released");
			prevEnd = r.end.ns;
			busy.push_back(std::make_pair(r.start.ns, r.end.ns));
			--inside;
			j.running = false;
			if (j.throws)
				throw std::runtime_error("job " + std::to_string(n));
		}
		void handler(const std::exception& e)
		{
			sched::NoPreempt np;
			const std::string w = diagnostic_information(e);
			const size_t p = w.find("job ");
			REQUIRE(p != std::string::npos, "an unexpected exception is handled: " << w);
			Job& j = *jobs.at(atoi(w.c_str() + p + 4));
			REQUIRE(j.throws, "the exception of a job which does not throw is handled");
			REQUIRE_EQ((size_t)++j.handled, j.runs.size());
		}
		void check(bool jumps)
		{
			REQUIRE(threads.size() <= 1, "jobs of one timer ran on " << threads.size() << " threads");
			for (auto& p : jobs)
			{
				const Job& j = *p;
				if (!j.setEnd.happened())
					continue;
				REQUIRE_EQ((size_t)j.handled, j.throws ? j.runs.size() : 0);
				for (const Run& r : j.runs)
					REQUIRE(r.end < dtorEnd, "job " << j.id << " ran after its timer");
				const ns_t dueMax = j.setEnd.ns + j.first();
				if (!j.stopBegin.happened() && j.setEnd < dtorBegin && dueMax <= dtorBegin.ns - Eps)
					REQUIRE(!j.runs.empty(), "job " << j.id << " was due before the end of its timer, but did not run");
				if (jumps)
					continue;
				for (const Run& r : j.runs)
				{
					const ns_t late = uncovered(busy, std::min(std::max(r.dueMax, j.setEnd.ns), r.start.ns), r.start.ns);
					REQUIRE(late <= slack(), "job " << j.id << " was due, but the timer did nothing for " << late / Ms << " ms");
				}
				if (!j.stopBegin.happened() && (j.periodic() || j.runs.empty()))
				{
					const ns_t next = j.runs.empty() ? std::max(dueMax, j.setEnd.ns) : j.runs.back().start.ns + j.interval * Ms;
					const ns_t late = uncovered(busy, std::min(next, dtorBegin.ns), dtorBegin.ns);
					REQUIRE(late <= slack(), "job " << j.id << " was due, but the timer did nothing for " << late / Ms << " ms");
				}
			}
			// first runs are ordered by due times
			for (auto& pa : jobs)
				for (auto& pb : jobs)
				{
					const Job &a = *pa, &b = *pb;
					if (&a == &b || b.runs.empty() || !a.setEnd.happened() || a.stopBegin.happened())
						continue;
					const ns_t aMax = a.setEnd.ns + a.first(), bMin = b.setBegin.ns + b.first();
					// set before, and never due later
					const bool before = a.setEnd < b.setBegin && a.first() <= b.first();
					// due earlier, and was there before the other could be taken
					const bool earlier = aMax < bMin - Eps && a.setEnd.ns < bMin - Eps;
					if (before || earlier)
						REQUIRE(!a.runs.empty() && a.runs[0].start < b.runs[0].start, "job " << a.id << " was due before job " << b.id << ", but did not run before it");
				}
		}
	};
}


PROP(timers, 80000, 2500000, 0, "a token was released while the timer lived, or two tasks were set by different threads, with a preemption")
{
	World w;
	const size_t submitters = s.range<size_t>(1, 3);
	std::vector<std::vector<Step> > prog(submitters);
	for (auto& p : prog)
		while (p.size() < 6 && s.more(4))
			switch (s.weighted({ 5u, 2u, 2u }))
			{
			case 0:
				{
					const size_t n = w.one(s);
					p.push_back(Step{ 0, n, 0 });
					if (s.chance(1, 6)) { const size_t m = w.one(s); w.jobs[n]->nested = (int)m; }
				}
				break;
			case 1: if (!w.jobs.empty()) p.push_back(Step{ 1, s.below(w.jobs.size()), 0 }); break;
			case 2: p.push_back(Step{ 2, 0, s.pick<unsigned>({ 1, 3, 5, 12, 40 }) }); break;
			}
	for (auto& j : w.jobs)
		if (s.chance(1, 5))
		{
			j->resets = s.coin() ? j->id : (int)s.below(w.jobs.size());
			j->resetAt = j->periodic() ? s.range<unsigned>(1, 3) : 1;
		}
	for (size_t i = 0; i < prog.size(); ++i)
	{
		std::string t;
		for (const Step& x : prog[i]) t += x.kind == 0 ? w.jobs[x.job]->show() : x.kind == 1 ? " stop " + std::to_string(x.job) : " sleep " + std::to_string(x.ms);
		TR("thread " << i << ":" << t);
	}
	for (auto& j : w.jobs) if (j->nested >= 0) TR("nested" << w.jobs[j->nested]->show());
	const unsigned linger = s.pick<unsigned>({ 0, 0, 1, 10, 30, 150 });
	const optional<TimeDuration> profile = s.chance(1, 3) ? optional<TimeDuration>(TimeDuration(s.pick<int>({ 10000, 3 }))) : optional<TimeDuration>();
	const bool jumps = s.coin(), spurious = s.coin(), coarse = s.coin();
	const bool late = s.coin();			// tokens outlive the timer
	TR("destroyed after " << linger << " ms" << (jumps ? ", time jumps" : "") << (coarse ? ", coarse clock" : "") << ", profile " << ToString(profile));
	g_stamp = 0;
	g_grain = coarse ? Ms : 1;
	LIVE_BASE(NTracked);
	sched::start(s, sched::Mode(spurious, jumps, g_grain));
	{
		Timer* const timer = new Timer("timer", profile, fn<void (const std::exception&)>([&](const std::exception& e) { w.handler(e); }));
		w.timer = timer;
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < prog.size(); ++i)
			t.emplace_back([&, i]
			{
				for (const Step& x : prog[i])
					switch (x.kind)
					{
					case 0: w.set(x.job); break;
					case 1: w.stop(x.job, false); break;
					case 2: sched::sleep_ms(x.ms); break;
					}
			});
		for (auto& x : t) x.join();
		if (linger) sched::sleep_ms(linger);
		std::unique_ptr<sched::Thread> stopper;
		if (late)			// tokens may be released while and after the timer dies
			stopper.reset(new sched::Thread([&] { for (auto& j : w.jobs) if (j->id % 2) w.stop(j->id, false); }));
		w.dtorBegin = At::now();
		delete timer;
		w.dtorEnd = At::now();
		t.clear();
	}
	w.check(jumps);
	size_t stopped = 0, setters = 0;
	for (auto& j : w.jobs) { stopped += j->stopBegin.happened() && j->stopBegin < w.dtorBegin; j->token.Reset(); j->life.Release(); }
	LIVE_CHECK(NTracked);
	for (auto& p : prog) { bool any = false; for (const Step& x : p) any |= x.kind == 0; setters += any; }
	c.label(jumps ? "time jumps" : "no time jumps");
	c.nontrivial_if(sched::preemptions() >= 1 && (stopped || setters >= 2));
}


namespace
{
	struct Deferred
	{
		int			id = 0;
		int			timeout = 0, interval = 0;		// no interval: once
		bool		byDefault = false;				// the timeout of the deferrer
		unsigned	ms = 0;
		bool		throws = false, cancels = false;
		At			begin, end;
		std::vector<Run> runs;
		int			handled = 0;
	};
	struct Cancelled { At begin, end; int inside; };	// inside the run of a task, or -1
}

PROP(deferrers, 60000, 2000000, 0, "a task was replaced or cancelled, and a task ran, with a preemption")
{
	std::vector<std::unique_ptr<Deferred> > tasks;
	const size_t clients = s.weighted({ 2u, 2u, 1u }) + 1;
	const int defaultTimeout = s.pick<int>({ 1, 5, 20 });
	const bool jumps = s.coin(), spurious = s.coin(), coarse = s.coin(), own = s.chance(1, 4);
	std::vector<std::vector<Step> > prog(clients);
	for (size_t i = 0; i < clients; ++i)
	{
		std::string text;
		while (prog[i].size() < 7 && s.more(5))
			switch (s.weighted({ 4u, 2u, 3u }))
			{
			case 0:
				{
					std::unique_ptr<Deferred> d(new Deferred);
					d->id = (int)tasks.size();
					d->timeout = s.pick<int>({ 0, 1, 3, 5, 10, 30 });
					d->byDefault = s.chance(1, 4);
					if (d->byDefault) d->timeout = defaultTimeout;
					else if (!own && s.chance(1, 4)) d->interval = s.pick<int>({ 5, 10, 25 });
					d->ms = s.chance(1, 3) ? s.pick<unsigned>({ 1, 5, 20 }) : 0;
					d->throws = !own && s.chance(1, 8);
					d->cancels = s.chance(1, 6);
					text += " " + std::to_string(d->id) + ":in " + std::to_string(d->timeout) + (d->interval ? " every " + std::to_string(d->interval) : "") + (d->ms ? "(" + std::to_string(d->ms) + "ms)" : "") + (d->throws ? "!" : "") + (d->cancels ? " cancels" : "");
					tasks.push_back(std::move(d));
					prog[i].push_back(Step{ 0, tasks.size() - 1, 0 });
				}
				break;
			case 1: prog[i].push_back(Step{ 1, 0, 0 }); text += " cancel"; break;
			case 2: prog[i].push_back(Step{ 2, 0, s.pick<unsigned>({ 1, 2, 5, 12, 40 }) }); text += " sleep " + std::to_string(prog[i].back().ms); break;
			}
		TR("client " << i << ":" << text);
	}
	const unsigned linger = s.pick<unsigned>({ 0, 5, 60 });
	TR((own ? "own timer" : "shared timer") << ", default timeout " << defaultTimeout << " ms, destroyed after " << linger << " ms" << (jumps ? ", time jumps" : "") << (coarse ? ", coarse clock" : ""));
	g_stamp = 0;
	g_grain = coarse ? Ms : 1;
	std::vector<Cancelled> cancels;
	std::vector<std::pair<ns_t, ns_t> > busy;
	int inside = 0;
	At dtorBegin, dtorEnd;
	LIVE_BASE(NTracked);
	sched::start(s, sched::Mode(spurious, jumps, g_grain));
	{
		std::unique_ptr<Timer> timer;
		std::unique_ptr<ExecutionDeferrer> def;
		std::unique_ptr<ExecutionDeferrerWithTimer> defOwn;
		if (own) defOwn.reset(new ExecutionDeferrerWithTimer("timer", TimeDuration(defaultTimeout)));
		else
		{
			timer.reset(new Timer("timer", null, fn<void (const std::exception&)>([&](const std::exception& e)
			{
				sched::NoPreempt np;
				const std::string w = diagnostic_information(e);
				const size_t p = w.find("task ");
				REQUIRE(p != std::string::npos, "an unexpected exception is handled: " << w);
				Deferred& d = *tasks.at(atoi(w.c_str() + p + 5));
				REQUIRE(d.throws, "the exception of a task which does not throw is handled");
				REQUIRE_EQ((size_t)++d.handled, d.runs.size());
			})));
			def.reset(new ExecutionDeferrer(*timer, TimeDuration(defaultTimeout)));
		}
		auto cancel = [&](int in)
		{
			Cancelled x;
			x.inside = in;
			x.begin = At::now();
			if (own) defOwn->Cancel(); else def->Cancel();
			sched::NoPreempt np;
			x.end = At::now();
			cancels.push_back(x);
		};
		auto defer = [&](size_t n)
		{
			Deferred& d = *tasks[n];
			d.begin = At::now();
			const NTracked canary((int)n);
			const function<void ()> f = fn<void ()>([&, n, canary]
			{
				Deferred& d = *tasks[n];
				{
					sched::NoPreempt np;
					Run r;
					r.start = At::now();
					r.dueMin = d.runs.empty() ? d.begin.ns + d.timeout * Ms : d.runs.back().dueMin + d.interval * Ms;
					r.dueMax = d.runs.empty() ? 0 : d.runs.back().start.ns + d.interval * Ms;
					REQUIRE(r.start.ns >= r.dueMin - Eps, "task " << n << " ran " << (r.dueMin - r.start.ns) / 1000 << " us too early");
					REQUIRE(d.interval || d.runs.empty(), "task " << n << " ran twice");
					REQUIRE(!dtorEnd.happened(), "task " << n << " ran after its deferrer was destroyed");
					REQUIRE_EQ(++inside, 1);
					d.runs.push_back(r);
				}
				if (d.ms) sched::sleep_ms(d.ms);
				else sched::point("task");
				if (d.cancels && d.runs.size() == 2 - !d.interval) cancel((int)n);
				REQUIRE_EQ(canary.get(), (int)n);
				sched::NoPreempt np;
				REQUIRE(!dtorEnd.happened(), "task " << n << " was running when its deferrer was destroyed");
				d.runs.back().end = At::now();
				busy.push_back(std::make_pair(d.runs.back().start.ns, d.runs.back().end.ns));
				--inside;
				if (d.throws) throw std::runtime_error("task " + std::to_string(n));
			});
			if (d.byDefault) { if (own) defOwn->Defer(f); else def->Defer(f); }
			else if (own) defOwn->Defer(f, TimeDuration(d.timeout));
			else if (d.interval) def->Defer(f, TimeDuration(d.timeout), TimeDuration(d.interval));
			else def->Defer(f, TimeDuration(d.timeout));
			d.end = At::now();
		};
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < clients; ++i)
			t.emplace_back([&, i]
			{
				for (const Step& x : prog[i])
					switch (x.kind)
					{
					case 0: defer(x.job); break;
					case 1: cancel(-1); break;
					case 2: sched::sleep_ms(x.ms); break;
					}
			});
		for (auto& x : t) x.join();
		if (linger) sched::sleep_ms(linger);
		bool cancelling = false;
		for (auto& x : tasks) cancelling |= x->cancels;
		while (cancelling)		// a task which has cancelled itself is not waited for by the destructor
		{
			cancel(-1);
			const std::function<bool ()> idle = [&] { return inside == 0; };
			sched::wait_until(idle);
			sched::NoPreempt np;
			const Cancelled& m = cancels.back();
			cancelling = false;
			for (const Cancelled& y : cancels) cancelling |= &y != &m && m.begin < y.end;
		}
		dtorBegin = At::now();
		def.reset();
		defOwn.reset();
		dtorEnd = At::now();
		sched::settle();
		timer.reset();
		t.clear();
	}
	size_t runs = 0;
	bool replaced = false;
	for (auto& p : tasks)
	{
		const Deferred& a = *p;
		runs += a.runs.size();
		bool disturbed = false;
		for (auto& q : tasks)
		{
			const Deferred& b = *q;
			if (&a == &b) continue;
			replaced = true;
			if (!(b.end < a.begin)) disturbed = true;
			if (!(a.end < b.begin)) continue;
			for (const Run& r : a.runs)
			{
				// a later one may replace the replacement before it took effect
				bool more = dtorBegin < r.start;
				for (auto& x : tasks) more |= x.get() != &a && x.get() != &b && !(x->end < b.begin) && x->begin < r.start;
				for (const Cancelled& x : cancels) more |= !(x.end < b.begin) && x.begin < r.start;
				if (!more)
					REQUIRE(!(b.end < r.start) || r.dueMin <= b.end.ns + Eps, "task " << a.id << " was replaced by " << b.id << " before it was due, but ran");
			}
		}
		for (const Cancelled& x : cancels)
		{
			if (!(x.end < a.begin)) disturbed = true;
			if (!(a.end < x.begin)) continue;
			// cancellations going on at the same time may leave it to each other
			uint64_t over = x.end.stamp;
			bool alone = true;
			for (const Cancelled& y : cancels)
				if (&y != &x && y.begin < x.end && x.begin < y.end) { over = std::max(over, y.end.stamp); alone = false; }
			for (const Run& r : a.runs)
			{
				REQUIRE(r.start.stamp < over, "task " << a.id << " ran after it was cancelled");
				if (alone && x.inside < 0)
					REQUIRE(r.end < x.end, "task " << a.id << " was running when its cancellation ended");
			}
		}
		if (disturbed) continue;
		// nothing else happened to it
		const ns_t dueMax = free_at(busy, a.end.ns) + a.timeout * Ms;
		if (!jumps && (a.runs.empty() || a.interval))
		{
			const ns_t next = a.runs.empty() ? dueMax : a.runs.back().start.ns + a.interval * Ms;
			const ns_t late = uncovered(busy, std::min(next, dtorBegin.ns), dtorBegin.ns);
			REQUIRE(late <= slack(), "task " << a.id << " was due, but nothing happened for " << late / Ms << " ms");
		}
		if (!jumps && !a.runs.empty())
		{
			const ns_t late = uncovered(busy, std::min(dueMax, a.runs[0].start.ns), a.runs[0].start.ns);
			REQUIRE(late <= slack(), "task " << a.id << " was due, but nothing happened for " << late / Ms << " ms");
		}
	}
	LIVE_CHECK(NTracked);
	c.label(clients == 1 ? "one client" : "several clients");
	c.nontrivial_if(sched::preemptions() >= 1 && runs && (replaced || !cancels.empty()));
}
