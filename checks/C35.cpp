// ENGINE: conc
// Promises and futures: histories against a model, and producers and waiters under generated schedules.
#include <stingraykit/string/ToString.h>
#include <stingraykit/future.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/signal/SignalToFuture.h>
#include <stingraykit/signal/signals.h>
#include "dsched.h"
#include "tracked.h"
#include "token.h"
#include "util.h"
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	const uint64_t Ms = 1000000;
	const uint64_t Slack = 50 * Ms;

	template < typename T > struct Value;
	template < > struct Value<int>
	{
		static void set(promise<int>& p, int v) { p.set_value(v); }
		template < typename F > static int get(F& f) { return f.get(); }
		static const char* name() { return "int"; }
	};
	template < > struct Value<std::string>
	{
		static void set(promise<std::string>& p, int v) { p.set_value("value " + std::to_string(v)); }
		template < typename F > static int get(F& f) { const std::string r = f.get(); REQUIRE(r.compare(0, 6, "value ") == 0, quote(r)); return atoi(r.c_str() + 6); }
		static const char* name() { return "string"; }
	};
	template < > struct Value<Tracked>
	{
		static void set(promise<Tracked>& p, int v) { p.set_value(Tracked(v)); }
		template < typename F > static int get(F& f) { return f.get().get(); }
		static const char* name() { return "object"; }
	};
	template < > struct Value<void>
	{
		static void set(promise<void>& p, int) { p.set_value(); }
		template < typename F > static int get(F& f) { f.get(); return -1; }
		static const char* name() { return "void"; }
	};
	int g_refs[1000];
	template < > struct Value<int&>
	{
		static void set(promise<int&>& p, int v) { p.set_value(g_refs[v]); }
		template < typename F > static int get(F& f) { int& r = f.get(); return int(&r - g_refs); }
		static const char* name() { return "reference"; }
	};

	// what a shared state holds
	struct State
	{
		bool ready = false, exception = false;
		int value = 0;				// or the number in the exception's text
		bool broken = false;
	};

	struct Got
	{
		enum Kind { Val, Exc, Broken, Other } kind;
		int value;
		std::string text;
	};
	template < typename T, typename F >
	Got get(F& f)
	{
		try
		{ return Got{ Got::Val, Value<T>::get(f), "" }; }
		catch (const std::exception& ex)
		{
			const std::string w = ex.what();
			const size_t p = w.find("error number ");
			if (p != std::string::npos) return Got{ Got::Exc, atoi(w.c_str() + p + 13), w };
			if (w.find("roken") != std::string::npos || w.find("BrokenPromise") != std::string::npos) return Got{ Got::Broken, 0, w };
			return Got{ Got::Other, 0, w };
		}
	}

	template < typename T >
	void check(const Got& g, const State& st)
	{
		if (!st.exception)
			REQUIRE(g.kind == Got::Val && (g.value == st.value || g.value == -1), "got " << g.kind << " " << g.value << " " << g.text << ", expected the value " << st.value);
		else if (st.broken)
			REQUIRE(g.kind == Got::Broken, "got " << g.kind << " " << g.value << " " << g.text << ", expected the broken promise");
		else
			REQUIRE(g.kind == Got::Exc && g.value == st.value, "got " << g.kind << " " << g.value << " " << g.text << ", expected the exception " << st.value);
	}

	template < typename T >
	struct History
	{
		typedef std::shared_ptr<State> StatePtr;
		struct P { std::unique_ptr<promise<T> > p; StatePtr st; bool retrieved = false; };
		struct F { std::unique_ptr<future<T> > f; StatePtr st; };	// st empty: invalid
		struct S { shared_future<T> f; StatePtr st; };

		std::vector<P> ps;
		std::vector<F> fs;
		std::vector<S> ss;
		size_t useful = 0, refused = 0;

		template < typename X >
		static void expect_state(const X& f, const StatePtr& st)
		{
			REQUIRE_EQ(f.valid(), bool(st));
			if (!st)
			{
				REQUIRE(THROWS(f.is_ready()), "is_ready of an invalid future");
				REQUIRE(THROWS(f.has_value()), "has_value of an invalid future");
				REQUIRE(THROWS(f.has_exception()), "has_exception of an invalid future");
				REQUIRE(THROWS(f.wait(TimedCancellationToken(TimeDuration(1)))), "wait of an invalid future");
				return;
			}
			REQUIRE_EQ(f.is_ready(), st->ready);
			REQUIRE_EQ(f.has_value(), st->ready && !st->exception);
			REQUIRE_EQ(f.has_exception(), st->exception);
		}
		void expect_all()
		{
			for (F& f : fs) expect_state(*f.f, f.st);
			for (S& f : ss) expect_state(f.f, f.st);
		}

		void run(Src& s, Ctx& c)
		{
			int next = 1;
			while (s.more(30))
			{
				const unsigned op = s.weighted({ 4u, 4u, 4u, 2u, 3u, 2u, 3u, 3u, 3u, 2u, 2u, 2u });
				if (op == 0 || ps.empty())
				{
					TR("new promise");
					ps.emplace_back();
					ps.back().p.reset(new promise<T>());
					ps.back().st.reset(new State);
				}
				else if (op == 1)
				{
					P& p = s.pick_from(ps);
					TR("get_future " << &p - &ps[0]);
					if (p.retrieved) { REQUIRE(THROWS(p.p->get_future()), "the future of a promise was retrieved twice"); ++refused; }
					else
					{
						fs.emplace_back();
						fs.back().f.reset(new future<T>(p.p->get_future()));
						fs.back().st = p.st;
						p.retrieved = true;
					}
				}
				else if (op == 2)
				{
					P& p = s.pick_from(ps);
					const int v = next++;
					TR("set_value " << &p - &ps[0] << " " << v);
					if (p.st->ready) { REQUIRE(THROWS(Value<T>::set(*p.p, v)), "a promise was satisfied twice"); ++refused; }
					else
					{
						Value<T>::set(*p.p, v);
						p.st->ready = true;
						p.st->value = v;
						++useful;
					}
				}
				else if (op == 3)
				{
					P& p = s.pick_from(ps);
					const int v = next++;
					TR("set_exception " << &p - &ps[0] << " " << v);
					p.p->set_exception(MakeExceptionPtr(std::runtime_error("error number " + std::to_string(v))));
					if (!p.st->ready)
					{
						p.st->ready = p.st->exception = true;
						p.st->value = v;
						++useful;
					}
				}
				else if (op == 4)
				{
					P &a = s.pick_from(ps), &b = s.pick_from(ps);
					TR("swap promises " << &a - &ps[0] << " " << &b - &ps[0]);
					a.p->swap(*b.p);
					if (&a != &b)
					{
						std::swap(a.st, b.st);
						std::swap(a.retrieved, b.retrieved);
					}
				}
				else if (op == 5)
				{
					const size_t i = s.below(ps.size());
					TR("drop promise " << i);
					if (!ps[i].st->ready) ps[i].st->ready = ps[i].st->exception = ps[i].st->broken = true;
					ps.erase(ps.begin() + i);
				}
				else if (fs.empty() && ss.empty())
					continue;
				else if (op == 6 && !fs.empty())
				{
					F& f = s.pick_from(fs);
					TR("get " << &f - &fs[0]);
					if (!f.st) { REQUIRE(THROWS(f.f->get()), "get of an invalid future"); ++refused; }
					else if (f.st->ready)
					{
						check<T>(get<T>(*f.f), *f.st);
						f.st.reset();
						++useful;
					}
				}
				else if (op == 7 && !fs.empty())
				{
					F& f = s.pick_from(fs);
					TR("share " << &f - &fs[0]);
					ss.emplace_back();
					ss.back().f = f.f->share();
					ss.back().st = f.st;
					f.st.reset();
				}
				else if (op == 8 && !ss.empty())
				{
					S& f = s.pick_from(ss);
					TR("get shared " << &f - &ss[0]);
					if (!f.st) { REQUIRE(THROWS(f.f.get()), "get of an invalid future"); ++refused; }
					else if (f.st->ready)
					{
						check<T>(get<T>(f.f), *f.st);
						check<T>(get<T>(f.f), *f.st);
						++useful;
					}
				}
				else if (op == 9 && !ss.empty())
				{
					const size_t a = s.below(ss.size());
					switch (s.below(4))
					{
					case 0:
						{ TR("copy shared " << a); S x = ss[a]; ss.push_back(x); }
						break;
					case 1:
						{ const size_t b = s.below(ss.size()); TR("assign shared " << a << " = " << b); ss[a].f = ss[b].f; ss[a].st = ss[b].st; }
						break;
					case 2:
						{ const size_t b = s.below(ss.size()); TR("swap shared " << a << " " << b); ss[a].f.swap(ss[b].f); if (a != b) std::swap(ss[a].st, ss[b].st); }
						break;
					case 3:
						TR("drop shared " << a);
						ss.erase(ss.begin() + a);
						break;
					}
				}
				else if (op == 10 && !fs.empty())
				{
					const size_t i = s.below(fs.size());
					TR("drop future " << i);
					fs.erase(fs.begin() + i);
				}
				else if (op == 11)
				{
					const bool sh = !ss.empty() && (fs.empty() || s.coin());
					const size_t i = s.below(sh ? ss.size() : fs.size());
					const StatePtr st = sh ? ss[i].st : fs[i].st;
					if (!st) continue;
					const int ms = s.pick<int>({ 1, 0, 20 });
					const uint64_t t0 = sched::now_ns();
					const TimedCancellationToken token((TimeDuration(ms)));
					const future_status r = sh ? ss[i].f.wait(token) : fs[i].f->wait(token);
					const uint64_t t = sched::now_ns() - t0;
					TR("wait " << ms << "ms: " << r.ToString());
					REQUIRE_EQ(r.ToString(), st->ready ? future_status(future_status::ready).ToString() : future_status(future_status::timeout).ToString());
					if (!st->ready) REQUIRE(t + 1000 >= ms * Ms && t <= ms * Ms + Slack, "a wait of " << ms << "ms took " << t / 1000 << "us");
					CancelledToken cancelled;
					const future_status r2 = sh ? ss[i].f.wait(cancelled) : fs[i].f->wait(cancelled);
					REQUIRE_EQ(r2.ToString(), st->ready ? future_status(future_status::ready).ToString() : future_status(future_status::cancelled).ToString());
				}
				expect_all();
			}
			// everything left is broken
			for (P& p : ps) if (!p.st->ready) p.st->ready = p.st->exception = p.st->broken = true;
			ps.clear();
			expect_all();
			for (F& f : fs) if (f.st) check<T>(get<T>(*f.f), *f.st);
			for (S& f : ss) if (f.st) check<T>(get<T>(f.f), *f.st);
		}
	};

	template < typename T >
	void history(Src& s, Ctx& c)
	{
		TR(Value<T>::name());
		LIVE_BASE(Tracked);
		{
			History<T> h;
			h.run(s, c);
			c.nontrivial_if(h.useful > 1);
			if (h.refused) c.label("refused");
		}
		LIVE_CHECK(Tracked);
	}
}

PROP(histories, 60000, 1500000, 0, "at least two results were set or fetched")
{
	switch (s.below(5))
	{
	case 0: history<int>(s, c); break;
	case 1: history<std::string>(s, c); break;
	case 2: history<void>(s, c); break;
	case 3: history<Tracked>(s, c); break;
	case 4: history<int&>(s, c); break;
	}
}


namespace
{
	struct Waiter
	{
		unsigned kind;		// 0 get, 1 wait, 2 timed wait, 3 cancellable wait, 4 poll
		unsigned ms;
		bool shared;
		std::string log;
	};
	struct Producer
	{
		unsigned kind;		// 0 value, 1 exception, 2 drop
		unsigned ms;
	};

	template < typename T >
	void concurrent(Src& s, Ctx& c)
	{
		TR(Value<T>::name());
		LIVE_BASE(Tracked);
		const size_t nw = s.range<size_t>(1, 3), np = s.range<size_t>(1, 3);
		const bool single = s.chance(1, 3);			// the first waiter owns the future alone
		std::vector<Waiter> ws;
		for (size_t i = 0; i < (single ? 1 : nw); ++i)
		{
			Waiter w;
			w.kind = s.weighted({ 4u, 2u, 3u, 2u, 2u });
			w.ms = s.range<unsigned>(0, 30);
			w.shared = !single;
			ws.push_back(w);
			TR("waiter " << i << ": kind " << w.kind << " " << w.ms << "ms");
		}
		std::vector<Producer> prods;
		for (size_t i = 0; i < np; ++i)
		{
			Producer p;
			p.kind = s.weighted({ 4u, 3u, 2u });
			p.ms = s.coin() ? 0 : s.range<unsigned>(0, 40);
			prods.push_back(p);
			TR("producer " << i << ": " << (p.kind == 0 ? "value" : p.kind == 1 ? "exception" : "drop") << " after " << p.ms << "ms");
		}
		const bool jumps = s.chance(1, 3);
		const unsigned cancelMs = s.range<unsigned>(0, 40);
		const bool latePromise = s.coin();

		std::shared_ptr<promise<T> > pr(new promise<T>());
		std::vector<std::shared_ptr<promise<T> > > refs(np, pr);
		pr.reset();
		std::unique_ptr<future<T> > f;
		std::vector<shared_future<T> > sf(ws.size());
		if (single)
			f.reset(new future<T>(refs[0]->get_future()));
		else
		{
			const shared_future<T> x = refs[0]->get_future().share();
			for (auto& y : sf) y = x;
		}
		CancellationToken cancel;
		uint64_t cancelStarted = 0, cancelDone = 0, readyAt = 0;
		int winners = 0, attempts = 0, losers = 0;
		State st;						// what won
		std::vector<Got> gots;
		bool readyMaybe = false;		// a producer has begun

		sched::start(s, sched::Mode(s.coin(), jumps));
		{
			std::vector<sched::Thread> t;
			for (size_t i = 0; i < ws.size(); ++i)
				t.emplace_back([&, i]
				{
					const Waiter& w = ws[i];
					uint64_t t0;
					{ sched::NoPreempt n; t0 = sched::now_ns(); }
					auto wait = [&](const ICancellationToken& tk) { return single ? f->wait(tk) : sf[i].wait(tk); };
					auto ready = [&] { return single ? f->is_ready() : sf[i].is_ready(); };
					if (w.kind == 1 || w.kind == 2 || w.kind == 3)
					{
						bool doneBefore;
						{ sched::NoPreempt n; doneBefore = readyAt != 0; }
						const TimedCancellationToken timed(TimeDuration(w.kind == 2 ? w.ms : 100000));
						const CancellationToken* ct = i == 0 ? &cancel : NULL;	// a token has room for one waiter
						const future_status r = w.kind == 1 ? wait(DummyCancellationToken()) : w.kind == 3 && ct ? wait(*ct) : wait(timed);
						const bool rd = ready();
						sched::NoPreempt n;
						const uint64_t t = sched::now_ns();
						TR("  waiter " << i << ": " << r.ToString());
						if (doneBefore) REQUIRE(r == future_status::ready, "a wait for a ready future ends with " << r.ToString());
						if (r == future_status::ready) REQUIRE(rd, "a wait reports a result which is not there");
						if (r == future_status::timeout) REQUIRE(w.kind == 2 || w.kind == 3, "a wait without a limit timed out");
						if (r == future_status::timeout) REQUIRE(t - t0 + 1000 >= (w.kind == 2 ? w.ms : 100000) * Ms, "a wait of " << w.ms << "ms timed out after " << (t - t0) / 1000 << "us");
						if (r == future_status::cancelled) REQUIRE(cancelStarted, "nobody cancelled");
						if (!jumps)
						{
							uint64_t due = readyAt ? readyAt : t;
							if (w.kind == 2) due = std::min<uint64_t>(due, t0 + w.ms * Ms);
							if (w.kind == 3 && ct && cancelDone) due = std::min<uint64_t>(due, cancelDone);
							due = std::max(due, t0);
							REQUIRE(t <= due + Slack, "a wait ended " << (t - due) / 1000 << "us late");
						}
					}
					if (w.kind == 4)
					{
						bool seen = false;
						for (int k = 0; k < 3; ++k)
						{
							const bool v = single ? f->has_value() : sf[i].has_value();
							const bool e = single ? f->has_exception() : sf[i].has_exception();
							const bool rd = ready();
							sched::NoPreempt n;
							REQUIRE(!(v && e), "a value and an exception");
							REQUIRE(!(v || e) || rd, "a result, but not ready");
							REQUIRE(!seen || rd, "no longer ready");
							REQUIRE(!rd || readyMaybe, "ready before the promise is satisfied");
							seen = rd;
						}
					}
					const Got g = single ? get<T>(*f) : get<T>(sf[i]);
					sched::NoPreempt n;
					gots.push_back(g);
					if (single) REQUIRE(!f->valid(), "a future is valid after get()");
				});
			for (size_t i = 0; i < np; ++i)
				t.emplace_back([&, i]
				{
					const Producer& p = prods[i];
					std::shared_ptr<promise<T> > mine;
					{ sched::NoPreempt n; mine.swap(refs[i]); }
					if (p.ms) sched::sleep_ms(p.ms);
					{ sched::NoPreempt n; ++attempts; readyMaybe = true; }
					if (p.kind == 0)
					{
						try
						{
							Value<T>::set(*mine, 100 + i);
							sched::NoPreempt n;
							++winners;
							st.ready = true; st.exception = false; st.value = 100 + i;
							if (!readyAt) readyAt = sched::now_ns();
						}
						catch (const std::exception&)
						{ sched::NoPreempt n; ++losers; REQUIRE(attempts > 1, "the only result is refused"); }
					}
					else if (p.kind == 1)
					{
						mine->set_exception(MakeExceptionPtr(std::runtime_error("error number " + std::to_string(100 + i))));
						sched::NoPreempt n;
						if (!readyAt) readyAt = sched::now_ns();
					}
					std::shared_ptr<promise<T> > dead;
					bool last;
					{ sched::NoPreempt n; dead.swap(mine); last = dead.use_count() == 1; }
					dead.reset();
					if (last) { sched::NoPreempt n; if (!readyAt) readyAt = sched::now_ns(); }
				});
			if (cancelMs) sched::sleep_ms(cancelMs);
			{ sched::NoPreempt n; cancelStarted = sched::now_ns(); }
			cancel.Cancel();
			{ sched::NoPreempt n; cancelDone = sched::now_ns(); }
			t.clear();
		}
		sched::stop();
		REQUIRE_EQ(gots.size(), ws.size());
		REQUIRE(winners <= 1, winners << " values accepted");
		bool anyExc = false;
		for (auto& p : prods) anyExc |= p.kind == 1;
		for (const Got& g : gots)
		{
			REQUIRE(g.kind == gots[0].kind && g.value == gots[0].value, "waiters got different results: " << gots[0].kind << " " << gots[0].value << " and " << g.kind << " " << g.value);
			REQUIRE(g.kind != Got::Other, g.text);
			if (winners) REQUIRE(g.kind == Got::Val && (g.value == st.value || g.value == -1), "the accepted value is not what arrived");
			else if (anyExc)
			{
				REQUIRE(g.kind == Got::Exc && g.value >= 100 && g.value < int(100 + np) && prods[g.value - 100].kind == 1, "an exception was set, but " << g.kind << " " << g.value << " arrived");
			}
			else REQUIRE(g.kind == Got::Broken, "the promise was dropped, but " << g.kind << " " << g.value << " " << g.text << " arrived");
		}
		for (auto& x : sf) if (x.valid()) REQUIRE(x.is_ready(), "not ready");
		gots.clear();
		sf.clear();
		LIVE_CHECK(Tracked);
		if (losers) c.label("a second value refused");
		c.label(winners ? "value" : anyExc ? "exception" : "broken");
		c.nontrivial_if(sched::switches() > 2);
	}
}

PROP(concurrent_use, 100000, 3000000, 0, "producers and waiters on different threads alternated")
{
	switch (s.below(5))
	{
	case 0: concurrent<int>(s, c); break;
	case 1: concurrent<std::string>(s, c); break;
	case 2: concurrent<void>(s, c); break;
	case 3: concurrent<Tracked>(s, c); break;
	case 4: concurrent<int&>(s, c); break;
	}
}


namespace
{
	template < typename T > struct Sig { typedef signal<void (T)> Type; static void emit(const Type& s, int v) { s(v); } };
	template < > struct Sig<void> { typedef signal<void ()> Type; static void emit(const Type& s, int) { s(); } };

	template < typename T, typename PopulateFunc >
	void signal_to_future(Src& s, Ctx& c, const PopulateFunc& populator)
	{
		const bool populated = s.chance(1, 4);
		const size_t emitters = s.range<size_t>(0, 2), emits = s.range<size_t>(1, 2);
		const size_t dropAfter = s.chance(1, 3) ? s.range<size_t>(1, 20) : 0;
		size_t complaints = 0;
		const auto handler = fn<void (const std::exception&)>([&](const std::exception&) { sched::NoPreempt n; ++complaints; });
		std::unique_ptr<typename Sig<T>::Type> sig(populated ? new typename Sig<T>::Type(populator, handler) : new typename Sig<T>::Type(null, handler));
		std::unique_ptr<SignalToFutureWrapper<T> > w(new SignalToFutureWrapper<T>(sig->connector()));
		shared_future<T> f = w->GetFuture();
		REQUIRE_EQ(f.is_ready(), populated);
		TR("populated " << populated << ", " << emitters << " emitters of " << emits << ", dropped after " << dropAfter);
		std::vector<int> sent;
		sched::start(s, sched::Mode(true, true));
		std::vector<Got> gots;
		{
			std::vector<sched::Thread> t;
			for (size_t i = 0; i < emitters; ++i)
				t.emplace_back([&, i] { for (size_t k = 0; k < emits; ++k) { Sig<T>::emit(*sig, 100 + i * 10 + k); sched::point(); } });
			t.emplace_back([&] { const Got g = get<T>(f); sched::NoPreempt n; gots.push_back(g); });
			if (dropAfter)
			{
				for (size_t i = 0; i < dropAfter; ++i) sched::point();
				w.reset();
			}
			else if (!emitters && !populated)
				w.reset();
		}
		sched::stop();
		gots.push_back(get<T>(f));
		REQUIRE_EQ(gots.size(), 2u);
		REQUIRE(gots[0].kind == gots[1].kind && gots[0].value == gots[1].value, "two results");
		const Got g = gots[0];
		if (populated) REQUIRE(g.kind == Got::Val && (g.value == 7 || g.value == -1), "the state at the connection is not the result");
		else if (g.kind == Got::Val)
			REQUIRE(g.value == -1 || (g.value >= 100 && size_t(g.value - 100) / 10 < emitters), "got " << g.value);
		else
			REQUIRE(g.kind == Got::Broken && !w, "got " << g.text);
		if (w)
			REQUIRE_EQ(complaints, emitters * emits + (populated ? 1 : 0) - 1);
		if (g.kind == Got::Val) c.label("value");
		if (g.kind == Got::Broken) c.label("broken");
		c.nontrivial_if(emitters > 0 && sched::switches() > 1);
	}
}

PROP(signal_to_future, 40000, 1000000, 0, "the signal was emitted by another thread")
{
	if (s.coin())
		signal_to_future<int>(s, c, fn<void (const function<void (int)>&)>([](const function<void (int)>& f) { f(7); }));
	else
		signal_to_future<void>(s, c, fn<void (const function<void ()>&)>([](const function<void ()>& f) { f(); }));
}
