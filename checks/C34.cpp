// ENGINE: conc
// Cancellation tokens: plain, timed, joined and nested ones, under generated schedules on a virtual clock.
#include <stingraykit/string/ToString.h>
#include <stingraykit/thread/CancellationRegistrator.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include "dsched.h"
#include "util.h"
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	const uint64_t Ms = 1000000;
	const uint64_t Slack = 50 * Ms;		// every step of a schedule takes microseconds

	uint64_t now() { return sched::now_ns(); }

	// a cancellation token under test with what is known about it
	struct Leaf
	{
		CancellationToken	token;
		uint64_t			started = 0, done = 0;		// times of its cancellation
		int					running = 0;
		void begin() { sched::NoPreempt np; ++running; if (!started) started = now(); }
		void end() { sched::NoPreempt np; if (--running == 0 && !done) done = now(); }	// only the first caller waits for the handler
		void cancel()
		{
			begin();
			token.Cancel();
			end();
		}
		void reset() { token.Reset(); started = done = 0; }
	};

	struct Node
	{
		enum Kind { Plain, Dummy, Timed, TimedAlone, Joined } kind;
		size_t leaf = 0;
		unsigned ms = 0;
		std::unique_ptr<Node> a, b;

		uint64_t made = 0;
		std::unique_ptr<ICancellationToken, void (*)(ICancellationToken*)> owned;
		const ICancellationToken* token = NULL;

		explicit Node(Kind k) : kind(k), owned(NULL, NULL) { }

		void leaves(std::vector<size_t>& out) const
		{
			if (kind == Plain) out.push_back(leaf);
			if (a) a->leaves(out);
			if (b) b->leaves(out);
		}
		// the deadlines in force
		void deadlines(std::vector<uint64_t>& out) const
		{
			if (kind == Timed || kind == TimedAlone) out.push_back(made + ms * Ms);
			if (a) a->deadlines(out);
			if (b) b->deadlines(out);
		}
		uint64_t deadline() const
		{
			std::vector<uint64_t> d;
			deadlines(d);
			uint64_t r = ~0ull;
			for (uint64_t x : d) r = std::min(r, x);
			return r;
		}
		std::string show() const
		{
			switch (kind)
			{
			case Plain: return "leaf" + std::to_string(leaf);
			case Dummy: return "dummy";
			case Timed: return "timed(" + a->show() + ", " + std::to_string(ms) + "ms)";
			case TimedAlone: return "timed(" + std::to_string(ms) + "ms)";
			case Joined: return "joined(" + a->show() + ", " + b->show() + ")";
			}
			return "";
		}
		template < typename T, typename... A >
		void own(const A&... args)
		{
			T* t = new T(args...);
			token = t;
			owned = std::unique_ptr<ICancellationToken, void (*)(ICancellationToken*)>((ICancellationToken*)NULL, NULL);
			holder = std::shared_ptr<void>(t, [](void* p) { delete (T*)p; });
		}
		std::shared_ptr<void> holder;

		void build(std::vector<std::unique_ptr<Leaf> >& ls)
		{
			if (a) a->build(ls);
			if (b) b->build(ls);
			made = now();
			switch (kind)
			{
			case Plain: token = &ls[leaf]->token; break;
			case Dummy: own<DummyCancellationToken>(); break;
			case TimedAlone: own<TimedCancellationToken>(TimeDuration(ms)); break;
			case Timed: holder.reset(); { auto* t = new TimedCancellationToken(*a->token, TimeDuration(ms)); token = t; holder = std::shared_ptr<void>(t, [](void* p) { delete (TimedCancellationToken*)p; }); } break;
			case Joined: { auto* t = new JoiningCancellationToken(*a->token, *b->token); token = t; holder = std::shared_ptr<void>(t, [](void* p) { delete (JoiningCancellationToken*)p; }); } break;
			}
		}
	};

	// each leaf is used at most once: a token has room for one handler
	std::unique_ptr<Node> gen(Src& s, size_t depth, size_t& nextLeaf, size_t maxLeaf)
	{
		std::unique_ptr<Node> n;
		const unsigned k = s.weighted({ 6u, depth ? 4u : 0u, depth ? 5u : 0u, 1u, 1u });
		switch (k)
		{
		case 1:
			n.reset(new Node(Node::Timed));
			n->ms = s.chance(1, 6) ? 0 : s.range<unsigned>(1, 60);
			n->a = gen(s, depth - 1, nextLeaf, maxLeaf);
			return n;
		case 2:
			n.reset(new Node(Node::Joined));
			n->a = gen(s, depth - 1, nextLeaf, maxLeaf);
			n->b = gen(s, depth - 1, nextLeaf, maxLeaf);
			return n;
		case 3:
			n.reset(new Node(Node::Dummy));
			return n;
		case 4:
			n.reset(new Node(Node::TimedAlone));
			n->ms = s.range<unsigned>(0, 60);
			return n;
		}
		if (nextLeaf >= maxLeaf)
		{
			n.reset(new Node(Node::Dummy));
			return n;
		}
		n.reset(new Node(Node::Plain));
		n->leaf = nextLeaf++;
		return n;
	}

	typedef std::vector<std::unique_ptr<Leaf> > Leaves;

	struct State
	{
		bool cancelStarted, cancelDone, running;
		uint64_t doneAt;
	};
	State known(const Node& n, const Leaves& ls)
	{
		std::vector<size_t> l;
		n.leaves(l);
		State k = { false, false, false, ~0ull };
		for (size_t i : l)
		{
			if (ls[i]->started) k.cancelStarted = true;
			if (ls[i]->running) k.running = true;
			if (ls[i]->done) { k.cancelDone = true; k.doneAt = std::min(k.doneAt, ls[i]->done); }
		}
		return k;
	}

	// some cancellation was or got under way since then: its call of the handler tells the rest
	bool raced(const Node& n, const Leaves& ls, uint64_t since)
	{
		std::vector<size_t> l;
		n.leaves(l);
		for (size_t i : l)
			if (ls[i]->started && (!ls[i]->done || ls[i]->done > since))
				return true;
		return false;
	}

	struct Act { unsigned kind; size_t which; unsigned ms; };	// 0 cancel, 1 broadcast, 2 sleep, 3 set flag and broadcast

	std::vector<Act> gen_acts(Src& s, size_t leaves, size_t waiters)
	{
		std::vector<Act> r;
		while (s.more(5))
		{
			Act a;
			a.kind = s.weighted({ leaves ? 4u : 0u, 3u, 4u, 3u });
			a.which = a.kind == 0 ? s.below(leaves) : a.kind == 2 ? 0 : s.below(waiters);
			a.ms = a.kind == 2 ? s.range<unsigned>(0, 50) : 0;
			r.push_back(a);
		}
		return r;
	}
	std::string show(const std::vector<Act>& v)
	{
		std::string r;
		for (const Act& a : v)
			r += a.kind == 0 ? " cancel" + std::to_string(a.which) : a.kind == 1 ? " broadcast" + std::to_string(a.which) : a.kind == 2 ? " sleep" + std::to_string(a.ms) : " set" + std::to_string(a.which);
		return r;
	}
}


PROP(condition_wait, 100000, 3000000, 0, "a wait ended by a cancellation, a timeout or a broadcast after somebody was preempted or blocked")
{
	const size_t waiters = s.range<size_t>(1, 3);
	struct Waiter
	{
		std::unique_ptr<Node> node;
		Mutex mutex;
		ConditionVariable cond;
		bool flag = false;
		int inside = 0;
		unsigned broadcasts = 0;
		std::string log;
	};
	std::vector<std::unique_ptr<Waiter> > w;
	size_t nextLeaf = 0;
	for (size_t i = 0; i < waiters; ++i)
	{
		w.emplace_back(new Waiter);
		w[i]->node = gen(s, 2, nextLeaf, 4);
		TR("waiter " << i << ": " << w[i]->node->show());
	}
	Leaves leaves;
	for (size_t i = 0; i < nextLeaf; ++i) leaves.emplace_back(new Leaf);
	const size_t controllers = s.range<size_t>(1, 2);
	std::vector<std::vector<Act> > acts;
	for (size_t i = 0; i < controllers; ++i)
	{
		acts.push_back(gen_acts(s, nextLeaf, waiters));
		TR("controller " << i << ":" << show(acts[i]));
	}
	const bool spurious = s.chance(1, 3), jumps = s.chance(1, 3);
	const bool prompt = !jumps;
	bool sawCancel = false, sawTimeout = false, sawBroadcast = false;
	for (auto& x : w) x->node->build(leaves);
	sched::start(s, sched::Mode(spurious, jumps));
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < waiters; ++i)
			t.emplace_back([&, i]
			{
				Waiter& me = *w[i];
				const ICancellationToken& token = *me.node->token;
				MutexLock l(me.mutex);
				++me.inside;
				while (!me.flag)
				{
					REQUIRE_EQ(me.inside, 1);
					--me.inside;
					unsigned before;
					uint64_t start;
					bool doneBefore, expiredBefore;
					{
						sched::NoPreempt np;
						before = me.broadcasts;
						start = now();
						doneBefore = known(*me.node, leaves).cancelDone;
						expiredBefore = me.node->deadline() <= start;
					}
					const ConditionWaitResult r = me.cond.Wait(me.mutex, token);
					++me.inside;
					REQUIRE_EQ(me.inside, 1);
					sched::NoPreempt np;
					const State k = known(*me.node, leaves);
					const uint64_t t = now(), dl = me.node->deadline();
					TR("  waiter " << i << ": " << r.ToString());
					if (prompt)
					{
						const uint64_t bound = std::max(start, std::min(dl, k.doneAt));
						REQUIRE(t <= bound || t - bound <= Slack, "a wait on " << me.node->show() << " ended " << (t - std::max(start, std::min(dl, k.doneAt))) / 1000 << " us late");
					}
					if (r == ConditionWaitResult::Cancelled)
					{
						REQUIRE(k.cancelStarted, "a wait on " << me.node->show() << " reports a cancellation nobody made");
						REQUIRE(token.IsCancelled(), "cancelled wait, token not cancelled");
						REQUIRE(!token, "a cancelled token is true");
						REQUIRE(THROWS([&] { STINGRAYKIT_CHECK_CANCELLATION(token); }()), "a cancelled token passes the check");
						--me.inside;
						sawCancel = true;
						return;
					}
					if (r == ConditionWaitResult::TimedOut)
					{
						REQUIRE(dl != ~0ull, "a wait on " << me.node->show() << " timed out");
						REQUIRE(t + 1000 >= dl, "a wait on " << me.node->show() << " timed out " << (dl - t) << " ns early");
						REQUIRE(token.IsTimedOut(), "a wait timed out, but its token has not");
						REQUIRE(!token, "a timed out token is true");
						REQUIRE(token.GetTimeout() && *token.GetTimeout() == TimeDuration(), "timeout left after it timed out");
						--me.inside;
						sawTimeout = true;
						return;
					}
					REQUIRE(!doneBefore, "a wait on " << me.node->show() << " which had been cancelled reports a broadcast");
					REQUIRE(!expiredBefore || spurious || me.broadcasts != before, "a wait on " << me.node->show() << " which had timed out reports a broadcast");
					REQUIRE(spurious || me.broadcasts != before, "a wait on " << me.node->show() << " ended without a reason");
					sawBroadcast = true;
				}
				--me.inside;
			});
		for (size_t i = 0; i < controllers; ++i)
			t.emplace_back([&, i]
			{
				for (const Act& a : acts[i])
					switch (a.kind)
					{
					case 0: leaves[a.which]->cancel(); break;
					case 1:
						{ Waiter& x = *w[a.which]; MutexLock l(x.mutex); ++x.broadcasts; x.cond.Broadcast(); }
						break;
					case 2: sched::sleep_ms(a.ms); break;
					case 3:
						{ Waiter& x = *w[a.which]; MutexLock l(x.mutex); REQUIRE_EQ(x.inside, 0); ++x.inside; sched::point(); --x.inside; x.flag = true; ++x.broadcasts; x.cond.Broadcast(); }
						break;
					}
			});
		// in the end every waiter is released by its token if it can be, and by its flag otherwise
		for (size_t i = waiters; i < t.size(); ++i) t[i].join();
		for (auto& l : leaves) l->cancel();
		for (size_t i = 0; i < waiters; ++i)
		{
			std::vector<size_t> ls;
			w[i]->node->leaves(ls);
			if (ls.empty() && w[i]->node->deadline() == ~0ull)
			{ MutexLock l(w[i]->mutex); w[i]->flag = true; ++w[i]->broadcasts; w[i]->cond.Broadcast(); }
		}
	}
	if (sawCancel) c.label("cancelled");
	if (sawTimeout) c.label("timed out");
	if (sawBroadcast) c.label("broadcast");
	c.nontrivial_if((sawCancel || sawTimeout || sawBroadcast) && sched::switches() > 2);
}


PROP(sleep, 100000, 3000000, 0, "a sleep ended early or in time while another thread acted")
{
	struct Sleeper { std::unique_ptr<Node> node; bool forever; unsigned ms; };
	const size_t n = s.range<size_t>(1, 3);
	std::vector<Sleeper> w(n);
	size_t nextLeaf = 0;
	for (size_t i = 0; i < n; ++i)
	{
		w[i].node = gen(s, 2, nextLeaf, 4);
		w[i].forever = s.chance(1, 4);
		w[i].ms = s.range<unsigned>(0, 80);
	}
	Leaves leaves;
	for (size_t i = 0; i < nextLeaf; ++i) leaves.emplace_back(new Leaf);
	for (auto& x : w)
	{
		std::vector<size_t> l;
		x.node->leaves(l);
		if (x.forever && l.empty() && x.node->deadline() == ~0ull) x.forever = false;
		TR("sleeper: " << x.node->show() << (x.forever ? " forever" : " " + std::to_string(x.ms) + "ms"));
	}
	const std::vector<Act> acts = gen_acts(s, nextLeaf, 1);
	TR("controller:" << show(acts));
	const bool spurious = s.chance(1, 3), jumps = s.chance(1, 3);
	bool early = false, full = false;
	for (auto& x : w) x.node->build(leaves);
	for (auto& x : w)
		if (x.node->kind == Node::Dummy)
			REQUIRE(THROWS(x.node->token->Sleep(null)), "no exception");
	sched::start(s, sched::Mode(spurious, jumps));
	{
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < n; ++i)
			t.emplace_back([&, i]
			{
				Sleeper& me = w[i];
				const ICancellationToken& token = *me.node->token;
				uint64_t start;
				bool doneBefore;
				{ sched::NoPreempt np; start = now(); doneBefore = known(*me.node, leaves).cancelDone; }
				const bool r = me.forever ? token.Sleep(null) : token.Sleep(TimeDuration(me.ms));
				sched::NoPreempt np;
				const uint64_t t = now(), dl = me.node->deadline();
				const State k = known(*me.node, leaves);
				TR("  sleeper " << i << ": " << r << " after " << (t - start) / Ms << "ms");
				if (r)
				{
					REQUIRE(!me.forever, "an endless sleep on " << me.node->show() << " is complete");
					REQUIRE(t + 1000 >= start + me.ms * Ms, "a sleep of " << me.ms << "ms on " << me.node->show() << " is complete after " << (t - start) / 1000 << " us");
					REQUIRE(!doneBefore || me.ms == 0 || raced(*me.node, leaves, start), "a sleep on " << me.node->show() << ", which had been cancelled, is complete");
					full = true;
				}
				else
				{
					REQUIRE(k.cancelStarted || dl <= t + 1000 || (!me.forever && dl <= start + me.ms * Ms + 1000 && dl <= t + 1000), "a sleep on " << me.node->show() << " ended after " << (t - start) / 1000 << " us without cancellation or timeout");
					REQUIRE(token.IsCancelled() || token.IsTimedOut(), "a sleep on " << me.node->show() << " is incomplete, but the token is neither cancelled nor timed out");
					early = true;
				}
				if (!jumps)
				{
					uint64_t bound = std::min(dl, k.doneAt);
					if (!me.forever) bound = std::min(bound, start + me.ms * Ms);
					bound = std::max(bound, start);
					REQUIRE(t <= bound || t - bound <= Slack, "a sleep on " << me.node->show() << " ended late");
				}
			});
		for (const Act& a : acts)
			if (a.kind == 0) leaves[a.which]->cancel();
			else sched::sleep_ms(a.ms);
		for (size_t i = 0; i < n; ++i)
			if (w[i].forever && w[i].node->deadline() == ~0ull)
			{
				std::vector<size_t> l;
				w[i].node->leaves(l);
				leaves[l[0]]->cancel();
			}
		t.clear();
		for (auto& l : leaves) l->cancel();
	}
	if (early) c.label("early");
	if (full) c.label("complete");
	c.nontrivial_if((early || full) && sched::switches() > 2);
}


namespace
{
	struct Handler : public ICancellationHandler
	{
		unsigned calls = 0, resets = 0;
		int running = 0, maxRunning = 0;
		bool dead = false, joined = false;	// a joined token resets for each of its parts
		void Cancel() override
		{
			{ sched::NoPreempt np; REQUIRE(!dead, "a handler is called after it was unregistered"); ++calls; ++running; maxRunning = std::max(maxRunning, running); }
			sched::point();
			{ sched::NoPreempt np; REQUIRE(!dead, "a handler still runs after it was unregistered"); --running; }
		}
		void Reset() override { sched::NoPreempt np; REQUIRE(running == 0 || joined, "a handler is reset while it runs"); ++resets; }
		~Handler() { dead = true; }
	};
}

PROP(handlers, 100000, 3000000, 0, "a cancellation and a registration were on different threads")
{
	size_t nextLeaf = 0;
	const std::unique_ptr<Node> node = gen(s, 2, nextLeaf, 3);
	Leaves leaves;
	for (size_t i = 0; i < nextLeaf; ++i) leaves.emplace_back(new Leaf);
	const size_t rounds = s.range<size_t>(1, 3);
	std::vector<std::vector<Act> > acts;
	std::vector<std::vector<Act> > mine;
	const size_t controllers = s.range<size_t>(1, 2);
	for (size_t i = 0; i < rounds; ++i) mine.push_back(gen_acts(s, 0, 1));
	for (size_t i = 0; i < controllers; ++i) acts.push_back(gen_acts(s, nextLeaf, 1));
	std::vector<bool> viaToken;
	for (size_t i = 0; i < nextLeaf; ++i) viaToken.push_back(s.coin());
	TR(node->show() << ", rounds " << rounds);
	for (size_t i = 0; i < controllers; ++i) TR("controller" << show(acts[i]));
	node->build(leaves);
	std::vector<Token> cancellators;
	for (size_t i = 0; i < nextLeaf; ++i) cancellators.push_back(leaves[i]->token.GetCancellator());
	bool called = false, refused = false;
	sched::start(s, sched::Mode(true, true));
	{
		std::vector<sched::Thread> t;
		t.emplace_back([&]
		{
			for (size_t r = 0; r < rounds; ++r)
			{
				State before;
				uint64_t beforeAt;
				{ sched::NoPreempt np; before = known(*node, leaves); beforeAt = now(); }
				std::vector<size_t> ls;
				node->leaves(ls);
				std::unique_ptr<Handler> h(new Handler);
				h->joined = ls.size() > 1;
				unsigned startedAtEnd = 0;
				bool isCancelled;
				bool doneInside;
				{
					CancellationRegistrator reg(*node->token, *h);
					isCancelled = reg.IsCancelled();
					State mid;
					{ sched::NoPreempt np; mid = known(*node, leaves); }
					if (isCancelled)
						REQUIRE(mid.cancelStarted || node->deadline() <= now(), "a registration at " << node->show() << " is refused without cancellation");
					else
						REQUIRE(!before.cancelDone || raced(*node, leaves, beforeAt), "a registration at a cancelled token " << node->show() << " is accepted");
					for (const Act& a : mine[r])
						if (a.kind == 2) sched::sleep_ms(a.ms); else sched::point();
					sched::NoPreempt np;
					const State k = known(*node, leaves);
					doneInside = k.cancelDone && !k.running;
					if (doneInside && !isCancelled)
						REQUIRE(h->calls > 0, "cancelling " << node->show() << " did not call the registered handler");
				}
				sched::NoPreempt np;
				for (size_t i : ls) startedAtEnd += leaves[i]->started != 0;
				REQUIRE_EQ(h->running, 0);
				REQUIRE(h->calls <= startedAtEnd, h->calls << " calls of a handler for " << startedAtEnd << " cancellations");
				REQUIRE(h->resets <= h->calls + startedAtEnd, h->resets << " resets");
				if (h->calls) { called = true; REQUIRE(!isCancelled || node->kind == Node::Joined || node->kind == Node::Timed, "a refused handler was called"); if (!isCancelled) REQUIRE(h->resets > 0, "a handler which ran was not reset"); }
				if (isCancelled) refused = true;
				h.reset();
			}
		});
		for (size_t i = 0; i < controllers; ++i)
			t.emplace_back([&, i]
			{
				for (const Act& a : acts[i])
					switch (a.kind)
					{
					case 0:
						if (viaToken[a.which])
						{
							Leaf& l = *leaves[a.which];
							Token tk;
							{ sched::NoPreempt np; tk = cancellators[a.which]; cancellators[a.which].Reset(); }
							if (tk)
							{
								l.begin();
								tk.Reset();
								l.end();
							}
						}
						else
							leaves[a.which]->cancel();
						break;
					case 2: sched::sleep_ms(a.ms); break;
					default: sched::point();
					}
			});
		t.clear();
	}
	for (size_t i = 0; i < nextLeaf; ++i)
	{
		REQUIRE_EQ(leaves[i]->token.IsCancelled(), leaves[i]->started != 0);
		if (s.coin() && leaves[i]->started)
		{
			leaves[i]->reset();
			REQUIRE(!leaves[i]->token.IsCancelled(), "cancelled after Reset()");
			REQUIRE(bool(leaves[i]->token), "false after Reset()");
			Handler h;
			{
				CancellationRegistrator reg(leaves[i]->token, h);
				REQUIRE(!reg.IsCancelled(), "refused after Reset()");
				REQUIRE(THROWS(leaves[i]->token.Reset()), "no exception");
				if (s.coin()) { leaves[i]->cancel(); REQUIRE_EQ(h.calls, 1u); leaves[i]->cancel(); REQUIRE_EQ(h.calls, 1u); }
			}
		}
		leaves[i]->cancel();
	}
	cancellators.clear();
	if (called) c.label("called");
	if (refused) c.label("refused");
	c.nontrivial_if(sched::switches() > 2);
}
