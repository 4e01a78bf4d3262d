// ENGINE: conc
// FLAGS: -Wno-c++11-narrowing
// Signals: histories with re-entrance against a model, then schedules.
#include <stingraykit/string/ToString.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/signal/signals.h>
#include <stingraykit/signal/ValueFromSignalObtainer.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include "dsched.h"
#include "tracked.h"
#include "util.h"
#include <deque>
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	sched::Services services([] { ExecutorsProfiler::Instance(); });

	namespace sp = signal_policies;
	typedef void Sig(int, const std::string&, std::string);
	typedef function<Sig> Slot;
	typedef function<void (const Slot&)> Populator;
	typedef function<void (const std::exception&)> OnError;
	typedef signal<Sig> Multi;
	typedef signal<Sig, sp::threading::Threadless> Single;
	typedef signal<Sig, sp::threading::ExternalMutexPointer, sp::exception_handling::Null> External;
	typedef signal<Sig, sp::threading::Multithreaded, sp::exception_handling::Null, sp::populators::Null, sp::connection_policy_control::Null, sp::creation::Lazy> Lazy;
	typedef signal<Sig, sp::threading::Threadless, sp::exception_handling::Null, sp::populators::Null, sp::connection_policy_control::Null, sp::creation::Lazy> LazySingle;

	struct Features { bool populator, onError; ConnectionPolicy policy; };

	template < typename S >
	std::unique_ptr<S> make_configurable(Src& s, Features& f, const Populator& p, const OnError& e)
	{
		f = Features{ false, false, ConnectionPolicy::Any };
		const ConnectionPolicy policy = s.pick<ConnectionPolicy>({ ConnectionPolicy::Any, ConnectionPolicy::Any, ConnectionPolicy::SyncOnly, ConnectionPolicy::AsyncOnly });
		switch (s.below(8))
		{
		case 0: return std::unique_ptr<S>(new S);
		case 1: f.policy = policy; return std::unique_ptr<S>(new S(null, null, policy));
		case 2: f.onError = true; return std::unique_ptr<S>(new S(null, e));
		case 3: f.onError = true; f.policy = policy; return std::unique_ptr<S>(new S(null, e, policy));
		case 4: f.populator = true; return std::unique_ptr<S>(new S(p));
		case 5: f.populator = true; f.policy = policy; return std::unique_ptr<S>(new S(p, null, policy));
		case 6: f.populator = f.onError = true; return std::unique_ptr<S>(new S(p, e));
		default: f.populator = f.onError = true; f.policy = policy; return std::unique_ptr<S>(new S(p, e, policy));
		}
	}

	template < typename S > struct Maker
	{
		static std::unique_ptr<S> make(Src& s, Features& f, const Populator& p, const OnError& e) { return make_configurable<S>(s, f, p, e); }
	};
	template < > struct Maker<External>
	{
		static std::unique_ptr<External> make(Src& s, Features& f, const Populator& p, const OnError& e)
		{
			f = Features{ false, false, ConnectionPolicy::Any };
			const sp::threading::ExternalMutexPointer m(make_shared_ptr<Mutex>());
			const ConnectionPolicy policy = s.pick<ConnectionPolicy>({ ConnectionPolicy::Any, ConnectionPolicy::SyncOnly, ConnectionPolicy::AsyncOnly });
			switch (s.below(4))
			{
			case 0: return std::unique_ptr<External>(new External(m));
			case 1: f.policy = policy; return std::unique_ptr<External>(new External(m, null, policy));
			case 2: f.populator = true; return std::unique_ptr<External>(new External(m, p));
			default: f.populator = true; f.policy = policy; return std::unique_ptr<External>(new External(m, p, policy));
			}
		}
	};
	template < typename S > struct LazyMaker
	{
		static std::unique_ptr<S> make(Src&, Features& f, const Populator&, const OnError&)
		{
			f = Features{ false, false, ConnectionPolicy::Any };
			return std::unique_ptr<S>(new S);
		}
	};
	template < > struct Maker<Lazy> : LazyMaker<Lazy> { };
	template < > struct Maker<LazySingle> : LazyMaker<LazySingle> { };

	struct Act { unsigned kind; size_t a, b; int v; };
	enum { Connect, Disconnect, Invoke, DisconnectSelf, Destroy, SendState, Change, Execute, Fetch };

	template < typename S >
	struct History
	{
		struct Signal
		{
			std::unique_ptr<S> object;
			bool held;							// by a connector and an invoker
			optional<typename S::Invoker> invoker;
			signal_connector<Sig> connector;
			Features features;
			std::vector<int> state;
			std::vector<size_t> connections;	// in order
		};
		struct Conn
		{
			size_t sig;
			bool async, connected, throws;
			Token token;
			std::vector<std::vector<Act> > script;	// of each call
			size_t calls;
		};
		struct Frame
		{
			size_t sig;
			int value;
			std::vector<size_t> expected;
			size_t pos;
			bool populating;
			std::vector<int> values;				// the state being sent to expected[0]
		};
		struct Pending { size_t conn; int value; };

		Ctx& c;
		std::vector<Signal> sigs;
		std::vector<std::unique_ptr<Conn> > conns;
		std::vector<Frame> frames;
		std::deque<Pending> pending;
		shared_ptr<ThreadlessTaskExecutor> worker;
		size_t calls = 0, thrown = 0, handled = 0, reentrant = 0, invocations = 0;
		bool executing = false;
		std::vector<std::vector<std::vector<Act> > > scripts;		// given to connections as they are made

		History(Ctx& c_) : c(c_), worker(make_shared_ptr<ThreadlessTaskExecutor>("worker")) { }
		~History() { for (auto& x : conns) x->token.Reset(); }

		static std::string text(int v) { return "text " + std::to_string(v); }

		// the handler of a connection
		void called(size_t k, int v, const std::string& t, std::string own)
		{
			Conn& x = *conns.at(k);
			REQUIRE_EQ(t, text(v));
			REQUIRE_EQ(own, "own " + std::to_string(v));
			if (x.async)
			{
				REQUIRE(executing, "an asynchronous handler is called outside of its executor");
				while (true)
				{
					REQUIRE(!pending.empty(), "an asynchronous handler is called without a reason");
					const Pending p = pending.front();
					pending.pop_front();
					if (p.conn == k && p.value == v) break;
					REQUIRE(!conns[p.conn]->connected, "connection " << k << " got " << v << " before connection " << p.conn << " got " << p.value);
				}
				REQUIRE(x.connected, "a disconnected asynchronous handler is called");
			}
			else
			{
				REQUIRE(!frames.empty(), "a handler is called without an invocation");
				Frame& f = frames.back();
				REQUIRE_EQ(f.sig, x.sig);
				if (f.populating)
				{
					REQUIRE(f.expected[0] == k, "another handler gets the state");
					REQUIRE(f.pos < f.values.size(), "the state is sent twice");
					REQUIRE_EQ(f.values[f.pos], v);
					++f.pos;
				}
				else
				{
					REQUIRE_EQ(f.value, v);
					while (true)
					{
						REQUIRE(f.pos < f.expected.size(), "connection " << k << " is called out of order, twice, or was not connected when the invocation began");
						const size_t e = f.expected[f.pos++];
						if (e == k) break;
						passed(e, v);
					}
					REQUIRE(x.connected, "connection " << k << " is called after its disconnection");
				}
			}
			own += "spoilt";
			++calls;
			const size_t n = x.calls++;
			const bool throws = x.throws;
			if (n < x.script.size() && calls < 60)
			{
				const std::vector<Act> acts = x.script[n];
				for (const Act& a : acts) { ++reentrant; act(a, (int)k); }
			}
			if (throws) { if (!x.async && sigs[x.sig].features.onError) ++thrown; throw std::runtime_error("thrown by " + std::to_string(k)); }
		}
		void passed(size_t e, int v)
		{
			if (conns[e]->async) pending.push_back(Pending{ e, v });
			else REQUIRE(!conns[e]->connected, "connection " << e << " was not called");
		}
		void finish()
		{
			const Frame f = frames.back();
			frames.pop_back();
			if (f.populating)
			{
				REQUIRE_EQ(f.pos, f.values.size());
				return;
			}
			for (size_t i = f.pos; i < f.expected.size(); ++i) passed(f.expected[i], f.value);
		}
		void on_error(const std::exception& e)
		{
			++handled;
			REQUIRE(thrown == handled, "an exception is handled at a wrong time");
			REQUIRE(diagnostic_information(e).find("thrown by ") != std::string::npos, "another exception is handled: " << diagnostic_information(e));
		}
		void populate(size_t n, const Slot& slot)
		{
			const std::vector<int> state = sigs[n].state;
			for (int v : state) slot(v, text(v), "own " + std::to_string(v));
		}
		Slot slot(size_t k)
		{
			const NTracked canary((int)k);
			return fn<Sig>([this, k, canary](int v, const std::string& t, std::string own)
			{
				struct Check { const NTracked& t; size_t k; ~Check() noexcept(false) { if (!std::uncaught_exception()) REQUIRE_EQ(t.get(), (int)k); } } check{ canary, k };
				called(k, v, t, own);
			});
		}
		void act(const Act& a, int self)
		{
			Signal& g = sigs[a.a % sigs.size()];
			const size_t gi = a.a % sigs.size();
			const bool reachable = g.object || g.held;
			switch (a.kind)
			{
			case Connect:
				{
					if (conns.size() > 24 || !reachable) break;
					const bool async = a.v & 1, send = a.v & 2, viaConnector = !g.object || (g.held && (a.v & 4)), temporary = !g.held && (a.v & 4);
					const size_t k = conns.size();
					conns.emplace_back(new Conn{ gi, async, false, (a.v & 56) == 8, Token(), scripts.empty() ? std::vector<std::vector<Act> >() : scripts[k % scripts.size()], 0 });
					const bool allowed = g.features.policy == ConnectionPolicy::Any || g.features.policy == (async ? ConnectionPolicy::AsyncOnly : ConnectionPolicy::SyncOnly);
					const bool sends = send && g.features.populator && allowed;
					if (sends)
					{
						if (async) for (int v : g.state) pending.push_back(Pending{ k, v });
						else frames.push_back(Frame{ gi, 0, std::vector<size_t>(1, k), 0, true, g.state });
					}
					Token t;
					bool refused = false;
					try
					{
						if (temporary)
						{
							const signal_connector<Sig> connector(g.object->connector());
							t = async ? connector.connect(worker, slot(k), send) : connector.connect(slot(k), send);
						}
						else if (viaConnector)
							t = async ? g.connector.connect(worker, slot(k), send) : g.connector.connect(slot(k), send);
						else
							t = async ? g.object->connect(worker, slot(k), send) : g.object->connect(slot(k), send);
					}
					catch (const Failure&) { throw; }
					catch (const std::exception&) { refused = true; }
					REQUIRE_EQ(refused, !allowed);
					if (sends && !async) finish();
					if (refused) break;
					REQUIRE((bool)t, "connect returned an empty token");
					conns[k]->token = std::move(t);
					conns[k]->connected = true;
					g.connections.push_back(k);
				}
				break;
			case Disconnect:
			case DisconnectSelf:
				{
					if (conns.empty()) break;
					const size_t k = a.kind == DisconnectSelf ? (self < 0 ? 0 : (size_t)self) : a.b % conns.size();
					Conn& x = *conns[k];
					if (!x.connected) break;		// may be being connected
					x.connected = false;
					auto& l = sigs[x.sig].connections;
					l.erase(std::find(l.begin(), l.end(), k));
					Token t(std::move(x.token));
					t.Reset();
				}
				break;
			case Invoke:
				{
					if (frames.size() > 3 || invocations > 40 || !reachable) break;
					++invocations;
					const int v = 1000 + (int)invocations;
					frames.push_back(Frame{ gi, v, g.connections, 0, false, std::vector<int>() });
					const std::string t = text(v), own = "own " + std::to_string(v);
					if (!g.object || (g.held && (a.v & 1))) (*g.invoker)(v, t, own);
					else if (a.v & 2) g.object->invoker()(v, t, own);
					else (*g.object)(v, t, own);
					finish();
				}
				break;
			case Destroy: g.object.reset(); break;
			case SendState:
				{
					if (!reachable) break;
					std::vector<int> got;
					const Slot f = fn<Sig>([&](int v, const std::string& t, std::string own) { REQUIRE_EQ(t, text(v)); REQUIRE_EQ(own, "own " + std::to_string(v)); got.push_back(v); });
					if (!g.held || (g.object && (a.v & 1))) g.object->SendCurrentState(f);
					else g.connector.SendCurrentState(f);
					REQUIRE_EQ(show(got), show(g.features.populator ? g.state : std::vector<int>()));
				}
				break;
			case Change: g.state.push_back(a.v); if (g.state.size() > 3) g.state.erase(g.state.begin()); break;
			case Execute:
				if (self >= 0 || executing) break;
				executing = true;
				worker->ExecuteTasks();
				for (auto& p : pending) REQUIRE(!conns[p.conn]->connected, "an asynchronous handler of connection " << p.conn << " was not called");
				pending.clear();
				executing = false;
				break;
			}
		}
	};

	template < typename S >
	void histories(Src& s, Ctx& c)
	{
		LIVE_BASE(NTracked);
		size_t connects = 0;
		{
			History<S> h(c);
			h.sigs.resize(s.range<size_t>(1, 2));
			for (size_t i = 0; i < h.sigs.size(); ++i)
			{
				auto& g = h.sigs[i];
				g.object = Maker<S>::make(s, g.features, fn<void (const Slot&)>([&h, i](const Slot& slot) { h.populate(i, slot); }), fn<void (const std::exception&)>([&h](const std::exception& e) { h.on_error(e); }));
				g.held = s.coin();
				if (g.held)
				{
					g.connector = g.object->connector();
					g.invoker.emplace(g.object->invoker());
				}
				TR("signal " << i << ": populator " << g.features.populator << " exception handler " << g.features.onError << " policy " << g.features.policy.ToString() << (g.held ? " held" : ""));
			}
			auto draw = [&](bool inside) -> Act
			{
				const unsigned k = inside ? s.weighted({ 3u, 4u, 3u, 2u, 1u, 1u, 1u, 0u }) : s.weighted({ 5u, 2u, 5u, 0u, 1u, 1u, 1u, 2u });
				const Act a{ k, s.below(2), s.below(12), (int)s.below(64) };
				return a;
			};
			auto name = [](const Act& a)
			{
				static const char* const n[] = { "connect", "disconnect", "invoke", "disconnect itself", "destroy", "send state", "change", "execute" };
				return std::string(n[a.kind]) + " " + std::to_string(a.a) + "," + std::to_string(a.b) + "," + std::to_string(a.v);
			};
			h.scripts.resize(s.range<size_t>(1, 5));
			for (size_t i = 0; i < h.scripts.size(); ++i)
			{
				h.scripts[i].resize(s.below(4));
				std::string t;
				for (auto& x : h.scripts[i])
				{
					t += " [";
					while (x.size() < 3 && s.coin()) { x.push_back(draw(true)); t += " " + name(x.back()) + ";"; }
					t += "]";
				}
				TR("script " << i << ":" << t);
			}
			size_t left = s.range<size_t>(1, 30);
			while (left--)
			{
				const Act a = draw(false);
				TR(name(a));
				connects += a.kind == Connect;
				h.act(a, -1);
				REQUIRE(h.frames.empty(), "frames of the harness");
				REQUIRE_EQ(h.thrown, h.handled);
			}
			h.act(Act{ Execute, 0, 0, 0 }, -1);
			c.nontrivial_if(h.calls >= 3 && h.reentrant >= 1);
		}
		LIVE_CHECK(NTracked);
	}
}

PROP(histories_multithreaded, 30000, 1500000, 0, "three calls of handlers, something done by one") { histories<Multi>(s, c); }
PROP(histories_threadless, 30000, 1500000, 0, "three calls of handlers, something done by one") { histories<Single>(s, c); }
PROP(histories_external_mutex, 15000, 800000, 0, "three calls of handlers, something done by one") { histories<External>(s, c); }
PROP(histories_lazy, 15000, 800000, 0, "three calls of handlers, something done by one") { histories<Lazy>(s, c); }
PROP(histories_lazy_threadless, 15000, 800000, 0, "three calls of handlers, something done by one") { histories<LazySingle>(s, c); }


namespace
{
	uint64_t g_stamp = 0;
	const uint64_t Never = ~0ull;
	uint64_t stamp() { sched::NoPreempt np; return ++g_stamp; }

	struct Slots
	{
		struct Conn
		{
			bool async, throws, send;
			int inside;				// 1 disconnects itself, 2 disconnects another, 3 connects another
			unsigned ms;
			uint64_t begin = Never, end = Never, disBegin = Never, disEnd = Never;
			bool disInside = false;
			int running = 0;
			Token token;
		};
		struct Call { size_t conn; int value; uint64_t start, end; };
		struct Inv { uint64_t begin, end; };
	};
}

// several threads invoke, connect and disconnect
PROP(schedules, 60000, 2000000, 0, "a connection changed while signals were invoked and handlers ran, with a preemption")
{
	typedef signal<void (int)> S;
	typedef Slots::Conn Conn;
	struct Step { unsigned kind; size_t conn; unsigned ms; };	// 0 connect, 1 disconnect, 2 invoke, 3 sleep, 4 drop the signal
	std::vector<std::unique_ptr<Conn> > conns;
	std::vector<std::vector<Step> > prog(s.range<size_t>(2, 3));
	auto make = [&]
	{
		std::unique_ptr<Conn> x(new Conn);
		x->async = s.chance(1, 3);
		x->throws = s.chance(1, 6);
		x->send = s.chance(1, 4);
		x->inside = s.chance(1, 4) ? s.range<int>(1, 3) : 0;
		x->ms = s.chance(1, 4) ? s.pick<unsigned>({ 1, 5 }) : 0;
		conns.push_back(std::move(x));
		return conns.size() - 1;
	};
	const size_t initial = s.range<size_t>(0, 3);
	for (size_t i = 0; i < initial; ++i) make();
	for (auto& p : prog)
	{
		std::string t;
		while (p.size() < 6 && s.more(4))
		{
			Step x{ s.weighted({ 2u, 3u, 5u, 1u, 1u }), 0, s.pick<unsigned>({ 1, 2, 6 }) };
			if (x.kind == 0) x.conn = make();
			if (x.kind == 1) { if (conns.empty()) continue; x.conn = s.below(conns.size()); }
			p.push_back(x);
			static const char* const n[] = { " connect ", " disconnect ", " invoke", " sleep", " drop" };
			t += n[x.kind] + (x.kind < 2 ? std::to_string(x.conn) : std::string());
		}
		TR("thread " << &p - &prog[0] << ":" << t);
	}
	for (size_t i = 0; i < conns.size(); ++i)
		TR("connection " << i << (conns[i]->async ? " async" : "") << (conns[i]->throws ? " throws" : "") << (conns[i]->send ? " gets state" : "") << " inside " << conns[i]->inside << " ms " << conns[i]->ms);
	// connections made by handlers
	const size_t planned = conns.size();
	for (size_t i = 0; i < planned; ++i)
		if (conns[i]->inside == 3) { const size_t k = make(); conns[k]->inside = 0; conns[k]->send = false; conns[i]->ms = 0; }
	std::vector<size_t> spare;
	for (size_t i = planned; i < conns.size(); ++i) spare.push_back(i);
	const bool populator = s.coin(), useInvoker = s.coin();
	TR(spare.size() << " spare, populator " << populator << " invoker " << useInvoker);
	g_stamp = 0;
	std::vector<Slots::Call> calls;
	std::map<int, Slots::Inv> invs;
	std::vector<std::pair<size_t, int> > sent;
	size_t thrown = 0, handled = 0, asyncThrown = 0, asyncHandled = 0;
	int next = 1000;
	LIVE_BASE(NTracked);
	sched::start(s);
	{
		const shared_ptr<ThreadTaskExecutor> worker = make_shared_ptr<ThreadTaskExecutor>("worker", null, fn<void (const std::exception&)>([&](const std::exception& e) { sched::NoPreempt np; ++asyncHandled; REQUIRE(diagnostic_information(e).find("handler ") != std::string::npos, "another exception: " << diagnostic_information(e)); }));
		const function<void (const std::exception&)> onError = fn<void (const std::exception&)>([&](const std::exception& e) { sched::NoPreempt np; ++handled; REQUIRE(diagnostic_information(e).find("handler ") != std::string::npos, "another exception: " << diagnostic_information(e)); });
		std::unique_ptr<S> sig;
		if (populator) sig.reset(new S(fn<void (const function<void (int)>&)>([&](const function<void (int)>& slot) { slot(1); sched::point("populator"); slot(2); }), onError));
		else sig.reset(new S(null, onError));
		optional<S::Invoker> invoker;
		signal_connector<void (int)> connector(sig->connector());
		invoker.emplace(sig->invoker());
		std::function<void (size_t, bool, int)> connect;
		auto disconnect = [&](size_t k, int inside)
		{
			Conn& x = *conns[k];
			Token t;
			{
				sched::NoPreempt np;
				if (x.end == Never || x.disBegin != Never) return;
				x.disBegin = stamp();
				x.disInside = inside >= 0;
				t = std::move(x.token);
			}
			t.Reset();
			sched::NoPreempt np;
			REQUIRE(!x.running || x.disInside, "the handler of connection " << k << " was running when it was disconnected");
			x.disEnd = stamp();
		};
		connect = [&](size_t k, bool, int)
		{
			Conn& x = *conns[k];
			x.begin = stamp();
			const NTracked canary((int)k);
			const function<void (int)> f = fn<void (int)>([&, k, canary](int v)
			{
				Conn& x = *conns[k];
				size_t me;
				{
					sched::NoPreempt np;
					me = calls.size();
					calls.push_back(Slots::Call{ k, v, stamp(), Never });
					REQUIRE(x.disEnd == Never, "connection " << k << " is called after its disconnection");
					++x.running;
				}
				if (x.ms) sched::sleep_ms(x.ms);
				else sched::point("handler");
				if (v >= 1000)
					switch (x.inside)
					{
					case 1: disconnect(k, (int)k); break;
					case 2: { size_t o = Never; { sched::NoPreempt np; for (size_t i = 0; i < conns.size(); ++i) if (i != k && conns[i]->inside == 0 && conns[i]->async == x.async && !conns[i]->running) o = i; } if (o != Never && !x.async) disconnect(o, (int)k); } break;
					case 3: { size_t o = Never; { sched::NoPreempt np; if (!spare.empty()) { o = spare.back(); spare.pop_back(); } } if (o != Never) connect(o, false, 0); } break;
					}
				REQUIRE_EQ(canary.get(), (int)k);
				sched::NoPreempt np;
				calls[me].end = stamp();
				--x.running;
				REQUIRE(x.disEnd == Never || x.disInside, "the handler of connection " << k << " was running when it was disconnected");
				if (x.throws) { ++(x.async ? asyncThrown : thrown); throw std::runtime_error("handler " + std::to_string(k)); }
			});
			Token t = x.async ? connector.connect(worker, f, x.send) : connector.connect(f, x.send);
			sched::NoPreempt np;
			x.token = std::move(t);
			x.end = stamp();
		};
		for (size_t i = 0; i < initial; ++i) connect(i, false, -1);
		auto invoke = [&]
		{
			int v;
			{ sched::NoPreempt np; v = next++; invs[v].begin = stamp(); invs[v].end = Never; }
			S* p = NULL;
			if (!useInvoker) { sched::NoPreempt np; p = sig.get(); }
			if (p) (*p)(v);
			else (*invoker)(v);
			invs[v].end = stamp();
		};
		std::vector<sched::Thread> t;
		for (auto& p : prog)
			t.emplace_back([&, &p = p]
			{
				for (const Step& x : p)
					switch (x.kind)
					{
					case 0: connect(x.conn, false, -1); break;
					case 1: disconnect(x.conn, -1); break;
					case 2: invoke(); break;
					case 3: sched::sleep_ms(x.ms); break;
					case 4:
						if (useInvoker)			// nobody uses the signal itself
						{
							std::unique_ptr<S> dead;
							{ sched::NoPreempt np; dead = std::move(sig); }
						}
						break;
					}
			});
		t.clear();
		// asynchronous handlers have got everything when another task of their executor runs
		bool done = false;
		worker->AddTask(fn<void ()>([&] { sched::NoPreempt np; done = true; }));
		const std::function<bool ()> f = [&] { return done; };
		sched::wait_until(f);
		for (size_t i = 0; i < conns.size(); ++i) disconnect(i, -1);
		for (auto& x : conns) x->token.Reset();
	}
	sched::stop();
	REQUIRE_EQ(thrown, handled);
	REQUIRE_EQ(asyncThrown, asyncHandled);
	std::map<std::pair<int, size_t>, const Slots::Call*> by;
	std::map<size_t, std::vector<int> > states;
	for (auto& x : calls)
	{
		if (x.value < 1000) { states[x.conn].push_back(x.value); continue; }
		REQUIRE(by.insert(std::make_pair(std::make_pair(x.value, x.conn), &x)).second, "connection " << x.conn << " was called twice for " << x.value);
		REQUIRE(x.end != Never, "a handler did not end");
		const Conn& k = *conns[x.conn];
		const Slots::Inv& i = invs[x.value];
		REQUIRE(k.begin < i.end, "connection " << x.conn << " got an invocation before it");
		REQUIRE(!(k.disEnd < i.begin), "connection " << x.conn << " got an invocation after its disconnection");
		if (!k.async) REQUIRE(x.start > i.begin && x.end < i.end, "a handler ran outside of the invocation");
	}
	bool raced = false;
	for (auto& i : invs)
		for (size_t k = 0; k < conns.size(); ++k)
		{
			const Conn& x = *conns[k];
			raced |= (x.begin != Never && i.second.begin < x.end && x.begin < i.second.end) || (x.disBegin != Never && i.second.begin < x.disEnd && x.disBegin < i.second.end);
			// asynchronous calls happen after the invocation
			const auto c = by.find(std::make_pair(i.first, k));
			if (x.end < i.second.begin && (x.async ? x.disBegin == Never : i.second.end < x.disBegin))
				REQUIRE(c != by.end(), "connection " << k << " did not get " << i.first);
			if (c == by.end()) continue;
			for (size_t o = 0; o < conns.size(); ++o)
			{
				const auto d = by.find(std::make_pair(i.first, o));
				if (d != by.end() && x.async == conns[o]->async && x.end < conns[o]->begin)
					REQUIRE(c->second->end < d->second->start, "connection " << k << " was made before connection " << o << ", but was called after it");
			}
		}
	for (size_t k = 0; k < conns.size(); ++k)
	{
		const Conn& x = *conns[k];
		const bool wants = x.send && populator && x.end != Never;
		if (!wants) REQUIRE(states[k].empty(), "connection " << k << " got a state");
		else if (!x.async) REQUIRE_EQ(show(states[k]), "[1, 2]");
		else REQUIRE(states[k] == (std::vector<int>{ 1, 2 }) || x.disBegin != Never, "asynchronous connection " << k << " got state " << show(states[k]));
	}
	LIVE_CHECK(NTracked);
	c.nontrivial_if(sched::preemptions() >= 1 && raced && !calls.empty());
}


// the documented use: the state is changed and reported under the lock of the signal
PROP(states, 40000, 1500000, 0, "a listener was connected while the state changed, with a preemption")
{
	typedef signal<void (int)> S;
	typedef signal<void (int), sp::threading::ExternalMutexPointer> X;
	struct Listener { bool async, connects, disconnects; unsigned ms; std::vector<int> got; size_t before = 0, after = 0, disBefore = Never, disAfter = Never; Token token; };
	const bool external = s.coin(), jumps = s.coin();
	std::vector<size_t> changes(s.range<size_t>(1, 2));
	for (size_t& x : changes) x = s.range<size_t>(1, 4);
	std::vector<Listener> ls(s.range<size_t>(1, 3));
	for (Listener& l : ls)
	{
		l.async = s.coin();
		l.disconnects = s.coin();
		l.ms = s.pick<unsigned>({ 0, 0, 1, 3 });
		TR("listener" << (l.async ? " async" : "") << (l.disconnects ? " disconnects" : "") << " after " << l.ms << " ms");
	}
	const unsigned pause = s.pick<unsigned>({ 0, 0, 1, 2 });
	TR(show(changes) << " changes, pause " << pause << " ms, external mutex " << external);
	std::vector<unsigned> readers;
	while (readers.size() < 2 && s.coin()) readers.push_back(s.pick<unsigned>({ 0, 1, 2 }));
	std::vector<int> state;
	bool overlap = false;
	sched::start(s, sched::Mode(true, jumps));
	{
		const shared_ptr<ThreadTaskExecutor> worker = make_shared_ptr<ThreadTaskExecutor>("worker", null);
		const auto mutex = make_shared_ptr<Mutex>();
		const auto populator = fn<void (const function<void (int)>&)>([&](const function<void (int)>& slot)
		{
			const size_t n = state.size();
			for (size_t i = 0; i < n; ++i) slot(state[i]);
			REQUIRE(state.size() == n, "the state changed while it was being sent");
		});
		std::unique_ptr<S> sig;
		std::unique_ptr<X> ext;
		if (external) ext.reset(new X(sp::threading::ExternalMutexPointer(mutex), populator));
		else sig.reset(new S(populator));
		size_t working = changes.size();
		std::vector<sched::Thread> t;
		for (size_t i = 0; i < changes.size(); ++i)
			t.emplace_back([&, i]
			{
				for (size_t k = 0; k < changes[i]; ++k)
				{
					const int v = (int)(i * 100 + k);
					if (external) { MutexLock l(*mutex); state.push_back(v); (*ext)(v); }
					else { signal_locker l(*sig); state.push_back(v); (*sig)(v); }
					if (pause) sched::sleep_ms(pause);
				}
				sched::NoPreempt np;
				--working;
			});
		for (size_t i = 0; i < ls.size(); ++i)
			t.emplace_back([&, i]
			{
				Listener& l = ls[i];
				if (l.ms) sched::sleep_ms(l.ms);
				const auto f = fn<void (int)>([&](int v) { sched::point("listener"); sched::NoPreempt np; l.got.push_back(v); });
				size_t w;
				{ sched::NoPreempt np; l.before = state.size(); w = working; }
				Token tk = external ? (l.async ? ext->connect(worker, f) : ext->connect(f)) : (l.async ? sig->connect(worker, f) : sig->connect(f));
				{ sched::NoPreempt np; l.after = state.size(); overlap |= w > 0; }
				if (l.disconnects)
				{
					sched::sleep_ms(1);
					{ sched::NoPreempt np; l.disBefore = l.async ? l.got.size() : state.size(); }
					tk.Reset();
					sched::NoPreempt np;
					l.disAfter = state.size();
				}
				else { sched::NoPreempt np; l.token = std::move(tk); }
			});
		for (unsigned x : readers)
			t.emplace_back([&, x]
			{
				if (x) sched::sleep_ms(x);
				std::vector<int> got;
				const auto f = fn<void (int)>([&](int v) { sched::point("reader"); got.push_back(v); });
				if (external) ext->SendCurrentState(f); else sig->SendCurrentState(f);
				sched::NoPreempt np;
				REQUIRE(got.size() <= state.size() && std::equal(got.begin(), got.end(), state.begin()), "a reader got " << show(got) << ", the state is " << show(state));
			});
		t.clear();
		bool done = false;
		worker->AddTask(fn<void ()>([&] { sched::NoPreempt np; done = true; }));
		const std::function<bool ()> f = [&] { return done; };
		sched::wait_until(f);
		for (Listener& l : ls)
		{
			REQUIRE(l.got.size() <= state.size(), "a listener got " << show(l.got) << ", the state is " << show(state));
			REQUIRE(std::equal(l.got.begin(), l.got.end(), state.begin()), "a listener got " << show(l.got) << ", the state is " << show(state));
			if (!l.disconnects) REQUIRE_EQ(l.got.size(), state.size());
			else
			{
				// a change being reported counts as made, but the listener gets it only if it is still connected
				REQUIRE(l.got.size() <= l.disAfter, "a listener got " << l.got.size() << " changes of " << l.disAfter);
				REQUIRE(l.got.size() + 1 >= l.disBefore, "a listener got " << l.got.size() << " changes of " << l.disBefore);
			}
		}
		const signal_connector<void (int)> connector(external ? ext->connector() : sig->connector());
		REQUIRE_EQ(show(GetVectorFromSignal(connector)), show(state));
		for (Listener& l : ls) l.token.Reset();
	}
	c.nontrivial_if(sched::preemptions() >= 1 && overlap);
}


PROP(values_from_signals, 10000, 400000, 0, "one or more values were sent")
{
	const size_t n = s.weighted({ 1u, 3u, 2u });
	std::vector<int> v;
	for (size_t i = 0; i < n; ++i) v.push_back(s.range<int>(-5, 5));
	const std::string text = s.text("abc", 5);
	const bool ops = s.coin();
	TR(show(v) << " " << text);
	c.nontrivial_if(n > 0);

	size_t errors = 0;
	const auto onError = fn<void (const std::exception&)>([&](const std::exception&) { ++errors; });
	signal<void (int)> one(fn<void (const function<void (int)>&)>([&](const function<void (int)>& f) { for (int x : v) f(x); }), onError);
	signal<void (int, const std::string&)> two(fn<void (const function<void (int, const std::string&)>&)>([&](const function<void (int, const std::string&)>& f) { for (int x : v) f(x, text); }), onError);
	signal<void (CollectionOp, int)> coll(fn<void (const function<void (CollectionOp, int)>&)>([&](const function<void (CollectionOp, int)>& f)
	{
		for (int x : v) f(CollectionOp::Added, x);
		if (ops) f(CollectionOp::Removed, 1);
	}), onError);
	signal<void ()> none(fn<void (const function<void ()>&)>([&](const function<void ()>& f) { for (size_t i = 0; i < v.size(); ++i) f(); }), onError);

	const size_t extra = n > 1 ? n - 1 : 0;			// only one value is accepted
	const optional<int> got = GetValueFromSignal(one.connector());
	REQUIRE_EQ(got.is_initialized(), n > 0);
	if (n) REQUIRE_EQ(*got, v[0]);
	REQUIRE_EQ(errors, extra);
	REQUIRE_EQ(HasValueInSignal(one.connector()), n > 0);
	REQUIRE_EQ(HasValueInSignal(none.connector()), n > 0);
	errors = 0;
	const auto tuple = GetTupleFromSignal(two.connector());
	REQUIRE_EQ(tuple.is_initialized(), n > 0);
	if (n)
	{
		REQUIRE_EQ(tuple->Get<0>(), v[0]);
		REQUIRE_EQ(tuple->Get<1>(), text);
	}
	REQUIRE_EQ(errors, extra);
	REQUIRE_EQ(HasTupleInSignal(two.connector()), n > 0);
	errors = 0;
	REQUIRE_EQ(show(GetVectorFromSignal(one.connector())), show(v));
	REQUIRE_EQ(errors, 0u);
	REQUIRE_EQ(show(GetVectorFromSignal(coll.connector())), show(v));
	REQUIRE_EQ(errors, ops ? 1u : 0u);
	std::set<int> set(v.begin(), v.end());
	const std::set<int> fromSet = GetValuesFromSignal<std::set<int> >(one.connector());
	REQUIRE(fromSet == set, "a set got " << fromSet.size() << " values of " << set.size());
	const signal_connector<void (int)> dummy = make_dummy_signal_connector();
	REQUIRE(!HasValueInSignal(dummy) && !dummy.connect(fn<void (int)>([](int) { })), "a dummy connector does something");
}
