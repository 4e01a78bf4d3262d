// ENGINE: seq
// C30: functions, binders, lazies, action transactions, scope guards and tokens.
// Oracle: a log of calls with exact arguments computed by evaluating the binder's shape in the harness, and models of
// shared ownership with an expected clean-up log.
#include <stingraykit/string/ToString.h>
#include <stingraykit/ActionTransaction.h>
#include <stingraykit/Finalizer.h>
#include <stingraykit/FunctionToken.h>
#include <stingraykit/MultiToken.h>
#include <stingraykit/ObjectPool.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/ScopeExit.h>
#include <stingraykit/function/AsyncFunction.h>
#include <stingraykit/function/CancellableFunction.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/function/function.h>
#include <stingraykit/function/functional.h>
#include <stingraykit/lazy.h>
#include <stingraykit/reference.h>
#include <deque>
#include <memory>
#include "pbt.h"
#include "util.h"
#include "tracked.h"

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<int> Log;

	template < typename F >
	Token Cleanup(F f)		// a lambda has no declared return type
	{ return MakeFunctionToken(fn<void ()>(f)); }

	// ------------------------------------------------------------------------------------------------ binders
	// Every slot of a three argument target is one of: bound value, _1, _2, _3, nested binder over _1 / _2, nested binder over a bound value and _3
	typedef NTracked Arg;

	struct G		// nested function: tells apart its two arguments
	{
		typedef Arg RetType;
		typedef TypeList<const Arg&, const Arg&> ParamTypes;
		Arg operator () (const Arg& a, const Arg& b) const { return Arg(a.get() * 31 + b.get() * 7 + 1); }
	};

	struct Target
	{
		typedef long RetType;
		typedef UnspecifiedParamTypes ParamTypes;		// so that binders over it may be bound again with any number of parameters

		Log*	log;
		int		tag;
		bool	throws;

		long operator () (const Arg& a, const Arg& b, const Arg& c) const
		{
			log->push_back(tag); log->push_back(a.get()); log->push_back(b.get()); log->push_back(c.get());
			if (throws)
				throw std::out_of_range("target");
			return a.get() * 3 + b.get() * 5L + c.get() * 7L + tag;
		}
	};

	template < int Kind > struct SlotBuilder;
	template < > struct SlotBuilder<0> { static Arg make(int v) { return Arg(v); }											static int eval(int v, const int*) { return v; } };
	template < > struct SlotBuilder<1> { static auto make(int) -> decltype(_1) { return _1; }								static int eval(int, const int* p) { return p[0]; } };
	template < > struct SlotBuilder<2> { static auto make(int) -> decltype(_2) { return _2; }								static int eval(int, const int* p) { return p[1]; } };
	template < > struct SlotBuilder<3> { static auto make(int) -> decltype(_3) { return _3; }								static int eval(int, const int* p) { return p[2]; } };
	template < > struct SlotBuilder<4> { static auto make(int) { return Bind(G(), _2, _1); }								static int eval(int, const int* p) { return p[1] * 31 + p[0] * 7 + 1; } };
	template < > struct SlotBuilder<5> { static auto make(int v) { return Bind(G(), Arg(v), _3); }							static int eval(int v, const int* p) { return v * 31 + p[2] * 7 + 1; } };

	const int Kinds = 6;

	struct BindCase
	{
		Log*	log;
		int		tag;
		bool	throws;
		int		bound[3];
		int		params[3];
		int		mode;
	};

	// the call itself, in one of several ways which must not make a difference
	template < typename Binder_ >
	long Invoke(Binder_& b, const BindCase& k)
	{
		Arg p0(k.params[0]), p1(k.params[1]), p2(k.params[2]);
		switch (k.mode)
		{
		case 0: return b(p0, p1, p2);
		case 1: { Binder_ copy(b); return copy(p0, p1, p2); }
		case 2: { Binder_ copy(b); Binder_ moved(std::move(copy)); return moved(p0, p1, p2); }
		case 3: { const function<long (const Arg&, const Arg&, const Arg&)> f(b); return f(p0, p1, p2); }
		case 4: { function<long (const Arg&, const Arg&, const Arg&)> f(b); function<long (const Arg&, const Arg&, const Arg&)> g(f); f = g; return g(p0, p1, p2); }
		case 5: { const Binder_ copy(b); return Bind(copy, _3, _2, _1)(p2, p1, p0); }
		case 6: return Bind(b, p0, p1, p2)();
		case 7: { std::function<long (const Arg&, const Arg&, const Arg&)> f(b); return f(p0, p1, p2); }
		default:
		{
			const function_storage storage(function<long (const Arg&, const Arg&, const Arg&)>(Bind(b, _2, _3, _1)));
			function_storage copy(storage);
			return copy.ToFunction<long (const Arg&, const Arg&, const Arg&)>()(p2, p0, p1);
		}
		}
	}

	template < int A, int B, int C >
	long RunShape(const BindCase& k, int* expected)
	{
		expected[0] = SlotBuilder<A>::eval(k.bound[0], k.params);
		expected[1] = SlotBuilder<B>::eval(k.bound[1], k.params);
		expected[2] = SlotBuilder<C>::eval(k.bound[2], k.params);
		auto b = Bind(Target{k.log, k.tag, k.throws}, SlotBuilder<A>::make(k.bound[0]), SlotBuilder<B>::make(k.bound[1]), SlotBuilder<C>::make(k.bound[2]));
		return Invoke(b, k);
	}

	typedef long ShapeFunc(const BindCase& k, int* expected);

	template < size_t... I >
	std::vector<ShapeFunc*> MakeShapes(std::index_sequence<I...>)
	{ return { &RunShape<(int)(I / (Kinds * Kinds)), (int)(I / Kinds % Kinds), (int)(I % Kinds)>... }; }
}

PROP(bind_shapes, 20000, 400000, 0, "the shape has a placeholder or a nested binder in at least one slot and no two slots are equal in kind and value")
{
	static const std::vector<ShapeFunc*> shapes = MakeShapes(std::make_index_sequence<Kinds * Kinds * Kinds>());

	LIVE_BASE(Arg);
	const size_t shape = s.below(shapes.size());
	Log log;
	BindCase k;
	k.log = &log;
	k.tag = s.range(0, 1000);
	k.throws = s.chance(1, 8);
	for (int i = 0; i < 3; ++i)
	{
		k.bound[i] = s.range(-1000, 1000);
		k.params[i] = s.range(-1000, 1000);
	}
	k.mode = s.range(0, 8);
	TR("shape " << shape / 36 << shape / 6 % 6 << shape % 6 << " mode " << k.mode << " throws " << k.throws);

	int e[3];
	long result = 0;
	bool thrown = false;
	try
	{ result = shapes[shape](k, e); }
	catch (const std::out_of_range&)
	{ thrown = true; }

	REQUIRE_EQX(thrown, k.throws, "exception of the target");
	const Log expected{ k.tag, e[0], e[1], e[2] };
	REQUIRE(log == expected, "target got " << (log.size() / 4) << " calls, args " << (log.size() >= 4 ? ToString(log[1]) + " " + ToString(log[2]) + " " + ToString(log[3]) : std::string("-")) << ", expected " << e[0] << " " << e[1] << " " << e[2]);
	if (!thrown)
		REQUIRE_EQX(result, e[0] * 3 + e[1] * 5L + e[2] * 7L + k.tag, "result");
	LIVE_CHECK(Arg);
	c.nontrivial_if(shape != 0 && e[0] != e[1] && e[1] != e[2] && e[0] != e[2]);
}


// ------------------------------------------------------------------------------------------------------------ targets
namespace
{
	int FreeFunc(int a, const std::string& b) { return a * 100 + (int)b.size(); }
	int& FreeRef(int& a) { return a; }
	void Append(std::string& out, const std::string& s, int n) { while (n-- > 0) out += s; }
	std::string Take(std::string&& s) { std::string r(std::move(s)); s = "taken"; return r; }
	std::string TakeMany(const std::string& a, std::string&& b, int n) { std::string r(a + "|" + std::move(b) + "|" + ToString(n)); return r; }
	std::string FromUnique(std::unique_ptr<int> p, int k) { return ToString(*p * k); }

	struct Host
	{
		int			base;
		mutable int	calls;
		explicit Host(int b) : base(b), calls(0) { }
		virtual ~Host() { }

		int Add(int x) { ++calls; base += x; return base; }
		int Get(int x, int y) const { ++calls; return base * 3 + x - y; }
		virtual int Virt(int x) const { return base + x; }
		const Host* Self() const { return this; }
		int& Ref() { return base; }
	};
	struct DerivedHost : Host
	{
		explicit DerivedHost(int b) : Host(b) { }
		int Virt(int x) const override { return base - x; }
	};

	struct TwentySum
	{
		typedef long RetType;
		typedef UnspecifiedParamTypes ParamTypes;
		template < typename... Ts > long operator () (const Ts&... ts) const
		{ unsigned long r = 0; unsigned long i = 0; const long v[] = { (long)ts... }; for (long x : v) r = r * 31 + (unsigned long)x * ++i; return (long)r; }
	};
}

PROP(bind_targets, 20000, 400000, 0, "always: each case calls a generated kind of target with generated values")
{
	const int a = s.range(-50, 50), b = s.range(-50, 50);
	const std::string str = s.text("abc", 8);
	c.nontrivial_if(true);

	switch (s.below(12))
	{
	case 0:
		REQUIRE_EQ(Bind(&FreeFunc, a, _1)(str), FreeFunc(a, str));
		REQUIRE_EQ(Bind(&FreeFunc, _1, str)(b), FreeFunc(b, str));
		REQUIRE_EQ(Bind(&FreeFunc, _2, _1)(str, a), FreeFunc(a, str));
		REQUIRE_EQ(Bind(&FreeFunc, _4, _2)(0, str, std::string("absent"), a), FreeFunc(a, str));
		REQUIRE_EQ((function<int (int, const std::string&)>(&FreeFunc)(a, str)), FreeFunc(a, str));
		REQUIRE_EQ((function<int (int, std::string, int, std::string)>(Bind(&FreeFunc, _3, _4))(1, "no", a, str)), FreeFunc(a, str));
		break;
	case 1:		// references reach the target themselves
	{
		int x = a;
		int& r = Bind(&FreeRef, _1)(x);
		REQUIRE(&r == &x, "reference parameter and result");
		function<int& (int&)> f(&FreeRef);
		f(x) = b;
		REQUIRE_EQ(x, b);
		int& r2 = Bind(&FreeRef, wrap_ref(x))();
		REQUIRE(&r2 == &x, "bound reference");
		std::string out;
		const int n = s.range(0, 4);
		Bind(&Append, _2, _1, n)(str, out);
		std::string exp;
		for (int i = 0; i < n; ++i) exp += str;
		REQUIRE_EQ(out, exp);
		Bind(&Append, wrap_ref(out), _1, _2)(str, 1);
		REQUIRE_EQ(out, exp + str);
		break;
	}
	case 2:		// rvalues are forwarded, once
	{
		std::string v = str;
		REQUIRE_EQ(Bind(&Take, _1)(std::move(v)), str);
		REQUIRE_EQX(v, "taken", "the very object has been passed");
		std::string w = str;
		REQUIRE_EQ(Bind(&TakeMany, _2, _1, b)(std::move(w), std::string("pre")), "pre|" + str + "|" + ToString(b));
		REQUIRE_EQ((function<std::string (std::string&&)>(&Take)(std::string(str))), str);
		REQUIRE_EQ((function<std::string (std::string)>(&Take)(str)), str);
		REQUIRE_EQ(Bind(&FromUnique, _1, _2)(std::unique_ptr<int>(new int(a)), b), ToString(a * b));
		REQUIRE_EQ((function<std::string (std::unique_ptr<int>, int)>(&FromUnique)(std::unique_ptr<int>(new int(a)), b)), ToString(a * b));
		REQUIRE_EQ((function<std::string (int, std::unique_ptr<int>)>(Bind(&FromUnique, _2, _1))(b, std::unique_ptr<int>(new int(a)))), ToString(a * b));
		break;
	}
	case 3:		// members through every kind of handle
	{
		Host h(a);
		Host* p = &h;
		const shared_ptr<Host> sp(p, [](Host*){ });
		REQUIRE_EQ(Bind(&Host::Add, p, _1)(b), a + b);
		REQUIRE_EQ(h.base, a + b);
		REQUIRE_EQ(Bind(&Host::Add, sp, _1)(-b), a);
		REQUIRE_EQ(Bind(&Host::Get, p, _2, _1)(a, b), a * 3 + b - a);
		REQUIRE_EQ(Bind(&Host::Get, wrap_const_ref(h), _1, b)(a), a * 3 + a - b);
		REQUIRE_EQ(Bind(&Host::Get, _1, _2, _3)(p, a, b), a * 3 + a - b);
		REQUIRE_EQ(Bind(&Host::Get, _3, _2, _1)(b, a, sp), a * 3 + a - b);
		REQUIRE(Bind(&Host::Self, p)() == p, "this of a bound pointer");
		REQUIRE(Bind(&Host::Self, wrap_ref(h))() == p, "this of a bound reference");
		REQUIRE(Bind(&Host::Self, _1)(h) == p, "this of a passed lvalue");
		REQUIRE(Bind(&Host::Self, _1)(sp) == p, "this of a passed pointer");
		const auto copied = Bind(&Host::Self, h);
		REQUIRE(copied() != p, "bound value is a copy");
		REQUIRE_EQ(copied()->base, a);
		Bind(&Host::Ref, p)() = b;
		REQUIRE_EQ(h.base, b);
		REQUIRE_EQ(h.calls, 6);
		break;
	}
	case 4:
	{
		DerivedHost d(a);
		Host* p = &d;
		REQUIRE_EQ(Bind(&Host::Virt, p, _1)(b), a - b);
		REQUIRE_EQ(Bind(&DerivedHost::Virt, &d, b)(), a - b);
		REQUIRE_EQ((function<int (const Host*, int)>(&Host::Virt)(p, b)), a - b);
		REQUIRE_EQ((function<int (Host&, int)>(Bind(&Host::Virt, _1, _2))(d, b)), a - b);
		const shared_ptr<DerivedHost> none;
		REQUIRE(THROWS((Bind(&Host::Virt, none, _1)(b))), "call through null");
		REQUIRE(THROWS((Bind(&Host::Virt, (Host*)0, _1)(b))), "call through null");
		break;
	}
	case 5:		// shared and weak ownership by binders
	{
		shared_ptr<Host> sp = make_shared_ptr<Host>(a);
		weak_ptr<Host> w(sp);
		{
			const auto strong = Bind(&Host::Get, sp, _1, 0);
			sp.reset();
			REQUIRE_EQ(strong(b), a * 3 + b);
			const function<int (int)> f(strong);
			REQUIRE_EQ(f(b), a * 3 + b);
		}
		REQUIRE(!w.lock(), "object must die with the last binder");
		break;
	}
	case 6:		// function and std::function as targets
	{
		const function<int (int, int)> f(Bind(&Host::Get, Host(a), _1, _2));
		const std::function<int (int, int)> sf(f);
		REQUIRE_EQ(Bind(f, _2, _1)(b, a), a * 3 + a - b);
		REQUIRE_EQ(Bind(sf, b, _1)(a), a * 3 + b - a);
		REQUIRE_EQ((function<long (short, short)>(f)((short)a, (short)b)), a * 3 + a - b);
		const function<void (int, int)> v(f);
		v(a, b);
		REQUIRE_EQ((function<int (int, int)>(sf)(a, b)), a * 3 + a - b);
		break;
	}
	case 7:		// all twenty placeholders
	{
		long v[20];
		for (long& x : v) x = s.range(-100, 100);
		unsigned long straight = 0, reversed = 0;
		for (int i = 0; i < 20; ++i) straight = straight * 31 + (unsigned long)v[i] * (i + 1);
		for (int i = 0; i < 20; ++i) reversed = reversed * 31 + (unsigned long)v[19 - i] * (i + 1);
		const auto fwd = Bind(TwentySum(), _1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20);
		REQUIRE_EQ(fwd(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]), (long)straight);
		const auto rev = Bind(TwentySum(), _20, _19, _18, _17, _16, _15, _14, _13, _12, _11, _10, _9, _8, _7, _6, _5, _4, _3, _2, _1);
		REQUIRE_EQ(rev(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19]), (long)reversed);
		const auto mixed = Bind(TwentySum(), v[0], _3, v[2], _1, _2, v[5], _3);
		const long m[] = { v[0], v[12], v[2], v[10], v[11], v[5], v[12] };
		long exp = 0;
		for (int i = 0; i < 7; ++i) exp = exp * 31 + m[i] * (i + 1);
		REQUIRE_EQ(mixed(v[10], v[11], v[12]), exp);
		break;
	}
	case 8:		// binders of binders of binders
	{
		const auto inner = Bind(TwentySum(), _2, a, _1);
		const auto middle = Bind(TwentySum(), Bind(TwentySum(), _1, _3), inner, _3);
		const long p1 = s.range(-9, 9), p2 = s.range(-9, 9), p3 = s.range(-9, 9);
		const long in = TwentySum()(p2, (long)a, p1);
		REQUIRE_EQ(middle(p1, p2, p3), TwentySum()(TwentySum()(p1, p3), in, p3));
		// a binder as the function of another one
		REQUIRE_EQ(Bind(inner, _3, _1)(p1, p2, p3), TwentySum()(p1, (long)a, p3));
		break;
	}
	case 9:
	{
		const std::function<bool (int)> positive([](int x) { return x > 0; });
		REQUIRE_EQ(not_(positive)(a), !(a > 0));
		REQUIRE_EQ(not_(not_(function<bool (int)>(positive)))(a), a > 0);
		REQUIRE_EQ(negate(&FreeFunc)(a, str), -FreeFunc(a, str));
		int x = 0;
		REQUIRE(&make_assigner(x)(b) == &x && x == b, "assigner");
		REQUIRE_EQ(make_identity(std::string(str))(1, 2, "x"), str);
		REQUIRE_EQ(MakeInstance<std::string>()((size_t)(b < 0 ? -b : b), 'x'), std::string((size_t)(b < 0 ? -b : b), 'x'));
		REQUIRE_EQ(make_invoker(&FreeFunc)(std::make_pair(a, str)), FreeFunc(a, str));
		REQUIRE_EQ(make_invoker(&FreeFunc)(MakeTuple(a, str)), FreeFunc(a, str));
		REQUIRE_EQ(make_invoker(&FreeFunc)((KeyValuePair<int, std::string>(a, str))), FreeFunc(a, str));
		NopFunctor()(a, str, x);
		REQUIRE_EQ(FunctorInvoker::Invoke(&FreeFunc, MakeTuple(a, str)), FreeFunc(a, str));
		break;
	}
	case 10:	// lazy values are computed when they are needed, each time
	{
		int calls = 0;
		const auto l = lazy(fn<int ()>([&] { ++calls; return a + calls; }));
		REQUIRE_EQX(calls, 0, "lazy computed too early");
		const int n = s.range(0, 4);
		for (int i = 1; i <= n; ++i)
		{
			const int v = l;
			REQUIRE_EQ(v, a + i);
			REQUIRE_EQ(calls, i);
		}
		std::map<int, int> m;
		m.insert(std::make_pair(1, 2));
		break;
	}
	default:	// cancellable functions
	{
		int calls = 0;
		TaskLifeToken token;
		const auto v = MakeCancellableFunction(fn<void (int)>([&](int x) { calls += x; }), token.GetExecutionTester());
		const auto r = MakeCancellableFunction(fn<int (int)>([&](int x) { calls += x; return x * 2; }), token.GetExecutionTester());
		const function<int (int)> copy(r);
		v(1);
		REQUIRE_EQ(r(2), 4);
		REQUIRE_EQ(copy(3), 6);
		REQUIRE_EQ(calls, 6);
		if (s.coin())
			token.Release();
		else
			token.Reset();
		v(100);
		REQUIRE(THROWS(r(100)), "cancelled function has nothing to return");
		REQUIRE(THROWS(copy(100)), "cancelled function has nothing to return");
		REQUIRE_EQX(calls, 6, "cancelled function called");
		const auto alive = MakeCancellableFunction(fn<void (int)>([&](int x) { calls += x; }), FutureExecutionTester(null));
		alive(1);
		REQUIRE_EQ(calls, 7);
	}
	}
}


// ------------------------------------------------------------------------------------------------------------ handles
PROP(function_histories, 6000, 120000, 0, "at least two live targets were called after a copy, a move or an assignment of a handle")
{
	LIVE_BASE(Tracked);
	Log log;
	struct Callee
	{
		typedef int RetType;
		typedef TypeList<int> ParamTypes;
		Tracked	id;
		Log*	log;
		Callee(int i, Log* l) : id(i), log(l) { }
		int operator () (int x) const { log->push_back(id.get()); log->push_back(x); if (x == 13) throw std::out_of_range("13"); return id.get() * 1000 + x; }
	};
	typedef function<int (int)> F;

	{
		std::deque<F> handles;
		std::deque<int> model;
		std::vector<std::pair<function_storage, int> > storages;
		int nextId = 1, mutations = 0;
		std::set<int> called;
		while (s.more(40))
		{
			const int op = s.weighted({4, 3, 2, 3, 3, 8, 1, 1});
			if (op == 0 || handles.empty())
			{
				const int id = nextId++;
				Callee callee(id, &log);
				if (s.coin()) handles.push_back(F(callee)); else handles.push_back(F(std::move(callee)));
				model.push_back(id);
				continue;
			}
			const size_t i = s.below(handles.size()), j = s.below(handles.size());
			switch (op)
			{
			case 1: { const F copy(handles[i]); handles.push_back(copy); const int id = model[i]; model.push_back(id); ++mutations; break; }
			case 2: handles.push_back(F(Bind(handles[i], _1))); { const int id = model[i]; model.push_back(id); } ++mutations; break;
			case 3: { const F src(handles[j]); handles[i] = src; model[i] = model[j]; ++mutations; break; }
			case 4:
			{
				F moved(std::move(handles[i]));
				handles.erase(handles.begin() + i);
				const int id = model[i];
				model.erase(model.begin() + i);
				if (s.coin()) { handles.push_back(std::move(moved)); model.push_back(id); }
				++mutations;
				break;
			}
			case 5:
			{
				const int x = s.range(10, 16);
				log.clear();
				bool thrown = false;
				int r = 0;
				try { r = handles[i](x); } catch (const std::out_of_range&) { thrown = true; }
				REQUIRE_EQ(thrown, x == 13);
				if (!thrown) REQUIRE_EQ(r, model[i] * 1000 + x);
				REQUIRE(log == (Log{ model[i], x }), "call of handle " << i << " (target " << model[i] << ")");
				if (mutations) called.insert(model[i]);
				break;
			}
			case 6: storages.push_back(std::make_pair(function_storage(handles[i]), model[i])); break;
			case 7:
				if (!storages.empty())
				{
					const size_t k = s.below(storages.size());
					handles.push_back(storages[k].first.ToFunction<int (int)>());
					model.push_back(storages[k].second);
					if (s.coin()) storages.erase(storages.begin() + k);
				}
				break;
			}
			std::set<int> ids(model.begin(), model.end());
			for (const auto& st : storages) ids.insert(st.second);
			REQUIRE_EQX(Tracked::live() - liveBase_Tracked, (long)ids.size(), "targets alive");
		}
		c.nontrivial_if(called.size() >= 2);
	}
	LIVE_CHECK(Tracked);
}


// ------------------------------------------------------------------------------------------------------------ action transactions
PROP(action_transactions, 20000, 400000, 0, "at least two actions were performed and at least one action or rollback threw, or the rollback was implicit")
{
	Log log, expected;
	std::vector<int> done;			// performed, in order
	std::set<int> badRollbacks;
	bool active = true, thrown = false, implicit = false;
	size_t performed = 0;

	// every performed action is undone exactly once, last first; a rollback which throws does not repeat the others
	const auto rollback = [&](bool stopAtThrow) -> bool
	{
		while (!done.empty())
		{
			const int id = done.back();
			done.pop_back();
			expected.push_back(-id);
			if (badRollbacks.count(id) && stopAtThrow)
				return false;
		}
		return true;
	};

	{
		ActionTransaction t;
		while (s.more(16))
		{
			const int op = s.weighted({8, 1, 1});
			if (op == 0)
			{
				const int id = (int)log.size() * 100 + (int)s.below(100) + 1;
				const bool bad = s.chance(1, 6), badRb = s.chance(1, 6);
				if (badRb) badRollbacks.insert(id);
				bool failed = false;
				try
				{
					t.Execute(fn<void ()>([&log, id, bad] { log.push_back(id); if (bad) throw std::out_of_range("action"); }),
							fn<void ()>([&log, id, badRb] { log.push_back(-id); if (badRb) throw std::out_of_range("rollback"); }));
				}
				catch (const std::exception&)
				{ failed = true; }
				REQUIRE_EQX(failed, !active || bad, "Execute");
				if (active)
				{
					expected.push_back(id);
					if (!bad) { done.push_back(id); ++performed; }
					thrown |= bad;
				}
			}
			else if (op == 1)
			{
				REQUIRE_EQX(THROWS(t.Commit()), !active, "Commit");
				if (active) done.clear();
				active = false;
			}
			else
			{
				const bool failed = THROWS(t.Rollback());
				if (!active)
					REQUIRE(failed, "Rollback of an inactive transaction");
				else
				{
					const bool ok = rollback(true);
					REQUIRE_EQX(failed, !ok, "Rollback reports the exception of a rollback function");
					if (ok) active = false; else thrown = true;
				}
			}
			REQUIRE(log == expected, "calls so far: " << ToString(log) << ", expected " << ToString(expected));
		}
		if (active) { implicit = !done.empty(); rollback(false); }
	}
	REQUIRE(log == expected, "all calls: " << ToString(log) << ", expected " << ToString(expected));
	c.nontrivial_if(performed >= 2 && (thrown || implicit));
}


// ------------------------------------------------------------------------------------------------------------ scope guards
namespace
{
	struct Plan { int kind; int id; bool throws; bool cancel; };

	void Nest(const std::vector<Plan>& plan, size_t i, int throwAt, Log& log)
	{
		if ((int)i == throwAt)
			throw std::out_of_range("body");
		if (i == plan.size())
			return;

		const Plan p = plan[i];
		int id = p.id;
		Log* out = &log;
		bool bad = p.throws;
		switch (p.kind)
		{
		case 0:
		{
			ScopeExitInvoker guard(fn<void ()>([=] { out->push_back(id); if (bad) throw std::out_of_range("guard"); }));
			if (p.cancel) guard.Cancel();
			Nest(plan, i + 1, throwAt, log);
			break;
		}
		case 1:
		{
			STINGRAYKIT_SCOPE_EXIT(MK_PARAM(Log*, out), MK_PARAM(int, id), MK_PARAM(bool, bad))
				out->push_back(id);
				if (bad) throw std::out_of_range("guard");
			STINGRAYKIT_SCOPE_EXIT_END;
			id = -1;		// the guard has taken the value at its declaration
			Nest(plan, i + 1, throwAt, log);
			break;
		}
		case 2:
		{
			const Token t(Cleanup([=] { out->push_back(id); if (bad) throw std::out_of_range("guard"); }));
			Nest(plan, i + 1, throwAt, log);
			break;
		}
		default:
		{
			int a = id / 100, b = id % 100;
			STINGRAYKIT_SCOPE_EXIT(MK_PARAM(int, a), MK_PARAM(Log*, out), MK_PARAM(int, b), MK_PARAM(bool, bad))
				out->push_back(a * 100 + b);
				if (bad) throw std::out_of_range("guard");
			STINGRAYKIT_SCOPE_EXIT_END;
			Nest(plan, i + 1, throwAt, log);
			break;
		}
		}
	}
}

PROP(scope_guards, 10000, 200000, 0, "at least two guards and an exception in the body or in a guard")
{
	std::vector<Plan> plan;
	bool guardThrows = false;
	while (s.more(8))
	{
		Plan p = { s.range(0, 3), s.range(0, 999), s.chance(1, 5), s.chance(1, 5) };
		guardThrows |= p.throws;
		plan.push_back(p);
	}
	const int throwAt = s.chance(1, 3) ? s.range(0, (int)plan.size()) : -1;
	Log log, expected;
	for (size_t i = 0; i < (throwAt < 0 ? plan.size() : (size_t)throwAt); ++i)
		if (!(plan[i].kind == 0 && plan[i].cancel))
			expected.insert(expected.begin(), plan[i].id);
	bool thrown = false;
	try { Nest(plan, 0, throwAt, log); } catch (const std::out_of_range& ex) { thrown = true; REQUIRE_EQ(std::string(ex.what()), "body"); }
	REQUIRE_EQX(thrown, throwAt >= 0, "exceptions of the guarded code pass, those of guards do not");
	REQUIRE(log == expected, "guards ran " << ToString(log) << ", expected " << ToString(expected));
	c.nontrivial_if(plan.size() >= 2 && (thrown || guardThrows));
}


// ------------------------------------------------------------------------------------------------------------ tokens
namespace
{
	// reference model of token ownership
	struct Owners
	{
		std::map<int, int>	refs;
		Log					expected;
		bool				ordered;

		void add(int id) { if (id) ++refs[id]; }
		void drop(int id) { if (id && --refs[id] == 0) { refs.erase(id); expected.push_back(id); } }
	};
}

PROP(token_histories, 8000, 160000, 0, "at least three clean-ups ran and one of them was caused by a container of tokens")
{
	Log log;
	Owners o;
	int nextId = 1;
	bool byContainer = false;
	const auto make = [&]() -> std::pair<Token, int>
	{
		const int id = nextId++;
		const bool bad = s.chance(1, 8);
		if (s.chance(1, 4))
			return std::make_pair(MakeObjectToken(shared_ptr<int>(new int(id), [&log](int* p) { log.push_back(*p); delete p; })), id);
		return std::make_pair(Cleanup([&log, id, bad] { log.push_back(id); if (bad) throw std::out_of_range("token"); }), id);
	};
	// clean-ups which ran since the last check are exactly the expected ones; within one operation in any order unless told otherwise
	const auto check = [&](const char* what, bool ordered)
	{
		Log a(log), b(o.expected);
		if (!ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); }
		REQUIRE(a == b, what << ": clean-ups " << ToString(log) << ", expected " << ToString(o.expected));
		log.clear();
		o.expected.clear();
	};
	size_t cleanups = 0;

	{
		std::vector<std::pair<Token, int> > handles;
		TokenHolder holder; int inHolder = 0;
		ThreadlessTokenPool tlPool; std::vector<int> inTlPool;
		TokenPool pool; std::vector<int> inPool;
		TokenMap<int> map; std::multimap<int, int> inMap;
		ThreadlessTokenMap<int> tlMap; std::multimap<int, int> inTlMap;

		// takes a token for insertion: a fresh one or a copy of / the very handle
		const auto take = [&](std::pair<Token, int>& out, bool& moved)
		{
			moved = s.coin();
			if (handles.empty() || s.coin()) { out = make(); o.add(out.second); }
			else
			{
				const size_t i = s.below(handles.size());
				if (moved) { out = std::move(handles[i]); handles.erase(handles.begin() + i); }
				else { out = handles[i]; o.add(out.second); }
			}
		};

		while (s.more(50))
		{
			const size_t before = log.size();
			(void)before;
			bool container = false, ordered = false;
			const char* what = "";
			switch (s.weighted({4, 3, 3, 2, 4, 4, 2, 2, 6, 3, 1, 6, 3, 1, 3}))
			{
			case 0: what = "make"; handles.push_back(make()); o.add(handles.back().second); break;
			case 1: what = "copy"; if (!handles.empty()) { const std::pair<Token, int> t = handles[s.below(handles.size())]; handles.push_back(t); o.add(t.second); } break;
			case 2: what = "drop"; if (!handles.empty()) { const size_t i = s.below(handles.size()); const int id = handles[i].second; handles.erase(handles.begin() + i); o.drop(id); } break;
			case 3:
				what = "assign";
				if (!handles.empty())
				{
					const size_t i = s.below(handles.size()), j = s.below(handles.size());
					o.add(handles[j].second);
					o.drop(handles[i].second);
					const int how = s.below(3);
					if (how == 0) handles[i].first = handles[j].first;
					else if (how == 1) handles[i].first.Set(handles[j].first);
					else { Token t(handles[j].first); handles[i].first = std::move(t); }
					handles[i].second = handles[j].second;
					REQUIRE_EQX(handles[i].first.IsInitialized(), handles[i].second != 0, "IsInitialized");
				}
				break;
			case 4:
			{
				what = "holder";
				std::pair<Token, int> t; bool moved;
				take(t, moved);
				if (moved) holder = std::move(t.first); else { holder = t.first; t.first.Reset(); }
				o.drop(inHolder);
				inHolder = t.second;
				container = true;
				break;
			}
			case 5:
			{
				what = "pool add";
				std::pair<Token, int> t; bool moved;
				take(t, moved);
				const bool threaded = s.coin();
				(threaded ? inPool : inTlPool).push_back(t.second);
				if (threaded) { if (moved) pool += std::move(t.first); else pool += t.first; }
				else { if (moved) tlPool += std::move(t.first); else tlPool += t.first; }
				break;
			}
			case 6:
				what = "pool release"; container = true;
				for (int id : inPool) o.drop(id);
				inPool.clear();
				pool.Release();
				break;
			case 7:
				what = "threadless pool release"; container = true;
				for (int id : inTlPool) o.drop(id);
				inTlPool.clear();
				tlPool.Release();
				break;
			case 8: case 11:
			{
				what = "map add";
				std::pair<Token, int> t; bool moved;
				take(t, moved);
				const int key = s.range(0, 4);
				const bool threaded = s.coin();
				(threaded ? inMap : inTlMap).insert(std::make_pair(key, t.second));
				if (threaded) { if (moved) map[key] += std::move(t.first); else map[key] += t.first; }
				else { if (moved) tlMap[key] += std::move(t.first); else tlMap[key] += t.first; }
				break;
			}
			case 9: case 12:
			{
				what = "map release"; container = true;
				const int key = s.range(0, 4);
				const bool threaded = s.coin();
				auto& m = threaded ? inMap : inTlMap;
				const auto r = m.equal_range(key);
				for (auto it = r.first; it != r.second; ++it) o.drop(it->second);
				m.erase(key);
				if (threaded) map.release(key); else tlMap.release(key);
				break;
			}
			case 10:
				what = "map release all"; container = true;
				for (const auto& p : inMap) o.drop(p.second);
				inMap.clear();
				map.release_all();
				break;
			case 13:
				what = "threadless map release all"; container = true;
				for (const auto& p : inTlMap) o.drop(p.second);
				inTlMap.clear();
				tlMap.release_all();
				break;
			case 14:
				what = "reset"; if (!handles.empty()) { auto& h = handles[s.below(handles.size())]; o.drop(h.second); h.second = 0; h.first.Reset(); REQUIRE(!h.first, "reset token"); }
				break;
			}
			cleanups += o.expected.size();
			byContainer |= container && !o.expected.empty();
			check(what, ordered);
			REQUIRE_EQ(pool.Empty(), inPool.empty());
			REQUIRE_EQ(tlPool.Empty(), inTlPool.empty());
			for (int k = 0; k <= 4; ++k)
				REQUIRE_EQX(tlMap.contains(k), inTlMap.count(k) != 0, "contains " << k);
		}
		for (const auto& p : o.refs) { o.expected.push_back(p.first); }
	}
	check("end of every owner", false);
	c.nontrivial_if(cleanups >= 3 && byContainer);
}


PROP(token_order, 10000, 200000, 0, "a multi token of at least two tokens was released, or a token was attached to a shared object")
{
	Log log;
	const auto make = [&](int id) { return Cleanup([&log, id] { log.push_back(id); }); };
	const int n = s.range(0, 6);
	Log expected;
	switch (s.below(4))
	{
	case 0: case 1:
	{
		const bool forward = s.coin();
		Token handle, outer;
		const int kept = s.range(0, 8);
		{
			ForwardMultiTokenBuilder f;
			ReverseMultiTokenBuilder r;
			for (int i = 1; i <= n; ++i)
			{
				Token t(make(i));
				if (i == kept) outer = t;
				if (forward) { if (s.coin()) f % t; else f % std::move(t); }
				else { if (s.coin()) r % t; else r % std::move(t); }
			}
			const bool abandoned = s.chance(1, 8);
			if (!abandoned)
			{
				handle = forward ? Token(f) : Token(r);
				REQUIRE(THROWS(forward ? Token(f) : Token(r)), "a builder gives its token once");
				REQUIRE(handle, "multi token");
			}
			REQUIRE(log.empty(), "nothing is released early");
		}
		for (int i = 1; i <= n; ++i)
			if (i != kept)
				expected.insert(forward ? expected.end() : expected.begin(), i);
		if (handle)
		{
			REQUIRE(log.empty(), "nothing is released early");
			const Token copy(handle);
			handle.Reset();
			REQUIRE(log.empty(), "a copy keeps everything");
		}
		REQUIRE(log == expected, "released " << ToString(log) << ", expected " << ToString(expected));
		outer.Reset();
		if (kept >= 1 && kept <= n) expected.push_back(kept);
		REQUIRE(log == expected, "released " << ToString(log) << ", expected " << ToString(expected));
		c.nontrivial_if(n >= 2);
		break;
	}
	case 2:		// tokens attached to an object live as long as the result does; the object outlives them
	{
		shared_ptr<int> obj(new int(1000), [&log](int* p) { log.push_back(*p); delete p; });
		int* const raw = obj.get();
		shared_ptr<int> att;
		const bool attacher = s.coin();
		if (attacher)
		{
			TokenAttacher<int> a(obj);
			for (int i = 1; i <= n; ++i)
			{
				Token t(make(i));
				if (s.coin()) a % t; else a % std::move(t);
			}
			att = a;
		}
		else
		{
			att = obj;
			for (int i = 1; i <= n; ++i)
			{
				Token t(make(i));
				att = s.coin() ? AttachToken(att, t) : AttachToken(att, std::move(t));
			}
		}
		REQUIRE(att.get() == raw, "the object itself");
		const bool keepObject = s.coin();
		if (!keepObject) obj.reset();
		REQUIRE(log.empty(), "nothing is released early");
		const shared_ptr<int> copy(att);
		att.reset();
		REQUIRE(log.empty(), "a copy keeps everything");
		REQUIRE_EQ(*copy, 1000);
		const_cast<shared_ptr<int>&>(copy).reset();
		for (int i = n; i >= 1; --i) expected.push_back(i);
		if (!keepObject) expected.push_back(1000);
		REQUIRE(log == expected, "released " << ToString(log) << ", expected " << ToString(expected));
		obj.reset();
		if (keepObject) expected.push_back(1000);
		REQUIRE(log == expected, "released " << ToString(log) << ", expected " << ToString(expected));
		c.nontrivial_if(n >= 1);
		break;
	}
	default:	// clean-ups may use the pools they are released from
	{
		TokenPool pool;
		TokenMap<int> map;
		TokenHolder holder;
		for (int i = 1; i <= n; ++i)
		{
			pool += Cleanup([&, i] { log.push_back(i); pool += make(100 + i); });
			map[7] += Cleanup([&, i] { log.push_back(200 + i); map[7] += make(300 + i); (void)pool.Empty(); });
		}
		holder = Cleanup([&] { log.push_back(400); holder = make(401); });
		pool.Release();
		for (int i = 1; i <= n; ++i) expected.push_back(i);
		std::sort(log.begin(), log.end());
		REQUIRE(log == expected, "first release");
		log.clear(); expected.clear();
		pool.Release();
		for (int i = 1; i <= n; ++i) expected.push_back(100 + i);
		std::sort(log.begin(), log.end());
		REQUIRE(log == expected, "second release");
		log.clear(); expected.clear();
		map.release(7);
		for (int i = 1; i <= n; ++i) expected.push_back(200 + i);
		std::sort(log.begin(), log.end());
		REQUIRE(log == expected, "first release of the map");
		log.clear(); expected.clear();
		map.release_all();
		for (int i = 1; i <= n; ++i) expected.push_back(300 + i);
		std::sort(log.begin(), log.end());
		REQUIRE(log == expected, "second release of the map");
		log.clear();
		holder.Reset();
		REQUIRE(log == (Log{400}), "holder");
		holder.Reset();
		REQUIRE(log == (Log{400, 401}), "holder keeps what the clean-up has set");
		c.nontrivial_if(n >= 2);
	}
	}
}


// ------------------------------------------------------------------------------------------------------------ pools, finalizers, async functions
namespace
{
	struct ManualExecutor : public ITaskExecutor
	{
		std::deque<std::pair<TaskType, FutureExecutionTester> > tasks;

		void AddTask(const TaskType& task, const FutureExecutionTester& tester) override { tasks.push_back(std::make_pair(task, tester)); }

		void RunOne()
		{
			const auto t = tasks.front();
			tasks.pop_front();
			const LocalExecutionGuard guard(t.second);
			if (guard)
				t.first();
		}
	};
}

PROP(object_pool, 6000, 120000, 0, "garbage was collected while some objects of the pool were used and others were not")
{
	LIVE_BASE(Tracked);
	{
		ObjectPool pool;
		std::vector<std::pair<shared_ptr<Tracked>, int> > handles;
		std::map<int, int> refs;
		std::multiset<int> pooled;
		int nextId = 1;
		bool mixed = false;
		while (s.more(40))
		{
			switch (s.weighted({4, 3, 3, 4, 3}))
			{
			case 0: handles.push_back(std::make_pair(make_shared_ptr<Tracked>(nextId), nextId)); refs[nextId] = 1; ++nextId; break;
			case 1: if (!handles.empty()) { const auto h = handles[s.below(handles.size())]; pool.AddObject(h.first); pooled.insert(h.second); } break;
			case 2: if (!handles.empty()) { const auto h = handles[s.below(handles.size())]; handles.push_back(h); ++refs[h.second]; } break;
			case 3: if (!handles.empty()) { const size_t i = s.below(handles.size()); --refs[handles[i].second]; handles.erase(handles.begin() + i); } break;
			default:
			{
				pool.CollectGarbage();
				size_t used = 0, freed = 0;
				for (auto it = pooled.begin(); it != pooled.end(); )
				{
					// entries of an object which is used only by the pool go away one by one, the last of them with the object
					const int id = *it;
					const size_t entries = pooled.count(id);
					if (refs[id] == 0 && entries == 1) { it = pooled.erase(it); ++freed; }
					else { ++used; ++it; }
				}
				mixed |= used && freed;
			}
			}
			std::set<int> alive(pooled.begin(), pooled.end());
			for (const auto& h : handles) alive.insert(h.second);
			REQUIRE_EQX(Tracked::live() - liveBase_Tracked, (long)alive.size(), "objects alive");
			for (const auto& h : handles) REQUIRE_EQ(h.first->get(), h.second);
		}
		c.nontrivial_if(mixed);
	}
	LIVE_CHECK(Tracked);
}


PROP(deferred_by_executor, 6000, 120000, 0, "at least one object was finalized or one asynchronous function ran, and one was still pending at the end or cancelled")
{
	LIVE_BASE(Tracked);
	size_t ran = 0, skipped = 0;
	{
		const shared_ptr<ManualExecutor> executor = make_shared_ptr<ManualExecutor>();
		struct Expect { int kind; int id; int arg; bool dead; bool bad; };
		std::deque<Expect> model;
		std::vector<std::pair<future<int>, std::pair<int, int> > > futures;		// state: 0 pending, 1 value, 2 exception, 3 never
		std::vector<shared_ptr<Tracked> > objects;
		TaskLifeToken token;
		Log log;
		int nextId = 1;
		long deadObjects = 0;
		while (s.more(30))
		{
			switch (s.weighted({3, 3, 3, 8, 1, 3}))
			{
			case 0: objects.push_back(shared_ptr<Tracked>(new Tracked(nextId++), Finalizer(executor))); break;
			case 1:
				if (!objects.empty())
				{
					const size_t i = s.below(objects.size());
					const Expect e = { 0, objects[i]->get(), 0, false, false };
					const bool last = objects[i].unique();
					objects.erase(objects.begin() + i);
					if (last) { model.push_back(e); ++deadObjects; }
				}
				break;
			case 2:
			{
				const int id = nextId++, arg = s.range(-9, 9);
				const bool bad = s.chance(1, 4), tested = s.coin(), isVoid = s.chance(1, 3);
				const Expect e = { isVoid ? 2 : 1, id, arg, false, bad && !isVoid };
				if (isVoid)
				{
					const auto f = fn<void (int)>([&log, id](int x) { log.push_back(id); log.push_back(x); });
					if (tested) MakeAsyncFunction(executor, f, token.GetExecutionTester())(arg); else MakeAsyncFunction(executor, f)(arg);
				}
				else
				{
					const auto f = fn<int (int)>([&log, id, bad](int x) { log.push_back(id); log.push_back(x); if (bad) throw std::out_of_range("async"); return id * 100 + x; });
					const function<future<int> (int)> af(tested ? MakeAsyncFunction(executor, f, token.GetExecutionTester()) : MakeAsyncFunction(executor, f));
					futures.push_back(std::make_pair(af(arg), std::make_pair(0, id)));
					REQUIRE(!futures.back().first.is_ready(), "must not run before the executor runs it");
				}
				model.push_back(e);
				model.back().dead = false;
				if (tested) model.back().kind += 10;
				break;
			}
			case 3:
			{
				if (model.empty()) break;
				const Expect e = model.front();
				model.pop_front();
				REQUIRE(!executor->tasks.empty(), "a task is missing");
				log.clear();
				const long live = Tracked::live();
				executor->RunOne();
				if (e.kind == 0)
				{
					REQUIRE_EQX(Tracked::live(), live - 1, "finalized object");
					--deadObjects;
					++ran;
				}
				else
				{
					REQUIRE(log == (e.dead ? Log() : Log{ e.id, e.arg }), "asynchronous call " << e.id << " dead " << e.dead);
					++(e.dead ? skipped : ran);
					for (auto& f : futures)
						if (f.second.second == e.id)
						{
							f.second.first = e.dead ? 3 : e.bad ? 2 : 1;
							if (f.second.first == 1) REQUIRE(f.first.is_ready() && f.first.get() == e.id * 100 + e.arg, "result of an asynchronous call");
							if (f.second.first == 2) { REQUIRE(f.first.is_ready() && f.first.has_exception(), "exception of an asynchronous call"); bool same = false; try { f.first.get(); } catch (const std::exception& ex) { same = std::string(ex.what()).find("async") != std::string::npos; } REQUIRE(same, "exception of an asynchronous call"); }
						}
				}
				break;
			}
			case 4:
				token.Reset();
				for (auto& e : model)
					if (e.kind > 10) e.dead = true;
				break;
			default: if (!objects.empty()) { const shared_ptr<Tracked> copy(objects[s.below(objects.size())]); objects.push_back(copy); } break;
			}
			REQUIRE_EQX(executor->tasks.size(), model.size(), "deferred tasks");
			std::set<const Tracked*> distinct;
			for (const auto& p : objects) distinct.insert(p.get());
			REQUIRE_EQX(Tracked::live() - liveBase_Tracked, (long)distinct.size() + deadObjects, "objects alive");
		}
		skipped += model.size();
		objects.clear();
		while (!executor->tasks.empty()) executor->RunOne();
	}
	LIVE_CHECK(Tracked);
	c.nontrivial_if(ran && skipped);
}
