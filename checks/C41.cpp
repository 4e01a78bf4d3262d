// ENGINE: seq
// FLAGS: -fno-sanitize=enum
// Checked operations, exceptions, casts, visitors, dispatch by tags, factories and creators.
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/CloneBuilderBase.h>
#include <stingraykit/Creators.h>
#include <stingraykit/ExceptionPtr.h>
#include <stingraykit/GenericEntityFactory.h>
#include <stingraykit/IVisitor.h>
#include <stingraykit/MultiStorageFor.h>
#include <stingraykit/ObjectToken.h>
#include <stingraykit/TypeErasure.h>
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/exception.h>
#include <stingraykit/factory/Factory.h>
#include "pbt.h"
#include "tracked.h"
#include "util.h"
#include <map>
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	template < typename T >
	T biased(Src& s)
	{
		typedef std::numeric_limits<T> L;
		switch (s.below(5))
		{
		case 0: return (T)(L::max() - (T)s.below(3));
		case 1: return (T)(L::min() + (T)s.below(3));
		case 2: return (T)s.below(4);
		case 3: return L::is_signed ? (T)-(T)s.below(4) : (T)s.below(4);
		default: return s.integer<T>();
		}
	}

	template < typename V, typename I >
	bool one_overflow(Src& s, Ctx& c)
	{
		const V v = biased<V>(s); I i = biased<I>(s);
		if (s.coin())
		{	// around the exact limit
			const __int128 room = (s.coin() ? (__int128)std::numeric_limits<V>::max() : (__int128)std::numeric_limits<V>::min()) - v + s.range<int>(-1, 1);
			if (room >= std::numeric_limits<I>::min() && room <= std::numeric_limits<I>::max()) i = (I)room;
		}
		const __int128 sum = (__int128)v + i;
		const bool fits = sum >= std::numeric_limits<V>::min() && sum <= std::numeric_limits<V>::max();
		bool refused = false;
		try { STINGRAYKIT_CHECK_INTEGER_OVERFLOW(v, i); } catch (const IntegerOverflowException&) { refused = true; }
		TR(sizeof(V) << " bytes, " << +v << " + " << +i);
		REQUIRE(refused == !fits, +v << " + " << +i << (refused ? " refused" : " accepted"));
		return !fits;
	}

	// 'needle' in the text, behind position 'from'
	bool follows(const std::string& text, const std::string& needle, size_t& from)
	{
		const size_t at = text.find(needle, from);
		if (at == std::string::npos) return false;
		from = at + needle.size();
		return true;
	}

}

PROP(overflow, 1000000, 6000000, 0, "a sum did not fit")
{
	bool r = false;
	for (int n = s.range<int>(1, 4); n--; )
		switch (s.below(20))
		{
#define BOTH(N, V, I) case N: r |= one_overflow<V, I>(s, c); break;
		BOTH(0, s8, s8) BOTH(1, u8, u8) BOTH(2, u8, s8) BOTH(3, s16, s16) BOTH(4, u16, u8) BOTH(5, u16, s16) BOTH(6, s16, u8)
		BOTH(7, s32, s32) BOTH(8, u32, u32) BOTH(9, u32, s32) BOTH(10, s32, u16) BOTH(11, s32, s8) BOTH(12, u32, s16)
		BOTH(13, s64, s64) BOTH(14, u64, u64) BOTH(15, u64, s64) BOTH(16, s64, u32) BOTH(17, u64, s8) BOTH(18, s64, s32) BOTH(19, u64, u8)
		}
	c.nontrivial_if(r);
}

PROP(ranges, 100000, 2000000, 0, "an index was refused")
{
	bool refused = false;
	for (int n = s.range<int>(1, 4); n--; )
	{
		const s64 a = s.coin() ? biased<s64>(s) : s.range<s64>(-3, 3), lo = s.range<s64>(-3, 3), hi = s.coin() ? biased<s64>(s) : s.range<s64>(-3, 3);
		const u64 i = s.coin() ? biased<u64>(s) : s.range<u64>(0, 5), size = s.coin() ? biased<u64>(s) : s.range<u64>(0, 5);
		TR(a << " in " << lo << ".." << hi << ", " << i << " of " << size);
		std::string what;
		try { STINGRAYKIT_CHECK_RANGE(a, lo, hi); } catch (const IndexOutOfRangeException& ex) { what = ex.what(); }
		REQUIRE_EQ(what, (a >= lo && a < hi) ? std::string() : "Index " + std::to_string(a) + " out of range [" + std::to_string(lo) + ", " + std::to_string(hi) + ")");
		refused |= !what.empty();
		what.clear();
		try { STINGRAYKIT_CHECK_RANGE(i, size); } catch (const IndexOutOfRangeException& ex) { what = ex.what(); }
		REQUIRE_EQ(what, i < size ? std::string() : "Index " + std::to_string(i) + " out of range " + std::to_string(size));
		refused |= !what.empty();

		// a progress is scaled to its part of the whole
		const size_t count = s.range<size_t>(0, 9), index = s.range<size_t>(0, 10), part = s.range<size_t>(1, 10);
		const s64 total = s.range<s64>(0, 1000), current = s.range<s64>(0, total);
		const int percents = total ? (int)(100 * current / total) : 0;
		REQUIRE_EQ(ProgressValue(current, total).InPercents(), percents);
		std::unique_ptr<ProgressValue> got;
		bool thrown = false;
		const bool whole = s.coin();
		try
		{
			const std::function<void (const ProgressValue&)> f = [&got](const ProgressValue& v) { got.reset(new ProgressValue(v)); };
			if (whole) AggregateProgressReporter(f, index, part, count)(ProgressValue(current, total));
			else AggregateProgressReporter(f, index, count)(ProgressValue(current, total));
		}
		catch (const IndexOutOfRangeException&) { thrown = true; }
		TR("progress " << current << " of " << total << " in " << index << "+" << (whole ? part : 1) << " of " << count);
		const size_t length = whole ? part : 1;
		REQUIRE_EQ(thrown, index + length > count);
		REQUIRE_EQ((bool)got, !thrown);
		if (got) { REQUIRE_EQ(got->Total, 100); REQUIRE_EQ(got->Current, (s64)((index * 100 + length * percents) / count)); }
	}
	c.nontrivial_if(refused);
}

namespace
{
	struct Custom : public std::runtime_error { int payload; Custom(const std::string& m, int p) : std::runtime_error(m), payload(p) { } };

	int throwLine;
	const char* throwFunction;

	// throws one of the exceptions; 'what' is what it says
	void raise(int kind, const std::string& m, int payload)
	{
		throwFunction = STINGRAYKIT_FUNCTION;
		switch (kind)
		{
		case 0: throwLine = __LINE__; STINGRAYKIT_THROW(m);
		case 1: throwLine = __LINE__; STINGRAYKIT_THROW(m.c_str());
		case 2: throwLine = __LINE__; STINGRAYKIT_THROW(Custom(m, payload));
		case 3: throwLine = __LINE__; STINGRAYKIT_THROW(ArgumentException(m, payload));
		case 4: throwLine = __LINE__; STINGRAYKIT_THROW(KeyNotFoundException(m));
		case 5: throwLine = __LINE__; STINGRAYKIT_THROW(TimeoutException(m));
		case 6: throwLine = __LINE__; STINGRAYKIT_CHECK(payload == 1 << 30, InvalidCastException(m, "x"));
		case 7: throwLine = __LINE__; STINGRAYKIT_CHECK(false, m);
		case 8: throwLine = __LINE__; STINGRAYKIT_THROW(LogicException(m));
		case 9: throwLine = __LINE__; STINGRAYKIT_THROW(std::out_of_range(m));
		case 10: throwLine = __LINE__; STINGRAYKIT_THROW(MalformedJsonException(m));
		case 11: throwLine = 0; throw Custom(m, payload);	// plain
		default: throwLine = 0; throw std::length_error(m);
		}
	}

	std::string said(int kind, const std::string& m, int payload)
	{
		switch (kind)
		{
		case 3: return "Invalid argument '" + m + "' value '" + std::to_string(payload) + "'";
		case 4: return "Key '" + m + "' not found!";
		case 5: return m + ": Timed out!";
		case 6: return "Invalid cast from " + m + " to x";
		default: return m;
		}
	}

	template < typename E > bool is(const std::exception& ex) { return dynamic_cast<const E*>(&ex) != nullptr; }

	bool of_kind(int kind, const std::exception& ex, int payload)
	{
		switch (kind)
		{
		case 0: case 1: case 7: return is<Exception>(ex);
		case 2: case 11: return is<Custom>(ex) && dynamic_cast<const Custom&>(ex).payload == payload;
		case 3: return is<ArgumentException>(ex) && is<Exception>(ex);
		case 4: return is<KeyNotFoundException>(ex);
		case 5: return is<TimeoutException>(ex);
		case 6: return is<InvalidCastException>(ex) && is<std::bad_cast>(ex);
		case 8: return is<LogicException>(ex) && is<std::logic_error>(ex);
		case 9: return is<std::out_of_range>(ex);
		case 10: return is<MalformedJsonException>(ex) && is<MalformedDataException>(ex);
		default: return is<std::length_error>(ex);
		}
	}

	// performs the wraps from the innermost one
	void wrapped(const std::vector<int>& wraps, const std::vector<std::string>& messages, size_t depth, int kind, const std::string& m, int payload)
	{
		if (depth == wraps.size()) return raise(kind, m, payload);
		switch (wraps[depth])
		{
		case 0: STINGRAYKIT_WRAP_EXCEPTIONS(messages[depth], wrapped(wraps, messages, depth + 1, kind, m, payload)); break;
		case 1:
			try { wrapped(wraps, messages, depth + 1, kind, m, payload); }
			catch (const std::exception& ex) { STINGRAYKIT_RETHROW_WITH_MESSAGE(StringBuilder() % messages[depth] % 7, ex); }
			break;
		case 2:
		{
			ExceptionPtr p;
			RethrowException(p);	// nothing
			try { wrapped(wraps, messages, depth + 1, kind, m, payload); }
			catch (const std::exception& ex) { p = MakeExceptionPtr(ex); }
			RethrowException(p);
			break;
		}
		}
	}
}

PROP(exceptions, 30000, 500000, 0, "the exception was wrapped")
{
	const int kind = s.below(13), payload = s.integer<int>();
	const std::string m = s.chance(1, 8) ? std::string() : "m" + std::to_string(s.below(1000)) + s.pick<std::string>({"", " ", "'", "%1%", "\n", ": "});
	std::vector<int> wraps; std::vector<std::string> messages;
	while (wraps.size() < 4 && s.more(3)) { wraps.push_back(s.below(3)); messages.push_back("w" + std::to_string(s.below(100)) + s.pick<std::string>({"", "%", " x"})); }
	TR("kind " << kind << " of " << quote(m) << ", wrapped " << wraps.size() << " times");
	bool caught = false;
	try { wrapped(wraps, messages, 0, kind, m, payload); }
	catch (const std::exception& ex)
	{
		caught = true;
		const std::string text = diagnostic_information(ex), what = ex.what(), says = said(kind, m, payload);
		size_t at = 0;
		REQUIRE(follows(text, what, at), "the diagnostic information lacks the message: " << quote(text.substr(0, 200)));
		if (wraps.empty())
		{
			REQUIRE_EQ(what, says);
			REQUIRE(of_kind(kind, ex, payload), "the exception changed its type");
			const Detail::IToolkitException* t = dynamic_cast<const Detail::IToolkitException*>(&ex);
			REQUIRE_EQ(t != nullptr, throwLine != 0);
			if (t)
			{
				REQUIRE_EQ(t->GetLine(), (size_t)throwLine);
				REQUIRE_EQ(std::string(t->GetFilename()), std::string(__FILE__));
				REQUIRE_EQ(std::string(t->GetFunctionName()), std::string(throwFunction));
			}
		}
		else
		{
			// all messages, from the outside to the inside, then the exception and the place it was thrown at
			size_t in = 0;
			for (size_t i = 0; i < wraps.size(); ++i)
				if (wraps[i] != 2) REQUIRE(follows(what, messages[i] + (wraps[i] == 1 ? "7: " : ": "), in), "the message " << i << " was lost: " << quote(what.substr(0, 300)));
				else REQUIRE(i || is<RethrownException>(ex), "a rethrown exception has another type");
			if (wraps[0] != 2) REQUIRE(is<Exception>(ex) && std::string(typeid(ex).name()) == typeid(Exception).name(), "a wrapped exception has another type");
			REQUIRE(follows(what, "\n" + says, in), "what was thrown got lost: " << quote(what.substr(0, 300)));
			if (throwLine)
				REQUIRE(follows(what, std::string("in function '") + throwFunction + "'", in) && follows(what, std::string("in file '") + __FILE__ + "' at line " + std::to_string(throwLine) + "\n", in), "the place got lost");
		}
		size_t place = at;
		if (wraps.empty() && throwLine) REQUIRE(follows(text, "in file '" __FILE__ "' at line " + std::to_string(throwLine) + "\n", place), "the place is not in the diagnostic information");
		REQUIRE(text.find(wraps.empty() ? (kind == 12 ? "length_error" : kind == 11 ? "Custom" : "ExceptionWrapper") : "tion") != std::string::npos, "the type is not named");
	}
	REQUIRE(caught, "nothing was thrown");

	// nothing thrown, nothing caught
	int done = 0;
	STINGRAYKIT_WRAP_EXCEPTIONS("x", ++done, ++done);
	STINGRAYKIT_CHECK(done == 2, "unexpected");
	bool foreign = false;
	try { STINGRAYKIT_WRAP_EXCEPTIONS("x", throw 5); } catch (int) { foreign = true; }
	REQUIRE(foreign, "a foreign exception was wrapped");

	// what is required is passed through
	int value = payload;
	int* const none = nullptr;
	int* const ptr = s.coin() ? &value : none;
	const shared_ptr<int> shared = s.coin() ? make_shared_ptr<int>(payload) : shared_ptr<int>();
	optional<int> opt;
	if (s.coin()) opt = payload;
	std::string refused;
	try { REQUIRE_EQ(STINGRAYKIT_REQUIRE_NOT_NULL(ptr), ptr); } catch (const NullPointerException& ex) { refused = ex.what(); }
	REQUIRE_EQ(refused, ptr ? std::string() : "Accessing null pointer: ptr");
	refused.clear();
	try { REQUIRE(&STINGRAYKIT_REQUIRE_NOT_NULL(shared) == &shared, "a copy"); } catch (const NullPointerException& ex) { refused = ex.what(); }
	REQUIRE_EQ(refused, shared ? std::string() : "Accessing null pointer: shared");
	refused.clear();
	try { REQUIRE_EQ(*STINGRAYKIT_REQUIRE_INITIALIZED(opt), payload); } catch (const NotInitializedException& ex) { refused = ex.what(); }
	REQUIRE_EQ(refused, opt ? std::string() : "Accessing not initialized object: opt");
	c.nontrivial_if(!wraps.empty());
}

namespace
{
	// a diamond of bases, with visitable classes
	struct Base : public virtual IVisitable<Base> { virtual ~Base() { } int id = 0; };
	struct A : public virtual Base { int a = 1; };
	struct B : public virtual Base { int b = 2; };
	struct Mixin { virtual ~Mixin() { } int m = 3; };
	struct D1 : public A, public Visitable<Base, D1> { int d1 = 11; };
	struct D2 : public B, public Mixin, public Visitable<Base, D2> { int d2 = 12; };
	struct D3 : public A, public B, public Visitable<Base, D3> { int d3 = 13; };
	struct D4 : public Mixin, public A, public B, public Visitable<Base, D4> { int d4 = 14; };

	shared_ptr<Base> make(size_t i)
	{
		shared_ptr<Base> r;
		switch (i)
		{
		case 0: r = make_shared_ptr<D1>(); break;
		case 1: r = make_shared_ptr<D2>(); break;
		case 2: r = make_shared_ptr<D3>(); break;
		case 3: r = make_shared_ptr<D4>(); break;
		}
		r->id = (int)i;
		return r;
	}
	//                        A  B  Mixin D1 D2 D3 D4
	const bool Is[4][7] = { { 1, 0, 0,    1, 0, 0, 0 },
	                        { 0, 1, 1,    0, 1, 0, 0 },
	                        { 1, 1, 0,    0, 0, 1, 0 },
	                        { 1, 1, 1,    0, 0, 0, 1 } };

	template < typename T, typename From >
	void cast(From& from, bool expected, T* right)
	{
		T* p = dynamic_caster(&from);
		REQUIRE(p == right, "dynamic_caster gave another pointer");
		REQUIRE(!!p == expected, "dynamic_caster " << (p ? "cast" : "refused"));
		REQUIRE(DynamicCast<T*>(&from) == right, "DynamicCast gave another pointer");
		const From& c = from;
		const T* cp = dynamic_caster(&c);
		REQUIRE(cp == right, "dynamic_caster of a constant gave another pointer");
		bool thrown = false;
		try { T& r = dynamic_caster(from); REQUIRE(&r == right, "dynamic_caster gave another reference"); } catch (const InvalidCastException&) { thrown = true; }
		REQUIRE_EQ(thrown, !expected);
		thrown = false;
		try { REQUIRE(&DynamicCast<const T&>(c) == right, "DynamicCast gave another reference"); } catch (const InvalidCastException&) { thrown = true; }
		REQUIRE_EQ(thrown, !expected);
		thrown = false;
		try { T* q = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(&from); REQUIRE(q == right, "the checked caster gave another pointer"); } catch (const InvalidCastException&) { thrown = true; }
		REQUIRE_EQ(thrown, !expected);
	}

	template < typename T >
	void shared_cast(const shared_ptr<Base>& p, bool expected, T* right)
	{
		const shared_ptr<T> q = dynamic_caster(p);
		REQUIRE(q.get() == right, "dynamic_caster of a shared pointer gave another pointer");
		shared_ptr<T> r;
		bool thrown = false;
		try { const shared_ptr<T> checked = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(p); r = checked; } catch (const InvalidCastException&) { thrown = true; }
		REQUIRE_EQ(thrown, !expected);
		REQUIRE(r.get() == right, "the checked caster of a shared pointer gave another pointer");
		REQUIRE_EQ(p.use_count(), expected ? 3u : 1u);
	}

	template < typename T >
	void all_casts(const shared_ptr<Base>& p, bool expected)
	{
		T* const right = dynamic_cast<T*>(p.get());
		cast<T>(*p, expected, right);
		if (A* a = dynamic_cast<A*>(p.get())) cast<T>(*a, expected, right);
		if (B* b = dynamic_cast<B*>(p.get())) cast<T>(*b, expected, right);
		if (Mixin* m = dynamic_cast<Mixin*>(p.get())) cast<T>(*m, expected, right);
		shared_cast<T>(p, expected, right);
	}

	struct Names : public Visitor<Base, TypeList<D1, D2, D3>, std::string>
	{
		std::string Visit(D1& d) const override { REQUIRE_EQ(d.d1, 11); return "D1 " + std::to_string(d.id); }
		std::string Visit(D2& d) const override { REQUIRE_EQ(d.d2, 12); return "D2 " + std::to_string(d.id); }
		std::string Visit(D3& d) const override { REQUIRE_EQ(d.d3, 13); return "D3 " + std::to_string(d.id); }
	};
	struct ConstNames : public Visitor<const Base, TypeList<const D4, const D1>, std::string>
	{
		std::string Visit(const D1& d) const override { return "D1 " + std::to_string(d.id); }
		std::string Visit(const D4& d) const override { return "D4 " + std::to_string(d.id); }
		std::string Visit(const Base& b) const override { return "base " + std::to_string(b.id); }
	};
	struct Keep : public Visitor<shared_ptr<Base>, TypeList<shared_ptr<D2>, shared_ptr<D4> > >
	{
		struct Result { shared_ptr<Base> kept; std::string name; };
		Result* result;	// visitors are copied
		void Visit(const shared_ptr<D2>& d) const override { result->kept = d; result->name = "D2"; REQUIRE_EQ(d->d2, 12); }
		void Visit(const shared_ptr<D4>& d) const override { result->kept = d; result->name = "D4"; REQUIRE_EQ(d->d4, 14); }
		void Visit(const shared_ptr<Base>& d) const override { result->kept = d; result->name = "base"; }
	};
}

PROP(casts_and_visitors, 60000, 500000, 0, "an object was refused and another one was not")
{
	bool visited = false, refused = false;
	for (int n = s.range<int>(1, 5); n--; )
	{
		const size_t i = s.below(4);
		shared_ptr<Base> p = make(i);
		p->id = s.below(100);
		switch (s.below(7))
		{
		case 0: all_casts<A>(p, Is[i][0]); break;
		case 1: all_casts<B>(p, Is[i][1]); break;
		case 2: all_casts<Mixin>(p, Is[i][2]); break;
		case 3: all_casts<D1>(p, Is[i][3]); break;
		case 4: all_casts<D2>(p, Is[i][4]); break;
		case 5: all_casts<D3>(p, Is[i][5]); break;
		case 6: all_casts<D4>(p, Is[i][6]); break;
		}
		Base* const nothing = nullptr;
		REQUIRE(DynamicCast<A*>(nothing) == nullptr, "nothing was cast");
		A* const nothingToo = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(nothing);
		REQUIRE(nothingToo == nullptr, "nothing was cast");

		const std::string id = std::to_string(p->id);
		std::string got;
		bool thrown = false;
		try { got = ApplyVisitor(Names(), *p); } catch (const VisitorException&) { thrown = true; }
		TR("visit D" << i + 1 << ": " << got);
		REQUIRE_EQ(thrown, i == 3);
		if (!thrown) { REQUIRE_EQ(got, "D" + std::to_string(i + 1) + " " + id); visited = true; } else refused = true;
		const Base& constant = *p;
		REQUIRE_EQ(ApplyVisitor(ConstNames(), constant), (i == 3 ? "D4 " : i == 0 ? "D1 " : "base ") + id);
		Keep::Result result;
		Keep keep;
		keep.result = &result;
		ApplyVisitor(keep, p);
		REQUIRE(result.kept.get() == p.get(), "another object was visited");
		REQUIRE_EQ(result.name, std::string(i == 1 ? "D2" : i == 3 ? "D4" : "base"));
		REQUIRE_EQ(p.use_count(), 2u);
	}
	c.nontrivial_if(visited && refused);
}

namespace
{
	struct Tag
	{
		STINGRAYKIT_ENUM_VALUES(T0 = 0, T1 = 1, T2 = 2, T3 = 5, T4 = 9, T5 = 17, T6 = 40, T7 = 100, T8 = 127);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Tag);
	};

	template < int N > struct Times { static int Do(int a, int* calls) { ++*calls; return a * 1000 + N; } };
	template < int N > struct MadeTimes { static shared_ptr<int> Do(int a) { return make_shared_ptr<int>(a * 1000 + N); } };

	// declared in an order which is not that of the tags
	struct Inv : public GenericInvoker<Inv, Tag, int, ThrowLeafFunc>
	{ typedef TypeList<RegistryEntry<Tag::T5, Times<5> >, RegistryEntry<Tag::T0, Times<0> >, RegistryEntry<Tag::T8, Times<8> >, RegistryEntry<Tag::T2, Times<2> >, RegistryEntry<Tag::T3, Times<3> >, RegistryEntry<Tag::T1, Times<1> > > Registry; };
	struct InvDefault : public GenericInvoker<InvDefault, Tag, int, DefaultConstructorLeafFunc>
	{ typedef TypeList<RegistryEntry<Tag::T7, Times<7> >, RegistryEntry<Tag::T6, Times<6> >, RegistryEntry<Tag::T4, Times<4> > > Registry; };
	struct InvNull : public GenericInvoker<InvNull, Tag, shared_ptr<int>, NullPtrLeafFunc>
	{ typedef TypeList<RegistryEntry<Tag::T0, MadeTimes<0> >, RegistryEntry<Tag::T1, MadeTimes<1> >, RegistryEntry<Tag::T2, MadeTimes<2> >, RegistryEntry<Tag::T3, MadeTimes<3> >, RegistryEntry<Tag::T4, MadeTimes<4> >,
		RegistryEntry<Tag::T5, MadeTimes<5> >, RegistryEntry<Tag::T6, MadeTimes<6> >, RegistryEntry<Tag::T7, MadeTimes<7> > > Registry; };

	struct Stream
	{
		std::vector<int> data; size_t pos = 0; int rollbacks = 0;
		struct Rollback { Stream& s; size_t pos; explicit Rollback(Stream& s_) : s(s_), pos(s_.pos) { } ~Rollback() { s.pos = pos; ++s.rollbacks; } };
		void Skip(size_t n) { pos += n / 8; }
		template < size_t N > Tag::Enum Read() { if (pos >= data.size()) throw std::out_of_range("end"); return (Tag::Enum)data[pos++]; }
	};
	struct Entity { virtual ~Entity() { } int seen = 0; };
	struct E1 : public Entity { };
	struct E3 : public Entity { };
	struct E7 : public Entity { };
	struct E7Factory { static shared_ptr<Entity> Create(Stream& st) { shared_ptr<E7> e = make_shared_ptr<E7>(); e->seen = st.Read<8>(); return e; } };
	struct Entities : public GenericEntityFactory<Entities, Entity, Tag, GenericEntityTagReader<Tag, 16, 8> >
	{ typedef TypeList<RegistryEntry<Tag::T7, E7Factory>, RegistryEntry<Tag::T1, E1>, RegistryEntry<Tag::T3, E3> > Registry; };

	const int Tags[] = { 0, 1, 2, 5, 9, 17, 40, 100, 127 };
}

PROP(dispatch, 60000, 1500000, 0, "a known and an unknown tag were dispatched")
{
	bool known = false, unknown = false;
	for (int n = s.range<int>(1, 8); n--; )
	{
		const int raw = s.chance(2, 3) ? Tags[s.below(9)] : (int)s.below(128), arg = s.range<int>(-1000, 1000);
		const Tag::Enum tag = (Tag::Enum)raw;
		int index = -1;
		for (int i = 0; i < 9; ++i) if (Tags[i] == raw) index = i;
		TR("tag " << raw << ", " << arg);
		int calls = 0, got = 0;
		bool thrown = false;
		try { got = Inv::Invoke(tag, arg, &calls); } catch (const UnknownEntityTagException&) { thrown = true; }
		const bool has = index >= 0 && index != 4 && index != 6 && index != 7;
		REQUIRE_EQ(thrown, !has);
		REQUIRE_EQ(calls, has ? 1 : 0);
		if (has) REQUIRE_EQ(got, arg * 1000 + index);
		(has ? known : unknown) = true;
		calls = 0;
		const bool hasDefault = index == 4 || index == 6 || index == 7;
		got = InvDefault::Invoke(tag, arg, &calls);
		REQUIRE_EQ(got, hasDefault ? arg * 1000 + index : 0);
		const shared_ptr<int> p = InvNull::Invoke(tag, arg);
		REQUIRE_EQ((bool)p, index >= 0 && index < 8);
		if (p) REQUIRE_EQ(*p, arg * 1000 + index);

		Stream st;
		for (size_t k = s.range<size_t>(0, 5); k--; ) st.data.push_back(Tags[s.below(9)]);
		if (st.data.size() > 3 && s.coin()) st.data[s.below(2) + 2] = raw;
		st.pos = s.below(3);
		const size_t from = st.pos;
		shared_ptr<Entity> e;
		bool ended = false;
		thrown = false;
		try { e = Entities::Create(st); } catch (const UnknownEntityTagException&) { thrown = true; } catch (const std::out_of_range&) { ended = true; }
		if (from + 2 >= st.data.size()) { REQUIRE(ended, "a tag was read behind the end"); REQUIRE_EQ(st.pos, from); continue; }
		const int t = st.data[from + 2];
		REQUIRE_EQ(thrown, t != 1 && t != 5 && t != 100);
		if (thrown) { REQUIRE_EQ(st.pos, from); continue; }
		REQUIRE(e && (t == 1 ? !!dynamic_cast<E1*>(e.get()) : t == 5 ? !!dynamic_cast<E3*>(e.get()) : !!dynamic_cast<E7*>(e.get())), "the entity is of another type");
		if (t != 100) REQUIRE_EQ(st.pos, from);	// whether a factory reads from the stream itself or from a copy is not claimed
		if (t == 100) REQUIRE_EQ(e->seen, st.data[from]);
	}
	c.nontrivial_if(known && unknown);
}

namespace
{
	struct Product : public virtual IFactoryObject { Tracked t; Product() : t(0) { } explicit Product(int v) : t(v) { } virtual ~Product() { } std::string GetClassName() const override { return "Product"; } };
	template < int N > struct Made : public Product { Made() : Product(N) { if (failing() == N) throw std::runtime_error("constructor"); } static int& failing() { static int f = -1; return f; } };
	struct Stranger : public virtual IFactoryObject { Tracked t; Stranger() : t(99) { } virtual ~Stranger() { } std::string GetClassName() const override { return "Stranger"; } };

	struct Context
	{
		FactoryContextPtr context;
		int base = -1;
		std::map<std::string, int> creators;
		std::map<int, std::string> names;
	};
}

PROP(factories, 60000, 1000000, 0, "an object was created through a base context and something was refused")
{
	LIVE_BASE(Tracked);
	bool through = false, refused = false;
	{
		std::vector<Context> contexts(1);
		contexts[0].context = make_shared_ptr<FactoryContext>();
		std::vector<std::unique_ptr<Product> > products;
		while (s.more(20))
		{
			const size_t ci = s.below(contexts.size());
			Context& x = contexts[ci];
			const std::string name = s.pick<std::string>({"a", "b", "ns::a", "", "c"});
			const int cls = s.below(5);
			const auto lookup = [&](size_t from) { int i = (int)from; while (i >= 0 && !contexts[i].creators.count(name)) i = contexts[i].base; return i; };
			switch (s.weighted({3, 1, 4, 2, 1}))
			{
			case 0:
			{
				TR("register " << cls << " as " << quote(name) << " in " << ci);
				bool thrown = false;
				try
				{
					switch (cls)
					{
					case 0: x.context->Register<Made<0> >(name); break;
					case 1: x.context->Register<Made<1> >(name); break;
					case 2: x.context->Register<Made<2> >(name); break;
					case 3: x.context->Register<Made<3> >(name); break;
					case 4: x.context->Register<Stranger>(name); break;
					}
				}
				catch (const std::exception&) { thrown = true; }
				REQUIRE_EQ(thrown, x.creators.count(name) != 0);
				if (thrown) { refused = true; break; }
				x.creators[name] = cls;
				x.names.insert(std::make_pair(cls, name));
				break;
			}
			case 1:
				if (contexts.size() < 4)
				{
					Context d;
					d.base = (int)ci;
					d.context = make_shared_ptr<FactoryContext>(x.context);
					contexts.push_back(d);
					TR("context over " << ci);
				}
				break;
			case 2: case 4:
			{
				const int at = lookup(ci), made = at < 0 ? -1 : contexts[at].creators[name];
				TR("create " << quote(name) << " in " << ci << ": " << made);
				const long live = Tracked::live();
				std::unique_ptr<Product> p;
				bool thrown = false, bad = false;
				const bool fails = s.chance(1, 8);
				Made<0>::failing() = Made<1>::failing() = Made<2>::failing() = Made<3>::failing() = fails ? made : -1;
				try { unique_ptr<Product> q = x.context->Create<Product>(name); p.reset(q.release()); }
				catch (const InvalidCastException&) { bad = true; }
				catch (const std::exception&) { thrown = true; }
				REQUIRE_EQ(bad, made == 4);
				REQUIRE_EQ(thrown, made < 0 || (fails && made != 4));
				REQUIRE_EQ((bool)p, !bad && !thrown);
				if (!p) { REQUIRE_EQ(Tracked::live(), live); refused = true; break; }
				REQUIRE_EQ(p->t.get(), made);
				REQUIRE_EQ(Tracked::live(), live + 1);
				through |= at != (int)ci;
				products.push_back(std::move(p));
				break;
			}
			case 3:
			{
				static const std::type_info* const types[] = { &typeid(Made<0>), &typeid(Made<1>), &typeid(Made<2>), &typeid(Made<3>), &typeid(Stranger) };
				int i = (int)ci;
				while (i >= 0 && !contexts[i].names.count(cls)) i = contexts[i].base;
				std::string got; bool thrown = false;
				try { got = x.context->GetClassName(*types[cls]); } catch (const std::exception&) { thrown = true; }
				TR("name of " << cls << " in " << ci << ": " << got);
				REQUIRE_EQ(thrown, i < 0);
				if (i >= 0) REQUIRE_EQ(got, contexts[i].names[cls]);
				break;
			}
			}
		}
	}
	LIVE_CHECK(Tracked);
	c.nontrivial_if(through && refused);
}

namespace
{
	struct Iface { virtual ~Iface() { } virtual int sum() const = 0; };
	struct Impl : public Iface { Tracked a; int b; Impl(const Tracked& a_, int b_) : a(a_), b(b_) { } int sum() const override { return a.get() + b; } };
	struct Lonely : public Iface { int n = 5; int sum() const override { return n; } };

	struct Pair { Tracked a; int b; Pair() : a(0), b(0) { } };
	struct PairBuilder : public CloneBuilderBase<Pair>
	{
		PairBuilder() : CloneBuilderBase<Pair>(Pair()) { }
		PairBuilder& A(int v) { GetInst().a = Tracked(v); return *this; }
		PairBuilder& B(int v) { GetInst().b = v; return *this; }
	};

	struct Big { Tracked t; char pad[100]; Big(int v) : t(v) { } };
	struct alignas(32) Aligned { Tracked t; Aligned(const Tracked& x) : t(x) { } };

	struct GetConcept : public function_info<int (int)> { template < typename T > static int Apply(T& t, int x) { return t.Get(x); } };
	struct SetConcept : public function_info<void (int, const std::string&)> { template < typename T > static void Apply(T& t, int x, const std::string& y) { t.Set(x, y); } };
	typedef TypeList<GetConcept, SetConcept> AllConcepts;
	struct Plus : public TypeErasureBase { Tracked t; std::string text; explicit Plus(int v) : t(v) { } int Get(int x) { return t.get() + x; } void Set(int x, const std::string& y) { t = Tracked(x); text = y; } };
	struct Minus : public TypeErasureBase { int v; std::unique_ptr<Tracked> t; Minus(int a, int b) : v(a - b), t(new Tracked(b)) { } int Get(int x) { return v - x; } void Set(int x, const std::string& y) { v = x + (int)y.size(); } };
}

PROP(creators_and_storages, 40000, 1000000, 0, "several kinds of objects were made and changed")
{
	LIVE_BASE(Tracked);
	size_t kinds = 0;
	{
		// creators keep copies of the arguments
		const int a = s.range<int>(-50, 50), b = s.range<int>(-50, 50);
		{
			std::unique_ptr<Tracked> arg(new Tracked(a));
			int n = b;
			shared_ptr<ICreator<Impl> > creator = MakeConstructorCreator<Impl, Impl>(*arg, n);
			arg.reset();
			n = 1000;
			shared_ptr<ICreator<Iface> > up = MakeConvertingCreator<Iface>(creator);
			const shared_ptr<Impl> one = creator->Create();
			const shared_ptr<Iface> two = up->Create();
			const bool dropped = s.coin();
			if (dropped) { creator.reset(); }
			const shared_ptr<Iface> three = up->Create();
			REQUIRE(one && two && three && one.get() != two.get() && two.get() != three.get(), "a creator gave an object twice");
			REQUIRE(one->sum() == a + b && two->sum() == a + b && three->sum() == a + b, "the arguments of a creator changed");
			REQUIRE_EQ(one.use_count(), 1u);
			const SingleInstanceCreator<Iface, Lonely> first, second;
			REQUIRE(first.Create().get() == second.Create().get() && first.Create()->sum() == 5, "a single instance was created twice");
		}
		// builders
		{
			PairBuilder builder;
			int x = 0, y = 0;
			std::vector<std::pair<shared_ptr<Pair>, std::pair<int, int> > > made;
			while (s.more(6))
				switch (s.below(4))
				{
				case 0: builder.A(x = s.below(100)); break;
				case 1: builder.B(y = s.below(100)); break;
				case 2: made.emplace_back(builder.MakeShared(), std::make_pair(x, y)); break;
				case 3: { Pair p = builder.Make(); p.b += 1; p.a = Tracked(77); ++kinds; break; }
				}
			made.emplace_back(shared_ptr<Pair>(builder), std::make_pair(x, y));
			for (auto& m : made) REQUIRE(m.first->a.get() == m.second.first && m.first->b == m.second.second, "an object changed with its builder");
			for (size_t i = 1; i < made.size(); ++i) REQUIRE(made[i].first.get() != made[i - 1].first.get(), "one object was given twice");
		}
		// a place for one of several types
		{
			typedef MultiStorageFor<TypeList<char, Big, Aligned, Tracked> > Storage;
			struct Around { char before; Storage st; char after; } around;
			around.before = 'b'; around.after = 'a';
			Storage& st = around.st;
			for (int n = s.range<int>(1, 4); n--; )
			{
				const int v = s.below(1000);
				const long live = Tracked::live();
				switch (s.below(4))
				{
				case 0: st.Ctor<char>((char)v); REQUIRE_EQ(st.Ref<char>(), (char)v); st.Dtor<char>(); break;
				case 1: st.Ctor<Big>(v); memset(st.Ref<Big>().pad, 'x', 100); REQUIRE_EQ(st.Ref<Big>().t.get(), v); st.Dtor<Big>(); break;
				case 2: st.Ctor<Aligned>(Tracked(v)); REQUIRE_EQ((size_t)&st.Ref<Aligned>() % 32, 0u); REQUIRE_EQ(static_cast<const Storage&>(st).Ref<Aligned>().t.get(), v); st.Dtor<Aligned>(); break;
				case 3: st.Ctor<Tracked>(v); REQUIRE_EQ(st.Ref<Tracked>().get(), v); st.Dtor<Tracked>(); break;
				}
				REQUIRE_EQ(Tracked::live(), live);
			}
			REQUIRE(around.before == 'b' && around.after == 'a', "the storage is too small");
		}
		// objects of erased types
		{
			struct Slot { TypeErasure<AllConcepts> e; bool plus; int value; };
			std::vector<Slot> slots;
			while (s.more(10))
				switch (s.weighted({2, 3, 3, 1, 1}))
				{
				case 0:
				{
					Slot x;
					x.plus = s.coin();
					const int v = s.range<int>(-100, 100), w = s.range<int>(-100, 100);
					if (x.plus) { REQUIRE(x.e.Allocate<Plus>(v) == x.e.Get(), "another object"); x.value = v; }
					else { REQUIRE(x.e.Allocate<Minus>(v, w) == x.e.Get(), "another object"); x.value = v - w; }
					slots.push_back(std::move(x));
					REQUIRE(!x.e.Get(), "a moved erasure keeps its object");
					if (s.coin())
					{
						TypeErasure<AllConcepts> moved;
						TypeErasureBase* const object = slots.back().e.Get();
						moved = std::move(slots.back().e);
						REQUIRE(moved.Get() == object && !slots.back().e.Get(), "an assigned erasure has another object");
						slots.back().e = moved;
					}
					REQUIRE(!x.e.Get(), "a moved erasure keeps its object");
					break;
				}
				case 1:
					if (!slots.empty())
					{
						Slot& x = slots[s.below(slots.size())];
						const int v = s.range<int>(-100, 100);
						TypeErasure<AllConcepts> copy(x.e);
						REQUIRE_EQ(copy.Call<GetConcept>(v), x.plus ? x.value + v : x.value - v);
						++kinds;
					}
					break;
				case 2:
					if (!slots.empty())
					{
						Slot& x = slots[s.below(slots.size())];
						const int v = s.range<int>(-100, 100);
						const std::string text = s.bytes(5);
						x.e.Call<SetConcept>(v, text);
						x.value = x.plus ? v : v + (int)text.size();
						if (x.plus) REQUIRE(static_cast<Plus*>(x.e.Get())->text == text, "the text got lost");
					}
					break;
				case 3:
					if (!slots.empty())
					{
						const size_t i = s.below(slots.size());
						const long live = Tracked::live();
						slots[i].e.Free();
						REQUIRE_EQ(Tracked::live(), live - 1);
						REQUIRE(!slots[i].e.Get(), "a freed erasure keeps its object");
						slots.erase(slots.begin() + i);
					}
					break;
				case 4: if (slots.size() > 1) std::swap(slots[0], slots[1]); break;
				}
			for (auto& x : slots) x.e.Free();
		}
		// tokens keep objects alive
		{
			const long live = Tracked::live();
			std::vector<Token> tokens;
			for (int n = s.range<int>(0, 3); n--; )
			{
				Tracked t(n);
				if (s.coin()) tokens.push_back(MakeObjectToken(t)); else tokens.push_back(MakeObjectToken(std::move(t)));
			}
			REQUIRE_EQ(Tracked::live(), live + (long)tokens.size());
			const std::vector<Token> copies(tokens);
			tokens.clear();
			REQUIRE_EQ(Tracked::live(), live + (long)copies.size());
		}
	}
	LIVE_CHECK(Tracked);
	c.nontrivial_if(kinds > 1);
}
