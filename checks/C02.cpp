// ENGINE: seq
// optional, variant and any against plain tagged-value models, with accounted and throwing payloads.
#include "pbt.h"
#include "tracked.h"
#include "util.h"
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/VariantMultidispatch.h>
#include <stingraykit/any.h>
#include <stingraykit/shared_ptr.h>
#include <vector>
#include <map>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	// ---- optional ---------------------------------------------------------------------------------------------------
	template < typename T > struct Mk;
	template < > struct Mk<int> { static int make(int v) { return v; } static int val(int v) { return v; } };
	template < > struct Mk<std::string> { static std::string make(int v) { return "some string number " + std::to_string(v); } static int val(const std::string& v) { return atoi(v.c_str() + 19); } };
	template < > struct Mk<Tracked> { static Tracked make(int v) { return Tracked(v); } static int val(const Tracked& v) { return v.get(); } };
	template < > struct Mk<NTracked> { static NTracked make(int v) { return NTracked(v); } static int val(const NTracked& v) { return v.get(); } };

	struct MO { bool has; int v; MO() : has(false), v(0) { } MO(int x) : has(true), v(x) { } bool operator == (const MO& o) const { return has == o.has && (!has || v == o.v); } };
	int cmp(const MO& a, const MO& b) { return a.has != b.has ? (a.has ? 1 : -1) : !a.has || a.v == b.v ? 0 : a.v < b.v ? -1 : 1; }
	int sign(int x) { return x < 0 ? -1 : x > 0; }

	template < typename T >
	void checkOptional(const optional<T>& o, const MO& m, bool probe)
	{
		REQUIRE_EQ(o.is_initialized(), m.has);
		REQUIRE_EQ((bool)o, m.has);
		REQUIRE_EQ(o == null, !m.has);
		REQUIRE_EQ(null != o, m.has);
		REQUIRE_EQ(Mk<T>::val(o.get_value_or(Mk<T>::make(-5))), m.has ? m.v : -5);
		if (m.has)
		{
			REQUIRE_EQ(Mk<T>::val(o.get()), m.v);
			REQUIRE_EQ(Mk<T>::val(*o), m.v);
			REQUIRE_EQ(Mk<T>::val(*o.get_ptr()), m.v);
			REQUIRE_EQ(Mk<T>::val(*o.operator->()), m.v);
		}
		else if (probe)
		{
			REQUIRE(THROWS(o.get()), "access to an empty optional must be refused");
			REQUIRE(THROWS(*o), ""); REQUIRE(THROWS(o.get_ptr()), ""); REQUIRE(THROWS(o.operator->()), "");
		}
	}

	template < typename T, bool Throwing >
	void optionalHistory(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked); LIVE_BASE(NTracked);
		{
			const size_t N = 3;
			optional<T> o[N]; MO m[N];
			unsigned changes = 0, thrown = 0;
			while (s.more(20))
			{
				const size_t a = s.below(N), b = s.below(N);
				const int v = (int)s.below(6);
				const size_t op = s.below(18);
				const int plan = Throwing && s.chance(1, 4) ? (int)s.below(3) : -1;
				c.tr("op ", op, " a=", a, " b=", b, " v=", v, " throw=", plan);
				const MO old = m[a], oldB = m[b];
				const T tv(Mk<T>::make(v));
				try
				{
					ThrowPlan tp(plan);
					switch (op)
					{
					case 0: o[a] = tv; m[a] = MO(v); break;
					case 1: { T t(tv); o[a] = std::move(t); m[a] = MO(v); } break;
					case 2: o[a] = o[b]; m[a] = oldB; break;
					case 3: { optional<T> t(o[b]); o[a] = std::move(t); m[a] = oldB; } break;
					case 4: o[a].emplace(tv); m[a] = MO(v); break;
					case 5: if (s.coin()) o[a].reset(); else o[a] = null; m[a] = MO(); break;
					case 6: if (plan < 0) { if (s.coin()) o[a].swap(o[b]); else swap(o[a], o[b]); std::swap(m[a], m[b]); } break;
					case 7: { optional<T> t(o[b]); REQUIRE(t == o[b], "copy equals"); checkOptional(t, oldB, false); } break;
					case 8: { optional<T> t(tv); o[a].assign(t); m[a] = MO(v); } break;
					case 9: { optional<T> t; o[a].assign(std::move(t)); m[a] = MO(); } break;
					case 10: if (oldB.has) { o[a] = *o[b]; m[a] = oldB; } break;		// from the content, possibly its own
					case 11: { optional<T> t = o[b].or_else(fn<optional<T> ()>([&]() { return optional<T>(tv); })); if (plan < 0) checkOptional(t, oldB.has ? oldB : MO(v), false); } break;
					case 12: { optional<int> t = o[b].transform(fn<int (const T&)>([&](const T& x) { return Mk<T>::val(x) + 1; })); REQUIRE_EQ(t.is_initialized(), oldB.has); if (t) REQUIRE_EQ(*t, oldB.v + 1); } break;
					case 13: { optional<int> t = o[b].and_then(fn<optional<int> (const T&)>([&](const T& x) { return Mk<T>::val(x) % 2 ? optional<int>(Mk<T>::val(x)) : optional<int>(); })); REQUIRE_EQ(t.is_initialized(), oldB.has && oldB.v % 2); if (t) REQUIRE_EQ(*t, oldB.v); } break;
					case 14: { optional<T> t(InPlace, tv); optional<T> u(std::move(t)); if (plan < 0) checkOptional(u, MO(v), false); o[a] = u; m[a] = MO(v); } break;
					case 15: { T t(o[b].get_value_or(tv)); REQUIRE_EQ(Mk<T>::val(t), oldB.has ? oldB.v : v); } break;
					case 16: { optional<T> t(o[b]); T x(std::move(t).get_value_or(tv)); REQUIRE_EQ(Mk<T>::val(x), oldB.has ? oldB.v : v); } break;
					default: { o[a] = make_optional_value(tv); m[a] = MO(v); } break;
					}
				}
				catch (const std::runtime_error&)
				{
					if (plan < 0) FAIL("unexpected exception");
					++thrown;
					// a failed assignment keeps the old value (elements keep theirs), a failed emplace leaves nothing
					m[a] = op == 4 ? MO() : old;
				}
				if (!(m[a] == old)) ++changes;
				for (size_t i = 0; i < N; ++i) checkOptional(o[i], m[i], i == a && s.chance(1, 16));
				const MO other(v);
				for (size_t i = 0; i < N; ++i)
				{
					const int w = cmp(m[a], m[i]);
					REQUIRE_EQ(o[a] == o[i], w == 0); REQUIRE_EQ(o[a] != o[i], w != 0); REQUIRE_EQ(o[a] < o[i], w < 0);
					REQUIRE_EQ(o[a] > o[i], w > 0); REQUIRE_EQ(o[a] <= o[i], w <= 0); REQUIRE_EQ(o[a] >= o[i], w >= 0);
					REQUIRE_EQ(sign(o[a].Compare(o[i])), w);
					REQUIRE_EQ(sign(comparers::Cmp()(o[a], o[i])), w);
				}
				const int w = cmp(m[a], other);
				REQUIRE_EQ(o[a] == tv, w == 0); REQUIRE_EQ(tv != o[a], w != 0); REQUIRE_EQ(o[a] < tv, w < 0); REQUIRE_EQ(tv < o[a], w > 0); REQUIRE_EQ(o[a] >= tv, w >= 0);
				REQUIRE_EQ(sign(o[a].Compare(tv)), w);
				REQUIRE_EQ(null < o[a], m[a].has); REQUIRE_EQ(o[a] < null, false); REQUIRE_EQ(o[a] <= null, !m[a].has);
			}
			c.nontrivial_if(changes >= 2 && (!Throwing || thrown));
		}
		LIVE_CHECK(Tracked); LIVE_CHECK(NTracked);
	}
}

PROP(optional_int, 40000, 400000, 0, "the value changed at least twice") { optionalHistory<int, false>(s, c); }
PROP(optional_string, 40000, 400000, pbt::LeakCheck, "the value changed at least twice") { optionalHistory<std::string, false>(s, c); }
PROP(optional_throwing, 60000, 600000, pbt::LeakCheck, "the value changed at least twice and a payload operation threw") { optionalHistory<Tracked, true>(s, c); }

// conversions between optionals of related types
PROP(optional_converting, 20000, 200000, pbt::LeakCheck, "a value was converted")
{
	optional<int> i; optional<long long> l; optional<std::string> st; optional<shared_ptr<int>> p; optional<bool> b;
	MO mi, ml; std::string ms; bool hs = false;
	while (s.more(10))
	{
		const int v = s.integer<int>();
		switch (s.below(7))
		{
		case 0: i = v; mi = MO(v); break;
		case 1: l = i; ml = mi; c.nontrivial_if(mi.has); break;
		case 2: i.reset(); mi = MO(); break;
		case 3: { optional<long long> t(i); REQUIRE_EQ(t.is_initialized(), mi.has); if (t) REQUIRE_EQ(*t, (long long)mi.v); } break;
		case 4: st = "literal"; ms = "literal"; hs = true; break;
		case 5: st.emplace(3u, 'x'); ms = "xxx"; hs = true; break;
		default: { optional<const char*> t(s.coin() ? optional<const char*>("converted") : optional<const char*>()); st = t; hs = (bool)t; ms = "converted"; c.nontrivial_if(hs); } break;
		}
		REQUIRE_EQ(i.is_initialized(), mi.has); REQUIRE_EQ(l.is_initialized(), ml.has); REQUIRE_EQ(st.is_initialized(), hs);
		if (mi.has) REQUIRE_EQ(*i, mi.v);
		if (ml.has) REQUIRE_EQ(*l, (long long)ml.v);
		if (hs) REQUIRE_EQ(*st, ms);
		REQUIRE_EQ(i == l, mi == ml); REQUIRE_EQ(i < l, cmp(mi, ml) < 0);
	}
}

namespace
{
	// ---- variant ----------------------------------------------------------------------------------------------------
	struct VBase { int id; VBase(int i = 0) : id(i) { } virtual ~VBase() { } virtual int kind() const { return 1; } bool operator == (const VBase& o) const { return id == o.id; } bool operator < (const VBase& o) const { return id < o.id; } };
	struct VDerived : public VBase { NTracked t; VDerived(int i = 0) : VBase(i), t(i) { } int kind() const { return 2; } };
	std::ostream& operator << (std::ostream& o, const VBase& b) { return o << b.id; }

	struct MV { int which; int v; MV(int w = 0, int x = 0) : which(w), v(x) { } bool operator == (const MV& o) const { return which == o.which && (which == 0 || v == o.v); } };
	std::ostream& operator << (std::ostream& o, const MV& m) { return o << "alternative " << m.which << " value " << m.v; }

	// alternatives: 0 empty, 1 int, 2 string, 3 Tracked, 4 VBase, 5 VDerived
	typedef variant<TypeList<EmptyType, int, std::string, Tracked, VBase, VDerived>> EV;
	typedef variant<TypeList<NTracked, int, std::string, VDerived, std::vector<int>>> NV;	// 0 NTracked ...

	struct SeenVisitor : public static_visitor<MV>
	{
		MV operator () (const EmptyType&) const { return MV(0, 0); }
		MV operator () (const int& x) const { return MV(1, x); }
		MV operator () (const std::string& x) const { return MV(2, Mk<std::string>::val(x)); }
		MV operator () (const Tracked& x) const { return MV(3, x.get()); }
		MV operator () (const VBase& x) const { return MV(4, x.id); }
		MV operator () (const VDerived& x) const { x.t.check(); return MV(5, x.id); }
		MV operator () (const NTracked& x) const { return MV(6, x.get()); }
		MV operator () (const std::vector<int>& x) const { return MV(7, x.empty() ? -1 : x[0]); }
	};
	struct AddVisitor : public static_visitor<int>
	{
		int add;
		AddVisitor(int a) : add(a) { }
		int operator () (EmptyType&) const { return 0; }
		int operator () (int& x) const { return x += add; }
		int operator () (std::string& x) const { int v = Mk<std::string>::val(x) + add; x = Mk<std::string>::make(v); return v; }
		int operator () (Tracked& x) const { return x.value += add; }
		int operator () (VBase& x) const { return x.id += add; }
		int operator () (VDerived& x) const { return x.id += add; }
	};
	struct PairVisitor : public static_visitor<std::pair<std::string, std::string>>
	{
		template < typename A > static std::string n(const A& a) { MV m = SeenVisitor()(a); std::ostringstream o; o << m; return o.str(); }
		template < typename A, typename B > std::pair<std::string, std::string> operator () (const A& a, const B& b) const { return std::make_pair(n(a), n(b)); }
	};

	const std::type_info& typeOf(int w)
	{
		switch (w)
		{
		case 0: return typeid(EmptyType); case 1: return typeid(int); case 2: return typeid(std::string); case 3: return typeid(Tracked); case 4: return typeid(VBase); default: return typeid(VDerived);
		}
	}

	void checkEV(const EV& v, const MV& m, bool probe)
	{
		REQUIRE_EQ(v.which(), (size_t)m.which);
		REQUIRE_EQ(v.empty(), m.which == 0);
		REQUIRE_EQ(v.ApplyVisitor(SeenVisitor()), m);
		REQUIRE(v.type() == typeOf(m.which), "");
		REQUIRE_EQ(v.contains<int>(), m.which == 1);
		REQUIRE_EQ(v.contains<std::string>(), m.which == 2);
		REQUIRE_EQ(v.contains<Tracked>(), m.which == 3);
		REQUIRE_EQ(v.contains<VBase>(), m.which == 4 || m.which == 5);
		REQUIRE_EQ(v.contains<VDerived>(), m.which == 5);
		REQUIRE_EQ((bool)variant_get<int>(&v), m.which == 1);
		REQUIRE_EQ((bool)v.get_ptr<VDerived>(), m.which == 5);
		if (m.which == 1) REQUIRE_EQ(v.get<int>(), m.v); else if (probe) REQUIRE(THROWS(v.get<int>()), "wrong type must be refused");
		if (m.which == 2) REQUIRE_EQ(variant_get<std::string>(v), Mk<std::string>::make(m.v)); else if (probe) REQUIRE(THROWS(v.get<std::string>()), "");
		if (m.which == 3) REQUIRE_EQ(v.get<Tracked>().get(), m.v); else if (probe) REQUIRE(THROWS(v.get<Tracked>()), "");
		if (m.which >= 4) { REQUIRE_EQ(v.get<VBase>().kind(), m.which - 3); REQUIRE_EQ(v.get<VBase>().id, m.v); } else if (probe) REQUIRE(THROWS(v.get<VBase>()), "");
		if (m.which == 5) REQUIRE_EQ(v.get<VDerived>().id, m.v); else if (probe) REQUIRE(THROWS(v.get<VDerived>()), "");
	}

	// puts value v of alternative w, assigning from the alternative's type
	void put(EV& e, int w, int v, bool move)
	{
		switch (w)
		{
		case 0: e = EmptyType(); break;
		case 1: if (move) e = int(v); else { const int x = v; e = x; } break;
		case 2: { std::string x = Mk<std::string>::make(v); if (move) e = std::move(x); else e = x; } break;
		case 3: { Tracked x(v); if (move) e = std::move(x); else e = x; } break;
		case 4: { VBase x(v); if (move) e = std::move(x); else e = x; } break;
		default: { VDerived x(v); if (move) e = std::move(x); else e = x; } break;
		}
	}
}

PROP(variant_with_empty, 60000, 600000, pbt::LeakCheck, "three alternatives were held and a payload operation threw or the variant was assigned from itself")
{
	LIVE_BASE(Tracked); LIVE_BASE(NTracked);
	{
		const size_t N = 3;
		EV e[N]; MV m[N];
		unsigned kinds = 0; bool special = false;
		while (s.more(20))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(9);
			const int w = (int)s.below(6), v = (int)s.below(5);
			const int plan = s.chance(1, 5) ? (int)s.below(4) : -1;
			c.tr("op ", op, " a=", a, " b=", b, " alternative ", w, " value ", v, " throw=", plan);
			const MV oldA = m[a], oldB = m[b];
			MV want = oldA; bool maybe = false;
			try
			{
				ThrowPlan tp(plan);
				switch (op)
				{
				case 0: want = MV(w, w ? v : 0); maybe = true; put(e[a], w, v, false); break;
				case 1: want = MV(w, w ? v : 0); maybe = true; put(e[a], w, v, true); break;
				case 2: want = oldB; maybe = true; if (a == b) special = true; e[a] = e[b]; break;
				case 3: { EV t(e[b]); want = oldB; maybe = true; e[a] = std::move(t); } break;
				case 4: // from the content, possibly its own
					want = oldB; maybe = true;
					if (a == b && oldB.which) special = true;
					switch (oldB.which)
					{
					case 1: e[a] = e[b].get<int>(); break;
					case 2: e[a] = e[b].get<std::string>(); break;
					case 3: e[a] = e[b].get<Tracked>(); break;
					case 4: e[a] = static_cast<const VBase&>(e[b].get<VBase>()); break;
					case 5: e[a] = e[b].get<VDerived>(); break;
					default: e[a] = EmptyType(); break;
					}
					break;
				case 5: // emplace
					want = MV(w, w ? v : 0); maybe = true;
					switch (w)
					{
					case 1: e[a].emplace<int>(v); break;
					case 2: e[a].emplace<std::string>(Mk<std::string>::make(v).c_str()); break;
					case 3: e[a].emplace<Tracked>(v); break;
					case 4: e[a].emplace<VBase>(v); break;
					case 5: e[a].emplace<VDerived>(v); break;
					default: e[a].emplace<EmptyType>(); break;
					}
					break;
				case 6: if (s.coin()) e[a] = EV(); else e[a].assign(EV()); want = MV(); break;
				case 7: { AddVisitor av(v); if (oldA.which) want.v += v; REQUIRE_EQ(apply_visitor(av, e[a]), want.v); } break;
				default: { EV t(e[b]); if (plan < 0) { checkEV(t, oldB, false); EV u(std::move(t)); checkEV(u, oldB, false); e[a] = u; want = oldB; } } break;
				}
			}
			catch (const std::runtime_error&)
			{
				if (plan < 0) FAIL("unexpected exception");
				special = true;
				// a failed change leaves nothing, or the previous value
				const MV now = e[a].ApplyVisitor(SeenVisitor());
				REQUIRE(now == MV() || now == oldA, "after a failed change: " << now << ", before: " << oldA);
				want = now;
			}
			m[a] = want;
			kinds |= 1u << m[a].which;
			for (size_t i = 0; i < N; ++i) checkEV(e[i], m[i], i == a && s.chance(1, 16));
			const bool lt = m[a].which != m[b].which ? m[a].which < m[b].which : m[a].which && m[a].v < m[b].v;
			REQUIRE_EQ(e[a] == e[b], m[a] == m[b]); REQUIRE_EQ(e[a] != e[b], !(m[a] == m[b]));
			if (m[a].which != 2 || m[b].which != 2 || (m[a].v < 10 && m[b].v < 10 && m[a].v >= 0 && m[b].v >= 0))
			{ REQUIRE_EQ(e[a] < e[b], lt); REQUIRE_EQ(e[b] > e[a], lt); REQUIRE_EQ(e[b] <= e[a], !lt); REQUIRE_EQ(e[a] >= e[b], !lt); }
			if (s.chance(1, 4))
			{
				std::ostringstream x, y; x << m[a]; y << m[b];
				REQUIRE_EQ(Multidispatch(PairVisitor(), e[a], e[b]), std::make_pair(x.str(), y.str()));
				REQUIRE_EQ(MakeMultidispatcher(PairVisitor())(e[b], e[a]), std::make_pair(y.str(), x.str()));
			}
		}
		c.nontrivial_if(__builtin_popcount(kinds) >= 3 && special);
	}
	LIVE_CHECK(Tracked); LIVE_CHECK(NTracked);
}

PROP(variant_never_empty, 40000, 400000, pbt::LeakCheck, "three alternatives were held and one was assigned from its own content")
{
	LIVE_BASE(NTracked);
	{
		const size_t N = 3;
		NV e[N]; MV m[N];
		for (MV& x : m) x = MV(6, 0);
		unsigned kinds = 0; bool special = false;
		auto put = [&](NV& x, size_t w, int v) -> MV
		{
			switch (w)
			{
			case 0: x = NTracked(v); return MV(6, v);
			case 1: x = v; return MV(1, v);
			case 2: x = Mk<std::string>::make(v); return MV(2, v);
			case 3: x = VDerived(v); return MV(5, v);
			default: x.emplace<std::vector<int>>(10 + v, v); return MV(7, v);
			}
		};
		while (s.more(20))
		{
			const size_t a = s.below(N), b = s.below(N);
			const int v = (int)s.below(5);
			switch (s.below(6))
			{
			case 0: m[a] = put(e[a], s.below(5), v); break;
			case 1: e[a] = e[b]; m[a] = m[b]; if (a == b) special = true; break;
			case 2: { NV t(e[b]); e[a] = std::move(t); m[a] = m[b]; } break;
			case 3:
				if (a == b) special = true;
				m[a] = m[b];
				switch (m[b].which)
				{
				case 6: e[a] = e[b].get<NTracked>(); break;
				case 1: e[a] = e[b].get<int>(); break;
				case 2: e[a] = e[b].get<std::string>(); break;
				case 5: e[a] = e[b].get<VDerived>(); break;
				default: e[a] = e[b].get<std::vector<int>>(); break;
				}
				break;
			case 4: { MV x = m[b]; NV t(std::move(e[b])); e[b] = v; m[b] = MV(1, v); e[a] = std::move(t); m[a] = x; } break;
			default: { NV t(e[a]); REQUIRE(t == e[a], ""); m[b] = put(e[b], s.below(5), v); if (a != b) REQUIRE(t == e[a], "changing one variant changed another"); } break;
			}
			kinds |= 1u << m[a].which;
			for (size_t i = 0; i < N; ++i) { REQUIRE_EQ(e[i].ApplyVisitor(SeenVisitor()), m[i]); REQUIRE_EQ(e[i].empty(), false); }
			REQUIRE_EQ(e[a] == e[b], m[a] == m[b]);
			for (size_t i = 0; i < N; ++i) if (m[i].which == 7) REQUIRE_EQ(e[i].get<std::vector<int>>().size(), (size_t)(10 + m[i].v));
		}
		c.nontrivial_if(__builtin_popcount(kinds) >= 3 && special);
	}
	LIVE_CHECK(NTracked);
}

namespace
{
	// ---- any --------------------------------------------------------------------------------------------------------
	struct Opaque { NTracked t; Opaque(int v) : t(v) { } };
	struct MA { int which; long long v; MA(int w = 0, long long x = 0) : which(w), v(x) { } bool operator == (const MA& o) const { return which == o.which && v == o.v; } };

	enum { AEmpty, ABool, AChar, AUChar, AShort, AUShort, AInt, AUInt, ALong, AULong, ALongLong, AULongLong, AFloat, ADouble, AString, ATracked, AOpaque, AVector, ACount };

	void checkAny(const any& x, const MA& m, bool probe)
	{
		REQUIRE_EQ(x.empty(), m.which == AEmpty);
#define ONE(Id, Type, Val) do { const Type* p_ = any_cast<Type>(&x); REQUIRE_EQ((bool)p_, m.which == Id); if (p_) { REQUIRE(*p_ == Val, #Type); REQUIRE(any_cast<Type>(x) == Val, #Type); } else if (probe) REQUIRE(THROWS(any_cast<Type>(x)), "wrong type must be refused: " #Type); } while (0)
		ONE(ABool, bool, (bool)(m.v & 1)); ONE(AChar, char, (char)m.v); ONE(AUChar, unsigned char, (unsigned char)m.v); ONE(AShort, short, (short)m.v); ONE(AUShort, unsigned short, (unsigned short)m.v);
		ONE(AInt, int, (int)m.v); ONE(AUInt, unsigned, (unsigned)m.v); ONE(ALong, long, (long)m.v); ONE(AULong, unsigned long, (unsigned long)m.v); ONE(ALongLong, long long, m.v); ONE(AULongLong, unsigned long long, (unsigned long long)m.v);
		ONE(AFloat, float, (float)m.v); ONE(ADouble, double, (double)m.v); ONE(AString, std::string, Mk<std::string>::make((int)m.v));
		ONE(AVector, std::vector<int>, std::vector<int>(5, (int)m.v));
#undef ONE
		const Tracked* t = any_cast<Tracked>(&x); REQUIRE_EQ((bool)t, m.which == ATracked); if (t) REQUIRE_EQ(t->get(), (int)m.v);
		const Opaque* o = any_cast<Opaque>(&x); REQUIRE_EQ((bool)o, m.which == AOpaque); if (o) REQUIRE_EQ(o->t.get(), (int)m.v);
	}

	void putAny(any& x, int w, long long v)
	{
		switch (w)
		{
		case AEmpty: x = any(); break;
		case ABool: x = (bool)(v & 1); break; case AChar: x = (char)v; break; case AUChar: x = (unsigned char)v; break; case AShort: x = (short)v; break; case AUShort: x = (unsigned short)v; break;
		case AInt: x = (int)v; break; case AUInt: x = (unsigned)v; break; case ALong: x = (long)v; break; case AULong: x = (unsigned long)v; break; case ALongLong: x = v; break; case AULongLong: x = (unsigned long long)v; break;
		case AFloat: x = (float)v; break; case ADouble: x = (double)v; break; case AString: x = Mk<std::string>::make((int)v); break;
		case ATracked: { Tracked t((int)v); x = t; } break;
		case AOpaque: x = Opaque((int)v); break;
		default: x = std::vector<int>(5, (int)v); break;
		}
	}
}

PROP(any_values, 60000, 600000, pbt::LeakCheck, "three kinds of values were held and a copy threw or the any was assigned from itself")
{
	LIVE_BASE(Tracked); LIVE_BASE(NTracked);
	{
		const size_t N = 3;
		any x[N]; MA m[N];
		unsigned kinds = 0; bool special = false;
		while (s.more(20))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(7);
			const int w = (int)s.below(ACount); const long long v = s.range<int>(-100, 100);
			const int plan = s.chance(1, 5) ? (int)s.below(3) : -1;
			c.tr("op ", op, " a=", a, " b=", b, " kind ", w, " value ", v, " throw=", plan);
			const MA oldA = m[a], oldB = m[b];
			MA want = oldA;
			try
			{
				ThrowPlan tp(plan);
				switch (op)
				{
				case 0: case 1: want = MA(w, w == AEmpty ? 0 : v); putAny(x[a], w, v); break;
				case 2: want = oldB; if (a == b) special = true; x[a] = x[b]; break;
				case 3: { any t(x[b]); want = oldB; x[a] = std::move(t); } break;
				case 4:
					if (oldB.which == AString) { want = oldB; if (a == b) special = true; x[a] = any_cast<std::string>(x[b]); }
					else if (oldB.which == ATracked) { want = oldB; if (a == b) special = true; x[a] = any_cast<Tracked>(x[b]); }
					else if (oldB.which == AVector) { want = oldB; if (a == b) special = true; x[a] = any_cast<std::vector<int>>(x[b]); }
					else if (oldB.which == AInt) { want = oldB; x[a] = any_cast<int>(x[b]); }
					break;
				case 5: if (oldA.which == ATracked) { want = MA(ATracked, v); any_cast<Tracked>(x[a]).value = (int)v; } else if (oldA.which == AInt) { want = MA(AInt, v); *any_cast<int>(&x[a]) = (int)v; } break;
				default: { any t(x[b]); checkAny(t, oldB, false); any u(std::move(t)); checkAny(u, oldB, false); REQUIRE(t.empty(), "moved-from any is empty"); } break;
				}
			}
			catch (const std::runtime_error&)
			{
				if (plan < 0) FAIL("unexpected exception");
				special = true;
				want = x[a].empty() ? MA() : oldA;
			}
			m[a] = want;
			kinds |= 1u << m[a].which;
			for (size_t i = 0; i < N; ++i) checkAny(x[i], m[i], i == a && s.chance(1, 32));
			if (s.chance(1, 8))
			{
				REQUIRE_EQ(x[a].IsSerializable(), m[a].which < ATracked);
				std::string str = x[a].ToString();
				if (m[a].which == AString) REQUIRE_EQ(str, Mk<std::string>::make((int)m[a].v));
				if (m[a].which == AInt || m[a].which == ALong || m[a].which == ALongLong) REQUIRE_EQ(str, std::to_string(m[a].v));
				if (m[a].which == ATracked) REQUIRE_EQ(str, "T" + std::to_string(m[a].v));
			}
		}
		c.nontrivial_if(__builtin_popcount(kinds) >= 3 && special);
	}
	LIVE_CHECK(Tracked); LIVE_CHECK(NTracked);
}
