// ENGINE: seq
// inplace_vector, IntrusiveList and array against std::vector / a list of pointers.
#include "pbt.h"
#include "tracked.h"
#include <stingraykit/collection/inplace_vector.h>
#include <stingraykit/collection/IntrusiveList.h>
#include <stingraykit/collection/array.h>
#include <list>
#include <memory>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	template < typename T > struct Mk;
	template < > struct Mk<int> { static int make(int v) { return v; } static int val(int v) { return v; } };
	template < > struct Mk<std::string> { static std::string make(int v) { return "a string on the heap " + std::to_string(v); } static int val(const std::string& v) { return v.empty() ? -777 : atoi(v.c_str() + 21); } };
	template < > struct Mk<Tracked> { static Tracked make(int v) { return Tracked(v); } static int val(const Tracked& v) { return v.get(); } };
	template < > struct Mk<NTracked> { static NTracked make(int v) { return NTracked(v); } static int val(const NTracked& v) { return v.get(); } };

	template < typename V >
	std::vector<int> items(const V& v) { std::vector<int> r; for (typename V::const_iterator it = v.begin(); it != v.end(); ++it) r.push_back(Mk<typename V::value_type>::val(*it)); return r; }

	template < typename V >
	void check(V& v, const std::vector<int>& m, Src& s)
	{
		typedef Mk<typename V::value_type> X;
		const V& cv = v;
		REQUIRE_EQ(v.size(), m.size()); REQUIRE_EQ(v.empty(), m.empty());
		REQUIRE_EQ(items(v), m);
		std::vector<int> a, b;
		for (typename V::iterator it = v.begin(); it != v.end(); it++) a.push_back(X::val(*it));
		for (typename V::const_reverse_iterator it = cv.rbegin(); it != cv.rend(); ++it) b.push_back(X::val(*it));
		REQUIRE_EQ(a, m); REQUIRE_EQ(b, std::vector<int>(m.rbegin(), m.rend()));
		for (size_t i = 0; i < m.size(); ++i)
		{
			REQUIRE_EQ(X::val(v[i]), m[i]); REQUIRE_EQ(X::val(cv.at(i)), m[i]); REQUIRE_EQ(X::val(v.begin()[i]), m[i]); REQUIRE_EQ(X::val(*(cv.end() - (ptrdiff_t)(m.size() - i))), m[i]);
		}
		REQUIRE_EQ((size_t)(v.end() - v.begin()), m.size()); REQUIRE_EQ(v.begin() < v.end(), !m.empty());
		REQUIRE(v.capacity() >= m.size(), v.capacity());
		if (!m.empty()) { REQUIRE_EQ(X::val(v.front()), m.front()); REQUIRE_EQ(X::val(v.back()), m.back()); REQUIRE_EQ(X::val(cv.front()), m.front()); REQUIRE_EQ(X::val(cv.back()), m.back()); }
		else if (s.chance(1, 40)) { REQUIRE(THROWS(v.front()), ""); REQUIRE(THROWS(v.back()), ""); }
		if (s.chance(1, 40)) { REQUIRE(THROWS(v.at(m.size())), "access beyond the end"); REQUIRE(THROWS(cv[m.size() + s.below(3)]), "access beyond the end"); REQUIRE(THROWS(v.at((size_t)-1)), ""); }
	}

	template < typename T, size_t Inplace, bool Throwing >
	void vectorHistory(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked); LIVE_BASE(NTracked);
		{
			typedef inplace_vector<T, Inplace> V;
			const size_t N = 3;
			V v[N]; std::vector<int> m[N];
			unsigned crossed = 0, thrown = 0;
			while (s.more(30))
			{
				const size_t a = s.below(N), b = s.below(N);
				const int x = (int)s.below(1000);
				const size_t op = s.below(16);
				const int plan = Throwing && s.chance(1, 4) ? (int)s.below(10) : -1;
				const std::vector<int> before(m[a]), beforeB(m[b]);
				c.tr("op ", op, " a=", a, " b=", b, " x=", x, " throw=", plan, " size=", m[a].size());
				const T t(Mk<T>::make(x));
				bool strong = false;	// a throwing push leaves the contents alone
				try
				{
					ThrowPlan tp(plan);
					switch (op)
					{
					case 0: case 1: strong = op == 0; { if (op == 0) v[a].push_back(t); else { T u(t); v[a].push_back(std::move(u)); } m[a].push_back(x); } break;
					case 2: strong = true; v[a].emplace_back(t); m[a].push_back(x); break;
					case 3: case 4: { const size_t n = s.below(6); for (size_t i = 0; i < n; ++i) { v[a].push_back(t); m[a].push_back(x); } } break;
					case 5: case 6: v[a] = v[b]; m[a] = beforeB; break;
					case 7: { V u(v[b]); if (plan < 0) check(u, beforeB, s); v[a] = std::move(u); m[a] = beforeB; { const std::vector<int> left = items(u); u.push_back(t); std::vector<int> e(left); e.push_back(x); if (plan < 0) check(u, e, s); } } break;
					case 8: { V u(v[b]); V w(std::move(u)); if (plan < 0) { check(w, beforeB, s); const std::vector<int> left = items(u); u.push_back(t); std::vector<int> e(left); e.push_back(x); check(u, e, s); } v[a] = w; m[a] = beforeB; } break;
					case 9: if (a != b) { v[a] = std::move(v[b]); m[a] = beforeB; v[b].clear(); m[b].clear(); } else { V& alias = v[a]; v[a] = std::move(alias); } break;
					case 10: if (s.chance(1, 3)) { v[a].clear(); m[a].clear(); } break;
					case 11: { const size_t n = s.below(3 * Inplace + 4); v[a].reserve(n); REQUIRE(v[a].capacity() >= n, v[a].capacity()); } break;
					case 12: { std::list<T> l; std::vector<int> e; for (size_t i = s.below(9); i; --i) { ThrowPlan off(-1); l.push_back(Mk<T>::make(x + (int)i)); e.push_back(x + (int)i); } ThrowPlan::left() = plan; v[a].assign(l.begin(), l.end()); m[a] = e; } break;
					case 13: if (a != b) { v[a].assign(v[b].begin(), v[b].end()); m[a] = beforeB; } break;
					case 14: if (!before.empty()) { const size_t i = s.below(before.size()); strong = true; v[a].push_back(v[a][i]); m[a].push_back(before[i]); } break;	// from itself
					default: if (!before.empty()) { const size_t i = s.below(before.size()); v[a].at(i) = t; m[a][i] = x; } break;
					}
				}
				catch (const std::runtime_error&)
				{
					if (plan < 0) FAIL("unexpected exception");
					++thrown;
					if (strong) m[a] = before;
					else for (size_t i = 0; i < N; ++i) { check(v[i], items(v[i]), s); v[i].clear(); m[i].clear(); }
				}
				if (before.size() <= Inplace && m[a].size() > Inplace) ++crossed;
				for (size_t i = 0; i < N; ++i) check(v[i], m[i], s);
			}
			c.nontrivial_if(crossed >= 1 && (!Throwing || thrown));
		}
		LIVE_CHECK(Tracked); LIVE_CHECK(NTracked);
	}
}

PROP(vector_int_1, 10000, 120000, 0, "an in-place vector outgrew its inline storage") { vectorHistory<int, 1, false>(s, c); }
PROP(vector_string_4, 10000, 120000, pbt::LeakCheck, "an in-place vector outgrew its inline storage") { vectorHistory<std::string, 4, false>(s, c); }
PROP(vector_nothrow_move_3, 10000, 120000, pbt::LeakCheck, "an in-place vector outgrew its inline storage") { vectorHistory<NTracked, 3, false>(s, c); }
PROP(vector_throwing_2, 16000, 160000, pbt::LeakCheck, "an in-place vector outgrew its inline storage and an element operation threw") { vectorHistory<Tracked, 2, true>(s, c); }

PROP(vector_move_only, 10000, 100000, pbt::LeakCheck, "an in-place vector outgrew its inline storage")
{
	typedef inplace_vector<std::unique_ptr<int>, 3> V;
	V v; std::vector<int> m;
	bool crossed = false;
	while (s.more(15))
	{
		const int x = (int)s.below(100);
		switch (s.below(4))
		{
		case 0: v.push_back(std::unique_ptr<int>(new int(x))); m.push_back(x); break;
		case 1: v.emplace_back(new int(x)); m.push_back(x); break;
		case 2: { V t(std::move(v)); v = std::move(t); } break;
		default: if (s.chance(1, 6)) { v.clear(); m.clear(); } break;
		}
		crossed |= m.size() > 3;
		REQUIRE_EQ(v.size(), m.size());
		for (size_t i = 0; i < m.size(); ++i) REQUIRE_EQ(*v[i], m[i]);
	}
	c.nontrivial_if(crossed);
}

// ---- intrusive list -------------------------------------------------------------------------------------------------
namespace
{
	struct Node : public IntrusiveListNode<Node> { int id; };
	struct Other { int pad; virtual ~Other() { } };
	struct Node2 : public Other, public IntrusiveListNode<Node2> { int id; };	// the node is not the first base

	template < typename T >
	void listHistory(Src& s, Ctx& c)
	{
		const size_t N = 7, L = 2;
		T nodes[N];
		for (size_t i = 0; i < N; ++i) nodes[i].id = (int)i;
		IntrusiveList<T> lists[L]; std::vector<int> m[L]; int where[N];
		for (int& w : where) w = -1;
		unsigned middle = 0;
		while (s.more(30))
		{
			const size_t n = s.below(N), l = s.below(L);
			c.tr("node ", n, " list ", l, " in ", where[n]);
			if (where[n] < 0 && s.chance(5, 6)) { lists[l].push_back(nodes[n]); m[l].push_back((int)n); where[n] = (int)l; }
			else if (where[n] < 0) lists[l].erase(nodes[n]);	// not linked: nothing happens
			else
			{
				std::vector<int>& v = m[where[n]];
				size_t i = 0;
				while (v[i] != (int)n) ++i;
				if (i && i + 1 < v.size()) ++middle;
				v.erase(v.begin() + i);
				lists[where[n]].erase(nodes[n]); where[n] = -1;
			}
			for (size_t k = 0; k < L; ++k)
			{
				const IntrusiveList<T>& cl = lists[k];
				REQUIRE_EQ(lists[k].size(), m[k].size()); REQUIRE_EQ(cl.empty(), m[k].empty());
				std::vector<int> f, g, b;
				for (typename IntrusiveList<T>::iterator it = lists[k].begin(); it != lists[k].end(); ++it) { f.push_back(it->id); REQUIRE(&*it == &nodes[it->id], ""); if (f.size() > N) FAIL("the list does not end"); }
				for (typename IntrusiveList<T>::const_iterator it = cl.begin(); it != cl.end(); it++) g.push_back(it->id);
				for (typename IntrusiveList<T>::iterator it = lists[k].end(); it != lists[k].begin(); ) { --it; b.push_back(it->id); if (b.size() > N) FAIL("the list does not begin"); }
				REQUIRE_EQ(f, m[k]); REQUIRE_EQ(g, m[k]); REQUIRE_EQ(b, std::vector<int>(m[k].rbegin(), m[k].rend()));
			}
		}
		for (size_t i = 0; i < N; ++i) if (where[i] >= 0) lists[where[i]].erase(nodes[i]);
		for (size_t k = 0; k < L; ++k) REQUIRE(lists[k].empty(), "");
		c.nontrivial_if(middle > 0);
	}
}
PROP(intrusive_list, 15000, 150000, 0, "a node was removed from the middle") { listHistory<Node>(s, c); }
PROP(intrusive_list_second_base, 15000, 150000, 0, "a node was removed from the middle") { listHistory<Node2>(s, c); }

PROP(fixed_array, 15000, 150000, pbt::LeakCheck, "an element was assigned and two arrays compared")
{
	typedef array<std::string, 5> A;
	A a, b; std::vector<std::string> ma(5), mb(5);
	bool set = false;
	while (s.more(12))
	{
		const size_t i = s.below(5); const std::string x = s.text("abc", 2);
		switch (s.below(8))
		{
		case 0: a[i] = x; ma[i] = x; set = true; break;
		case 1: a.at(i) = x; ma[i] = x; set = true; break;
		case 2: a.fill(x); ma.assign(5, x); break;
		case 3: a.swap(b); ma.swap(mb); break;
		case 4: b = a; mb = ma; break;
		case 5: { A t(a); REQUIRE(t == a, ""); t.back() = x; b = t; mb = ma; mb.back() = x; } break;
		case 6: a = a; a.front() = x; ma.front() = x; break;
		default: if (s.chance(1, 8)) { REQUIRE(THROWS(a.at(5)), ""); REQUIRE(THROWS(static_cast<const A&>(a).at((size_t)-1)), ""); } break;
		}
		REQUIRE_EQ(std::vector<std::string>(a.begin(), a.end()), ma); REQUIRE_EQ(std::vector<std::string>(b.cbegin(), b.cend()), mb);
		REQUIRE_EQ(a == b, ma == mb); REQUIRE_EQ(a != b, ma != mb); REQUIRE_EQ(a < b, ma < mb); REQUIRE_EQ(a >= b, ma >= mb); REQUIRE_EQ(a > b, ma > mb); REQUIRE_EQ(a <= b, ma <= mb);
	}
	c.nontrivial_if(set);
}
