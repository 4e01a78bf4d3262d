// ENGINE: seq
// Enumerable combinators against list functions: random pipelines of shared_ptr<IEnumerable<int>> with a vector model.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/EnumerableWrapper.h>
#include <stingraykit/collection/EnumerableFromStlContainer.h>
#include <stingraykit/collection/EnumerableBuilder.h>
#include <stingraykit/collection/CollectionBuilder.h>
#include <stingraykit/collection/StlEnumeratorAdapter.h>
#include <stingraykit/collection/FuncEnumerator.h>
#include <stingraykit/collection/ForEach.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/iterator_base.h>
#include <stingraykit/collection/DataJoiner.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/KeyValueEnumerableHelpers.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/collection/ListCaster.h>
#include <stingraykit/collection/SetCaster.h>
#include <stingraykit/collection/DictionaryCaster.h>
#include <deque>
#include <algorithm>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<int> V;
	typedef shared_ptr<IEnumerable<int>> En;
	typedef shared_ptr<IEnumerator<int>> Er;

	V values(Src& s, size_t max = 9) { V r; for (size_t n = s.size(max); n; --n) r.push_back((int)s.draw(12) - 3); return r; }

	struct P
	{
		int kind, arg;
		bool operator () (int x) const { switch (kind) { case 0: return x % 2 == 0; case 1: return x < arg; case 2: return x == arg; case 3: return x != arg; case 4: return false; default: return true; } }
		std::function<bool(int)> f() const { P p = *this; return [p](int x) { return p(x); }; }
	};
	P pred(Src& s) { P p; p.kind = (int)s.weighted({4, 4, 3, 3, 1, 1}); p.arg = (int)s.draw(12) - 3; return p; }
	struct F
	{
		int kind, arg;
		int operator () (int x) const { switch (kind) { case 0: return x + arg; case 1: return -x; case 2: return x / 2; default: return x * x % 11; } }
		std::function<int(int)> f() const { F p = *this; return [p](int x) { return p(x); }; }
	};
	F func(Src& s) { F f; f.kind = (int)s.below(4); f.arg = (int)s.draw(5); return f; }

	struct Node { En e; V m; int depth; };

	En source(Src& s, const V& m)
	{
		switch (s.below(6))
		{
		case 0: { shared_ptr<std::vector<int>> v(make_shared_ptr<std::vector<int>>(m)); return EnumerableFromStlContainer(*v, v); }
		case 1: { shared_ptr<ArrayList<int>> l(make_shared_ptr<ArrayList<int>>()); for (int x : m) l->Add(x); return l; }
		case 2: { EnumerableBuilder<int> b; size_t i = 0; for (; i < m.size() && s.coin(); ++i) { if (s.coin()) b % m[i]; else b.Add(m[i]); } b.Add(m.begin() + i, m.end()); return b; }
		case 3:
			{
				return MakeSimpleEnumerable(fn<shared_ptr<IEnumerator<int>>()>([m]() -> shared_ptr<IEnumerator<int>> {
					return make_shared_ptr<FuncEnumerator<int>>(fn<int(size_t)>([m](size_t i) { return m.at(i); }), fn<bool(size_t)>([m](size_t i) { return i < m.size(); })); }));
			}
		case 4: { shared_ptr<std::deque<int>> v(make_shared_ptr<std::deque<int>>(m.begin(), m.end())); return EnumerableFromStlIterators(v->begin(), v->end(), v); }
		default:
			if (m.empty()) { if (s.coin()) return MakeEmptyEnumerable(); return Enumerable::Empty<int>(); }
			if (m.size() == 1) return MakeOneItemEnumerable(m[0]);
			{
				EnumerableJoiner<int> j;
				for (int x : m) j = j % En(MakeOneItemEnumerable(x));
				return j;
			}
		}
	}

	Node build(Src& s, Ctx& c, int depth)
	{
		Node n;
		if (depth == 0 || s.chance(1, 6)) { n.m = values(s); n.e = source(s, n.m); n.depth = 0; return n; }
		Node a = build(s, c, depth - 1);
		n.depth = a.depth + 1;
		const bool pipe = s.coin();
		switch (s.below(13))
		{
		case 0: case 1: { const P p = pred(s); n.e = pipe ? a.e | Filter(p.f()) : Enumerable::Where(a.e, p.f()); for (int x : a.m) if (p(x)) n.m.push_back(x); c.tr("where"); break; }
		case 2: { const F f = func(s); n.e = pipe ? a.e | Transform(f.f()) : Enumerable::Transform(a.e, f.f()); for (int x : a.m) n.m.push_back(f(x)); c.tr("transform"); break; }
		case 3:
			{
				const size_t k = s.chance(1, 10) ? (size_t)s.integer<uint64_t>() : s.below(a.m.size() + 3);
				n.e = pipe ? a.e | Take(k) : Enumerable::Take(a.e, k); n.m.assign(a.m.begin(), a.m.begin() + std::min(k, a.m.size())); c.tr("take ", k); break;
			}
		case 4:
			{
				const size_t k = s.chance(1, 10) ? (size_t)s.integer<uint64_t>() : s.below(a.m.size() + 3);
				n.e = pipe ? a.e | Drop(k) : Enumerable::Skip(a.e, k); n.m.assign(a.m.begin() + std::min(k, a.m.size()), a.m.end()); c.tr("skip ", k); break;
			}
		case 5: n.e = pipe ? a.e | Reverse() : Enumerable::Reverse(a.e); n.m.assign(a.m.rbegin(), a.m.rend()); c.tr("reverse"); break;
		case 6: case 7:
			{
				Node b = build(s, c, depth - 1);
				n.e = s.coin() ? Enumerable::Concat(a.e, b.e) : JoinEnumerables(a.e, b.e);
				n.m = a.m; n.m.insert(n.m.end(), b.m.begin(), b.m.end());
				n.depth = std::max(a.depth, b.depth) + 1; c.tr("concat"); break;
			}
		case 8:
			if (s.coin()) { const int d = (int)s.draw(9); n.e = Enumerable::DefaultIfEmpty(a.e, d); n.m = a.m.empty() ? V(1, d) : a.m; }
			else { n.e = Enumerable::DefaultIfEmpty(a.e); n.m = a.m.empty() ? V(1, 0) : a.m; }
			c.tr("default_if_empty"); break;
		case 9:
			{
				std::vector<En> parts; parts.push_back(a.e); n.m = a.m;
				while (s.more(2)) { Node b = build(s, c, depth > 1 ? depth - 2 : 0); const bool front = s.coin(); parts.insert(front ? parts.begin() : parts.end(), b.e); n.m.insert(front ? n.m.begin() : n.m.end(), b.m.begin(), b.m.end()); }
				shared_ptr<std::vector<En>> v(make_shared_ptr<std::vector<En>>(parts));
				shared_ptr<IEnumerable<En>> ee(EnumerableFromStlContainer(*v, v));
				n.e = Enumerable::Flatten(ee); c.tr("flatten ", parts.size()); break;
			}
		case 10:
			{
				const F f = func(s); const P p = pred(s);
				switch (s.below(3))
				{
				case 0: { shared_ptr<IEnumerable<int>> w(WrapEnumerable(a.e)); n.e = w; n.m = a.m; break; }
				case 1: n.e = WrapEnumerable(a.e, f.f()); for (int x : a.m) n.m.push_back(f(x)); break;
				default: n.e = WrapEnumerable(a.e, f.f(), p.f()); for (int x : a.m) if (p(x)) n.m.push_back(f(x)); break;
				}
				c.tr("wrap"); break;
			}
		case 11:
			{
				// conversion and back
				shared_ptr<IEnumerable<long long>> w;
				switch (s.below(3))
				{
				case 0: w = WrapEnumerable(a.e); break;
				case 1: w = Enumerable::Transform(a.e, fn<long long(int)>([](int x) { return (long long)x; })); break;
				default: w = Enumerable::Transform(a.e, fn<long long(int)>([](int x) { return (long long)x; })); break;
				}
				n.e = Enumerable::Transform(w, fn<int(long long)>([](long long x) { return (int)x + 1; }));
				for (int x : a.m) n.m.push_back(x + 1);
				c.tr("convert"); break;
			}
		default: n.e = pipe ? a.e | Clone() : Enumerable::Clone(a.e); n.m = a.m; c.tr("clone"); break;
		}
		return n;
	}

	V drain(const Er& e) { V r; REQUIRE(e, "no enumerator"); for (; e->Valid(); e->Next()) { r.push_back(e->Get()); REQUIRE(r.size() < 4000, "endless"); } return r; }

	// enumerator-level versions of the combinators
	Er erWrap(Src& s, const Er& e, V& m)
	{
		V out;
		switch (s.below(8))
		{
		case 0: { const P p = pred(s); for (int x : m) if (p(x)) out.push_back(x); m = out; return Enumerable::Where(e, p.f()); }
		case 1: { const F f = func(s); for (int x : m) out.push_back(f(x)); m = out; return Enumerable::Transform(e, f.f()); }
		case 2: { const size_t k = s.below(m.size() + 2); m.resize(std::min(k, m.size())); return Enumerable::Take(e, k); }
		case 3: { const size_t k = s.below(m.size() + 2); m.erase(m.begin(), m.begin() + std::min(k, m.size())); return Enumerable::Skip(e, k); }
		case 4: std::reverse(m.begin(), m.end()); return Enumerable::Reverse(e);
		case 5: { const int d = 7; if (m.empty()) m.push_back(d); return Enumerable::DefaultIfEmpty(e, d); }
		case 6: { V o = values(s, 4); Er r = JoinEnumerators(e, source(s, o)->GetEnumerator()); m.insert(m.end(), o.begin(), o.end()); return r; }
		default: { const F f = func(s); for (int x : m) out.push_back(f(x)); m = out; return WrapEnumerator(e, f.f()); }
		}
	}

	PROP(pipelines, 15000, 600000, 0, "at least two combinators over a non-empty input with a non-empty or partially consumed result")
	{
		Node n = build(s, c, 1 + (int)s.below(4));
		c.nontrivial_if(n.depth >= 2 && !n.m.empty());
		c.label_if(n.m.empty(), "empty result");
		c.label_if(n.depth >= 3, "three or more combinators");
		// several live enumerators, interleaved
		struct L { Er e; V m; size_t pos; };
		std::vector<L> live;
		for (int step = 0; step < 3 || (step < 40 && s.more(10)); ++step)
		{
			switch (s.below(6))
			{
			case 0: { L l; l.e = n.e->GetEnumerator(); l.m = n.m; l.pos = 0; if (s.chance(1, 3)) l.e = erWrap(s, l.e, l.m); live.push_back(l); break; }
			case 1: REQUIRE_EQ(drain(n.e->GetEnumerator()), n.m); break;
			case 2: { V r; for (int x : IterableEnumerable(n.e)) r.push_back(x); REQUIRE_EQ(r, n.m); break; }
			case 3:
				{
					// ranges over enumerables, with copies in the middle
					auto r = ToRange(*n.e);
					V got; size_t pos = 0;
					const size_t split = s.below(n.m.size() + 1);
					for (; pos < split; ++pos) { REQUIRE(r.Valid(), ""); REQUIRE_EQ(r.Get(), n.m[pos]); r.Next(); }
					auto r2 = r;
					REQUIRE(r2 == r, "copied range differs");
					for (size_t p2 = pos; p2 < n.m.size(); ++p2) { REQUIRE(r2.Valid(), ""); REQUIRE_EQ(*r2, n.m[p2]); ++r2; }
					REQUIRE(!r2.Valid(), "range delivers more");
					REQUIRE_EQ(r == r2, pos == n.m.size());
					REQUIRE_EQ(r.Valid(), pos < n.m.size());
					r.Last(); REQUIRE_EQ(r.Valid(), !n.m.empty()); if (!n.m.empty()) REQUIRE_EQ(r.Get(), n.m.back());
					r.First(); REQUIRE_EQ(r.Valid(), !n.m.empty()); if (!n.m.empty()) REQUIRE_EQ(r.Get(), n.m.front());
					break;
				}
			case 4:
				{
					V r; const P stop = pred(s); V exp;
					FOR_EACH(int x IN n.e) { r.push_back(x); if (stop(x)) break; }
					for (int x : n.m) { exp.push_back(x); if (stop(x)) break; }
					REQUIRE_EQ(r, exp);
					const P where = pred(s); r.clear(); exp.clear();
					FOR_EACH(int x IN n.e WHERE where(x)) { if (x == 3) continue; r.push_back(x); }
					for (int x : n.m) if (where(x) && x != 3) exp.push_back(x);
					REQUIRE_EQ(r, exp);
					break;
				}
			default:
				if (!live.empty())
				{
					L& l = s.pick_from(live);
					for (size_t k = 1 + s.below(4); k; --k)
					{
						REQUIRE_EQ(l.e->Valid(), l.pos < l.m.size());
						if (l.pos >= l.m.size()) { if (s.chance(1, 12)) REQUIRE(THROWS(l.e->Get()), "an exhausted enumerator has no item"); break; }
						REQUIRE_EQ(l.e->Get(), l.m[l.pos]);
						if (s.chance(1, 4)) REQUIRE_EQ(l.e->Get(), l.m[l.pos]);
						l.e->Next(); ++l.pos;
					}
				}
				break;
			}
		}
		for (auto& l : live) { REQUIRE_EQ(drain(l.e), V(l.m.begin() + std::min(l.pos, l.m.size()), l.m.end())); }
		// enumerators joined with the % helper
		if (s.chance(1, 3))
		{
			EnumeratorJoiner<int> j; V exp;
			for (size_t k = s.below(4); k; --k) { V o = values(s, 3); exp.insert(exp.end(), o.begin(), o.end()); j = j % source(s, o)->GetEnumerator(); }
			REQUIRE_EQ(drain(j), exp);
		}
	}

	template < typename O > bool eqOpt(const O& o, bool has, int v) { return has ? (bool)o && *o == v : !o; }

	// G makes a fresh thing to reduce (enumerable, enumerator, references to them)
	template < typename G >
	void reductions(Src& s, Ctx& c, const V& m, const G& g)
	{
		const P p = pred(s); const auto pf = p.f(); const int v = (int)s.draw(12) - 3;
		V sel; for (int x : m) if (p(x)) sel.push_back(x);
		auto has = [&]() { return std::find(m.begin(), m.end(), v) != m.end(); };
		switch (s.below(22))
		{
		case 0: { auto f = fn<int(int, int)>([](int a, int b) { return (a * 3 - b) % 97; }); auto r = Enumerable::Aggregate(g(), f); int e = 0; for (size_t i = 0; i < m.size(); ++i) e = i ? (e * 3 - m[i]) % 97 : m[0]; REQUIRE(eqOpt(r, !m.empty(), e), "aggregate"); break; }
		case 1: { auto f = fn<long long(long long, int)>([](long long a, int b) { return (a * 3 - b) % 97; }); long long e = v; for (int x : m) e = (e * 3 - x) % 97; REQUIRE_EQ(Enumerable::Aggregate(g(), (long long)v, f), e); break; }
		case 2: { size_t calls = 0; auto q = fn<bool(int)>([&](int x) { ++calls; return p(x); }); REQUIRE_EQ(Enumerable::All(g(), q), sel.size() == m.size()); break; }
		case 3: REQUIRE_EQ(Enumerable::Any(g()), !m.empty()); REQUIRE_EQ(Enumerable::Any(g(), pf), !sel.empty()); break;
		case 4: REQUIRE_EQ(Enumerable::Contains(g(), v), has()); REQUIRE_EQ(Enumerable::Contains(g(), pf), !sel.empty()); break;
		case 5: REQUIRE_EQ(Enumerable::Count(g()), m.size()); break;
		case 6: REQUIRE_EQ(Enumerable::Count(g(), pf), sel.size()); break;
		case 7: { V r; Enumerable::ForEach(g(), fn<void(int)>([&](int x) { r.push_back(x); })); REQUIRE_EQ(r, m); break; }
		case 8: { auto r = Enumerable::IndexOf(g(), v); REQUIRE(eqOpt(r, has(), (int)(std::find(m.begin(), m.end(), v) - m.begin())), "index of value"); break; }
		case 9: { auto r = Enumerable::IndexOf(g(), pf); REQUIRE(eqOpt(r, !sel.empty(), (int)(std::find_if(m.begin(), m.end(), p) - m.begin())), "index of predicate"); break; }
		case 10: { const size_t i = s.below(m.size() + 2); if (i < m.size()) REQUIRE_EQ(Enumerable::ElementAt(g(), i), m[i]); else REQUIRE(THROWS(Enumerable::ElementAt(g(), i)), "element " << i << " of " << m.size()); break; }
		case 11: { const size_t i = s.below(m.size() + 2); REQUIRE(eqOpt(Enumerable::ElementAtOrDefault(g(), i), i < m.size(), i < m.size() ? m[i] : 0), "element or null"); break; }
		case 12: { const size_t i = s.below(m.size() + 2); REQUIRE_EQ(Enumerable::ElementAtOrDefault(g(), i, v), i < m.size() ? m[i] : v); break; }
		case 13: if (m.empty()) REQUIRE(THROWS(Enumerable::First(g())), "first of nothing"); else REQUIRE_EQ(Enumerable::First(g()), m.front()); break;
		case 14: if (sel.empty()) REQUIRE(THROWS(Enumerable::First(g(), pf)), "first of nothing"); else REQUIRE_EQ(Enumerable::First(g(), pf), sel.front()); break;
		case 15: REQUIRE(eqOpt(Enumerable::FirstOrDefault(g()), !m.empty(), m.empty() ? 0 : m.front()), ""); REQUIRE_EQ(Enumerable::FirstOrDefault(g(), v), m.empty() ? v : m.front()); break;
		case 16: REQUIRE(eqOpt(Enumerable::FirstOrDefault(g(), pf), !sel.empty(), sel.empty() ? 0 : sel.front()), ""); REQUIRE_EQ(Enumerable::FirstOrDefault(g(), pf, v), sel.empty() ? v : sel.front()); break;
		case 17: if (m.empty()) REQUIRE(THROWS(Enumerable::Last(g())), "last of nothing"); else REQUIRE_EQ(Enumerable::Last(g()), m.back()); break;
		case 18: if (sel.empty()) REQUIRE(THROWS(Enumerable::Last(g(), pf)), "last of nothing"); else REQUIRE_EQ(Enumerable::Last(g(), pf), sel.back()); break;
		case 19: REQUIRE(eqOpt(Enumerable::LastOrDefault(g()), !m.empty(), m.empty() ? 0 : m.back()), ""); REQUIRE_EQ(Enumerable::LastOrDefault(g(), v), m.empty() ? v : m.back()); break;
		case 20: REQUIRE(eqOpt(Enumerable::LastOrDefault(g(), pf), !sel.empty(), sel.empty() ? 0 : sel.back()), ""); REQUIRE_EQ(Enumerable::LastOrDefault(g(), pf, v), sel.empty() ? v : sel.back()); break;
		default: if (m.size() == 1) REQUIRE_EQ(Enumerable::Single(g()), m[0]); else REQUIRE(THROWS(Enumerable::Single(g())), "single of " << m.size()); break;
		}
	}

	PROP(reductions_all_forms, 20000, 800000, 0, "the reduced sequence has at least two elements")
	{
		Node n = build(s, c, (int)s.below(3));
		c.nontrivial_if(n.m.size() >= 2);
		for (int k = 0; k < 5; ++k)
		{
			switch (s.below(4))
			{
			case 0: reductions(s, c, n.m, [&]() -> En { return n.e; }); break;
			case 1: reductions(s, c, n.m, [&]() -> Er { return n.e->GetEnumerator(); }); break;
			case 2: reductions(s, c, n.m, [&]() -> const IEnumerable<int>& { return *n.e; }); break;
			default: { std::vector<Er> keep; reductions(s, c, n.m, [&]() -> IEnumerator<int>& { keep.push_back(n.e->GetEnumerator()); return *keep.back(); }); break; }
			}
		}
		REQUIRE_EQ(n.e | Any(), !n.m.empty());
		REQUIRE_EQ(n.e | Count(), n.m.size());
		REQUIRE(eqOpt(n.e | FirstOrDefault(), !n.m.empty(), n.m.empty() ? 0 : n.m[0]), "");
		if (!n.m.empty()) REQUIRE_EQ(n.e | First(), n.m[0]);
		// comparing
		V o = n.m;
		switch (s.below(5)) { case 0: break; case 1: o.push_back(1); break; case 2: if (!o.empty()) o.pop_back(); break; case 3: if (!o.empty()) s.pick_from(o) += 1; break; default: o = values(s); }
		En oe = source(s, o);
		const auto near = fn<bool(int, int)>([](int a, int b) { return a / 2 == b / 2; });
		bool nearEq = n.m.size() == o.size(); for (size_t i = 0; nearEq && i < o.size(); ++i) nearEq = near(n.m[i], o[i]);
		switch (s.below(4))
		{
		case 0: REQUIRE_EQ(Enumerable::SequenceEqual(n.e, oe), n.m == o); REQUIRE_EQ(Enumerable::SequenceEqual(n.e, oe, near), nearEq); break;
		case 1: REQUIRE_EQ(Enumerable::SequenceEqual(n.e->GetEnumerator(), oe->GetEnumerator()), n.m == o); break;
		case 2: REQUIRE_EQ(Enumerable::SequenceEqual(n.e, oe->GetEnumerator()), n.m == o); break;
		default: REQUIRE_EQ(Enumerable::SequenceEqual(n.e->GetEnumerator(), oe, near), nearEq); break;
		}
	}

	// --- object hierarchies: casts and dynamic filters -----------------------------------------------------------------
	struct Base { int id; explicit Base(int i) : id(i) { } virtual ~Base() { } };
	struct Left : virtual Base { explicit Left(int i) : Base(i) { } };
	struct Right : virtual Base { explicit Right(int i) : Base(i) { } };
	struct Both : Left, Right { explicit Both(int i) : Base(i), Left(i), Right(i) { } };
	typedef shared_ptr<Base> BaseP; typedef shared_ptr<Left> LeftP;

	PROP(casts, 8000, 300000, pbt::LeakCheck, "objects of at least two dynamic types")
	{
		std::vector<BaseP> all; std::vector<int> ids, leftIds; int kinds = 0;
		for (size_t n = s.size(8); n; --n)
		{
			const int id = (int)all.size() + 1;
			const size_t k = s.below(4); kinds |= 1 << k;
			BaseP b; switch (k) { case 0: b = make_shared_ptr<Base>(id); break; case 1: b = make_shared_ptr<Left>(id); break; case 2: b = make_shared_ptr<Right>(id); break; default: b = make_shared_ptr<Both>(id); }
			all.push_back(b); ids.push_back(id); if (k & 1) leftIds.push_back(id);
		}
		c.nontrivial_if(kinds & (kinds - 1));
		shared_ptr<std::vector<BaseP>> v(make_shared_ptr<std::vector<BaseP>>(all));
		const shared_ptr<IEnumerable<BaseP>> e = EnumerableFromStlContainer(*v, v);
		auto idsOf = [](const shared_ptr<IEnumerator<LeftP>>& en) { std::vector<int> r; for (; en->Valid(); en->Next()) { LeftP p = en->Get(); REQUIRE(p, "null item"); REQUIRE_EQ(en->Get().get(), p.get()); r.push_back(p->id); } return r; };
		REQUIRE_EQ(idsOf(Enumerable::OfType<LeftP>(e)->GetEnumerator()), leftIds);
		REQUIRE_EQ(idsOf(Enumerable::OfType<LeftP>(e->GetEnumerator())), leftIds);
		REQUIRE_EQ(idsOf((e | OfType<LeftP>())->GetEnumerator()), leftIds);
		{ std::vector<int> r; FOR_EACH(LeftP p IN e) { REQUIRE(p, ""); r.push_back(p->id); } REQUIRE_EQ(r, leftIds); }
		{ std::vector<int> r, x; FOR_EACH(LeftP p IN e WHERE p->id % 2) r.push_back(p->id); for (int i : leftIds) if (i % 2) x.push_back(i); REQUIRE_EQ(r, x); }
		// down and back
		shared_ptr<IEnumerable<LeftP>> lefts = Enumerable::OfType<LeftP>(e);
		shared_ptr<IEnumerable<BaseP>> up = s.coin() ? Enumerable::Cast<BaseP>(lefts) : (lefts | Cast<BaseP>());
		{ std::vector<int> r; for (auto en = up->GetEnumerator(); en->Valid(); en->Next()) r.push_back(en->Get()->id); REQUIRE_EQ(r, leftIds); }
		{ std::vector<int> r; for (auto en = Enumerable::Cast<BaseP>(lefts->GetEnumerator()); en->Valid(); en->Next()) r.push_back(en->Get()->id); REQUIRE_EQ(r, leftIds); }
		{ shared_ptr<IEnumerable<LeftP>> down = GetEnumerableCaster(up); REQUIRE_EQ(idsOf(down->GetEnumerator()), leftIds); }
		{ shared_ptr<IEnumerable<BaseP>> same = GetEnumerableCaster(up); REQUIRE_EQ(Enumerable::Count(same), leftIds.size()); }
		// nullable items: the default is the null pointer
		BaseP first = Enumerable::FirstOrDefault(e);
		REQUIRE_EQ(first.get(), all.empty() ? (Base*)NULL : all.front().get());
		const int want = (int)s.draw(9);
		BaseP found = Enumerable::FirstOrDefault(e, fn<bool(const BaseP&)>([want](const BaseP& p) { return p->id == want; }));
		REQUIRE_EQ(found.get(), want >= 1 && want <= (int)all.size() ? all[want - 1].get() : (Base*)NULL);
		BaseP last = Enumerable::LastOrDefault(e, fn<bool(const BaseP&)>([want](const BaseP& p) { return p->id < want; }));
		REQUIRE_EQ(last.get(), want > 1 && !all.empty() ? all[std::min(want - 1, (int)all.size()) - 1].get() : (Base*)NULL);
	}

	// --- differences of sorted sequences -------------------------------------------------------------------------------
	struct KeyCmp : public comparers::CmpComparerInfo { template < typename T > int operator () (const T& a, const T& b) const { return a < b ? -1 : b < a ? 1 : 0; } };

	PROP(diffs, 10000, 400000, 0, "the sequences share an item and both have one of their own")
	{
		std::set<int> a, b;
		for (size_t n = s.size(9); n; --n) a.insert((int)s.draw(14));
		for (size_t n = s.size(9); n; --n) b.insert((int)s.draw(14));
		V va(a.begin(), a.end()), vb(b.begin(), b.end());
		std::vector<std::pair<int, int>> exp; bool shared = false, rem = false, add = false;
		{
			std::set<int> u(a); u.insert(b.begin(), b.end());
			for (int x : u) { if (a.count(x) && b.count(x)) shared = true; else if (a.count(x)) { exp.push_back(std::make_pair(-1, x)); rem = true; } else { exp.push_back(std::make_pair(1, x)); add = true; } }
		}
		c.nontrivial_if(shared && rem && add);
		auto list = [](const shared_ptr<IEnumerator<DiffEntry<int>>>& e) { std::vector<std::pair<int, int>> r; for (; e->Valid(); e->Next()) r.push_back(std::make_pair(e->Get().Op == CollectionOp::Added ? 1 : e->Get().Op == CollectionOp::Removed ? -1 : 0, e->Get().Item)); return r; };
		En ea = source(s, va), eb = source(s, vb);
		if (s.coin()) REQUIRE_EQ(list(Enumerable::Diff(ea, eb, KeyCmp())->GetEnumerator()), exp);
		else REQUIRE_EQ(list(Enumerable::Diff(ea->GetEnumerator(), eb->GetEnumerator(), KeyCmp())), exp);
		auto d = Enumerable::Diff(ea, eb, KeyCmp());
		if (s.coin()) { auto p = d->GetEnumerator(); if (p->Valid()) p->Next(); }
		REQUIRE_EQ(list(d->GetEnumerator()), exp);
	}

	// --- keys and values -----------------------------------------------------------------------------------------------
	PROP(key_values, 5000, 200000, 0, "a dictionary with at least two entries")
	{
		const shared_ptr<MapDictionary<int, std::string>> d(make_shared_ptr<MapDictionary<int, std::string>>());
		std::map<int, std::string> m;
		for (size_t n = s.size(8); n; --n) { const int k = (int)s.draw(9); const std::string v = s.text("ab", 3); d->Set(k, v); m[k] = v; }
		c.nontrivial_if(m.size() >= 2);
		V keys; std::vector<std::string> vals; for (auto& p : m) { keys.push_back(p.first); vals.push_back(p.second); }
		REQUIRE_EQ(drain(KeysEnumerable(d)->GetEnumerator()), keys);
		REQUIRE_EQ(drain(KeysEnumerator(d->GetEnumerator())), keys);
		{ std::vector<std::string> r; auto e = s.coin() ? ValuesEnumerable(d)->GetEnumerator() : ValuesEnumerator(d->GetEnumerator()); for (; e->Valid(); e->Next()) r.push_back(e->Get()); REQUIRE_EQ(r, vals); }
		const shared_ptr<IReadonlySet<int>> ks = GetDictionaryKeys(d);
		for (int round = 0; round < 2; ++round)
		{
			keys.clear(); for (auto& p : m) keys.push_back(p.first);
			REQUIRE_EQ(drain(ks->GetEnumerator()), keys);
			REQUIRE_EQ(drain(ks->Reverse()->GetEnumerator()), V(keys.rbegin(), keys.rend()));
			REQUIRE_EQ(ks->GetCount(), m.size()); REQUIRE_EQ(ks->IsEmpty(), m.empty());
			for (int k = -1; k < 10; ++k)
			{
				REQUIRE_EQ(ks->Contains(k), m.count(k) != 0);
				const bool in = m.count(k) != 0;
				auto f = ks->Find(k); REQUIRE_EQ(f->Valid() && f->Get() == k, in);
				auto rf = ks->ReverseFind(k); REQUIRE_EQ(rf->Valid() && rf->Get() == k, in);
				if (in) { REQUIRE_EQ(drain(ks->Find(k)), V(std::find(keys.begin(), keys.end(), k), keys.end())); V rv(keys.rbegin(), keys.rend()); REQUIRE_EQ(drain(ks->ReverseFind(k)), V(std::find(rv.begin(), rv.end(), k), rv.end())); }
			}
			const int k = (int)s.draw(9); if (s.coin()) { d->Set(k, "x"); m[k] = "x"; } else { d->Remove(k); m.erase(k); }
		}
	}

	// --- casters: live typed views of collections ----------------------------------------------------------------------
	std::string dst(int v) { return "v" + std::to_string(v); }
	bool back(const std::string& d, int& v) { if (d.size() < 2 || d[0] != 'v') return false; v = atoi(d.c_str() + 1); return true; }
	typedef std::vector<std::string> SV;
	template < typename E > SV sdrain(const E& e) { SV r; for (; e->Valid(); e->Next()) r.push_back(e->Get()); return r; }
	SV mapped(const V& m) { SV r; for (int x : m) r.push_back(dst(x)); return r; }
	std::string opName(CollectionOp op) { return op == CollectionOp::Added ? "+" : op == CollectionOp::Removed ? "-" : "u"; }

	template < typename L >
	void checkListView(const L& l, const V& m)
	{
		REQUIRE_EQ(sdrain(l->GetEnumerator()), mapped(m));
		REQUIRE_EQ(sdrain(l->Reverse()->GetEnumerator()), mapped(V(m.rbegin(), m.rend())));
		REQUIRE_EQ(l->GetCount(), m.size()); REQUIRE_EQ(l->IsEmpty(), m.empty());
		for (int v = -1; v < 6; ++v)
		{
			const auto it = std::find(m.begin(), m.end(), v);
			REQUIRE_EQ(l->Contains(dst(v)), it != m.end());
			auto i = l->IndexOf(dst(v)); REQUIRE_EQ((bool)i, it != m.end()); if (i) REQUIRE_EQ(*i, (size_t)(it - m.begin()));
		}
		REQUIRE(!l->Contains("zz"), "unconvertible value"); REQUIRE(!l->IndexOf("zz"), "unconvertible value");
		for (size_t i = 0; i <= m.size(); ++i) { std::string o = "keep"; const bool ok = l->TryGet(i, o); REQUIRE_EQ(ok, i < m.size()); REQUIRE_EQ(o, ok ? dst(m[i]) : std::string("keep")); if (ok) REQUIRE_EQ(l->Get(i), dst(m[i])); }
	}

	PROP(list_casters, 3000, 120000, 0, "at least three changes of a list seen through a caster")
	{
		const shared_ptr<ArrayObservableList<int>> l(make_shared_ptr<ArrayObservableList<int>>());
		V m; for (size_t n = s.below(4); n; --n) { l->Add(n); m.push_back(n); }
		typedef ObservableListCaster<int, std::string> OC; typedef ListCaster<int, std::string> LC;
		const shared_ptr<OC> o(make_shared_ptr<OC>(shared_ptr<IReadonlyObservableList<int>>(l), &dst, &back));
		const shared_ptr<LC> p(make_shared_ptr<LC>(shared_ptr<IReadonlyList<int>>(l), &dst, &back));
		SV log; SV model = mapped(m); int changes = 0;
		Token t = o->OnChanged().connect(fn<void(CollectionOp, size_t, const std::string&)>([&](CollectionOp op, size_t i, const std::string& v) { log.push_back(opName(op) + std::to_string(i) + v); }));
		{ SV exp; for (size_t i = 0; i < m.size(); ++i) exp.push_back("+" + std::to_string(i) + dst(m[i])); REQUIRE_EQ(log, exp); }
		while (s.more(8))
		{
			log.clear(); SV exp; const int v = (int)s.draw(5);
			switch (s.below(5))
			{
			case 0: exp.push_back("+" + std::to_string(m.size()) + dst(v)); m.push_back(v); l->Add(v); break;
			case 1: { const size_t i = s.below(m.size() + 1); exp.push_back("+" + std::to_string(i) + dst(v)); m.insert(m.begin() + i, v); l->Insert(i, v); break; }
			case 2: if (m.empty()) continue; { const size_t i = s.below(m.size()); exp.push_back("-" + std::to_string(i) + dst(m[i])); m.erase(m.begin() + i); l->RemoveAt(i); } break;
			case 3: if (m.empty()) continue; { const size_t i = s.below(m.size()); exp.push_back("u" + std::to_string(i) + dst(v)); m[i] = v; l->Set(i, v); } break;
			default: { auto it = std::find(m.begin(), m.end(), v); if (it == m.end()) { REQUIRE_EQ(l->Remove(v), false); break; } exp.push_back("-" + std::to_string(it - m.begin()) + dst(v)); m.erase(it); REQUIRE_EQ(l->Remove(v), true); break; }
			}
			++changes;
			REQUIRE_EQ(log, exp);
			checkListView(o, m); checkListView(p, m);
		}
		c.nontrivial_if(changes >= 3);
		// transactional
		const shared_ptr<TransactionalList<int, comparers::Equals>> tl(make_shared_ptr<TransactionalList<int, comparers::Equals>>());
		typedef TransactionalListCaster<int, std::string> TC;
		const shared_ptr<TC> tc(make_shared_ptr<TC>(shared_ptr<IReadonlyTransactionalList<int>>(tl), &dst, &back));
		V tm; SV rep; int deliveries = 0;
		Token t2 = tc->OnChanged().connect(fn<void(const IReadonlyTransactionalList<std::string>::DiffTypePtr&)>([&](const IReadonlyTransactionalList<std::string>::DiffTypePtr& d) {
			++deliveries;
			for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { const auto x = e->Get(); const size_t i = x.Item.Key; if (x.Op == CollectionOp::Added) { if (i <= rep.size()) rep.insert(rep.begin() + i, x.Item.Value); } else if (x.Op == CollectionOp::Removed) { if (i < rep.size() && rep[i] == x.Item.Value) rep.erase(rep.begin() + i); else rep.push_back("bad"); } else if (i < rep.size()) rep[i] = x.Item.Value; }
		}));
		for (int k = 0; k < 2; ++k)
		{
			auto tr = tl->StartTransaction();
			const bool commit = s.chance(3, 4); V nm = tm;
			for (size_t n = s.below(5); n; --n) { const int v = (int)s.draw(5); if (!nm.empty() && s.chance(1, 3)) { const size_t i = s.below(nm.size()); nm.erase(nm.begin() + i); tr->RemoveAt(i); } else { const size_t i = s.below(nm.size() + 1); nm.insert(nm.begin() + i, v); tr->Insert(i, v); } }
			checkListView(tc, tm);
			if (commit) { tr->Commit(); tm = nm; }
			tr.reset();
			checkListView(tc, tm); REQUIRE_EQ(rep, mapped(tm));
		}
		{ SV r2; Token t3 = tc->OnChanged().connect(fn<void(const IReadonlyTransactionalList<std::string>::DiffTypePtr&)>([&](const IReadonlyTransactionalList<std::string>::DiffTypePtr& d) { for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) r2.push_back(e->Get().Item.Value); })); REQUIRE_EQ(r2, mapped(tm)); }
	}

	PROP(set_and_dictionary_casters, 3000, 120000, 0, "at least three changes of a set and a dictionary seen through casters")
	{
		const shared_ptr<SortedObservableSet<int>> os(make_shared_ptr<SortedObservableSet<int>>());
		const shared_ptr<MapObservableDictionary<int, int>> od(make_shared_ptr<MapObservableDictionary<int, int>>());
		std::set<int> sm; std::map<int, int> dm;
		typedef ObservableSetCaster<int, std::string> SC; typedef ObservableDictionaryCaster<int, int, std::string> DC;
		const shared_ptr<SC> sc(make_shared_ptr<SC>(shared_ptr<IReadonlyObservableSet<int>>(os), &dst, &back));
		const shared_ptr<DC> dc(make_shared_ptr<DC>(shared_ptr<IReadonlyObservableDictionary<int, int>>(od), &dst, &back));
		const shared_ptr<IReadonlyObservableSet<int>> kset = GetDictionaryKeys(shared_ptr<IReadonlyObservableDictionary<int, int>>(od));
		for (size_t n = s.below(3); n; --n) { os->Add(n); sm.insert(n); od->Set(n, n); dm[n] = n; }
		SV sl, dl, kl; int changes = 0;
		Token t1 = sc->OnChanged().connect(fn<void(CollectionOp, const std::string&)>([&](CollectionOp op, const std::string& v) { sl.push_back(opName(op) + v); }));
		Token t2 = dc->OnChanged().connect(fn<void(CollectionOp, int, const std::string&)>([&](CollectionOp op, int k, const std::string& v) { dl.push_back(opName(op) + std::to_string(k) + v); }));
		Token t3 = kset->OnChanged().connect(fn<void(CollectionOp, int)>([&](CollectionOp op, int k) { kl.push_back(opName(op) + std::to_string(k)); }));
		{ SV x; for (int v : sm) x.push_back("+" + dst(v)); REQUIRE_EQ(sl, x); x.clear(); for (auto& p : dm) x.push_back("+" + std::to_string(p.first) + dst(p.second)); REQUIRE_EQ(dl, x); x.clear(); for (auto& p : dm) x.push_back("+" + std::to_string(p.first)); REQUIRE_EQ(kl, x); }
		while (s.more(8))
		{
			sl.clear(); dl.clear(); kl.clear(); SV se, de, ke; const int v = (int)s.draw(5), k = (int)s.draw(5); ++changes;
			switch (s.below(4))
			{
			case 0: if (sm.insert(v).second) se.push_back("+" + dst(v)); os->Add(v); break;
			case 1: if (sm.erase(v)) se.push_back("-" + dst(v)); os->Remove(v); break;
			case 2: { const bool had = dm.count(k); if (had && dm[k] == v) break; de.push_back((had ? "u" : "+") + std::to_string(k) + dst(v)); if (!had) ke.push_back("+" + std::to_string(k)); dm[k] = v; od->Set(k, v); break; }
			default: if (dm.count(k)) { de.push_back("-" + std::to_string(k) + dst(dm[k])); ke.push_back("-" + std::to_string(k)); dm.erase(k); } od->Remove(k); break;
			}
			REQUIRE_EQ(sl, se); REQUIRE_EQ(dl, de); REQUIRE_EQ(kl, ke);
			V sv(sm.begin(), sm.end());
			REQUIRE_EQ(sdrain(sc->GetEnumerator()), mapped(sv)); REQUIRE_EQ(sdrain(sc->Reverse()->GetEnumerator()), mapped(V(sv.rbegin(), sv.rend())));
			REQUIRE_EQ(sc->GetCount(), sm.size()); REQUIRE_EQ(sc->IsEmpty(), sm.empty());
			for (int x = -1; x < 6; ++x)
			{
				REQUIRE_EQ(sc->Contains(dst(x)), sm.count(x) != 0);
				if (sm.count(x)) REQUIRE_EQ(sdrain(sc->Find(dst(x))), mapped(V(sm.find(x), sm.end())));
				REQUIRE_EQ(dc->ContainsKey(x), dm.count(x) != 0);
				std::string o = "keep"; const bool ok = dc->TryGet(x, o); REQUIRE_EQ(ok, dm.count(x) != 0); REQUIRE_EQ(o, ok ? dst(dm[x]) : std::string("keep")); if (ok) REQUIRE_EQ(dc->Get(x), dst(dm[x]));
				if (ok) { auto f = dc->Find(x); for (auto it = dm.find(x); it != dm.end(); ++it, f->Next()) { REQUIRE(f->Valid(), ""); REQUIRE_EQ(f->Get().Key, it->first); REQUIRE_EQ(f->Get().Value, dst(it->second)); } REQUIRE(!f->Valid(), ""); }
			}
			REQUIRE(!sc->Contains("zz"), ""); { auto f = sc->Find("zz"); REQUIRE(!f->Valid(), "found what cannot be converted"); } { auto f = sc->ReverseFind("zz"); REQUIRE(!f->Valid(), ""); }
			auto e = dc->GetEnumerator(); for (auto& p : dm) { REQUIRE(e->Valid(), ""); REQUIRE_EQ(e->Get().Key, p.first); REQUIRE_EQ(e->Get().Value, dst(p.second)); e->Next(); } REQUIRE(!e->Valid(), "");
			REQUIRE_EQ(dc->GetCount(), dm.size());
			V kv; for (auto& p : dm) kv.push_back(p.first); REQUIRE_EQ(drain(kset->GetEnumerator()), kv);
		}
		c.nontrivial_if(changes >= 3);
	}

	PROP(transactional_casters, 3000, 120000, 0, "a commit that both adds and removes")
	{
		const shared_ptr<TransactionalSet<int, comparers::Less>> os(make_shared_ptr<TransactionalSet<int, comparers::Less>>());
		const shared_ptr<TransactionalDictionary<int, int>> od(make_shared_ptr<TransactionalDictionary<int, int>>());
		std::set<int> sm; std::map<int, int> dm;
		typedef TransactionalSetCaster<int, std::string> SC; typedef TransactionalDictionaryCaster<int, int, std::string> DC;
		typedef IReadonlyTransactionalSet<std::string>::DiffTypePtr SD; typedef IReadonlyTransactionalDictionary<int, std::string>::DiffTypePtr DD; typedef IReadonlyTransactionalSet<int>::DiffTypePtr KD;
		const shared_ptr<SC> sc(make_shared_ptr<SC>(shared_ptr<IReadonlyTransactionalSet<int>>(os), &dst, &back));
		const shared_ptr<DC> dc(make_shared_ptr<DC>(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(od), &dst, &back));
		const shared_ptr<IReadonlyTransactionalSet<int>> kset = GetDictionaryKeys(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(od));
		std::set<std::string> sr; std::map<int, std::string> dr; std::set<int> kr; bool bad = false; int kn = 0;
		Token t1 = sc->OnChanged().connect(fn<void(const SD&)>([&](const SD& d) { for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { if (e->Get().Op == CollectionOp::Added) bad |= !sr.insert(e->Get().Item).second; else bad |= !sr.erase(e->Get().Item); } }));
		Token t2 = dc->OnChanged().connect(fn<void(const DD&)>([&](const DD& d) { for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { const auto x = e->Get(); if (x.Op == CollectionOp::Added) bad |= !dr.insert(std::make_pair(x.Item.Key, x.Item.Value)).second; else { bad |= dr.count(x.Item.Key) == 0 || dr[x.Item.Key] != x.Item.Value; dr.erase(x.Item.Key); } } }));
		Token t3 = kset->OnChanged().connect(fn<void(const KD&)>([&](const KD& d) { size_t n = 0; for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) { ++n; if (e->Get().Op == CollectionOp::Added) bad |= !kr.insert(e->Get().Item).second; else bad |= !kr.erase(e->Get().Item); } kn += n == 0; }));
		kn = 0;
		for (int round = 0; round < 3; ++round)
		{
			auto st = os->StartTransaction(); auto dt = od->StartTransaction();
			auto ns = sm; auto nd = dm; bool add = false, rem = false;
			for (size_t n = s.below(7); n; --n)
			{
				const int v = (int)s.draw(5), k = (int)s.draw(5);
				switch (s.below(4))
				{
				case 0: add |= ns.insert(v).second; st->Add(v); break;
				case 1: rem |= ns.erase(v) != 0; st->Remove(v); break;
				case 2: nd[k] = v; dt->Set(k, v); break;
				default: nd.erase(k); dt->Remove(k); break;
				}
			}
			if (s.chance(4, 5)) { st->Commit(); sm = ns; c.nontrivial_if(add && rem); } st.reset();
			if (s.chance(4, 5)) { dt->Commit(); dm = nd; } dt.reset();
			REQUIRE(!bad, "a diff entry does not apply");
			std::set<std::string> se; for (int v : sm) se.insert(dst(v)); REQUIRE(sr == se, "replayed set diffs differ from the set");
			std::map<int, std::string> de; std::set<int> ke; for (auto& p : dm) { de[p.first] = dst(p.second); ke.insert(p.first); } REQUIRE(dr == de, "replayed dictionary diffs differ"); REQUIRE(kr == ke, "replayed key diffs differ");
			REQUIRE_EQ(kn, 0);
			V kv(ke.begin(), ke.end()); REQUIRE_EQ(drain(kset->GetEnumerator()), kv);
			REQUIRE_EQ(sdrain(sc->GetEnumerator()), mapped(V(sm.begin(), sm.end())));
			for (int x = 0; x < 5; ++x) { REQUIRE_EQ(sc->Contains(dst(x)), sm.count(x) != 0); std::string o; REQUIRE_EQ(dc->TryGet(x, o), dm.count(x) != 0); if (dm.count(x)) REQUIRE_EQ(o, dst(dm[x])); }
		}
		{ std::set<int> k2; Token t4 = kset->OnChanged().connect(fn<void(const KD&)>([&](const KD& d) { for (auto e = d->GetEnumerator(); e->Valid(); e->Next()) k2.insert(e->Get().Item); })); REQUIRE(k2 == kr, "population of a new subscriber"); }
	}

	// --- joined random-access data -------------------------------------------------------------------------------------
	struct Pieces { std::vector<std::string>* out; template < typename It > void operator () (It a, It b) const { out->push_back(std::string(a, b)); } };

	PROP(data_joiner, 8000, 300000, 0, "at least two of three joined containers are non-empty")
	{
		typedef std::vector<u8> A; typedef std::deque<u8> B;
		A a; B b; A d; int nonEmpty = 0;
		for (size_t n = s.size(5); n; --n) a.push_back((u8)s.draw(256)); for (size_t n = s.size(5); n; --n) b.push_back((u8)s.draw(256)); for (size_t n = s.size(5); n; --n) d.push_back((u8)s.draw(256));
		nonEmpty = !a.empty() + !b.empty() + !d.empty(); c.nontrivial_if(nonEmpty >= 2);
		std::vector<u8> m(a.begin(), a.end()); m.insert(m.end(), b.begin(), b.end()); m.insert(m.end(), d.begin(), d.end());
		typedef DataJoiner<TypeList<A, B, A>> J;
		const Tuple<TypeList<const A*, const B*, const A*>> tup(&a, &b, &d);
		const J j(tup);
		REQUIRE_EQ(j.size(), m.size());
		REQUIRE_EQ((size_t)std::distance(j.begin(), j.end()), m.size());
		{ std::vector<u8> r; for (auto it = j.begin(); it != j.end(); ++it) { r.push_back(*it); REQUIRE(r.size() <= m.size(), "too long"); } REQUIRE(r == m, "contents"); }
		{ std::vector<u8> r; auto it = j.end(); for (size_t i = 0; i < m.size(); ++i) { --it; r.push_back(*it); } REQUIRE(it == j.begin(), ""); std::reverse(r.begin(), r.end()); REQUIRE(r == m, "reversed contents"); }
		auto it = j.begin(); size_t pos = 0;
		while (s.more(10))
		{
			const size_t to = s.below(m.size() + 1);
			if (s.coin()) it += (ptrdiff_t)to - (ptrdiff_t)pos; else if (s.coin()) it = it + ((ptrdiff_t)to - (ptrdiff_t)pos); else it -= (ptrdiff_t)pos - (ptrdiff_t)to;
			pos = to;
			REQUIRE_EQ(it == j.end(), pos == m.size()); REQUIRE_EQ(it == j.begin(), pos == 0);
			if (pos < m.size()) REQUIRE_EQ(*it, m[pos]);
			REQUIRE_EQ((size_t)(it - j.begin()), pos);
			if (pos < m.size()) REQUIRE_EQ(j.begin()[pos], m[pos]);
			const size_t other = s.below(m.size() + 1); REQUIRE_EQ(it < j.begin() + other, pos < other);
			const size_t from = std::min(pos, other), end = std::max(pos, other);
			std::vector<std::string> parts; J::ApplyToIntervals(j.begin() + from, j.begin() + end, Pieces{&parts});
			std::string joined; for (auto& p : parts) { REQUIRE(!p.empty(), "empty interval"); joined += p; }
			REQUIRE_EQ(joined, std::string(m.begin() + from, m.begin() + end)); REQUIRE(parts.size() <= 3, "");
		}
		if (s.chance(1, 10)) REQUIRE(THROWS(j.begin() + (m.size() + 1 + s.below(3))), "beyond the end");
	}

	PROP(builders, 3000, 100000, 0, "at least two elements")
	{
		V m = values(s); c.nontrivial_if(m.size() >= 2);
		VectorBuilder<int> vb; SetBuilder<int> sb; MapBuilder<int, int> mb; std::map<int, int> mm;
		for (size_t i = 0; i < m.size(); ++i) { vb % m[i]; sb % m[i]; mb % std::make_pair(m[i], (int)i); mm.insert(std::make_pair(m[i], (int)i)); }
		REQUIRE_EQ(vb.Get(), m); REQUIRE(sb.Get() == std::set<int>(m.begin(), m.end()), ""); REQUIRE(mb.Get() == mm, "");
		V o; En e = source(s, m); std::copy(Wrap(e), WrapEnd(e), std::back_inserter(o)); REQUIRE_EQ(o, m);
		o.clear(); Er er = e->GetEnumerator(); std::copy(Wrap(er), WrapEnd(er), std::back_inserter(o)); REQUIRE_EQ(o, m);
		REQUIRE_EQ(drain(EnumeratorFromStlIterators(m.begin(), m.end())), m);
		REQUIRE_EQ(drain(EnumeratorFromStlContainer(m)), m);
		// life assurance: the container lives as long as an enumerator over it
		Er keep; { shared_ptr<std::vector<int>> v(make_shared_ptr<std::vector<int>>(m)); En e2 = EnumerableFromStlContainer(*v, v); keep = s.coin() ? e2->GetEnumerator() : Er(EnumeratorFromStlContainer(*v, v)); }
		REQUIRE_EQ(drain(keep), m);
		REQUIRE_EQ(drain(MakeOneItemEnumerator(5)), V(1, 5)); Er none = MakeEmptyEnumerator(); REQUIRE(!none->Valid(), "");
	}
}
