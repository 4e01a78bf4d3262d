// ENGINE: seq
// Range adaptors against list computations. Compositions are generated at run time over type-erased ranges (AnyB:
// bidirectional, AnyR: random access), plus fixed compositions over real containers for the reference-returning paths.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/iterators.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/algorithm.h>
#include <stingraykit/shared_ptr.h>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <forward_list>
#include <memory>
#include <algorithm>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<int> V;

	struct IAny
	{
		virtual ~IAny() { }
		virtual IAny* clone() const = 0;
		virtual bool valid() const = 0;
		virtual int get() const = 0;
		virtual bool eq(const IAny& o) const = 0;
		virtual void first() = 0; virtual void next() = 0; virtual void last() = 0; virtual void prev() = 0;
		virtual size_t pos() const = 0; virtual size_t size() const = 0; virtual void move(int d) = 0;
	};
	template < typename R, bool Random, bool Back = true >
	struct AnyImpl : IAny
	{
		optional<R> r;
		explicit AnyImpl(const R& r_) : r(r_) { }
		IAny* clone() const override { return new AnyImpl(*r); }
		bool valid() const override { return r->Valid(); }
		int get() const override { return r->Get(); }
		bool eq(const IAny& o) const override { const AnyImpl* p = dynamic_cast<const AnyImpl*>(&o); return p && r->Equals(*p->r); }
		void first() override { r->First(); } void next() override { r->Next(); } void last() override { r->Last(); } void prev() override { back(std::integral_constant<bool, Back>()); }
		void back(std::true_type) { r->Prev(); } void back(std::false_type) { FAIL("not bidirectional"); }
		size_t pos() const override { return pos_(std::integral_constant<bool, Random>()); }
		size_t size() const override { return size_(std::integral_constant<bool, Random>()); }
		void move(int d) override { move_(d, std::integral_constant<bool, Random>()); }
		size_t pos_(std::true_type) const { return r->GetPosition(); } size_t pos_(std::false_type) const { FAIL("not random access"); }
		size_t size_(std::true_type) const { return r->GetSize(); } size_t size_(std::false_type) const { FAIL("not random access"); }
		void move_(int d, std::true_type) { r->Move(d); } void move_(int, std::false_type) { FAIL("not random access"); }
	};
	template < typename Cat >
	struct Erased : Range::RangeBase<Erased<Cat>, int, Cat>
	{
		std::shared_ptr<IAny> p;
		explicit Erased(IAny* q) : p(q) { }
		Erased(const Erased& o) : p(o.p->clone()) { }
		Erased& operator = (const Erased& o) { p.reset(o.p->clone()); return *this; }
		bool Valid() const { return p->valid(); }
		int Get() const { return p->get(); }
		bool Equals(const Erased& o) const { return p->eq(*o.p); }
		Erased& First() { p->first(); return *this; } Erased& Next() { p->next(); return *this; } Erased& Last() { p->last(); return *this; } Erased& Prev() { p->prev(); return *this; }
		size_t GetPosition() const { return p->pos(); } size_t GetSize() const { return p->size(); } Erased& Move(int d) { p->move(d); return *this; }
	};
	typedef Erased<std::bidirectional_iterator_tag> B;
	typedef Erased<std::random_access_iterator_tag> R;
	template < typename X > B mkB(const X& x) { return B(new AnyImpl<X, false>(x)); }
	template < typename X > R mkR(const X& x) { return R(new AnyImpl<X, true>(x)); }

	struct Caps { bool random, prevFromEnd; };

	V values(Src& s, size_t max = 8) { V r; for (size_t n = s.size(max); n; --n) r.push_back((int)s.draw(12) - 3); return r; }
	std::function<bool(int)> pred(Src& s)
	{
		const int arg = (int)s.draw(12) - 3;
		switch (s.weighted({4, 4, 3, 3, 1, 1})) { case 0: return [](int x) { return x % 2 == 0; }; case 1: return [arg](int x) { return x < arg; }; case 2: return [arg](int x) { return x == arg; }; case 3: return [arg](int x) { return x != arg; }; case 4: return [](int) { return false; }; default: return [](int) { return true; }; }
	}
	std::function<int(int)> func(Src& s) { const int arg = (int)s.draw(5); switch (s.below(3)) { case 0: return [arg](int x) { return x + arg; }; case 1: return [](int x) { return -x; }; default: return [](int x) { return x * x % 11; }; } }

	// moves the cursor at random and compares with the list
	template < typename X >
	void walk(Src& s, X r, const V& m, bool back, bool prevFromEnd, bool random, unsigned steps = 12)
	{
		size_t pos = 0; bool moved = false;
		r.First();
		auto check = [&]() {
			REQUIRE_EQX(r.Valid(), pos < m.size(), "at " + std::to_string(pos) + " of " + std::to_string(m.size()));
			if (pos < m.size()) { REQUIRE_EQX((int)r.Get(), m[pos], "at " + std::to_string(pos)); }
		};
		check();
		while (s.more(steps))
		{
			switch (s.below(8))
			{
			case 0: r.First(); pos = 0; break;
			case 1: if (!back) continue; r.Last(); pos = m.empty() ? 0 : m.size() - 1; break;
			case 2: case 3: case 4: if (pos >= m.size()) continue; r.Next(); ++pos; break;
			default:
				if (!back || pos == 0 || (pos == m.size() && !prevFromEnd)) continue;
				r.Prev(); --pos; moved = true; break;
			}
			check();
			if (s.chance(1, 6))
			{
				X copy(r);
				REQUIRE(copy == r, "copy differs from its original");
				if (pos < m.size()) { copy.Next(); REQUIRE(!(copy == r), "different positions compare equal"); REQUIRE(copy != r, ""); }
				check();
			}
		}
		// complete passes
		V got; for (r.First(); r.Valid(); r.Next()) { got.push_back(r.Get()); REQUIRE(got.size() <= m.size(), "delivers more than " << m.size()); }
		REQUIRE_EQ(got, m);
		if (back && !m.empty())
		{
			got.clear(); r.Last();
			for (size_t i = 0; i < m.size(); ++i) { REQUIRE(r.Valid(), ""); got.push_back(r.Get()); if (i + 1 < m.size()) r.Prev(); }
			REQUIRE_EQX(got, V(m.rbegin(), m.rend()), "backwards");
		}
		(void)moved; (void)random;
	}
	template < typename X >
	void walkRandom(Src& s, X r, const V& m)
	{
		size_t pos = 0; r.First();
		while (s.more(10))
		{
			const size_t to = s.below(m.size() + 1); const int d = (int)to - (int)pos;
			switch (s.below(4)) { case 0: r.Move(d); break; case 1: r += d; break; case 2: r -= -d; break; default: { X t = s.coin() ? r + d : r - (-d); REQUIRE_EQ((int)(t - r), d); r.Move(d); REQUIRE(t == r, "moved copy differs"); break; } }
			pos = to;
			REQUIRE_EQ((size_t)r.GetPosition(), pos); REQUIRE_EQ((size_t)r.GetSize(), m.size());
			REQUIRE_EQ(r.Valid(), pos < m.size()); if (pos < m.size()) REQUIRE_EQ((int)r.Get(), m[pos]);
			if (pos > 0 && s.coin()) { r.Prev(); --pos; REQUIRE(r.Valid(), "invalid after Prev"); REQUIRE_EQ((int)r.Get(), m[pos]); REQUIRE_EQ((size_t)r.GetPosition(), pos); }
			if (pos < m.size() && s.coin()) { r.Next(); ++pos; REQUIRE_EQ((size_t)r.GetPosition(), pos); REQUIRE_EQ(r.Valid(), pos < m.size()); }
			if (s.chance(1, 20)) REQUIRE(THROWS(r.Move((int)(m.size() - pos) + 1)), "moved behind the end");
			if (s.chance(1, 20)) REQUIRE(THROWS(r.Move(-(int)pos - 1)), "moved before the beginning");
		}
		REQUIRE_EQ(r.end() - r.begin(), (ptrdiff_t)m.size());
	}

	struct NR { V m; std::vector<R> r; int depth; };		// vector of 0/1 elements: R has no default constructor
	struct NB { V m; std::vector<B> b; int depth; bool fromEnd; };

	// keeps the containers of a case alive
	struct Pool { std::list<V> vs; std::list<std::list<int>> ls; std::list<std::deque<int>> ds; };

	R randomSource(Src& s, Pool& p, const V& m)
	{
		if (m.size() == 1 && s.coin()) return mkR(Range::Single(m[0]));
		if (s.coin()) { p.vs.push_back(m); return mkR(ToRange(p.vs.back())); }
		p.ds.push_back(std::deque<int>(m.begin(), m.end())); return mkR(ToRange(p.ds.back().begin(), p.ds.back().end()));
	}

	NR buildR(Src& s, Ctx& c, Pool& p, int depth)
	{
		NR n;
		if (!depth || s.chance(1, 6)) { n.m = values(s); n.r.push_back(randomSource(s, p, n.m)); n.depth = 0; return n; }
		NR a = buildR(s, c, p, depth - 1); n.depth = a.depth + 1; const bool pipe = s.coin();
		switch (s.below(4))
		{
		case 0: { auto f = func(s); for (int x : a.m) n.m.push_back(f(x)); n.r.push_back(pipe ? mkR(a.r[0] | Transform(f)) : mkR(Range::Transform(a.r[0], f))); c.tr("transform"); break; }
		case 1: { const size_t k = s.chance(1, 10) ? (size_t)s.integer<uint64_t>() : s.below(a.m.size() + 3); n.m.assign(a.m.begin() + std::min(k, a.m.size()), a.m.end()); n.r.push_back(pipe ? mkR(a.r[0] | Drop(k)) : mkR(Range::Drop(a.r[0], k))); c.tr("drop ", k); break; }
		case 2: { const size_t k = s.chance(1, 10) ? (size_t)s.integer<uint64_t>() : s.below(a.m.size() + 3); n.m.assign(a.m.begin(), a.m.begin() + std::min(k, a.m.size())); n.r.push_back(pipe ? mkR(a.r[0] | Take(k)) : mkR(Range::Take(a.r[0], k))); c.tr("take ", k); break; }
		default: n.m.assign(a.m.rbegin(), a.m.rend()); n.r.push_back(pipe ? mkR(a.r[0] | Reverse()) : mkR(Range::Reverse(a.r[0]))); c.tr("reverse"); break;
		}
		return n;
	}

	PROP(random_access, 20000, 800000, 0, "at least two adaptors with a non-empty result")
	{
		Pool p; NR n = buildR(s, c, p, 1 + (int)s.below(4));
		c.nontrivial_if(n.depth >= 2 && !n.m.empty());
		walkRandom(s, n.r[0], n.m);
		walk(s, n.r[0], n.m, true, true, true);
	}

	struct ToVec { Pool* p; };

	NB buildB(Src& s, Ctx& c, Pool& p, int depth)
	{
		NB n; n.fromEnd = true;
		if (!depth || s.chance(1, 6))
		{
			n.depth = 0;
			if (s.coin()) { NR a = buildR(s, c, p, (int)s.below(3)); n.m = a.m; n.b.push_back(mkB(a.r[0])); return n; }
			n.m = values(s); p.ls.push_back(std::list<int>(n.m.begin(), n.m.end())); n.b.push_back(mkB(ToRange(p.ls.back()))); return n;
		}
		NB a = buildB(s, c, p, depth - 1); n.depth = a.depth + 1; n.fromEnd = a.fromEnd; const bool pipe = s.coin();
		switch (s.below(9))
		{
		case 0: case 1: { auto f = pred(s); for (int x : a.m) if (f(x)) n.m.push_back(x); n.b.push_back(pipe ? mkB(a.b[0] | Filter(f)) : mkB(Range::Filter(a.b[0], f))); c.tr("filter"); break; }
		case 2: { auto f = func(s); for (int x : a.m) n.m.push_back(f(x)); n.b.push_back(pipe ? mkB(a.b[0] | Transform(f)) : mkB(Range::Transform(a.b[0], f))); c.tr("transform"); break; }
		case 3: { const size_t k = s.below(a.m.size() + 3); n.m.assign(a.m.begin() + std::min(k, a.m.size()), a.m.end()); n.b.push_back(pipe ? mkB(a.b[0] | Drop(k)) : mkB(Range::Drop(a.b[0], k))); c.tr("drop ", k); break; }
		case 4: { const size_t k = s.below(a.m.size() + 3); n.m.assign(a.m.begin(), a.m.begin() + std::min(k, a.m.size())); n.b.push_back(pipe ? mkB(a.b[0] | Take(k)) : mkB(Range::Take(a.b[0], k))); c.tr("take ", k); break; }
		case 5: n.fromEnd = true; n.m.assign(a.m.rbegin(), a.m.rend()); n.b.push_back(pipe ? mkB(a.b[0] | Reverse()) : mkB(Range::Reverse(a.b[0]))); c.tr("reverse"); break;
		case 6:
			{
				NB b = buildB(s, c, p, depth - 1); n.m = a.m; n.m.insert(n.m.end(), b.m.begin(), b.m.end()); n.fromEnd = false;
				n.depth = std::max(a.depth, b.depth) + 1;
				if (s.coin()) n.b.push_back(mkB(Range::Concat(a.b[0], b.b[0])));
				else { const V one = values(s); p.vs.push_back(one); n.m.insert(n.m.begin() + a.m.size(), one.begin(), one.end()); n.b.push_back(mkB(Range::Concat(a.b[0], mkB(ToRange(p.vs.back())), b.b[0]))); }
				c.tr("concat"); break;
			}
		case 7:
			{
				// every element x expands to a stored vector
				std::shared_ptr<std::vector<V>> parts(new std::vector<V>()); for (int i = 0; i < 3; ++i) parts->push_back(values(s, 3));
				std::function<V(int)> f = [parts](int x) { return (*parts)[(size_t)(x < 0 ? -x : x) % 3]; };
				for (int x : a.m) { const V v = f(x); n.m.insert(n.m.end(), v.begin(), v.end()); }
				std::function<const V&(int)> g = [parts](int x) -> const V& { return (*parts)[(size_t)(x < 0 ? -x : x) % 3]; };
				// a vector of vectors kept alive by the pool, flattened
				static thread_local std::list<std::vector<V>> keep; keep.push_back(std::vector<V>()); if (keep.size() > 64) keep.pop_front();
				for (int x : a.m) keep.back().push_back(f(x));
				n.fromEnd = false;
				n.b.push_back(mkB(Range::Flatten(ToRange(keep.back()))));
				c.tr("flatten"); break;
			}
		default:
			{
				NB b = buildB(s, c, p, depth - 1);
				const size_t z = std::min(a.m.size(), b.m.size()); for (size_t i = 0; i < z; ++i) n.m.push_back(a.m[i] * 3 + b.m[i]);
				// zippers are forward ranges: freeze the result into a list through them
				V got; auto f = fn<int(int, int)>([](int x, int y) { return x * 3 + y; });
				auto zip = Range::Zip(f, a.b[0], b.b[0]);
				for (; zip.Valid(); zip.Next()) { got.push_back(zip.Get()); REQUIRE(got.size() < 5000, ""); }
				REQUIRE_EQX(got, n.m, "zip");
				walk(s, zip, n.m, false, false, false, 5);
				if (!n.m.empty() && a.fromEnd && b.fromEnd) { auto z2 = zip; z2.Last(); REQUIRE(z2.Valid(), "last of a zip"); REQUIRE_EQ(z2.Get(), n.m.back()); }
				p.vs.push_back(got); n.b.push_back(mkB(ToRange(p.vs.back()))); n.fromEnd = true; n.depth = std::max(a.depth, b.depth) + 1;
				c.tr("zip"); break;
			}
		}
		return n;
	}

	PROP(bidirectional, 20000, 800000, 0, "at least two adaptors with a non-empty result")
	{
		Pool p; NB n = buildB(s, c, p, 1 + (int)s.below(4));
		c.nontrivial_if(n.depth >= 2 && !n.m.empty());
		c.label_if(n.depth >= 4, "four or more adaptors");
		walk(s, n.b[0], n.m, true, n.fromEnd, false);
		// standard iteration
		V got; for (int x : IterableRange(n.b[0])) got.push_back(x);
		REQUIRE_EQ(got, n.m);
		got.clear(); { B e = n.b[0].end(); for (B i = n.b[0].begin(); i != e; ++i) { got.push_back(*i); REQUIRE(got.size() <= n.m.size(), "endless"); } } REQUIRE_EQX(got, n.m, "begin to end");
		// cycle
		if (!n.m.empty())
		{
			auto cy = Range::Cycle(n.b[0]); long pos = 0; const long N = (long)n.m.size();
			while (s.more(12))
			{
				REQUIRE(cy.Valid(), ""); REQUIRE_EQX((int)cy.Get(), n.m[(size_t)(((pos % N) + N) % N)], "cycle");
				switch (s.below(5)) { case 0: cy.First(); pos = 0; break; case 1: cy.Last(); pos = N - 1; break; case 2: cy.Prev(); --pos; break; default: cy.Next(); ++pos; }
			}
			const size_t k = s.below(3 * n.m.size() + 1); V exp; for (size_t i = 0; i < k; ++i) exp.push_back(n.m[i % n.m.size()]);
			got.clear(); Range::ForEach(Range::Take(Range::Cycle(n.b[0]), k), fn<void(int)>([&](int x) { got.push_back(x); })); REQUIRE_EQX(got, exp, "take of cycle");
		}
		else REQUIRE(THROWS(Range::Cycle(n.b[0])), "cycle of nothing");
	}

	template < typename O > bool eqOpt(const O& o, bool has, int v) { return has ? (bool)o && *o == v : !o; }

	PROP(algorithms, 20000, 800000, 0, "the range has at least two elements")
	{
		Pool pool; NB n = buildB(s, c, pool, (int)s.below(3)); const V& m = n.m; const B& r = n.b[0];
		c.nontrivial_if(m.size() >= 2);
		auto p = pred(s); const int v = (int)s.draw(12) - 3; V sel; for (int x : m) if (p(x)) sel.push_back(x);
		const bool has = std::find(m.begin(), m.end(), v) != m.end();
		REQUIRE_EQ(Range::Count(r), m.size()); REQUIRE_EQ(r | Count(), m.size()); REQUIRE_EQ(r | Any(), !m.empty());
		{ V g; Range::ForEach(r, fn<void(int)>([&](int x) { g.push_back(x); })); REQUIRE_EQ(g, m); }
		if (m.empty()) { if (s.chance(1, 8)) REQUIRE(THROWS(Range::First(r)), ""); } else { REQUIRE_EQ(Range::First(r), m[0]); REQUIRE_EQ(r | First(), m[0]); }
		REQUIRE(eqOpt(Range::FirstOrDefault(r), !m.empty(), m.empty() ? 0 : m[0]), ""); REQUIRE(eqOpt(r | FirstOrDefault(), !m.empty(), m.empty() ? 0 : m[0]), "");
		REQUIRE_EQ(Range::FirstOrDefault(r, v), m.empty() ? v : m[0]);
		REQUIRE_EQ(Range::Contains(r, v), has); REQUIRE_EQ(Range::Contains(r, p), !sel.empty());
		REQUIRE(eqOpt(Range::IndexOf(r, v), has, (int)(std::find(m.begin(), m.end(), v) - m.begin())), "index of value");
		REQUIRE(eqOpt(Range::IndexOf(r, p), !sel.empty(), (int)(std::find_if(m.begin(), m.end(), p) - m.begin())), "index of predicate");
		REQUIRE_EQ(Range::AnyOf(r, p), !sel.empty()); REQUIRE_EQ(Range::AllOf(r, p), sel.size() == m.size()); REQUIRE_EQ(Range::NoneOf(r, p), sel.empty());
		const size_t i = s.below(m.size() + 2);
		if (i < m.size()) REQUIRE_EQ(Range::ElementAt(r, i), m[i]); else if (s.chance(1, 8)) REQUIRE(THROWS(Range::ElementAt(r, i)), "");
		REQUIRE(eqOpt(Range::ElementAtOrDefault(r, i), i < m.size(), i < m.size() ? m[i] : 0), ""); REQUIRE_EQ(Range::ElementAtOrDefault(r, i, v), i < m.size() ? m[i] : v);
		int sum = 0; for (int x : m) sum += x; REQUIRE_EQ(Range::Sum(r), sum);
		// extremes: the first smallest and the first greatest; the comparer looks at half the value so that ties show
		auto half = [](int a, int b) { return (a + 100) / 2 < (b + 100) / 2; };
		REQUIRE(eqOpt(Range::MinElement(r), !m.empty(), m.empty() ? 0 : *std::min_element(m.begin(), m.end())), ""); REQUIRE(eqOpt(Range::MaxElement(r), !m.empty(), m.empty() ? 0 : *std::max_element(m.begin(), m.end())), "");
		REQUIRE(eqOpt(Range::MinElement(r, half), !m.empty(), m.empty() ? 0 : *std::min_element(m.begin(), m.end(), half)), "min by comparer"); REQUIRE(eqOpt(Range::MaxElement(r, half), !m.empty(), m.empty() ? 0 : *std::max_element(m.begin(), m.end(), half)), "max by comparer");
		{ int e = 0; for (size_t k = 0; k < m.size(); ++k) e = k ? (e * 3 - m[k]) % 97 : m[0]; REQUIRE(eqOpt(Range::Fold(r, fn<int(int, int)>([](int a, int b) { return (a * 3 - b) % 97; })), !m.empty(), e), "fold"); }
		{ long e = v; for (int x : m) e = (e * 5 + x) % 1009; REQUIRE_EQ(Range::Fold(r, (long)v, fn<long(long, int)>([](long a, int b) { return (a * 5 + b) % 1009; })), e); }
		{ V out; Range::Copy(r, std::back_inserter(out)); REQUIRE_EQ(out, m); V dst(m.size() + s.below(3), 77); auto d = ToRange(dst); auto rest = Range::Copy(r, d); V exp = m; exp.resize(dst.size(), 77); REQUIRE_EQ(dst, exp); REQUIRE_EQ(Range::Count(rest), dst.size() - m.size()); }
		if (!m.empty() && s.chance(1, 8)) { V small(m.size() - 1, 0); auto d = ToRange(small); REQUIRE(THROWS(Range::Copy(r, d)), "copied more than fits"); }
	}

	// --- fixed compositions over real containers: values are references into them ---------------------------------------
	PROP(references, 8000, 300000, 0, "a non-empty container modified through a composition")
	{
		V v = values(s); std::list<int> l(v.begin(), v.end()); std::deque<int> d(v.begin(), v.end());
		c.nontrivial_if(v.size() >= 2);
		auto p = pred(s); const size_t k = s.below(v.size() + 2);
		{ V m = v; auto r = ToRange(v) | Filter(p); for (; r.Valid(); r.Next()) r.Get() += 100; for (int& x : m) if (p(x)) x += 100; REQUIRE_EQ(v, m); }
		{ V m(l.begin(), l.end()); auto r = ToRange(l) | Reverse() | Drop(k); for (; r.Valid(); ++r) *r = -5; for (size_t i = 0; i + k < m.size(); ++i) m[i] = -5; REQUIRE_EQ(V(l.begin(), l.end()), m); }
		{ V m(d.begin(), d.end()); auto r = ToRange(d) | Take(k) | Reverse(); for (; r.Valid(); ++r) *r += 7; for (size_t i = 0; i < std::min(k, m.size()); ++i) m[i] += 7; REQUIRE_EQ(V(d.begin(), d.end()), m); }
		// maps: keys and values
		std::map<int, std::string> mp; for (size_t n = s.size(6); n; --n) { const int key = (int)s.draw(9); mp[key] = s.text("xy", 3); }
		V keys; std::vector<std::string> vals; for (auto& e : mp) { keys.push_back(e.first); vals.push_back(e.second); }
		walk(s, Range::MapKeys(ToRange(mp)), keys, true, true, false, 6);
		{ std::vector<std::string> g; auto r = Range::MapValues(ToRange(mp)); for (; r.Valid(); r.Next()) { g.push_back(r.Get()); REQUIRE_EQ(r->size(), g.back().size()); } REQUIRE_EQ(g, vals); }
		{ V g(keys_iterator(mp.begin()), keys_iterator(mp.end())); REQUIRE_EQ(g, keys); std::vector<std::string> w(values_iterator(mp.begin()), values_iterator(mp.end())); REQUIRE_EQ(w, vals); auto it = values_iterator(mp.end()); for (size_t i = vals.size(); i--; ) { --it; REQUIRE_EQ(*it, vals[i]); } for (auto i2 = values_iterator(mp.begin()); i2 != values_iterator(mp.end()); ++i2) *i2 += "!"; for (auto& e : mp) REQUIRE(!e.second.empty() && e.second.back() == '!', ""); REQUIRE(keys_iterator(mp.begin()).base() == mp.begin(), ""); }
		{ std::map<int, std::string> dstm; dstm[3] = "old"; auto exp = dstm; for (auto& e : mp) exp[e.first] = e.second; std::copy(mp.begin(), mp.end(), update_iterator(dstm)); REQUIRE(dstm == exp, "update iterator"); }
		{ std::set<int> st(keys.begin(), keys.end()); std::set<int> e; for (int x : st) if (!p(x)) e.insert(x); erase_if(st, p); REQUIRE(st == e, "erase_if"); std::list<int> li(keys.begin(), keys.end()); struct L { static bool even(int x) { return x % 2 == 0; } }; }
		// arrays and pairs of iterators
		{ int arr[4] = { 4, 3, 2, 1 }; V e(arr, arr + 4); walk(s, ToRange(arr), e, true, true, true, 4); auto pr = std::make_pair(e.begin() + 1, e.end()); walk(s, ToRange(pr), V(e.begin() + 1, e.end()), true, true, true, 4); }
		// splitting into fragments
		{
			const size_t f = 1 + s.below(4); std::vector<V> exp; for (size_t i = 0; i < v.size(); i += f) exp.push_back(V(v.begin() + i, v.begin() + std::min(i + f, v.size())));
			auto vec = [](const Range::IteratorRange<V::const_iterator>& x) { V g; for (auto q = x; q.Valid(); q.Next()) g.push_back(q.Get()); return g; };
			auto r = Range::Split(v, f); size_t pos = 0; const V& cv = v; (void)cv;
			for (int pass = 0; pass < 2; ++pass) { std::vector<V> g; for (r.First(); r.Valid(); r.Next()) g.push_back(vec(r.Get())); REQUIRE_EQ(g, exp); }
			r.First();
			while (s.more(6))
			{
				switch (s.below(4)) { case 0: r.First(); pos = 0; break; case 1: r.Last(); pos = exp.empty() ? 0 : exp.size() - 1; break; case 2: if (pos == exp.size()) continue; r.Next(); ++pos; break; default: if (!pos) continue; r.Prev(); --pos; break; }
				REQUIRE_EQX(r.Valid(), pos < exp.size(), "fragment " + std::to_string(pos) + " of " + std::to_string(exp.size())); if (pos < exp.size()) REQUIRE_EQ(vec(r.Get()), exp[pos]);
			}
			V fl; auto fr = Range::Flatten(Range::Split(v, f)); for (; fr.Valid(); fr.Next()) fl.push_back(fr.Get()); REQUIRE_EQ(fl, v);
			const auto sr = Range::Split(d.begin(), d.end(), f); size_t cnt = Range::Count(sr); REQUIRE_EQ(cnt, (d.size() + f - 1) / f);
		}
		// forward-only container
		{ std::forward_list<int> fl(v.begin(), v.end()); V g; auto r = ToRange(fl) | Filter(p) | Take(k); for (; r.Valid(); r.Next()) g.push_back(r.Get()); V e; for (int x : v) if (p(x) && e.size() < k) e.push_back(x); REQUIRE_EQ(g, e); }
	}

	struct Shape { int id; explicit Shape(int i) : id(i) { } virtual ~Shape() { } };
	struct Round : virtual Shape { explicit Round(int i) : Shape(i) { } };
	struct Flat : virtual Shape { explicit Flat(int i) : Shape(i) { } };
	struct RoundFlat : Round, Flat { explicit RoundFlat(int i) : Shape(i), Round(i), Flat(i) { } };

	PROP(typed, 8000, 300000, pbt::LeakCheck, "objects of at least two dynamic types")
	{
		typedef shared_ptr<Shape> SP; typedef shared_ptr<Round> RP;
		std::vector<SP> v; std::vector<int> rounds; int kinds = 0;
		for (size_t n = s.size(8); n; --n) { const size_t k = s.below(4); const int id = (int)v.size(); kinds |= 1 << k; switch (k) { case 0: v.push_back(make_shared_ptr<Shape>(id)); break; case 1: v.push_back(make_shared_ptr<Round>(id)); break; case 2: v.push_back(make_shared_ptr<Flat>(id)); break; default: v.push_back(make_shared_ptr<RoundFlat>(id)); } if (k & 1) rounds.push_back(id); }
		c.nontrivial_if(kinds & (kinds - 1));
		auto id = fn<int(const RP&)>([](const RP& p) { REQUIRE(p, "null"); return p->id; });
		walk(s, Range::OfType<RP>(ToRange(v)) | Transform(id), rounds, true, true, false, 10);
		{ auto r = ToRange(v) | OfType<RP>(); r.Last(); REQUIRE_EQ(r.Valid(), !rounds.empty()); if (r.Valid()) REQUIRE_EQ(r.Get()->id, rounds.back()); REQUIRE_EQ(r.end() == r, !r.Valid()); }
		std::vector<RP> rv; for (auto& p : v) if (RP q = dynamic_caster(p)) rv.push_back(q);
		auto sid = fn<int(const SP&)>([](const SP& p) { return p->id; });
		walk(s, ToRange(rv) | Cast<SP>() | Transform(sid), rounds, true, true, true, 8);
		walkRandom(s, ToRange(rv) | Cast<SP>() | Transform(sid), rounds);
	}
}
