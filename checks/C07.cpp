// ENGINE: seq
// GenericList / GenericSet / GenericDictionary / SortedMultiSet / MultiMapDictionary against plain sequences; every
// enumerator, reversed view and find result is kept for a while and must keep delivering what it was created over.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/FlatSortedSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/FlatMapDictionary.h>
#include <stingraykit/collection/OrderedDictionary.h>
#include <stingraykit/collection/SortedMultiSet.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <deque>
#include <algorithm>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	struct HalfLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a / 2 < b / 2; } };
	struct DownLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a > b; } };
	struct TenEquals : public comparers::EqualsComparerInfo { bool operator () (int a, int b) const { return a / 10 == b / 10; } };

	typedef std::pair<int, int> KV;
	typedef KeyValuePair<int, int> PairT;
	int item(int v) { return v; }
	KV item(const PairT& p) { return KV(p.Key, p.Value); }

	// things handed out earlier, with what they must still deliver
	template < typename T, typename M >
	struct Snaps
	{
		struct E { shared_ptr<IEnumerator<T>> e; shared_ptr<IEnumerable<T>> v; std::vector<M> left; int born; };
		std::vector<E> all; int mutations; bool survived;
		Snaps() : mutations(0), survived(false) { }
		void add(const shared_ptr<IEnumerator<T>>& e, const std::vector<M>& x) { REQUIRE(e, "no enumerator"); E r; r.e = e; r.left = x; r.born = mutations; all.push_back(r); }
		void addView(const shared_ptr<IEnumerable<T>>& v, const std::vector<M>& x) { REQUIRE(v, "no view"); E r; r.v = v; r.left = x; r.born = mutations; all.push_back(r); }
		void finish(E& x)
		{
			if (mutations > x.born && !x.left.empty()) survived = true;
			shared_ptr<IEnumerator<T>> e = x.v ? x.v->GetEnumerator() : x.e;
			for (size_t i = 0; i < x.left.size(); ++i) { REQUIRE(e->Valid(), "ended after " << i << " of " << x.left.size()); REQUIRE_EQ(item(e->Get()), x.left[i]); e->Next(); }
			REQUIRE(!e->Valid(), "delivers more than its snapshot");
		}
		void step(Src& s)
		{
			if (all.empty()) return;
			const size_t i = s.below(all.size());
			switch (s.below(5))
			{
			case 0: case 1: all.erase(all.begin() + i); break;
			case 2: finish(all[i]); if (all[i].e) { if (s.chance(1, 16)) { REQUIRE(THROWS(all[i].e->Get()), "an exhausted enumerator has no item"); REQUIRE(THROWS(all[i].e->Next()), ""); } all.erase(all.begin() + i); } break;
			default:
				if (all[i].v) { finish(all[i]); break; }
				REQUIRE_EQ(all[i].e->Valid(), !all[i].left.empty());
				if (!all[i].left.empty()) { REQUIRE_EQ(item(all[i].e->Get()), all[i].left.front()); all[i].e->Next(); all[i].left.erase(all[i].left.begin()); }
				break;
			}
		}
		void end() { for (auto& x : all) finish(x); }
	};

	template < typename C > std::vector<decltype(item(std::declval<typename C::ItemType>()))> items(const C& c)
	{
		std::vector<decltype(item(std::declval<typename C::ItemType>()))> r;
		for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) r.push_back(item(e->Get()));
		return r;
	}
	template < typename T > std::vector<T> rev(std::vector<T> v) { std::reverse(v.begin(), v.end()); return v; }
	template < typename T > std::vector<T> from(const std::vector<T>& v, size_t i) { return std::vector<T>(v.begin() + i, v.end()); }
	template < typename T > std::vector<T> downFrom(const std::vector<T>& v, size_t i) { return rev(std::vector<T>(v.begin(), v.begin() + i + 1)); }

	// ---- list -------------------------------------------------------------------------------------------------------
	template < typename L >
	void listHistory(Src& s, Ctx& c)
	{
		const size_t N = 2;
		std::vector<shared_ptr<L>> l(N); std::vector<int> m[N]; Snaps<int, int> sn;
		for (auto& x : l) x = make_shared_ptr<L>();
		while (s.more(40))
		{
			const size_t a = s.below(N), b = s.below(N);
			const int v = (int)s.below(6);
			std::vector<int>& M = m[a]; const size_t n = M.size(), i = s.below(n + 1);
			const size_t op = s.below(17);
			c.tr("op ", op, " a=", a, " b=", b, " v=", v, " i=", i);
			const std::vector<int> before(M);
			IList<int>& L_ = *l[a]; const IReadonlyList<int>& R = L_;
			switch (op)
			{
			case 0: case 1: case 2: L_.Add(v); M.push_back(v); break;
			case 3: if (i < n) { L_.Set(i, v); M[i] = v; } else if (s.chance(1, 4)) REQUIRE(THROWS(L_.Set(i, v)), "Set beyond the end"); break;
			case 4: L_.Insert(i, v); M.insert(M.begin() + i, v); if (s.chance(1, 16)) REQUIRE(THROWS(L_.Insert(n + 2, v)), "Insert beyond the end"); break;
			case 5: if (i < n) { L_.RemoveAt(i); M.erase(M.begin() + i); } else if (s.chance(1, 4)) REQUIRE(THROWS(L_.RemoveAt(i)), "RemoveAt beyond the end"); break;
			case 6: { auto it = std::find(M.begin(), M.end(), v); const bool e = it != M.end(); if (e) M.erase(it); REQUIRE_EQ(L_.Remove(v), e); } break;
			case 7: { size_t e = 0; for (size_t k = 0; k < M.size();) if ((M[k] ^ v) & 1) { M.erase(M.begin() + k); ++e; } else ++k; REQUIRE_EQ(L_.RemoveAll(fn<bool (const int&)>([=](const int& x) { return ((x ^ v) & 1) != 0; })), e); } break;
			case 8: if (s.chance(1, 2)) { L_.Clear(); M.clear(); } break;
			case 9: { const std::vector<int> o(m[b]); *l[a] = *l[b]; M = o; } break;
			case 10: { auto t = make_shared_ptr<L>(*l[b]); const std::vector<int> o(m[b]); l[a] = t; M = o; } break;
			case 11: { auto t = s.coin() ? make_shared_ptr<L>(shared_ptr<IEnumerable<int>>(l[b])) : make_shared_ptr<L>(l[b]->GetEnumerator()); const std::vector<int> o(m[b]); l[a] = t; M = o; } break;
			case 12: sn.add(R.GetEnumerator(), M); break;
			case 13: sn.addView(R.Reverse(), rev(M)); break;
			case 14: { auto e = R.GetEnumerator(); std::vector<int> left(M); for (size_t k = 0; k < i; ++k) { e->Next(); left.erase(left.begin()); } sn.add(e, left); } break;
			default: sn.step(s); break;
			}
			if (!(M == before)) ++sn.mutations;
			for (size_t k = 0; k < N; ++k)
			{
				const IReadonlyList<int>& Q = *l[k];
				REQUIRE_EQ(Q.GetCount(), m[k].size()); REQUIRE_EQ(Q.IsEmpty(), m[k].empty());
				for (size_t p = 0; p < m[k].size(); ++p) { int o = -1; REQUIRE_EQ(Q.Get(p), m[k][p]); REQUIRE(Q.TryGet(p, o), ""); REQUIRE_EQ(o, m[k][p]); }
				int o = -7; REQUIRE(!Q.TryGet(m[k].size() + s.below(2), o), ""); REQUIRE_EQ(o, -7);
				if (s.chance(1, 32)) REQUIRE(THROWS(Q.Get(m[k].size())), "Get beyond the end");
				for (int x = 0; x < 7; ++x)
				{
					auto it = std::find(m[k].begin(), m[k].end(), x);
					REQUIRE_EQ(Q.Contains(x), it != m[k].end());
					const optional<size_t> ix = Q.IndexOf(x);
					REQUIRE_EQ(ix.is_initialized(), it != m[k].end()); if (ix) REQUIRE_EQ(*ix, (size_t)(it - m[k].begin()));
				}
				if (s.chance(1, 4)) REQUIRE_EQ(items(Q), m[k]);	// not always: enumerating marks the storage as shared
			}
		}
		sn.end();
		for (size_t k = 0; k < N; ++k) { REQUIRE_EQ(items(*l[k]), m[k]); REQUIRE_EQ(items(*l[k]->Reverse()), rev(m[k])); }
		c.nontrivial_if(sn.survived);
	}
}
PROP(array_list, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { listHistory<ArrayList<int>>(s, c); }
PROP(deque_list, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { listHistory<GenericList<std::deque<int>>>(s, c); }

// ---- sets -----------------------------------------------------------------------------------------------------------
namespace
{
	template < typename Less, bool Ordered >
	struct SetModel
	{
		std::vector<int> v;
		static bool same(int a, int b) { return !Less()(a, b) && !Less()(b, a); }
		int find(int x) const { for (size_t i = 0; i < v.size(); ++i) if (same(v[i], x)) return (int)i; return -1; }
		bool add(int x) { if (find(x) >= 0) return false; v.insert(Ordered ? v.end() : std::upper_bound(v.begin(), v.end(), x, Less()), x); return true; }
		bool remove(int x) { const int i = find(x); if (i < 0) return false; v.erase(v.begin() + i); return true; }
		bool operator == (const SetModel& o) const { return v == o.v; }
	};

	template < typename S, typename Less, bool Ordered >
	void setHistory(Src& s, Ctx& c)
	{
		const size_t N = 2;
		std::vector<shared_ptr<S>> l(N); SetModel<Less, Ordered> m[N]; Snaps<int, int> sn;
		for (auto& x : l) x = make_shared_ptr<S>();
		while (s.more(40))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(16);
			const int v = (int)s.below(9);
			auto& M = m[a];
			c.tr("op ", op, " a=", a, " b=", b, " v=", v);
			const auto before(M);
			ISet<int>& L_ = *l[a]; const IReadonlySet<int>& R = L_;
			switch (op)
			{
			case 0: case 1: case 2: case 3: { const bool e = M.add(v); REQUIRE_EQ(L_.Add(v), e); } break;
			case 4: case 5: { const bool e = M.remove(v); REQUIRE_EQ(L_.Remove(v), e); } break;
			case 6: { size_t e = 0; for (size_t k = 0; k < M.v.size();) if (((M.v[k] / 2) ^ v) & 1) { M.v.erase(M.v.begin() + k); ++e; } else ++k; REQUIRE_EQ(L_.RemoveWhere(fn<bool (const int&)>([=](const int& x) { return (((x / 2) ^ v) & 1) != 0; })), e); } break;
			case 7: if (s.chance(1, 2)) { L_.Clear(); M.v.clear(); } break;
			case 8: { const auto o(m[b]); *l[a] = *l[b]; M = o; } break;
			case 9: { auto t = s.coin() ? make_shared_ptr<S>(*l[b]) : s.coin() ? make_shared_ptr<S>(shared_ptr<IEnumerable<int>>(l[b])) : make_shared_ptr<S>(l[b]->GetEnumerator()); const auto o(m[b]); l[a] = t; M = o; } break;
			case 10: sn.add(R.GetEnumerator(), M.v); break;
			case 11: sn.addView(R.Reverse(), rev(M.v)); break;
			case 12: { const int i = M.find(v); sn.add(R.Find(v), i < 0 ? std::vector<int>() : from(M.v, i)); } break;
			case 13: { const int i = M.find(v); sn.add(R.ReverseFind(v), i < 0 ? std::vector<int>() : downFrom(M.v, i)); } break;
			default: sn.step(s); break;
			}
			if (!(M == before)) ++sn.mutations;
			for (size_t k = 0; k < N; ++k)
			{
				const IReadonlySet<int>& Q = *l[k];
				REQUIRE_EQ(Q.GetCount(), m[k].v.size()); REQUIRE_EQ(Q.IsEmpty(), m[k].v.empty());
				for (int x = -1; x < 10; ++x) REQUIRE_EQ(Q.Contains(x), m[k].find(x) >= 0);
				if (s.chance(1, 4)) REQUIRE_EQ(items(Q), m[k].v);
			}
		}
		sn.end();
		for (size_t k = 0; k < N; ++k) { REQUIRE_EQ(items(*l[k]), m[k].v); REQUIRE_EQ(items(*l[k]->Reverse()), rev(m[k].v)); }
		c.nontrivial_if(sn.survived);
	}
}
PROP(sorted_set, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) setHistory<SortedSet<int>, comparers::Less, false>(s, c); else setHistory<SortedSet<int, HalfLess>, HalfLess, false>(s, c); }
PROP(flat_sets, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) setHistory<FlatSortedSet<int, DownLess>, DownLess, false>(s, c); else setHistory<FlatSortedSet<int, HalfLess>, HalfLess, false>(s, c); }
PROP(ordered_sets, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) setHistory<OrderedSet<int>, comparers::Less, true>(s, c); else setHistory<OrderedSet<int, HalfLess>, HalfLess, true>(s, c); }

// ---- dictionaries ---------------------------------------------------------------------------------------------------
namespace
{
	template < typename Less, bool Ordered >
	struct DictModel
	{
		std::vector<KV> v;
		static bool same(int a, int b) { return !Less()(a, b) && !Less()(b, a); }
		int find(int x) const { for (size_t i = 0; i < v.size(); ++i) if (same(v[i].first, x)) return (int)i; return -1; }
		bool add(int k, int x)
		{
			if (find(k) >= 0) return false;
			size_t i = v.size();
			if (!Ordered) { i = 0; while (i < v.size() && !Less()(k, v[i].first)) ++i; }
			v.insert(v.begin() + i, KV(k, x));
			return true;
		}
		void set(int k, int x) { const int i = find(k); if (i >= 0) v[i].second = x; else add(k, x); }
		bool remove(int x) { const int i = find(x); if (i < 0) return false; v.erase(v.begin() + i); return true; }
		bool operator == (const DictModel& o) const { return v == o.v; }
	};

	template < typename S, typename Less, bool Ordered >
	void dictHistory(Src& s, Ctx& c)
	{
		const size_t N = 2;
		std::vector<shared_ptr<S>> l(N); DictModel<Less, Ordered> m[N]; Snaps<PairT, KV> sn;
		for (auto& x : l) x = make_shared_ptr<S>();
		while (s.more(40))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(18);
			const int k = (int)s.below(9), v = (int)s.below(50);
			auto& M = m[a];
			c.tr("op ", op, " a=", a, " b=", b, " k=", k, " v=", v);
			const auto before(M);
			IDictionary<int, int>& L_ = *l[a]; const IReadonlyDictionary<int, int>& R = L_;
			switch (op)
			{
			case 0: case 1: case 2: { const bool e = M.add(k, v); REQUIRE_EQ(L_.Add(k, v), e); } break;
			case 3: case 4: case 5: M.set(k, v); L_.Set(k, v); break;
			case 6: case 7: { const bool e = M.remove(k); REQUIRE_EQ(L_.Remove(k), e); } break;
			case 8: { size_t e = 0; for (size_t i = 0; i < M.v.size();) if ((M.v[i].first ^ M.v[i].second ^ v) & 1) { M.v.erase(M.v.begin() + i); ++e; } else ++i; REQUIRE_EQ(L_.RemoveWhere(fn<bool (const int&, const int&)>([=](const int& x, const int& y) { return ((x ^ y ^ v) & 1) != 0; })), e); } break;
			case 9: if (s.chance(1, 2)) { L_.Clear(); M.v.clear(); } break;
			case 10: { const auto o(m[b]); *l[a] = *l[b]; M = o; } break;
			case 11: { auto t = s.coin() ? make_shared_ptr<S>(*l[b]) : s.coin() ? make_shared_ptr<S>(shared_ptr<IEnumerable<PairT>>(l[b])) : make_shared_ptr<S>(l[b]->GetEnumerator()); const auto o(m[b]); l[a] = t; M = o; } break;
			case 12: sn.add(R.GetEnumerator(), M.v); break;
			case 13: sn.addView(R.Reverse(), rev(M.v)); break;
			case 14: { const int i = M.find(k); sn.add(R.Find(k), i < 0 ? std::vector<KV>() : from(M.v, i)); } break;
			case 15: { const int i = M.find(k); sn.add(R.ReverseFind(k), i < 0 ? std::vector<KV>() : downFrom(M.v, i)); } break;
			default: sn.step(s); break;
			}
			if (!(M == before)) ++sn.mutations;
			for (size_t i = 0; i < N; ++i)
			{
				const IReadonlyDictionary<int, int>& Q = *l[i];
				REQUIRE_EQ(Q.GetCount(), m[i].v.size()); REQUIRE_EQ(Q.IsEmpty(), m[i].v.empty());
				for (int x = -1; x < 10; ++x)
				{
					const int f = m[i].find(x); int o = -7;
					REQUIRE_EQ(Q.ContainsKey(x), f >= 0); REQUIRE_EQ(Q.TryGet(x, o), f >= 0); REQUIRE_EQ(o, f >= 0 ? m[i].v[f].second : -7);
					if (f >= 0) REQUIRE_EQ(Q.Get(x), m[i].v[f].second); else if (!s.draw(200)) REQUIRE(THROWS(Q.Get(x)), "Get of a missing key");
				}
				if (s.chance(1, 4)) REQUIRE_EQ(items(Q), m[i].v);
			}
		}
		sn.end();
		for (size_t i = 0; i < N; ++i) { REQUIRE_EQ(items(*l[i]), m[i].v); REQUIRE_EQ(items(*l[i]->Reverse()), rev(m[i].v)); }
		c.nontrivial_if(sn.survived);
	}
}
PROP(map_dictionary, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) dictHistory<MapDictionary<int, int>, comparers::Less, false>(s, c); else dictHistory<MapDictionary<int, int, HalfLess>, HalfLess, false>(s, c); }
PROP(flat_dictionary, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) dictHistory<FlatMapDictionary<int, int, DownLess>, DownLess, false>(s, c); else dictHistory<FlatMapDictionary<int, int, HalfLess>, HalfLess, false>(s, c); }
PROP(ordered_dictionary, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) dictHistory<OrderedDictionary<int, int>, comparers::Less, true>(s, c); else dictHistory<OrderedDictionary<int, int, HalfLess>, HalfLess, true>(s, c); }

// ---- multisets and multidictionaries --------------------------------------------------------------------------------
namespace
{
	template < typename S, typename Less >
	void multiSetHistory(Src& s, Ctx& c)
	{
		const size_t N = 2;
		std::vector<shared_ptr<S>> l(N); std::vector<int> m[N]; Snaps<int, int> sn;
		for (auto& x : l) x = make_shared_ptr<S>();
		auto lo = [](const std::vector<int>& v, int x) { return (size_t)(std::lower_bound(v.begin(), v.end(), x, Less()) - v.begin()); };
		auto hi = [](const std::vector<int>& v, int x) { return (size_t)(std::upper_bound(v.begin(), v.end(), x, Less()) - v.begin()); };
		while (s.more(40))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(17);
			const int v = (int)s.below(7);
			auto& M = m[a];
			c.tr("op ", op, " a=", a, " b=", b, " v=", v);
			const auto before(M);
			const size_t x = lo(M, v), y = hi(M, v);
			IMultiSet<int>& L_ = *l[a]; const IReadonlyMultiSet<int>& R = L_;
			switch (op)
			{
			case 0: case 1: case 2: case 3: L_.Add(v); M.insert(M.begin() + y, v); break;
			case 4: { const bool e = x != y; if (e) M.erase(M.begin() + x); REQUIRE_EQ(L_.RemoveFirst(v), e); } break;
			case 5: { const size_t e = y - x; M.erase(M.begin() + x, M.begin() + y); REQUIRE_EQ(L_.RemoveAll(v), e); } break;
			case 6: { size_t e = 0; for (size_t k = 0; k < M.size();) if ((M[k] ^ v) & 1) { M.erase(M.begin() + k); ++e; } else ++k; REQUIRE_EQ(L_.RemoveWhere(fn<bool (const int&)>([=](const int& z) { return ((z ^ v) & 1) != 0; })), e); } break;
			case 7: if (s.chance(1, 2)) { L_.Clear(); M.clear(); } break;
			case 8: { const auto o(m[b]); *l[a] = *l[b]; M = o; } break;
			case 9: { auto t = s.coin() ? make_shared_ptr<S>(*l[b]) : s.coin() ? make_shared_ptr<S>(shared_ptr<IEnumerable<int>>(l[b])) : make_shared_ptr<S>(l[b]->GetEnumerator()); const auto o(m[b]); l[a] = t; M = o; } break;
			case 10: sn.add(R.GetEnumerator(), M); break;
			case 11: sn.addView(R.Reverse(), rev(M)); break;
			case 12: sn.add(R.Find(v), x == y ? std::vector<int>() : from(M, x)); break;
			case 13: case 14: sn.add(R.ReverseFind(v), x == y ? std::vector<int>() : downFrom(M, y - 1)); break;
			default: sn.step(s); break;
			}
			if (!(M == before)) ++sn.mutations;
			for (size_t k = 0; k < N; ++k)
			{
				const IReadonlyMultiSet<int>& Q = *l[k];
				REQUIRE_EQ(Q.GetCount(), m[k].size()); REQUIRE_EQ(Q.IsEmpty(), m[k].empty());
				for (int z = -1; z < 8; ++z) { const size_t n = hi(m[k], z) - lo(m[k], z); REQUIRE_EQ(Q.Contains(z), n > 0); REQUIRE_EQ(Q.Count(z), n); }
				if (s.chance(1, 4)) REQUIRE_EQ(items(Q), m[k]);
			}
		}
		sn.end();
		for (size_t k = 0; k < N; ++k) { REQUIRE_EQ(items(*l[k]), m[k]); REQUIRE_EQ(items(*l[k]->Reverse()), rev(m[k])); }
		c.nontrivial_if(sn.survived);
	}

	template < typename S, typename Less, typename VEq >
	void multiDictHistory(Src& s, Ctx& c)
	{
		const size_t N = 2;
		typedef std::vector<KV> V;
		std::vector<shared_ptr<S>> l(N); V m[N]; Snaps<PairT, KV> sn; Snaps<int, int> vals;
		for (auto& x : l) x = make_shared_ptr<S>();
		auto lo = [](const V& v, int x) { size_t i = 0; while (i < v.size() && Less()(v[i].first, x)) ++i; return i; };
		auto hi = [](const V& v, int x) { size_t i = 0; while (i < v.size() && !Less()(x, v[i].first)) ++i; return i; };
		while (s.more(40))
		{
			const size_t a = s.below(N), b = s.below(N), op = s.below(20);
			const int k = (int)s.below(7), v = (int)s.below(30);
			auto& M = m[a];
			c.tr("op ", op, " a=", a, " b=", b, " k=", k, " v=", v);
			const auto before(M);
			const size_t x = lo(M, k), y = hi(M, k);
			IMultiDictionary<int, int>& L_ = *l[a]; const IReadonlyMultiDictionary<int, int>& R = L_;
			switch (op)
			{
			case 0: case 1: case 2: case 3: L_.Add(k, v); M.insert(M.begin() + y, KV(k, v)); break;
			case 4: { const bool e = x != y; if (e) M.erase(M.begin() + x); REQUIRE_EQ(L_.RemoveFirst(k), e); } break;
			case 5: case 6:
				{
					int w = v;
					if (x != y && s.coin()) w = M[x + s.below(y - x)].second;
					size_t i = x;
					while (i != y && !VEq()(w, M[i].second)) ++i;
					const bool e = i != y;
					if (e) M.erase(M.begin() + i);
					REQUIRE_EQ(L_.RemoveFirst(k, w), e);
					break;
				}
			case 7: { const size_t e = y - x; M.erase(M.begin() + x, M.begin() + y); REQUIRE_EQ(L_.RemoveAll(k), e); } break;
			case 8: { size_t e = 0; for (size_t i = 0; i < M.size();) if ((M[i].first ^ M[i].second ^ v) & 1) { M.erase(M.begin() + i); ++e; } else ++i; REQUIRE_EQ(L_.RemoveWhere(fn<bool (const int&, const int&)>([=](const int& p, const int& q) { return ((p ^ q ^ v) & 1) != 0; })), e); } break;
			case 9: if (s.chance(1, 2)) { L_.Clear(); M.clear(); } break;
			case 10: { const auto o(m[b]); *l[a] = *l[b]; M = o; } break;
			case 11: { auto t = s.coin() ? make_shared_ptr<S>(*l[b]) : s.coin() ? make_shared_ptr<S>(shared_ptr<IEnumerable<PairT>>(l[b])) : make_shared_ptr<S>(l[b]->GetEnumerator()); const auto o(m[b]); l[a] = t; M = o; } break;
			case 12: sn.add(R.GetEnumerator(), M); break;
			case 13: sn.addView(R.Reverse(), rev(M)); break;
			case 14: sn.add(R.Find(k), x == y ? V() : from(M, x)); break;
			case 15: case 16: sn.add(R.ReverseFind(k), x == y ? V() : downFrom(M, y - 1)); break;
			case 17: { std::vector<int> e; for (size_t i = x; i < y; ++i) e.push_back(M[i].second); vals.add(R.GetAll(k), e); } break;
			default: sn.step(s); vals.step(s); break;
			}
			if (!(M == before)) { ++sn.mutations; ++vals.mutations; }
			for (size_t i = 0; i < N; ++i)
			{
				const IReadonlyMultiDictionary<int, int>& Q = *l[i];
				REQUIRE_EQ(Q.GetCount(), m[i].size()); REQUIRE_EQ(Q.IsEmpty(), m[i].empty());
				for (int z = -1; z < 8; ++z)
				{
					const size_t p = lo(m[i], z), n = hi(m[i], z) - p; int o = -7;
					REQUIRE_EQ(Q.ContainsKey(z), n > 0); REQUIRE_EQ(Q.CountKey(z), n); REQUIRE_EQ(Q.TryGetFirst(z, o), n > 0);
					if (n) { REQUIRE_EQ(Q.GetFirst(z), m[i][p].second); REQUIRE_EQ(o, m[i][p].second); } else if (!s.draw(200)) REQUIRE(THROWS(Q.GetFirst(z)), "GetFirst of a missing key");
				}
				if (s.chance(1, 4)) REQUIRE_EQ(items(Q), m[i]);
			}
		}
		sn.end(); vals.end();
		for (size_t k = 0; k < N; ++k) { REQUIRE_EQ(items(*l[k]), m[k]); REQUIRE_EQ(items(*l[k]->Reverse()), rev(m[k])); }
		c.nontrivial_if(sn.survived || vals.survived);
	}
}
PROP(sorted_multiset, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) multiSetHistory<SortedMultiSet<int>, comparers::Less>(s, c); else multiSetHistory<SortedMultiSet<int, HalfLess>, HalfLess>(s, c); }
PROP(multimap_dictionary, 30000, 300000, pbt::LeakCheck, "an enumerator or view with items left outlived a mutation") { if (s.coin()) multiDictHistory<MultiMapDictionary<int, int>, comparers::Less, comparers::Equals>(s, c); else multiDictHistory<MultiMapDictionary<int, int, HalfLess, TenEquals>, HalfLess, TenEquals>(s, c); }
