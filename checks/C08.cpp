// ENGINE: seq
// Observable collections: replicas fed by notifications alone, compared with the collection after every notification.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/MultiMapObservableDictionary.h>
#include <stingraykit/collection/SortedObservableMultiSet.h>
#include <stingraykit/collection/ObservableSetEntry.h>
#include <stingraykit/collection/ObservableDictionaryKeyValue.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <stingraykit/ObservableValue.h>
#include <algorithm>
#include <map>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	struct HalfLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a / 2 < b / 2; } };
	struct HalfEquals : public comparers::EqualsComparerInfo { bool operator () (int a, int b) const { return a / 2 == b / 2; } };
	struct DownLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a > b; } };
	struct TenEquals : public comparers::EqualsComparerInfo { bool operator () (int a, int b) const { return a / 10 == b / 10; } };
	struct Planned { };

	typedef std::pair<int, int> KV;
	typedef KeyValuePair<int, int> PairT;
	int item(int v) { return v; }
	KV item(const PairT& p) { return KV(p.Key, p.Value); }

	template < typename C > auto items(const C& c) -> std::vector<decltype(item(c.GetEnumerator()->Get()))>
	{
		std::vector<decltype(item(c.GetEnumerator()->Get()))> r;
		for (auto e = c.GetEnumerator(); e->Valid(); e->Next()) r.push_back(item(e->Get()));
		return r;
	}

	// notifications go through this; a failure inside a handler is kept because signals swallow exceptions
	struct Err { std::string what; };
	#define SOFT(Err_, Cond, ...) do { if (!(Cond) && (Err_).what.empty()) { std::ostringstream o_; o_ << #Cond << ": " << __VA_ARGS__; (Err_).what = o_.str(); } } while (false)



	// ---- list -------------------------------------------------------------------------------------------------------
	struct ListEv { int op; size_t i; int v; bool operator == (const ListEv& o) const { return op == o.op && i == o.i && v == o.v; } };
	std::ostream& operator << (std::ostream& o, const ListEv& e) { return o << "{" << e.op << "@" << e.i << ":" << e.v << "}"; }
	enum { A = 0, R = 1, U = 2 };
	int opOf(CollectionOp op) { return op == CollectionOp::Added ? A : op == CollectionOp::Removed ? R : U; }

	struct ListReplica
	{
		std::vector<int> r; Err err; const IReadonlyList<int>* l; bool live; std::vector<ListEv> log; Token t;
		ListReplica(const IReadonlyList<int>* l_) : l(l_), live(false) { }
		void on(CollectionOp op, size_t i, int v)
		{
			log.push_back(ListEv{ opOf(op), i, v });
			switch (opOf(op))
			{
			case A: SOFT(err, i <= r.size(), "Added at " << i << " of " << r.size()); if (i <= r.size()) r.insert(r.begin() + i, v); break;
			case U: SOFT(err, i < r.size(), "Updated at " << i << " of " << r.size()); if (i < r.size()) r[i] = v; break;
			case R: SOFT(err, i < r.size() && r[i] == v, "Removed " << v << " at " << i); if (i < r.size()) r.erase(r.begin() + i); break;
			}
			if (live) SOFT(err, items(*l) == r, "contents " << pbt::show(items(*l)) << ", replica " << pbt::show(r));
		}
	};

	void listHistory(Src& s, Ctx& c)
	{
		typedef ArrayObservableList<int> L;
		std::vector<int> m; shared_ptr<L> l; auto mtx = make_shared_ptr<Mutex>(); bool own = false;
		{
			const std::vector<int> init = [&]() { std::vector<int> v; const size_t n = s.below(5); for (size_t i = 0; i < n; ++i) v.push_back((int)s.below(6)); return v; }();
			const auto e = EnumerableFromStlContainer(init);
			switch (s.below(5))
			{
			case 0: l = make_shared_ptr<L>(); break;
			case 1: l = make_shared_ptr<L>(mtx); own = true; break;
			case 2: l = make_shared_ptr<L>(shared_ptr<IEnumerable<int>>(e)); m = init; break;
			case 3: l = make_shared_ptr<L>(mtx, e->GetEnumerator()); m = init; own = true; break;
			case 4: l = make_shared_ptr<L>(mtx, shared_ptr<IEnumerable<int>>(e)); m = init; own = true; break;
			}
		}
		if (own) REQUIRE(&l->GetSyncRoot() == mtx.get(), "the given mutex is the sync root");
		std::vector<std::unique_ptr<ListReplica>> reps; bool reconnected = false; size_t effective = 0;
		while (s.more(30))
		{
			const int v = (int)s.below(6); const size_t n = m.size(), i = s.below(n + 1);
			const size_t op = s.below(14);
			std::vector<ListEv> want;
			for (auto& r : reps) r->log.clear();
			c.tr("op ", op, " v=", v, " i=", i, " m=", pbt::show(m));
			IObservableList<int>& O = *l; IList<int>& L_ = O;
			switch (op)
			{
			case 0: case 1: want.push_back(ListEv{ A, n, v }); L_.Add(v); m.push_back(v); break;
			case 2: if (i < n) { want.push_back(ListEv{ U, i, v }); L_.Set(i, v); m[i] = v; } else if (s.chance(1, 4)) REQUIRE(THROWS(L_.Set(i, v)), "Set beyond the end"); break;
			case 3: want.push_back(ListEv{ A, i, v }); L_.Insert(i, v); m.insert(m.begin() + i, v); break;
			case 4: if (i < n) { want.push_back(ListEv{ R, i, m[i] }); L_.RemoveAt(i); m.erase(m.begin() + i); } else if (s.chance(1, 4)) REQUIRE(THROWS(L_.RemoveAt(i)), "RemoveAt beyond the end"); break;
			case 5: { auto it = std::find(m.begin(), m.end(), v); const bool e = it != m.end(); if (e) { want.push_back(ListEv{ R, (size_t)(it - m.begin()), v }); m.erase(it); } REQUIRE_EQ(L_.Remove(v), e); } break;
			case 6:
				{
					size_t e = 0; std::vector<int> k; for (int x : m) if ((x ^ v) & 1) { want.push_back(ListEv{ R, k.size(), x }); ++e; } else k.push_back(x);
					m = k;
					REQUIRE_EQ(L_.RemoveAll(fn<bool (const int&)>([=](const int& x) { return ((x ^ v) & 1) != 0; })), e);
				} break;
			case 7: if (s.coin()) { for (int x : m) want.push_back(ListEv{ R, 0, x }); L_.Clear(); m.clear(); } break;
			case 8: case 9: if (reps.size() < 4)
				{
					const bool state = s.chance(7, 8);
					reps.emplace_back(new ListReplica(l.get())); ListReplica* r = reps.back().get();
					if (!state) r->r = m;
					r->live = !state;
					r->t = O.OnChanged().connect(fn<void (CollectionOp, size_t, const int&)>([r](CollectionOp o, size_t i, const int& v) { r->on(o, i, v); }), state);
					REQUIRE_EQX(r->r, m, "the state sent on connection"); if (state) REQUIRE_EQ(r->log.size(), m.size()); else REQUIRE_EQ(r->log.size(), (size_t)0);
					r->live = true; if (!m.empty()) reconnected = true;
					for (auto& q : reps) if (q.get() != r) REQUIRE_EQX(q->log.size(), (size_t)0, "others are not notified of a connection");
					r->log.clear();
				} break;
			case 10: if (!reps.empty()) { reps.erase(reps.begin() + s.below(reps.size())); } break;
			case 11: { ListReplica q(l.get()); O.OnChanged().SendCurrentState(fn<void (CollectionOp, size_t, const int&)>([&](CollectionOp o, size_t i, const int& v) { q.on(o, i, v); })); REQUIRE_EQ(q.r, m); } break;
			default: // a removal predicate that throws half way: what was removed so far was notified
				if (s.chance(1, 8) && n)
				{
					std::vector<int> k; size_t seen = 0; const size_t at = s.below(n + 1);
					for (size_t j = 0; j < n; ++j) if (j >= at || !((m[j] ^ v) & 1)) k.push_back(m[j]); else want.push_back(ListEv{ R, k.size(), m[j] });
					bool threw = false;
					try { L_.RemoveAll(fn<bool (const int&)>([&](const int& x) { if (seen++ == at) throw Planned(); return ((x ^ v) & 1) != 0; })); } catch (const Planned&) { threw = true; }
					REQUIRE_EQ(threw, at < n);
					m = k;
					c.label("predicate threw");
				} break;
			}
			if (!want.empty() && !reps.empty()) ++effective;
			REQUIRE_EQ(items(*l), m); REQUIRE_EQ(l->GetCount(), m.size()); REQUIRE_EQ(l->IsEmpty(), m.empty());
			for (auto& r : reps)
			{
				REQUIRE(r->err.what.empty(), r->err.what);
				REQUIRE_EQX(r->r, m, "replica");
				REQUIRE_EQX(pbt::show(r->log), pbt::show(want), "notifications");
			}
			if (s.chance(1, 8))
			{
				const ObservableCollectionLockerPtr lock = l->Lock(); std::vector<int> back; for (auto e = l->Reverse()->GetEnumerator(); e->Valid(); e->Next()) back.push_back(e->Get());
				REQUIRE_EQ(back, std::vector<int>(m.rbegin(), m.rend()));
				for (int x = 0; x < 7; ++x) { auto it = std::find(m.begin(), m.end(), x); REQUIRE_EQ(l->Contains(x), it != m.end()); const auto ix = l->IndexOf(x); REQUIRE_EQ(ix.is_initialized(), it != m.end()); if (ix) REQUIRE_EQ(*ix, (size_t)(it - m.begin())); }
				for (size_t k = 0; k < m.size(); ++k) { int o = -1; REQUIRE_EQ(l->Get(k), m[k]); REQUIRE(l->TryGet(k, o) && o == m[k], ""); }
			}
		}
		c.nontrivial_if(reconnected && effective >= 5);
	}

	// ---- set --------------------------------------------------------------------------------------------------------
	template < typename T > struct Ev { int op; T v; };
	template < typename T > std::ostream& operator << (std::ostream& o, const Ev<T>& e) { return o << "{" << e.op << ":" << pbt::show(e.v) << "}"; }

	template < typename Less, bool Ordered, bool Multi >
	struct SetModel
	{
		std::vector<int> v; Less less;
		bool eq(int a, int b) const { return !less(a, b) && !less(b, a); }
		int find(int x) const { for (size_t i = 0; i < v.size(); ++i) if (eq(v[i], x)) return (int)i; return -1; }
		bool add(int x) { if (!Multi && find(x) >= 0) return false; auto it = v.end(); if (!Ordered) it = std::upper_bound(v.begin(), v.end(), x, less); v.insert(it, x); return true; }
		bool remove(int x) { const int i = find(x); if (i < 0) return false; v.erase(v.begin() + i); return true; }
	};

	template < typename S, typename Less, bool Ordered, bool Multi >
	struct SetReplica
	{
		SetModel<Less, Ordered, Multi> r; Err err; const S* l; bool live; std::vector<Ev<int>> log; Token t;
		SetReplica(const S* l_) : l(l_), live(false) { }
		void on(CollectionOp op, int v)
		{
			log.push_back(Ev<int>{ opOf(op), v });
			switch (opOf(op))
			{
			case A: SOFT(err, r.add(v), "Added " << v << " twice"); break;
			case R: SOFT(err, r.remove(v), "Removed " << v << " that was not there"); break;
			default: SOFT(err, false, "Updated from a set"); break;
			}
			if (live) SOFT(err, items(*l) == r.v, "contents " << pbt::show(items(*l)) << ", replica " << pbt::show(r.v));
		}
	};

	template < typename S, typename E >
	shared_ptr<S> makeObs(Src& s, const shared_ptr<Mutex>& mtx, const shared_ptr<IEnumerable<E>>& e, bool& filled, bool& own)
	{
		filled = own = false;
		switch (s.below(5))
		{
		case 0: return make_shared_ptr<S>();
		case 1: own = true; return make_shared_ptr<S>(mtx);
		case 2: filled = true; return make_shared_ptr<S>(e);
		case 3: filled = own = true; return make_shared_ptr<S>(mtx, e->GetEnumerator());
		default: filled = own = true; return make_shared_ptr<S>(mtx, e);
		}
	}

	bool setAdd(IObservableSet<int>& q, int v) { return q.Add(v); }
	bool setAdd(IObservableMultiSet<int>& q, int v) { q.Add(v); return true; }
	bool setRemove(IObservableSet<int>& q, int v) { return q.Remove(v); }
	bool setRemove(IObservableMultiSet<int>& q, int v) { return q.RemoveFirst(v); }
	size_t setRemoveAll(IObservableSet<int>& q, int v) { return q.Remove(v) ? 1 : 0; }
	size_t setRemoveAll(IObservableMultiSet<int>& q, int v) { return q.RemoveAll(v); }

	template < typename S, typename Less, bool Ordered, bool Multi >
	void setHistory(Src& s, Ctx& c)
	{
		typedef SetReplica<S, Less, Ordered, Multi> Rep;
		SetModel<Less, Ordered, Multi> m; auto mtx = make_shared_ptr<Mutex>(); bool own, filled;
		std::vector<int> init; for (size_t n = s.below(5), i = 0; i < n; ++i) init.push_back((int)s.below(10));
		auto l = makeObs<S, int>(s, mtx, EnumerableFromStlContainer(init), filled, own);
		if (filled) for (int x : init) m.add(x);
		if (own) REQUIRE(&l->GetSyncRoot() == mtx.get(), "the given mutex is the sync root");
		REQUIRE_EQ(items(*l), m.v);
		std::vector<std::unique_ptr<Rep>> reps; bool reconnected = false; size_t effective = 0;
		while (s.more(30))
		{
			const int v = (int)s.below(10);
			const size_t op = s.below(13);
			std::vector<Ev<int>> want; const std::vector<int> before(m.v);
			for (auto& r : reps) r->log.clear();
			c.tr("op ", op, " v=", v, " m=", pbt::show(m.v));
			S& O = *l;
			switch (op)
			{
			case 0: case 1: case 2: { const bool e = m.add(v); if (e) want.push_back(Ev<int>{ A, v }); REQUIRE_EQ(setAdd(O, v), e); } break;
			case 3: case 4: { const int i = m.find(v); if (i >= 0) want.push_back(Ev<int>{ R, v }); const bool e = m.remove(v); REQUIRE_EQ(setRemove(O, v), e); } break;
			case 5: { size_t e = 0; while (m.find(v) >= 0) { want.push_back(Ev<int>{ R, Multi ? m.v[m.find(v)] : v }); m.remove(v); ++e; } REQUIRE_EQ(setRemoveAll(O, v), e); } break;
			case 6: case 7:
				{
					// equivalent elements are told apart only where the collection holds one of each kind
					std::vector<int> k; size_t e = 0, seen = 0; const int mask = (int)s.below(4); const bool thr = s.chance(1, 8); const size_t at = s.below(m.v.size() + 1);
					const auto p = [=](int x) { return ((x / 2 + mask) & 1) != 0 && (Multi || mask < 2 || x % 3); };
					for (size_t j = 0; j < m.v.size(); ++j) if ((thr && j >= at) || !p(m.v[j])) k.push_back(m.v[j]); else { want.push_back(Ev<int>{ R, m.v[j] }); ++e; }
					bool threw = false; size_t got = e;
					try { got = O.RemoveWhere(fn<bool (const int&)>([&](const int& x) { if (thr && seen++ == at) throw Planned(); return p(x); })); } catch (const Planned&) { threw = true; }
					REQUIRE_EQ(threw, thr && at < m.v.size()); REQUIRE_EQ(got, e);
					m.v = k;
				} break;
			case 8: if (s.coin()) { for (int x : m.v) want.push_back(Ev<int>{ R, x }); O.Clear(); m.v.clear(); } break;
			case 9: case 10: if (reps.size() < 4)
				{
					const bool state = s.chance(7, 8);
					reps.emplace_back(new Rep(l.get())); Rep* r = reps.back().get();
					if (!state) r->r.v = m.v;
					r->live = !state;
					r->t = O.OnChanged().connect(fn<void (CollectionOp, const int&)>([r](CollectionOp o, const int& v) { r->on(o, v); }), state);
					REQUIRE_EQX(r->r.v, m.v, "the state sent on connection"); REQUIRE_EQ(r->log.size(), state ? m.v.size() : (size_t)0);
					r->live = true; if (!m.v.empty()) reconnected = true;
					for (auto& q : reps) if (q.get() != r) REQUIRE_EQX(q->log.size(), (size_t)0, "others are not notified of a connection");
					r->log.clear();
				} break;
			case 11: if (!reps.empty()) { reps.erase(reps.begin() + s.below(reps.size())); } break;
			default: { Rep q(l.get()); O.OnChanged().SendCurrentState(fn<void (CollectionOp, const int&)>([&](CollectionOp o, const int& v) { q.on(o, v); })); REQUIRE_EQ(q.r.v, m.v); REQUIRE(q.err.what.empty(), q.err.what); } break;
			}
			if (!want.empty() && !reps.empty()) ++effective;
			REQUIRE_EQ(items(*l), m.v); REQUIRE_EQ(l->GetCount(), m.v.size()); REQUIRE_EQ(l->IsEmpty(), m.v.empty());
			for (auto& r : reps)
			{
				REQUIRE(r->err.what.empty(), r->err.what);
				REQUIRE_EQX(r->r.v, m.v, "replica");
				REQUIRE_EQX(pbt::show(r->log), pbt::show(want), "notifications");
			}
			if (s.chance(1, 8))
			{
				const ObservableCollectionLockerPtr lock = l->Lock(); std::vector<int> back; for (auto e = l->Reverse()->GetEnumerator(); e->Valid(); e->Next()) back.push_back(e->Get());
				REQUIRE_EQ(back, std::vector<int>(m.v.rbegin(), m.v.rend()));
				for (int x = 0; x < 10; ++x)
				{
					const int i = m.find(x); REQUIRE_EQ(l->Contains(x), i >= 0);
					auto f = l->Find(x); REQUIRE_EQ(f->Valid(), i >= 0); if (i >= 0) REQUIRE_EQ(f->Get(), m.v[i]);
					REQUIRE_EQ(l->ReverseFind(x)->Valid(), i >= 0);
				}
			}
		}
		c.nontrivial_if(reconnected && effective >= 5);
	}

	// ---- dictionary -------------------------------------------------------------------------------------------------
	template < typename Less, bool Ordered, bool Multi >
	struct DictModel
	{
		std::vector<KV> v; Less less;
		bool eq(int a, int b) const { return !less(a, b) && !less(b, a); }
		int find(int k) const { for (size_t i = 0; i < v.size(); ++i) if (eq(v[i].first, k)) return (int)i; return -1; }
		bool add(int k, int x) { if (!Multi && find(k) >= 0) return false; auto it = v.end(); if (!Ordered) it = std::upper_bound(v.begin(), v.end(), KV(k, x), [&](const KV& a, const KV& b) { return less(a.first, b.first); }); v.insert(it, KV(k, x)); return true; }
		bool remove(int k) { const int i = find(k); if (i < 0) return false; v.erase(v.begin() + i); return true; }
		// first entry of the key with an equal value
		bool removeFirst(int k, int x) { for (size_t i = 0; i < v.size(); ++i) if (eq(v[i].first, k) && v[i].second == x) { v.erase(v.begin() + i); return true; } return false; }
	};

	template < typename D, typename Less, bool Ordered, bool Multi >
	struct DictReplica
	{
		DictModel<Less, Ordered, Multi> r; Err err; const D* l; bool live; std::vector<Ev<KV>> log; Token t;
		DictReplica(const D* l_) : l(l_), live(false) { }
		void on(CollectionOp op, int k, int v)
		{
			log.push_back(Ev<KV>{ opOf(op), KV(k, v) });
			switch (opOf(op))
			{
			case A: SOFT(err, r.add(k, v), "Added " << k << " twice"); break;
			case R: SOFT(err, r.removeFirst(k, v), "Removed " << k << ":" << v << " that was not there"); break;
			default: { const int i = r.find(k); SOFT(err, i >= 0 && !Multi, "Updated " << k << " that was not there"); if (i >= 0) r.v[i].second = v; } break;
			}
			if (live) SOFT(err, items(*l) == r.v, "contents " << pbt::show(items(*l)) << ", replica " << pbt::show(r.v));
		}
	};

	template < typename D, typename M > void dictOwn(Src& s, IObservableDictionary<int, int>& O, D&, M& m, int k, int v, std::vector<Ev<KV>>& want)
	{
		const int i = m.find(k);
		switch (s.below(4))
		{
		case 0: { const bool e = m.add(k, v); if (e) want.push_back(Ev<KV>{ A, KV(k, v) }); REQUIRE_EQ(O.Add(k, v), e); } break;
		case 1: case 2: want.push_back(Ev<KV>{ i < 0 ? A : U, KV(k, v) }); if (i < 0) m.add(k, v); else m.v[i].second = v; O.Set(k, v); break;
		case 3: if (i >= 0) want.push_back(Ev<KV>{ R, KV(k, m.v[i].second) }); m.remove(k); REQUIRE_EQ(O.Remove(k), i >= 0); break;
		}
		int o = -1; const int j = m.find(k);
		REQUIRE_EQ(O.TryGet(k, o), j >= 0); if (j >= 0) { REQUIRE_EQ(o, m.v[j].second); REQUIRE_EQ(O.Get(k), o); }
	}
	template < typename D, typename M > void dictOwn(Src& s, IObservableMultiDictionary<int, int>& O, D&, M& m, int k, int v, std::vector<Ev<KV>>& want)
	{
		const int i = m.find(k);
		switch (s.below(5))
		{
		case 0: case 1: m.add(k, v); want.push_back(Ev<KV>{ A, KV(k, v) }); O.Add(k, v); break;
		case 2: if (i >= 0) want.push_back(Ev<KV>{ R, KV(k, m.v[i].second) }); m.remove(k); REQUIRE_EQ(O.RemoveFirst(k), i >= 0); break;
		case 3: { const bool e = m.removeFirst(k, v); if (e) want.push_back(Ev<KV>{ R, KV(k, v) }); REQUIRE_EQ(O.RemoveFirst(k, v), e); } break;
		case 4: { size_t e = 0; while (m.find(k) >= 0) { want.push_back(Ev<KV>{ R, m.v[m.find(k)] }); m.remove(k); ++e; } REQUIRE_EQ(O.RemoveAll(k), e); } break;
		}
		std::vector<int> all, got; for (const KV& x : m.v) if (m.eq(x.first, k)) all.push_back(x.second);
		for (auto e = O.GetAll(k); e->Valid(); e->Next()) got.push_back(e->Get());
		REQUIRE_EQ(got, all); REQUIRE_EQ(O.CountKey(k), all.size()); int o = -1; REQUIRE_EQ(O.TryGetFirst(k, o), !all.empty()); if (!all.empty()) REQUIRE_EQ(o, all.front());
	}

	template < typename D, typename Less, bool Ordered, bool Multi >
	void dictHistory(Src& s, Ctx& c)
	{
		typedef DictReplica<D, Less, Ordered, Multi> Rep;
		DictModel<Less, Ordered, Multi> m; auto mtx = make_shared_ptr<Mutex>(); bool own, filled;
		std::vector<PairT> init; for (size_t n = s.below(5), i = 0; i < n; ++i) { const int k = (int)s.below(8); init.push_back(PairT(k, (int)s.below(5))); }
		if (!Multi) for (size_t i = 0; i < init.size();) { bool dup = false; for (size_t j = 0; j < i; ++j) dup |= m.eq(init[j].Key, init[i].Key); if (dup) init.erase(init.begin() + i); else ++i; }
		auto l = makeObs<D, PairT>(s, mtx, EnumerableFromStlContainer(init), filled, own);
		if (filled) for (auto& x : init) m.add(x.Key, x.Value);
		if (own) REQUIRE(&l->GetSyncRoot() == mtx.get(), "the given mutex is the sync root");
		REQUIRE_EQ(items(*l), m.v);
		std::vector<std::unique_ptr<Rep>> reps; bool reconnected = false; size_t effective = 0;
		while (s.more(30))
		{
			const int k = (int)s.below(8), v = (int)s.below(5);
			const size_t op = s.below(12);
			std::vector<Ev<KV>> want;
			for (auto& r : reps) r->log.clear();
			c.tr("op ", op, " k=", k, " v=", v, " m=", pbt::show(m.v));
			D& O = *l;
			switch (op)
			{
			default: dictOwn(s, O, O, m, k, v, want); break;
			case 6: case 7:
				{
					std::vector<KV> kept; size_t e = 0, seen = 0; const int mask = (int)s.below(4); const bool thr = s.chance(1, 8); const size_t at = s.below(m.v.size() + 1);
					const auto p = [=](int k, int v) { return ((k / 2 + v + mask) & 1) != 0; };
					for (size_t j = 0; j < m.v.size(); ++j) if ((thr && j >= at) || !p(m.v[j].first, m.v[j].second)) kept.push_back(m.v[j]); else { want.push_back(Ev<KV>{ R, m.v[j] }); ++e; }
					bool threw = false; size_t got = e;
					try { got = O.RemoveWhere(fn<bool (const int&, const int&)>([&](const int& k, const int& v) { if (thr && seen++ == at) throw Planned(); return p(k, v); })); } catch (const Planned&) { threw = true; }
					REQUIRE_EQ(threw, thr && at < m.v.size()); REQUIRE_EQ(got, e);
					m.v = kept;
				} break;
			case 8: if (s.coin()) { for (const KV& x : m.v) want.push_back(Ev<KV>{ R, x }); O.Clear(); m.v.clear(); } break;
			case 9: case 10: if (reps.size() < 4)
				{
					const bool state = s.chance(7, 8);
					reps.emplace_back(new Rep(l.get())); Rep* r = reps.back().get();
					if (!state) r->r.v = m.v;
					r->live = !state;
					r->t = O.OnChanged().connect(fn<void (CollectionOp, const int&, const int&)>([r](CollectionOp o, const int& k, const int& v) { r->on(o, k, v); }), state);
					REQUIRE_EQX(r->r.v, m.v, "the state sent on connection"); REQUIRE_EQ(r->log.size(), state ? m.v.size() : (size_t)0);
					r->live = true; if (!m.v.empty()) reconnected = true;
					for (auto& q : reps) if (q.get() != r) REQUIRE_EQX(q->log.size(), (size_t)0, "others are not notified of a connection");
					r->log.clear();
				} break;
			case 11: if (!reps.empty()) { reps.erase(reps.begin() + s.below(reps.size())); } break;
			}
			if (!want.empty() && !reps.empty()) ++effective;
			REQUIRE_EQ(items(*l), m.v); REQUIRE_EQ(l->GetCount(), m.v.size()); REQUIRE_EQ(l->IsEmpty(), m.v.empty());
			for (auto& r : reps)
			{
				REQUIRE(r->err.what.empty(), r->err.what);
				REQUIRE_EQX(r->r.v, m.v, "replica");
				REQUIRE_EQX(pbt::show(r->log), pbt::show(want), "notifications");
			}
			if (s.chance(1, 8))
			{
				const ObservableCollectionLockerPtr lock = l->Lock(); std::vector<KV> back; for (auto e = l->Reverse()->GetEnumerator(); e->Valid(); e->Next()) back.push_back(item(e->Get()));
				REQUIRE_EQ(back, std::vector<KV>(m.v.rbegin(), m.v.rend()));
				for (int x = 0; x < 8; ++x)
				{
					const int i = m.find(x); REQUIRE_EQ(l->ContainsKey(x), i >= 0);
					auto f = l->Find(x); REQUIRE_EQ(f->Valid(), i >= 0); if (i >= 0) REQUIRE_EQ(item(f->Get()), m.v[i]);
					REQUIRE_EQ(l->ReverseFind(x)->Valid(), i >= 0);
				}
			}
		}
		c.nontrivial_if(reconnected && effective >= 5);
	}

	// ---- views of one entry and of the keys -----------------------------------------------------------------------------
	template < typename S, typename Less, typename Eq >
	void setEntry(Src& s, Ctx& c)
	{
		auto set = make_shared_ptr<S>(); shared_ptr<IObservableSet<int>> o = set; SetModel<Less, false, false> m;
		const int key = (int)s.below(6);
		for (size_t n = s.below(3); n; --n) { const int v = (int)s.below(6); o->Add(v); m.add(v); }
		auto e = GetSetEntry(o, key, Eq()); auto ro = GetSetEntry(shared_ptr<IReadonlyObservableSet<int>>(o), key, Eq());
		std::vector<bool> seen[2], want[2]; Token t[2];
		const auto connect = [&](int w) { want[w].push_back(m.find(key) >= 0); auto& q = seen[w]; const auto h = fn<void (bool)>([&q](bool b) { q.push_back(b); }); t[w] = w ? ro->OnChanged().connect(h) : e->OnChanged().connect(h); };
		connect(0); connect(1); int toggles = 0;
		while (s.more(30))
		{
			const int v = (int)s.below(6); const bool was = m.find(key) >= 0;
			switch (s.below(8))
			{
			case 0: o->Add(v); m.add(v); break;
			case 1: o->Remove(v); m.remove(v); break;
			case 2: e->Set(true); m.add(key); break;
			case 3: e->Set(false); m.remove(key); break;
			case 4: if (s.chance(1, 4)) { o->Clear(); m.v.clear(); } break;
			case 5: { const int w = (int)s.below(2); t[w].Reset(); connect(w); } break;
			case 6: o->Add(key); m.add(key); break;
			case 7: o->Remove(key); m.remove(key); break;
			}
			const bool is = m.find(key) >= 0;
			if (is != was) { ++toggles; for (auto& w : want) w.push_back(is); }
			REQUIRE_EQ(e->Get(), is); REQUIRE_EQ(ro->Get(), is); REQUIRE_EQ(items(*set), m.v);
			for (int w = 0; w < 2; ++w) REQUIRE_EQX(pbt::show(std::vector<int>(seen[w].begin(), seen[w].end())), pbt::show(std::vector<int>(want[w].begin(), want[w].end())), "listener " + std::to_string(w));
			REQUIRE(&e->GetSyncRoot() == &o->GetSyncRoot(), "");
		}
		c.nontrivial_if(toggles >= 3);
	}

	template < typename D, typename Less, typename Eq >
	void dictEntry(Src& s, Ctx& c)
	{
		auto dict = make_shared_ptr<D>(); shared_ptr<IObservableDictionary<int, int>> o = dict; DictModel<Less, false, false> m;
		const int key = (int)s.below(6);
		for (size_t n = s.below(3); n; --n) { const int k = (int)s.below(6); o->Add(k, 1); m.add(k, 1); }
		auto e = GetDictionaryKeyValue(o, key, Eq()); auto ro = GetDictionaryKeyValue(shared_ptr<IReadonlyObservableDictionary<int, int>>(o), key, Eq());
		auto keys = GetDictionaryKeys(o);
		std::vector<int> seen[2], want[2]; Token t[2];
		const auto state = [&]() { const int i = m.find(key); return i < 0 ? -1 : m.v[i].second; };
		const auto connect = [&](int w) { want[w].push_back(state()); auto& q = seen[w]; const auto h = fn<void (const optional<int>&)>([&q](const optional<int>& b) { q.push_back(b ? *b : -1); }); t[w] = w ? ro->OnChanged().connect(h) : e->OnChanged().connect(h); };
		connect(0); connect(1); int toggles = 0;
		SetModel<Less, false, false> kr; Err err;
		Token kt = keys->OnChanged().connect(fn<void (CollectionOp, const int&)>([&](CollectionOp op, const int& k) {
			switch (opOf(op)) { case A: SOFT(err, kr.add(k), "key " << k << " added twice"); break; case R: SOFT(err, kr.remove(k), "key " << k << " removed but unknown"); break; default: SOFT(err, false, "Updated from a key set"); } }));
		while (s.more(30))
		{
			const int k = (int)s.below(6), v = (int)s.below(4); const int was = state(); bool notify = false;
			switch (s.below(10))
			{
			case 0: if (m.add(k, v)) notify = m.eq(k, key); o->Add(k, v); break;
			case 1: if (m.remove(k)) notify = m.eq(k, key); o->Remove(k); break;
			case 2: o->Set(k, v); { const int i = m.find(k); if (i < 0) m.add(k, v); else m.v[i].second = v; } notify = m.eq(k, key); break;
			case 3: case 4: e->Set(v); { const int i = m.find(key); if (i < 0) m.add(key, v); else m.v[i].second = v; } notify = true; break;
			case 5: e->Set(null); notify = m.remove(key); break;
			case 6: if (s.chance(1, 4)) { notify = m.find(key) >= 0; o->Clear(); m.v.clear(); } break;
			case 7: { const int w = (int)s.below(2); t[w].Reset(); connect(w); } break;
			case 8: o->Set(key, v); { const int i = m.find(key); if (i < 0) m.add(key, v); else m.v[i].second = v; } notify = true; break;
			case 9: notify = m.remove(key); o->Remove(key); break;
			}
			const int is = state();
			if (notify) { ++toggles; for (auto& w : want) w.push_back(is); }
			(void)was;
			const optional<int> g = e->Get(), rg = ro->Get();
			REQUIRE_EQ(g ? *g : -1, is); REQUIRE_EQ(rg ? *rg : -1, is); REQUIRE_EQ(items(*dict), m.v);
			for (int w = 0; w < 2; ++w) REQUIRE_EQX(pbt::show(seen[w]), pbt::show(want[w]), "listener " + std::to_string(w));
			std::vector<int> ks; for (auto& x : m.v) ks.push_back(x.first);
			REQUIRE(err.what.empty(), err.what); REQUIRE_EQ(kr.v.size(), ks.size()); for (int x : ks) REQUIRE(kr.find(x) >= 0, "key " << x);
			REQUIRE_EQ(items(*keys), ks); REQUIRE_EQ(keys->GetCount(), ks.size()); REQUIRE_EQ(keys->IsEmpty(), ks.empty());
			if (s.chance(1, 4))
			{
				std::vector<int> back; for (auto e2 = keys->Reverse()->GetEnumerator(); e2->Valid(); e2->Next()) back.push_back(e2->Get());
				REQUIRE_EQ(back, std::vector<int>(ks.rbegin(), ks.rend()));
				for (int x = 0; x < 6; ++x) { REQUIRE_EQ(keys->Contains(x), m.find(x) >= 0); auto f = keys->Find(x); REQUIRE_EQ(f->Valid(), m.find(x) >= 0); if (f->Valid()) REQUIRE_EQ(f->Get(), m.v[m.find(x)].first); }
			}
		}
		c.nontrivial_if(toggles >= 3);
	}

	template < typename OV, bool Populate(int, int), typename Eq >
	void obsValue(Src& s, Ctx& c, bool hasDefault)
	{
		int cur = hasDefault ? 0 : (int)s.below(30);
		OV v(cur); Eq eq; int changes = 0;
		struct L { std::vector<int> seen, want; Token t; };
		std::vector<std::unique_ptr<L>> ls;
		while (s.more(25))
		{
			const int x = (int)s.below(30);
			switch (s.below(6))
			{
			case 0: case 1: case 2:
				if (!eq(cur, x)) { cur = x; for (auto& l : ls) l->want.push_back(x); ++changes; }
				v.Set(x);
				break;
			case 3: if (ls.size() < 4) { ls.emplace_back(new L); L* l = ls.back().get(); if (Populate(cur, 0)) l->want.push_back(cur); l->t = v.OnChanged().connect(fn<void (const int&)>([l](const int& q) { l->seen.push_back(q); })); } break;
			case 4: if (!ls.empty()) ls.erase(ls.begin() + s.below(ls.size())); break;
			case 5: v.Set(cur); break;
			}
			REQUIRE_EQ(v.Get(), cur);
			for (auto& l : ls) REQUIRE_EQX(pbt::show(l->seen), pbt::show(l->want), "listener");
		}
		c.nontrivial_if(changes >= 3);
	}
	bool always(int, int) { return true; }
	bool differs(int v, int) { return v != 0; }
	bool never(int, int) { return false; }
}

PROP(list, 3000, 60000, pbt::LeakCheck, "a listener connected to a non-empty list, at least 5 notified changes")
{ listHistory(s, c); }

PROP(sorted_set, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty set, at least 5 notified changes")
{ if (s.chance(3, 4)) setHistory<SortedObservableSet<int>, std::less<int>, false, false>(s, c); else if (s.coin()) setHistory<SortedObservableSet<int, DownLess>, DownLess, false, false>(s, c); else setHistory<SortedObservableSet<int, HalfLess>, HalfLess, false, false>(s, c); }

PROP(flat_sorted_set, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty set, at least 5 notified changes")
{ if (s.chance(3, 4)) setHistory<FlatSortedObservableSet<int>, std::less<int>, false, false>(s, c); else setHistory<FlatSortedObservableSet<int, HalfLess>, HalfLess, false, false>(s, c); }

PROP(insertion_set, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty set, at least 5 notified changes")
{ setHistory<OrderedObservableSet<int>, std::less<int>, true, false>(s, c); }

PROP(multi_set, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty multiset, at least 5 notified changes")
{ if (s.chance(3, 4)) setHistory<SortedObservableMultiSet<int>, std::less<int>, false, true>(s, c); else setHistory<SortedObservableMultiSet<int, DownLess>, DownLess, false, true>(s, c); }

PROP(map_dictionary, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty dictionary, at least 5 notified changes")
{ if (s.chance(3, 4)) dictHistory<MapObservableDictionary<int, int>, std::less<int>, false, false>(s, c); else dictHistory<MapObservableDictionary<int, int, HalfLess>, HalfLess, false, false>(s, c); }

PROP(flat_dictionary, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty dictionary, at least 5 notified changes")
{ if (s.chance(3, 4)) dictHistory<FlatMapObservableDictionary<int, int>, std::less<int>, false, false>(s, c); else dictHistory<FlatMapObservableDictionary<int, int, HalfLess>, HalfLess, false, false>(s, c); }

PROP(insertion_dictionary, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty dictionary, at least 5 notified changes")
{ dictHistory<OrderedObservableDictionary<int, int>, std::less<int>, true, false>(s, c); }

PROP(multi_dictionary, 2500, 50000, pbt::LeakCheck, "a listener connected to a non-empty multidictionary, at least 5 notified changes")
{ if (s.chance(3, 4)) dictHistory<MultiMapObservableDictionary<int, int>, std::less<int>, false, true>(s, c); else dictHistory<MultiMapObservableDictionary<int, int, DownLess>, DownLess, false, true>(s, c); }

PROP(set_entry, 2000, 40000, pbt::LeakCheck, "the entry toggled at least 3 times")
{ if (s.coin()) setEntry<SortedObservableSet<int>, std::less<int>, comparers::Equals>(s, c); else setEntry<FlatSortedObservableSet<int, HalfLess>, HalfLess, HalfEquals>(s, c); }

PROP(dictionary_entry, 2000, 40000, pbt::LeakCheck, "the entry changed at least 3 times")
{ if (s.coin()) dictEntry<MapObservableDictionary<int, int>, std::less<int>, comparers::Equals>(s, c); else dictEntry<FlatMapObservableDictionary<int, int, HalfLess>, HalfLess, HalfEquals>(s, c); }

PROP(observable_value, 3000, 60000, pbt::LeakCheck, "the value changed at least 3 times")
{
	if (s.chance(1, 4)) { obsValue<ObservableValue<int, comparers::Equals, ObservableValuePolicies::DisabledPopulation>, never, std::equal_to<int>>(s, c, false); return; }
	if (s.chance(1, 4)) { obsValue<ObservableValue<int, comparers::Equals, ObservableValuePolicies::ConditionalPopulation>, differs, std::equal_to<int>>(s, c, false); return; }
	if (s.coin()) obsValue<ObservableValue<int>, always, std::equal_to<int>>(s, c, false); else obsValue<ObservableValue<int, TenEquals>, always, TenEquals>(s, c, false); }

// RemoveWhere on a multiset with distinguishable equivalent elements removes the first equivalent one instead of the matching one
KNOWN(multi_set_remove_where_equivalent, "SortedObservableMultiSet::RemoveWhere removes the first equivalent element instead of the one the predicate matched (ordering coarser than equality: {2, 3} compared by value/2, RemoveWhere(x == 3) leaves 3)")
{
	SortedObservableMultiSet<int, HalfLess> l; l.Add(2); l.Add(3);
	REQUIRE_EQ(l.RemoveWhere(fn<bool (const int&)>([](const int& x) { return x == 3; })), (size_t)1);
	REQUIRE_EQ(items(l), std::vector<int>(1, 2));
}
