// ENGINE: seq
// Transactional collections: a committed model and a pending model per transaction; listeners that only see diffs.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalDictionaryKeyValue.h>
#include <stingraykit/collection/DictionaryKeysSet.h>
#include <algorithm>
#include <map>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	struct DownLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a > b; } };
	struct TenEquals : public comparers::EqualsComparerInfo { bool operator () (int a, int b) const { return a / 10 == b / 10; } };
	struct Err { std::string what; };
	#define SOFT(Err_, Cond, ...) do { if (!(Cond) && (Err_).what.empty()) { std::ostringstream o_; o_ << #Cond << ": " << __VA_ARGS__; (Err_).what = o_.str(); } } while (false)

	typedef std::pair<int, int> KV;
	int item(int v) { return v; }
	KV item(const KeyValuePair<int, int>& p) { return KV(p.Key, p.Value); }
	KV item(const KeyValuePair<size_t, int>& p) { return KV((int)p.Key, p.Value); }
	enum { A = 0, R = 1, U = 2 };
	int opOf(CollectionOp op) { return op == CollectionOp::Added ? A : op == CollectionOp::Removed ? R : U; }
	template < typename T > std::pair<int, decltype(item(std::declval<T>()))> item(const DiffEntry<T>& d) { return { opOf(d.Op), item(d.Item) }; }

	template < typename E > auto drain(const E& e) -> std::vector<decltype(item(e->Get()))>
	{
		std::vector<decltype(item(e->Get()))> r;
		for (; e->Valid(); e->Next()) r.push_back(item(e->Get()));
		return r;
	}
	template < typename C > auto items(const C& c) { return drain(c.GetEnumerator()); }
	template < typename T > std::vector<T> rev(std::vector<T> v) { std::reverse(v.begin(), v.end()); return v; }

	// anything handed out, to be finished later
	struct Keep
	{
		std::vector<std::function<void ()>> checks; size_t n;
		Keep() : n(0) { }
		template < typename E, typename M > void enumerator(Src& s, const E& e, std::vector<M> want)
		{
			size_t skip = s.below(want.size() + 1);
			while (skip--) { REQUIRE(e->Valid(), "enumerator ended early"); REQUIRE_EQ(item(e->Get()), want.front()); e->Next(); want.erase(want.begin()); }
			checks.push_back([=]() { REQUIRE_EQX(drain(e), want, "an enumerator obtained earlier"); }); ++n;
		}
		template < typename V, typename M > void view(const V& v, const std::vector<M>& want) { checks.push_back([=]() { REQUIRE_EQX(drain(v->GetEnumerator()), want, "a view or diff obtained earlier"); }); ++n; }
		void step(Src& s) { if (checks.empty()) return; const size_t i = s.below(checks.size()); checks[i](); checks.erase(checks.begin() + i); }
		void all() { for (auto& x : checks) x(); checks.clear(); }
	};

	template < typename M > void applyList(std::vector<int>& to, const M& diff)
	{
		for (const auto& d : diff)
		{
			const size_t i = (size_t)d.second.first;
			if (d.first == A) { REQUIRE(i <= to.size(), "diff adds at " << i << " of " << to.size()); to.insert(to.begin() + i, d.second.second); }
			else { REQUIRE(d.first == R, "unexpected operation"); REQUIRE(i < to.size() && to[i] == d.second.second, "diff removes " << d.second.second << " at " << i); to.erase(to.begin() + i); }
		}
	}

	void listHistory(Src& s, Ctx& c)
	{
		typedef TransactionalList<int, comparers::Equals> L;
		auto l = make_shared_ptr<L>(); std::vector<int> com, pen; Keep keep;
		shared_ptr<IListTransaction<int>> t; int commits = 0, dirtyReads = 0;
		std::vector<int> rep; Err err; int notes = 0; std::vector<std::pair<int, KV>> last;
		Token tok; bool connected = false;
		const auto connect = [&]() { rep.clear(); notes = 0; tok = l->OnChanged().connect(fn<void (const shared_ptr<IEnumerable<DiffEntry<KeyValuePair<size_t, int>>>>&)>([&](const shared_ptr<IEnumerable<DiffEntry<KeyValuePair<size_t, int>>>>& d) {
			++notes; last = drain(d->GetEnumerator());
			try { applyList(rep, last); } catch (const pbt::Failure& f) { SOFT(err, false, f.msg); }
			SOFT(err, items(*l) == rep, "published " << pbt::show(items(*l)) << ", replica " << pbt::show(rep)); })); connected = true;
			REQUIRE(err.what.empty(), err.what); REQUIRE_EQ(rep, com); REQUIRE_EQ(notes, com.empty() ? 0 : 1); };
		while (s.more(40))
		{
			const int v = (int)s.below(6); const size_t n = pen.size(), i = s.below(n + 1);
			const size_t op = s.below(20); notes = 0;
			c.tr("op ", op, " v=", v, " i=", i, " com=", pbt::show(com), " pen=", pbt::show(pen), t ? " t" : "");
			if (!t && op >= 4) { t = l->StartTransaction(); pen = com; REQUIRE(!t->IsDirty(), "a new transaction is clean"); }
			switch (op)
			{
			case 0: tok.Reset(); connect(); break;
			case 1: keep.enumerator(s, l->GetEnumerator(), com); break;
			case 2: keep.view(l->Reverse(), rev(com)); break;
			case 3: keep.step(s); break;
			case 4: case 5: case 6: t->Add(v); pen.push_back(v); break;
			case 7: if (i < n) { t->Set(i, v); pen[i] = v; } else if (s.chance(1, 4)) REQUIRE(THROWS(t->Set(i, v)), ""); break;
			case 8: t->Insert(i, v); pen.insert(pen.begin() + i, v); if (s.chance(1, 16)) REQUIRE(THROWS(t->Insert(pen.size() + 1, v)), ""); break;
			case 9: if (i < n) { t->RemoveAt(i); pen.erase(pen.begin() + i); } else if (s.chance(1, 4)) REQUIRE(THROWS(t->RemoveAt(i)), ""); break;
			case 10: { auto it = std::find(pen.begin(), pen.end(), v); const bool e = it != pen.end(); if (e) pen.erase(it); REQUIRE_EQ(t->Remove(v), e); } break;
			case 11: { const auto p = [=](int x) { return ((x ^ v) & 1) != 0; }; const size_t e = std::count_if(pen.begin(), pen.end(), p); pen.erase(std::remove_if(pen.begin(), pen.end(), p), pen.end()); REQUIRE_EQ(t->RemoveAll(fn<bool (const int&)>(p)), e); } break;
			case 12: t->Clear(); pen.clear(); break;
			case 13: keep.enumerator(s, t->GetEnumerator(), pen); break;
			case 14: keep.view(t->Reverse(), rev(pen)); break;
			case 15: { const auto d = t->Diff(); std::vector<int> x(com); applyList(x, drain(d->GetEnumerator())); REQUIRE_EQX(x, pen, "the diff applied to the committed state"); keep.view(d, drain(d->GetEnumerator())); } break;
			case 16: case 17:
				{
					const auto d = drain(t->Diff()->GetEnumerator());
					t->Commit(); const bool changed = com != pen; com = pen; commits += changed;
					if (connected) { REQUIRE_EQX(notes, changed ? 1 : 0, "notifications of a commit"); if (changed) REQUIRE_EQX(last, d, "the published diff"); }
					REQUIRE(!t->IsDirty(), "dirty after a commit"); REQUIRE_EQ(drain(t->Diff()->GetEnumerator()).size(), (size_t)0);
				} break;
			case 18: t->Revert(); pen = com; REQUIRE(!t->IsDirty(), "dirty after a revert"); break;
			case 19: if (s.coin()) { t.reset(); pen = com; } else // replaying a diff entry by entry
				{
					L other; auto ot = other.StartTransaction(); for (int x : com) ot->Add(x); ot->Commit();
					for (auto e = t->Diff()->GetEnumerator(); e->Valid(); e->Next()) ot->Apply(e->Get());
					REQUIRE_EQX(items(*ot), pen, "Apply of every diff entry"); ot->Commit(); REQUIRE_EQ(items(other), pen);
					if (!pen.empty()) { const size_t j = s.below(pen.size()); ot->Apply(MakeDiffEntry(CollectionOp(CollectionOp::Updated), KeyValuePair<size_t, int>(j, v))); REQUIRE_EQ(ot->Get(j), v); REQUIRE_EQ(ot->GetCount(), pen.size()); }
				} break;
			}
			REQUIRE(err.what.empty(), err.what);
			if (op != 0 && op != 16 && op != 17) REQUIRE_EQX(notes, 0, "notified without a commit");
			if (connected) REQUIRE_EQX(rep, com, "replica");
			REQUIRE_EQX(items(*l), com, "outside readers"); REQUIRE_EQ(l->GetCount(), com.size()); REQUIRE_EQ(l->IsEmpty(), com.empty());
			for (int w = 0; w < 2; ++w)
			{
				if (w && !t) break;
				const IReadonlyList<int>& Q = w ? static_cast<const IReadonlyList<int>&>(*t) : *l; const std::vector<int>& M = w ? pen : com;
				if (w) { REQUIRE_EQX(items(Q), M, "inside"); REQUIRE(t->IsDirty() || pen == com, "changed but not dirty"); if (pen != com) ++dirtyReads; }
				REQUIRE_EQ(Q.GetCount(), M.size()); REQUIRE_EQ(Q.IsEmpty(), M.empty());
				for (size_t k = 0; k < M.size(); ++k) { int o = -1; REQUIRE_EQ(Q.Get(k), M[k]); REQUIRE(Q.TryGet(k, o) && o == M[k], ""); }
				int o = -9; REQUIRE(!Q.TryGet(M.size(), o), ""); if (s.chance(1, 64)) REQUIRE(THROWS(Q.Get(M.size())), "");
				if (s.chance(1, 4)) for (int x = 0; x < 7; ++x) { auto it = std::find(M.begin(), M.end(), x); REQUIRE_EQ(Q.Contains(x), it != M.end()); const auto ix = Q.IndexOf(x); REQUIRE_EQ(ix.is_initialized(), it != M.end()); if (ix) REQUIRE_EQ(*ix, (size_t)(it - M.begin())); }
			}
		}
		keep.all();
		c.nontrivial_if(commits >= 2 && dirtyReads >= 4 && keep.n);
	}

	template < typename Less >
	void setHistory(Src& s, Ctx& c)
	{
		typedef TransactionalSet<int, Less> L; typedef std::set<int, Less> M; typedef std::vector<int> V;
		typedef typename L::DiffTypePtr DiffPtr;
		auto l = make_shared_ptr<L>(); M com, pen; Keep keep; const Less less = Less();
		shared_ptr<ISetTransaction<int>> t; int commits = 0, dirtyReads = 0;
		M rep; Err err; int notes = 0; std::vector<std::pair<int, int>> last; Token tok; bool connected = false;
		const auto vec = [](const M& m) { return V(m.begin(), m.end()); };
		const auto diffOf = [&]() { std::vector<std::pair<int, int>> d; M all(com); all.insert(pen.begin(), pen.end()); for (int x : all) { if (!pen.count(x)) d.push_back({ R, x }); else if (!com.count(x)) d.push_back({ A, x }); } return d; };
		const auto connect = [&]() { rep.clear(); notes = 0; tok = l->OnChanged().connect(fn<void (const DiffPtr&)>([&](const DiffPtr& d) {
			++notes; last = drain(d->GetEnumerator());
			for (auto& x : last) if (x.first == A) SOFT(err, rep.insert(x.second).second, "added twice " << x.second); else SOFT(err, rep.erase(x.second) == 1, "removed but absent " << x.second);
			SOFT(err, items(*l) == vec(rep), "published " << pbt::show(items(*l)) << ", replica " << pbt::show(vec(rep))); })); connected = true;
			REQUIRE(err.what.empty(), err.what); REQUIRE(rep == com, "state on connection"); REQUIRE_EQ(notes, com.empty() ? 0 : 1); };
		while (s.more(40))
		{
			const int v = (int)s.below(8); const size_t op = s.below(20); notes = 0;
			c.tr("op ", op, " v=", v, " com=", pbt::show(vec(com)), " pen=", pbt::show(vec(pen)), t ? " t" : "");
			if (!t && op >= 6) { t = l->StartTransaction(); pen = com; REQUIRE(!t->IsDirty(), "a new transaction is clean"); }
			const auto findVec = [&](const M& m, bool back) { V r; if (m.count(v)) for (int x : m) if (back ? !less(v, x) : !less(x, v)) r.push_back(x); return back ? rev(r) : r; };
			switch (op)
			{
			case 0: tok.Reset(); connect(); break;
			case 1: keep.enumerator(s, l->GetEnumerator(), vec(com)); break;
			case 2: keep.view(l->Reverse(), rev(vec(com))); break;
			case 3: case 4: keep.step(s); break;
			case 5: keep.enumerator(s, l->Find(v), findVec(com, false)); keep.enumerator(s, l->ReverseFind(v), findVec(com, true)); break;
			case 6: case 7: case 8: { const bool e = pen.insert(v).second; REQUIRE_EQ(t->Add(v), e); } break;
			case 9: case 10: { const bool e = pen.erase(v) != 0; REQUIRE_EQ(t->Remove(v), e); } break;
			case 11: { const int mask = (int)s.below(4); const auto p = [=](int x) { return ((x + mask) % 3) == 0; }; size_t e = 0; for (auto it = pen.begin(); it != pen.end();) if (p(*it)) { it = pen.erase(it); ++e; } else ++it; REQUIRE_EQ(t->RemoveWhere(fn<bool (const int&)>(p)), e); } break;
			case 12: if (s.coin()) { t->Clear(); pen.clear(); } break;
			case 13: keep.enumerator(s, t->GetEnumerator(), vec(pen)); break;
			case 14: keep.view(t->Reverse(), rev(vec(pen))); break;
			case 15: keep.enumerator(s, t->Find(v), findVec(pen, false)); keep.enumerator(s, t->ReverseFind(v), findVec(pen, true)); break;
			case 16: case 17:
				{
					const auto d = diffOf(); t->Commit(); com = pen; commits += !d.empty();
					if (connected) { REQUIRE_EQX(notes, d.empty() ? 0 : 1, "notifications of a commit"); if (!d.empty()) REQUIRE_EQX(last, d, "the published diff"); }
					REQUIRE(!t->IsDirty(), "dirty after a commit");
				} break;
			case 18: if (s.coin()) { t->Revert(); pen = com; REQUIRE(!t->IsDirty(), "dirty after a revert"); } else keep.view(t->Diff(), diffOf()); break;
			case 19: if (s.coin()) { t.reset(); pen = com; } else
				{
					L other; auto ot = other.StartTransaction(); for (int x : com) ot->Add(x); ot->Commit();
					for (auto e = t->Diff()->GetEnumerator(); e->Valid(); e->Next()) ot->Apply(e->Get());
					REQUIRE_EQX(items(*ot), vec(pen), "Apply of every diff entry"); ot->Commit(); REQUIRE_EQ(items(other), vec(pen));
				} break;
			}
			REQUIRE(err.what.empty(), err.what);
			if (op != 0 && op != 16 && op != 17) REQUIRE_EQX(notes, 0, "notified without a commit");
			if (connected) REQUIRE(rep == com, "replica");
			if (t) { REQUIRE_EQ(t->IsDirty(), pen != com); REQUIRE_EQX(drain(t->Diff()->GetEnumerator()), diffOf(), "diff"); if (pen != com) ++dirtyReads; }
			for (int w = 0; w < 2; ++w)
			{
				if (w && !t) break;
				const IReadonlySet<int>& Q = w ? static_cast<const IReadonlySet<int>&>(*t) : *l; const M& m = w ? pen : com;
				REQUIRE_EQX(items(Q), vec(m), w ? "inside" : "outside readers"); REQUIRE_EQ(drain(Q.Reverse()->GetEnumerator()), rev(vec(m))); REQUIRE_EQ(Q.GetCount(), m.size()); REQUIRE_EQ(Q.IsEmpty(), m.empty());
				for (int x = 0; x < 8; ++x) REQUIRE_EQ(Q.Contains(x), m.count(x) != 0);
			}
		}
		keep.all();
		c.nontrivial_if(commits >= 2 && dirtyReads >= 4 && keep.n);
	}

	template < typename Less, typename VEq >
	void dictHistory(Src& s, Ctx& c)
	{
		typedef TransactionalDictionary<int, int, Less, VEq> L; typedef std::map<int, int, Less> M; typedef std::vector<KV> V;
		typedef typename L::DiffTypePtr DiffPtr; typedef std::pair<int, KV> D;
		auto l = make_shared_ptr<L>(); M com, pen; Keep keep; const Less less = Less(); const VEq veq = VEq();
		shared_ptr<IDictionaryTransaction<int, int>> t; int commits = 0, dirtyReads = 0;
		M rep; Err err; int notes = 0; std::vector<D> last; Token tok; bool connected = false;
		const auto vec = [](const M& m) { return V(m.begin(), m.end()); };
		const auto diffOf = [&]() { std::vector<D> d; M all(com); all.insert(pen.begin(), pen.end()); for (auto& x : all) {
			const bool o = com.count(x.first), n = pen.count(x.first); if (o && n && veq(com[x.first], pen[x.first])) continue;
			if (o) d.push_back({ R, KV(x.first, com[x.first]) }); if (n) d.push_back({ A, KV(x.first, pen[x.first]) }); } return d; };
		const auto apply = [](M& m, const std::vector<D>& ds, Err& err) { for (auto& x : ds) if (x.first == A) SOFT(err, m.insert(x.second).second, "added twice " << x.second.first); else { SOFT(err, m.count(x.second.first) && m[x.second.first] == x.second.second, "removed but absent " << x.second.first); m.erase(x.second.first); } };
		const auto connect = [&]() { rep.clear(); notes = 0; tok = l->OnChanged().connect(fn<void (const DiffPtr&)>([&](const DiffPtr& d) {
			++notes; last = drain(d->GetEnumerator()); apply(rep, last, err);
			SOFT(err, items(*l) == vec(rep), "published " << pbt::show(items(*l)) << ", replica " << pbt::show(vec(rep))); })); connected = true;
			REQUIRE(err.what.empty(), err.what); REQUIRE(rep == com, "state on connection"); REQUIRE_EQ(notes, com.empty() ? 0 : 1); };
		// views
		const int key = (int)s.below(6); auto kv = GetDictionaryKeyValue(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(l), key);
		auto keys = GetDictionaryKeys(shared_ptr<IReadonlyTransactionalDictionary<int, int>>(l));
		const auto state = [&](const M& m) { auto it = m.find(key); return it == m.end() ? -1 : it->second; };
		std::vector<int> seen, want; want.push_back(-1);
		Token kvt = kv->OnChanged().connect(fn<void (const optional<int>&)>([&](const optional<int>& x) { seen.push_back(x ? *x : -1); SOFT(err, kv->Get() == x, "the entry reports another value"); }));
		std::set<int> keyRep; int keyNotes = 0;
		Token kt = keys->OnChanged().connect(fn<void (const shared_ptr<IEnumerable<DiffEntry<int>>>&)>([&](const shared_ptr<IEnumerable<DiffEntry<int>>>& d) { ++keyNotes;
			for (auto& x : drain(d->GetEnumerator())) if (x.first == A) SOFT(err, keyRep.insert(x.second).second, "key added twice"); else SOFT(err, keyRep.erase(x.second) == 1, "key removed but absent"); }));
		while (s.more(40))
		{
			const int k = (int)s.below(6), v = (int)s.below(30); const size_t op = s.below(21); notes = 0; keyNotes = 0;
			c.tr("op ", op, " k=", k, " v=", v, " com=", pbt::show(vec(com)), " pen=", pbt::show(vec(pen)), t ? " t" : "");
			if (!t && op >= 6) { t = l->StartTransaction(); pen = com; REQUIRE(!t->IsDirty(), "a new transaction is clean"); }
			const auto findVec = [&](const M& m, bool back) { V r; if (m.count(k)) for (auto& x : m) if (back ? !less(k, x.first) : !less(x.first, k)) r.push_back(x); return back ? rev(r) : r; };
			// a value equal to the committed or the pending one leaves that one in place
			const auto put = [&](int k, int v) { auto ci = com.find(k), pi = pen.find(k); if (ci != com.end() && veq(v, ci->second)) v = ci->second; else if (pi != pen.end() && veq(v, pi->second)) v = pi->second; pen[k] = v; };
			switch (op)
			{
			case 0: tok.Reset(); connect(); break;
			case 1: keep.enumerator(s, l->GetEnumerator(), vec(com)); break;
			case 2: keep.view(l->Reverse(), rev(vec(com))); break;
			case 3: case 4: keep.step(s); break;
			case 5: keep.enumerator(s, l->Find(k), findVec(com, false)); keep.enumerator(s, l->ReverseFind(k), findVec(com, true)); break;
			case 6: case 7: { const bool e = !pen.count(k); if (e) put(k, v); REQUIRE_EQ(t->Add(k, v), e); } break;
			case 8: case 9: put(k, v); t->Set(k, v); break;
			case 10: { const bool e = pen.erase(k) != 0; REQUIRE_EQ(t->Remove(k), e); } break;
			case 11: { const int mask = (int)s.below(4); const auto p = [=](int x, int y) { return ((x + y / 10 + mask) % 3) == 0; }; size_t e = 0; for (auto it = pen.begin(); it != pen.end();) if (p(it->first, it->second)) { it = pen.erase(it); ++e; } else ++it; REQUIRE_EQ(t->RemoveWhere(fn<bool (const int&, const int&)>(p)), e); } break;
			case 12: if (s.coin()) { t->Clear(); pen.clear(); } break;
			case 13: keep.enumerator(s, t->GetEnumerator(), vec(pen)); break;
			case 14: keep.view(t->Reverse(), rev(vec(pen))); break;
			case 15: keep.enumerator(s, t->Find(k), findVec(pen, false)); keep.enumerator(s, t->ReverseFind(k), findVec(pen, true)); break;
			case 16: case 17:
				{
					const auto d = diffOf(); const int was = state(com); bool keysChange = false; for (auto& x : com) keysChange |= !pen.count(x.first); for (auto& x : pen) keysChange |= !com.count(x.first);
					t->Commit(); com = pen; commits += !d.empty(); if (state(com) != was) want.push_back(state(com));
					if (connected) { REQUIRE_EQX(notes, d.empty() ? 0 : 1, "notifications of a commit"); if (!d.empty()) REQUIRE_EQX(last, d, "the published diff"); }
					REQUIRE_EQX(keyNotes, keysChange ? 1 : 0, "notifications of the key set");
					REQUIRE(!t->IsDirty(), "dirty after a commit");
				} break;
			case 18: if (s.coin()) { t->Revert(); pen = com; REQUIRE(!t->IsDirty(), "dirty after a revert"); } else keep.view(t->Diff(), diffOf()); break;
			case 19: if (s.coin()) { t.reset(); pen = com; } else
				{
					L other; auto ot = other.StartTransaction(); for (auto& x : com) ot->Add(x.first, x.second); ot->Commit();
					for (auto e = t->Diff()->GetEnumerator(); e->Valid(); e->Next()) ot->Apply(e->Get());
					REQUIRE_EQX(items(*ot), vec(pen), "Apply of every diff entry"); ot->Commit(); REQUIRE_EQ(items(other), vec(pen));
				} break;
			case 20: if (com.count(k)) { const int v0 = com[k]; put(k, v0); t->Set(k, v0); } break; // back to the committed value
			}
			REQUIRE(err.what.empty(), err.what); REQUIRE_EQX(pbt::show(seen), pbt::show(want), "entry listener");
			if (op != 0 && op != 16 && op != 17) REQUIRE_EQX(notes, 0, "notified without a commit");
			if (connected) REQUIRE(rep == com, "replica");
			{ std::vector<int> ks; for (auto& x : com) ks.push_back(x.first); REQUIRE_EQ(items(*keys), ks); REQUIRE_EQ(std::vector<int>(keyRep.begin(), keyRep.end()), std::vector<int>([&]() { auto q = ks; std::sort(q.begin(), q.end()); return q; }())); }
			if (t) { REQUIRE_EQ(t->IsDirty(), !diffOf().empty()); REQUIRE_EQX(drain(t->Diff()->GetEnumerator()), diffOf(), "diff"); if (pen != com) ++dirtyReads; }
			for (int w = 0; w < 2; ++w)
			{
				if (w && !t) break;
				const IReadonlyDictionary<int, int>& Q = w ? static_cast<const IReadonlyDictionary<int, int>&>(*t) : *l; const M& m = w ? pen : com;
				REQUIRE_EQX(items(Q), vec(m), w ? "inside" : "outside readers"); REQUIRE_EQ(drain(Q.Reverse()->GetEnumerator()), rev(vec(m))); REQUIRE_EQ(Q.GetCount(), m.size()); REQUIRE_EQ(Q.IsEmpty(), m.empty());
				for (int x = 0; x < 6; ++x) { int o = -3; auto it = m.find(x); REQUIRE_EQ(Q.ContainsKey(x), it != m.end()); REQUIRE_EQ(Q.TryGet(x, o), it != m.end()); if (it != m.end()) { REQUIRE_EQ(o, it->second); REQUIRE_EQ(Q.Get(x), o); } else if (s.chance(1, 128)) REQUIRE(THROWS(Q.Get(x)), ""); }
			}
		}
		keep.all();
		c.nontrivial_if(commits >= 2 && dirtyReads >= 4 && keep.n);
	}
}

PROP(list, 4000, 80000, pbt::LeakCheck, "at least 2 effective commits, 4 reads of a dirty transaction and a kept enumerator")
{ listHistory(s, c); }
PROP(set_, 4000, 80000, pbt::LeakCheck, "at least 2 effective commits, 4 reads of a dirty transaction and a kept enumerator")
{ if (s.chance(3, 4)) setHistory<comparers::Less>(s, c); else setHistory<DownLess>(s, c); }
PROP(dictionary, 4000, 80000, pbt::LeakCheck, "at least 2 effective commits, 4 reads of a dirty transaction and a kept enumerator")
{ if (s.chance(3, 4)) dictHistory<comparers::Less, comparers::Equals>(s, c); else if (s.coin()) dictHistory<DownLess, comparers::Equals>(s, c); else dictHistory<comparers::Less, TenEquals>(s, c); }
