// ENGINE: conc
// Reference counts, observables and transactional collections used by several threads: bounds on the owners which the
// harness knows, and one order of changes which explains every result, snapshot and listener.
#include <stingraykit/string/ToString.h>
#include <stingraykit/ObservableValue.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/FlatMapObservableDictionary.h>
#include <stingraykit/collection/FlatSortedObservableSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableDictionary.h>
#include <stingraykit/collection/OrderedObservableSet.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalSet.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include "dsched.h"
#include "tracked.h"
#include "util.h"
#include <algorithm>
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	sched::Services services([] { ExecutorsProfiler::Instance(); });

	typedef int64_t ns_t;
	const ns_t Ms = 1000000;
	ns_t slack() { return (ns_t)sched::ticks_ns() + Ms; }
	ns_t now() { return (ns_t)sched::now_ns(); }

	// what is known about the owners of an object: at least `sure`, at most `maybe`
	struct Acct { int sure = 0, maybe = 0; size_t version = 0, zeros = 0; int died = 0, freed = 0; bool unknown = false; };
	std::vector<Acct> accts;
	void coming(int o) { sched::NoPreempt np; if (o < 0) return; ++accts[o].maybe; ++accts[o].version; }
	void came(int o) { sched::NoPreempt np; if (o < 0) return; ++accts[o].sure; ++accts[o].version; }
	void failed(int o) { sched::NoPreempt np; if (o < 0) return; --accts[o].maybe; ++accts[o].version; }
	void going(int o) { sched::NoPreempt np; if (o < 0) return; if (--accts[o].sure == 0) ++accts[o].zeros; ++accts[o].version; }
	void gone(int o) { sched::NoPreempt np; if (o < 0) return; --accts[o].maybe; ++accts[o].version; }
	void died(int o)
	{
		sched::NoPreempt np;
		Acct& a = accts[o];
		REQUIRE(a.sure == 0, "object " << o << " was destroyed while it had " << a.sure << " owners");
		REQUIRE(a.died++ == 0, "object " << o << " was destroyed twice");
	}
	Acct snap(int o) { sched::NoPreempt np; return accts[o]; }
	void alive(int o) { sched::NoPreempt np; REQUIRE(accts[o].died == 0, "object " << o << " is used after its destruction"); }

	struct Obj
	{
		int no, canary;
		explicit Obj(int n) : no(n), canary(0x5a5a) { }
		~Obj() { REQUIRE(canary == 0x5a5a, "destroyed twice"); canary = 0; died(no); }
	};
	struct Counted : public self_counter<Counted>
	{
		int no, canary;
		explicit Counted(int n) : no(n), canary(0x5a5a) { }
		~Counted() { REQUIRE(canary == 0x5a5a, "destroyed twice"); canary = 0; died(no); }
	};
	// lives as long as the record of the owners
	struct Deleter
	{
		int no;
		NTracked life;
		explicit Deleter(int n) : no(n) { }
		void operator () (Obj* o) const { REQUIRE(o && o->no == no, "the deleter is given another object"); delete o; }
	};

	template < typename P > int id(const P& p)
	{
		if (!p) return -1;
		const int no = p->no;
		REQUIRE(p->canary == 0x5a5a, "an owned object is destroyed");
		alive(no);
		return no;
	}
	// what is held by p changes to what make() gives
	template < typename P, typename F > void assign(P& p, int to, const F& f)
	{
		const int from = id(p);
		coming(to);
		going(from);
		f();
		gone(from);
		came(to);
		REQUIRE_EQ(id(p), to);
	}
	template < typename P > void drop(P& p, bool move)
	{
		const int from = id(p);
		going(from);
		if (move) { P q(std::move(p)); REQUIRE(!p, "a moved pointer owns something"); }
		else p.reset();
		gone(from);
		REQUIRE(!p, "a reset pointer owns something");
	}
	template < typename P > void look(const P& p)
	{
		const int o = id(p);
		if (o < 0) { REQUIRE_EQ(p.use_count(), (size_t)0); return; }
		const Acct a = snap(o);
		const size_t n = p.use_count();
		const bool u = p.unique();
		sched::NoPreempt np;
		const Acct& b = accts[o];
		REQUIRE(n >= 1, "an owned object has no owners");
		if (a.version != b.version) return;
		REQUIRE((int)n >= a.sure && (int)n <= a.maybe, n << " owners counted of " << a.sure << " to " << a.maybe);
		if (a.maybe == 1) REQUIRE(u, "the only owner is not unique");
		if (a.sure > 1) REQUIRE(!u, "one of " << a.sure << " owners is unique");
	}

	struct Step { unsigned op; size_t i, j; bool flag; };
	std::vector<std::vector<Step> > gen_steps(Src& s, Ctx& c, unsigned ops, size_t slots)
	{
		std::vector<std::vector<Step> > prog(s.weighted({ 4u, 2u, 1u }) + 2);
		for (auto& p : prog)
		{
			std::string t;
			while (p.size() < 10 && s.more(5))
			{
				p.push_back(Step{ (unsigned)s.below(ops), s.below(slots), s.below(slots), s.coin() });
				const Step& x = p.back();
				t += " " + std::to_string(x.op) + ":" + std::to_string(x.i) + "," + std::to_string(x.j) + (x.flag ? "!" : "");
			}
			TR("thread:" << t);
		}
		return prog;
	}
}


PROP(pointers, 60000, 2500000, 0, "two threads shared an object which died before all of them had finished, with a preemption")
{
	typedef shared_ptr<Obj> P;
	typedef weak_ptr<Obj> W;
	const size_t slots = 2;
	const std::vector<std::vector<Step> > prog = gen_steps(s, c, 15, slots);
	std::vector<unsigned> kinds(s.range<size_t>(1, 2));
	for (unsigned& k : kinds) { k = s.below(3); TR("object of kind " << k); }
	// what the threads have at the beginning
	std::vector<std::vector<int> > strong(prog.size(), std::vector<int>(slots)), weak = strong;
	for (auto& t : strong) for (int& x : t) { x = (int)s.below(kinds.size() + 1) - 1; TR("owner of " << x); }
	for (auto& t : weak) for (int& x : t) { x = (int)s.below(kinds.size() + 1) - 1; TR("weak " << x); }
	accts.assign(kinds.size(), Acct());
	LIVE_BASE(NTracked);
	bool earlyDeath = false;
	size_t locked = 0, refused = 0;
	sched::start(s);
	{
		struct Local { P p[2]; W w[2]; int wn[2]; };
		std::vector<Local> locals(prog.size());
		Mutex guard;
		P mail;
		W weakMail;
		int weakMailNo = -1;
		{
			std::vector<P> objs;
			for (size_t k = 0; k < kinds.size(); ++k)
			{
				switch (kinds[k])
				{
				case 0: objs.push_back(P(new Obj((int)k))); break;
				case 1: objs.push_back(P(new Obj((int)k), Deleter((int)k))); break;
				case 2: objs.push_back(make_shared_ptr<Obj>((int)k)); break;
				}
				++accts[k].sure; ++accts[k].maybe;
			}
			for (size_t t = 0; t < prog.size(); ++t)
				for (size_t i = 0; i < slots; ++i)
				{
					if (strong[t][i] >= 0) assign(locals[t].p[i], strong[t][i], [&] { locals[t].p[i] = objs[strong[t][i]]; });
					locals[t].wn[i] = weak[t][i];
					if (weak[t][i] >= 0) locals[t].w[i] = objs[weak[t][i]];
				}
			for (P& p : objs) drop(p, false);
		}
		std::vector<sched::Thread> threads;
		size_t running = prog.size();
		for (size_t t = 0; t < prog.size(); ++t)
			threads.emplace_back([&, t]
			{
				Local& l = locals[t];
				const auto lock = [&](size_t i, size_t j)
				{
					const int o = l.wn[j];
					if (o < 0) { REQUIRE(!l.w[j].lock(), "an empty weak pointer gives an object"); return; }
					const Acct before = snap(o);
					coming(o);
					P q = l.w[j].lock();
					if (!q)
					{
						failed(o);
						sched::NoPreempt np;
						++refused;
						REQUIRE(accts[o].sure == 0 || accts[o].zeros != before.zeros, "a weak pointer to an owned object gives nothing");
						return;
					}
					came(o);
					REQUIRE_EQ(id(q), o);
					REQUIRE(before.died == 0, "a destroyed object is revived");
					{ sched::NoPreempt np; ++locked; }
					// q is what l.p[i] becomes
					const int from = id(l.p[i]);
					going(from);
					l.p[i] = std::move(q);
					gone(from);
				};
				for (const Step& x : prog[t])
				{
					P& a = l.p[x.i];
					P& b = l.p[x.j];
					switch (x.op)
					{
					case 0: case 1: assign(a, id(b), [&] { if (x.flag) a = b; else { P q(b); a.swap(q); } }); break;
					case 2: if (x.i != x.j) { const int from = id(a), to = id(b); going(from); a = std::move(b); gone(from); REQUIRE(!b, "a moved pointer owns something"); REQUIRE_EQ(id(a), to); } break;
					case 3: case 4: drop(a, x.flag); break;
					case 5: l.w[x.i] = b; l.wn[x.i] = id(b); break;
					case 6: { W w(l.w[x.j]); l.w[x.i] = x.flag ? std::move(w) : w; l.wn[x.i] = l.wn[x.j]; } break;
					case 7: case 8: case 9: lock(x.i, x.j); break;
					case 10:
						if (const int o = id(a) + 1)
						{
							const Acct before = snap(o - 1);
							going(o - 1);
							if (a.release_if_unique())
							{
								gone(o - 1);
								sched::NoPreempt np;
								REQUIRE(!a, "a released pointer owns something");
								REQUIRE(accts[o - 1].died == 1, "the last owner is gone, but not the object");
							}
							else
							{
								came(o - 1);
								sched::NoPreempt np;
								REQUIRE(id(a) == o - 1, "a pointer which is not unique lost its object");
								REQUIRE(before.maybe > 1 || before.version + 2 != accts[o - 1].version, "the only owner is not unique");
							}
						}
						else REQUIRE(!a.release_if_unique(), "nothing is released");
						break;
					case 11: look(a); break;
					case 12: { MutexLock m(guard); a.swap(mail); } break;
					case 13: { MutexLock m(guard); l.w[x.i].swap(weakMail); std::swap(l.wn[x.i], weakMailNo); } break;
					case 14:
						if (l.wn[x.i] >= 0)
						{
							const Acct before = snap(l.wn[x.i]);
							const bool e = l.w[x.i].expired();
							sched::NoPreempt np;
							const Acct& after = accts[l.wn[x.i]];
							if (before.died) REQUIRE(e, "a destroyed object is not expired");
							if (after.sure && after.zeros == before.zeros) REQUIRE(!e, "an owned object is expired");
						}
						break;
					}
				}
				for (P& p : l.p) drop(p, true);
				sched::NoPreempt np;
				--running;
				for (const Acct& a : accts) earlyDeath |= a.died && running;
				for (W& w : l.w) w.reset();
			});
		threads.clear();
		drop(mail, false);
		for (size_t k = 0; k < kinds.size(); ++k) REQUIRE_EQX(accts[k].died, 1, "object " << k);
		REQUIRE(weakMail.expired() && !weakMail.lock(), "everything is dead");
	}
	sched::stop();
	LIVE_CHECK(NTracked);
	c.label(locked ? "locked" : "not locked");
	if (refused) c.label("refused");
	c.nontrivial_if(sched::preemptions() >= 1 && earlyDeath);
}


PROP(self_counted, 30000, 1200000, 0, "an object was shared and dropped by two threads, with a preemption")
{
	typedef self_count_ptr<Counted> P;
	const size_t slots = 2;
	const std::vector<std::vector<Step> > prog = gen_steps(s, c, 9, slots);
	const size_t objects = s.range<size_t>(1, 2);
	std::vector<std::vector<int> > strong(prog.size(), std::vector<int>(slots));
	for (auto& t : strong) for (int& x : t) { x = (int)s.below(objects + 1) - 1; TR("owner of " << x); }
	accts.assign(objects, Acct());
	bool earlyDeath = false;
	sched::start(s);
	{
		std::vector<std::vector<P> > locals(prog.size());
		Mutex guard;
		P mail;
		{
			std::vector<P> objs;
			for (size_t k = 0; k < objects; ++k)
			{
				objs.push_back(make_self_count_ptr<Counted>((int)k));
				++accts[k].sure; ++accts[k].maybe;
			}
			for (size_t t = 0; t < prog.size(); ++t)
			{
				locals[t].resize(slots);
				for (size_t i = 0; i < slots; ++i)
					if (strong[t][i] >= 0) assign(locals[t][i], strong[t][i], [&] { locals[t][i] = objs[strong[t][i]]; });
			}
			for (P& p : objs) drop(p, false);
		}
		std::vector<sched::Thread> threads;
		size_t running = prog.size();
		for (size_t t = 0; t < prog.size(); ++t)
			threads.emplace_back([&, t]
			{
				for (const Step& x : prog[t])
				{
					P& a = locals[t][x.i];
					P& b = locals[t][x.j];
					switch (x.op)
					{
					case 0: case 1: assign(a, id(b), [&] { if (x.flag) a = b; else { P q(b); a.swap(q); } }); break;
					case 2: if (x.i != x.j) { const int from = id(a), to = id(b); going(from); a = std::move(b); gone(from); REQUIRE(!b, "a moved pointer owns something"); REQUIRE_EQ(id(a), to); } break;
					case 3: case 4: drop(a, x.flag); break;
					case 5: if (b) assign(a, id(b), [&] { a = b->self_count_ptr_from_this(); }); break;
					case 6: look(a); break;
					case 7: case 8: { MutexLock m(guard); a.swap(mail); } break;
					}
				}
				for (P& p : locals[t]) drop(p, true);
				sched::NoPreempt np;
				--running;
				for (const Acct& a : accts) earlyDeath |= a.died && running;
			});
		threads.clear();
		drop(mail, false);
		for (size_t k = 0; k < objects; ++k) REQUIRE_EQX(accts[k].died, 1, "object " << k);
	}
	c.nontrivial_if(sched::preemptions() >= 1 && earlyDeath);
}


namespace
{
	typedef std::pair<int, int> KV;
	typedef std::vector<KV> State;
	typedef std::vector<KV> Result;
	const Result Throws(1, KV(-77, -77));
	Result num(int x) { return Result(1, KV(x, 0)); }

	struct Note
	{
		int op; KV item;
		bool operator == (const Note& o) const { return op == o.op && item == o.item; }
	};
	std::string show(const Note& n) { return std::string(1, "+-="[n.op]) + pbt::show(n.item); }
	std::string show(const std::vector<Note>& v) { std::string r; for (auto& x : v) r += show(x) + " "; return r; }
	int opOf(CollectionOp op) { return op == CollectionOp::Added ? 0 : op == CollectionOp::Removed ? 1 : 2; }

	struct Op { unsigned what; int a, b; };
	bool odd(int x) { return x % 2 != 0; }

	KV item(int v) { return KV(v, 0); }
	KV item(const KeyValuePair<int, int>& p) { return KV(p.Key, p.Value); }
	template < typename E > State drain(const E& e)
	{
		State r;
		for (; e->Valid(); e->Next()) { r.push_back(item(e->Get())); sched::point("enumerating"); }
		return r;
	}
	State rev(State s) { std::reverse(s.begin(), s.end()); return s; }

	// a list: the items are in the first members
	struct ListKit
	{
		typedef IObservableList<int> Type;
		typedef void Sig(CollectionOp, size_t, const int&);
		static const unsigned Ops = 18;
		static bool ordered() { return true; }
		static shared_ptr<Type> make(Src&) { return make_shared_ptr<ArrayObservableList<int> >(); }
		template < typename F > static function<void (CollectionOp, size_t, const int&)> handler(const F& f) { return fn<void (CollectionOp, size_t, const int&)>([f](CollectionOp op, size_t i, const int& v) { f(Note{ opOf(op), KV((int)i, v) }); }); }
		static bool apply(State& s, const Note& n)
		{
			const size_t i = (size_t)n.item.first;
			const KV x(n.item.second, 0);
			switch (n.op)
			{
			case 0: if (i > s.size()) return false; s.insert(s.begin() + i, x); return true;
			case 1: if (i >= s.size() || s[i] != x) return false; s.erase(s.begin() + i); return true;
			default: if (i >= s.size()) return false; s[i] = x; return true;
			}
		}
		static std::vector<Note> population(const State& s) { std::vector<Note> r; for (size_t i = 0; i < s.size(); ++i) r.push_back(Note{ 0, KV((int)i, s[i].first) }); return r; }
		static Result model(const Op& o, State& s)
		{
			const KV a(o.a, 0), b(o.b, 0);
			switch (o.what)
			{
			case 0: case 1: case 16: case 17: s.push_back(b); return Result();
			case 2: if ((size_t)o.a >= s.size()) return Throws; s[o.a] = b; return Result();
			case 3: if ((size_t)o.a > s.size()) return Throws; s.insert(s.begin() + o.a, b); return Result();
			case 4: if ((size_t)o.a >= s.size()) return Throws; s.erase(s.begin() + o.a); return Result();
			case 5: { auto i = std::find(s.begin(), s.end(), b); if (i == s.end()) return num(0); s.erase(i); return num(1); }
			case 6: { const size_t n = s.size(); s.erase(std::remove_if(s.begin(), s.end(), [](const KV& x) { return odd(x.first); }), s.end()); return num((int)(n - s.size())); }
			case 7: s.clear(); return Result();
			case 8: return num((int)s.size());
			case 9: return num(s.empty());
			case 10: return num(std::find(s.begin(), s.end(), b) != s.end());
			case 11: { auto i = std::find(s.begin(), s.end(), b); return num(i == s.end() ? -1 : (int)(i - s.begin())); }
			case 12: if ((size_t)o.a >= s.size()) return Throws; return num(s[o.a].first);
			case 13: return s;
			case 14: return rev(s);
			default: if (s.empty()) return num(-1); { const int v = s.back().first; s.pop_back(); return num(v); }	// under the lock
			}
		}
		static Result run(const Op& o, Type& l)
		{
			switch (o.what)
			{
			case 0: case 1: case 16: case 17: l.Add(o.b); return Result();
			case 2: l.Set((size_t)o.a, o.b); return Result();
			case 3: l.Insert((size_t)o.a, o.b); return Result();
			case 4: l.RemoveAt((size_t)o.a); return Result();
			case 5: return num(l.Remove(o.b));
			case 6: return num((int)l.RemoveAll(fn<bool (const int&)>([](const int& x) { return odd(x); })));
			case 7: l.Clear(); return Result();
			case 8: return num((int)l.GetCount());
			case 9: return num(l.IsEmpty());
			case 10: return num(l.Contains(o.b));
			case 11: { const optional<size_t> i = l.IndexOf(o.b); return num(i ? (int)*i : -1); }
			case 12: if (o.b % 2) return num(l.Get((size_t)o.a)); else { int v; if (!l.TryGet((size_t)o.a, v)) return Throws; return num(v); }
			case 13: return drain(l.GetEnumerator());
			case 14: { const auto r = l.Reverse(); return drain(r->GetEnumerator()); }
			default:
				{
					ObservableCollectionLocker lock(l);
					const size_t n = l.GetCount();
					if (!n) return num(-1);
					const int v = l.Get(n - 1);
					sched::point("locked");
					l.RemoveAt(n - 1);
					return num(v);
				}
			}
		}
	};

	struct SetKit
	{
		typedef IObservableSet<int> Type;
		static const unsigned Ops = 13;
		static bool ordered() { return false; }
		static shared_ptr<Type> make(Src& s)
		{
			switch (s.below(3))
			{
			case 0: return make_shared_ptr<SortedObservableSet<int> >();
			case 1: return make_shared_ptr<FlatSortedObservableSet<int> >();
			default: return make_shared_ptr<OrderedObservableSet<int> >();
			}
		}
		template < typename F > static function<void (CollectionOp, const int&)> handler(const F& f) { return fn<void (CollectionOp, const int&)>([f](CollectionOp op, const int& v) { f(Note{ opOf(op), KV(v, 0) }); }); }
		static bool apply(State& s, const Note& n)
		{
			auto i = std::find(s.begin(), s.end(), n.item);
			if (n.op == 2 || (n.op == 0) != (i == s.end())) return false;
			if (n.op == 0) { s.push_back(n.item); std::sort(s.begin(), s.end()); }
			else s.erase(i);
			return true;
		}
		static std::vector<Note> population(const State& s) { std::vector<Note> r; for (auto& x : s) r.push_back(Note{ 0, x }); return r; }
		static Result model(const Op& o, State& s)
		{
			const KV b(o.b, 0);
			auto i = std::find(s.begin(), s.end(), b);
			const bool has = i != s.end();
			switch (o.what)
			{
			case 0: case 1: case 2: if (has) return num(0); s.push_back(b); std::sort(s.begin(), s.end()); return num(1);
			case 3: case 4: if (!has) return num(0); s.erase(i); return num(1);
			case 5: { const size_t n = s.size(); s.erase(std::remove_if(s.begin(), s.end(), [](const KV& x) { return odd(x.first); }), s.end()); return num((int)(n - s.size())); }
			case 6: s.clear(); return Result();
			case 7: return num((int)s.size());
			case 8: return num(s.empty());
			case 9: return num(has);
			case 10: case 11: return s;
			default: if (has) s.erase(i); else { s.push_back(b); std::sort(s.begin(), s.end()); } return num(has);	// under the lock
			}
		}
		static Result run(const Op& o, Type& l)
		{
			switch (o.what)
			{
			case 0: case 1: case 2: return num(l.Add(o.b));
			case 3: case 4: return num(l.Remove(o.b));
			case 5: return num((int)l.RemoveWhere(fn<bool (const int&)>([](const int& x) { return odd(x); })));
			case 6: l.Clear(); return Result();
			case 7: return num((int)l.GetCount());
			case 8: return num(l.IsEmpty());
			case 9: return num(o.a % 2 ? l.Contains(o.b) : l.Find(o.b)->Valid());
			case 10: { State r = drain(l.GetEnumerator()); std::sort(r.begin(), r.end()); return r; }
			case 11: { const auto e = l.Reverse(); State r = drain(e->GetEnumerator()); std::sort(r.begin(), r.end()); return r; }
			default:
				{
					ObservableCollectionLocker lock(l);
					const bool has = l.Contains(o.b);
					sched::point("locked");
					if (has) l.Remove(o.b); else l.Add(o.b);
					return num(has);
				}
			}
		}
	};

	struct DictKit
	{
		typedef IObservableDictionary<int, int> Type;
		static const unsigned Ops = 15;
		static shared_ptr<Type> make(Src& s)
		{
			switch (s.below(3))
			{
			case 0: return make_shared_ptr<MapObservableDictionary<int, int> >();
			case 1: return make_shared_ptr<FlatMapObservableDictionary<int, int> >();
			default: return make_shared_ptr<OrderedObservableDictionary<int, int> >();
			}
		}
		static bool ordered() { return false; }
		template < typename F > static function<void (CollectionOp, int, int)> handler(const F& f) { return fn<void (CollectionOp, int, int)>([f](CollectionOp op, int k, int v) { f(Note{ opOf(op), KV(k, v) }); }); }
		static State::iterator find(State& s, int k) { return std::find_if(s.begin(), s.end(), [k](const KV& x) { return x.first == k; }); }
		static bool apply(State& s, const Note& n)
		{
			auto i = find(s, n.item.first);
			if ((n.op == 0) != (i == s.end())) return false;
			switch (n.op)
			{
			case 0: s.push_back(n.item); std::sort(s.begin(), s.end()); return true;
			case 1: if (*i != n.item) return false; s.erase(i); return true;
			default: *i = n.item; return true;
			}
		}
		static std::vector<Note> population(const State& s) { std::vector<Note> r; for (auto& x : s) r.push_back(Note{ 0, x }); return r; }
		static Result model(const Op& o, State& s)
		{
			auto i = find(s, o.a);
			const bool has = i != s.end();
			switch (o.what)
			{
			case 0: case 1: if (has) return num(0); s.push_back(KV(o.a, o.b)); std::sort(s.begin(), s.end()); return num(1);
			case 2: case 3: if (has) i->second = o.b; else { s.push_back(KV(o.a, o.b)); std::sort(s.begin(), s.end()); } return Result();
			case 4: case 5: if (!has) return num(0); s.erase(i); return num(1);
			case 6: { const size_t n = s.size(); s.erase(std::remove_if(s.begin(), s.end(), [](const KV& x) { return odd(x.second); }), s.end()); return num((int)(n - s.size())); }
			case 7: s.clear(); return Result();
			case 8: return num((int)s.size());
			case 9: return num(has);
			case 10: return has ? num(i->second) : Throws;
			case 11: case 12: return s;
			case 13: return num(s.empty());
			default: if (has) ++i->second; else { s.push_back(KV(o.a, 0)); std::sort(s.begin(), s.end()); } return Result();	// under the lock
			}
		}
		static Result run(const Op& o, Type& l)
		{
			switch (o.what)
			{
			case 0: case 1: return num(l.Add(o.a, o.b));
			case 2: case 3: l.Set(o.a, o.b); return Result();
			case 4: case 5: return num(l.Remove(o.a));
			case 6: return num((int)l.RemoveWhere(fn<bool (const int&, const int&)>([](const int&, const int& x) { return odd(x); })));
			case 7: l.Clear(); return Result();
			case 8: return num((int)l.GetCount());
			case 9: return num(o.b % 2 ? l.ContainsKey(o.a) : l.Find(o.a)->Valid());
			case 10: if (o.b % 2) return num(l.Get(o.a)); else { int v; if (!l.TryGet(o.a, v)) return Throws; return num(v); }
			case 11: { State r = drain(l.GetEnumerator()); std::sort(r.begin(), r.end()); return r; }
			case 12: { const auto e = l.Reverse(); State r = drain(e->GetEnumerator()); std::sort(r.begin(), r.end()); return r; }
			case 13: return num(l.IsEmpty());
			default:
				{
					ObservableCollectionLocker lock(l);
					int v = -1;
					l.TryGet(o.a, v);
					sched::point("locked");
					l.Set(o.a, v + 1);
					return Result();
				}
			}
		}
	};

	struct ValueKit
	{
		typedef IObservableValue<int> Type;
		static const unsigned Ops = 6;
		static shared_ptr<Type> make(Src&) { return make_shared_ptr<ObservableValue<int> >(0); }
		static bool ordered() { return true; }
		template < typename F > static function<void (int)> handler(const F& f) { return fn<void (int)>([f](int v) { f(Note{ 2, KV(v, 0) }); }); }
		static bool apply(State& s, const Note& n) { s.assign(1, n.item); return true; }
		static std::vector<Note> population(const State& s) { return std::vector<Note>(1, Note{ 2, s.empty() ? KV() : s[0] }); }
		static Result model(const Op& o, State& s)
		{
			if (s.empty()) s.assign(1, KV());
			switch (o.what)
			{
			case 0: case 1: case 2: s[0].first = o.b; return Result();
			case 3: case 4: return num(s[0].first);
			default: ++s[0].first; return Result();	// under the lock
			}
		}
		static Result run(const Op& o, Type& l)
		{
			switch (o.what)
			{
			case 0: case 1: case 2: l.Set(o.b); return Result();
			case 3: case 4: return num(l.Get());
			default:
				{
					MutexLock lock(l.GetSyncRoot());
					const int v = l.Get();
					sched::point("locked");
					l.Set(v + 1);
					return Result();
				}
			}
		}
	};

	template < typename V > size_t count(const V& v) { sched::NoPreempt np; return v.size(); }

	struct Listener
	{
		bool async, state, disconnects; unsigned delay, life;
		std::vector<Note> got;
		size_t before = 0, after = 0, disBefore = 0, disAfter = 0;
		bool disconnected = false;
		Token token;
	};
	std::vector<Listener> gen_listeners(Src& s, Ctx& c)
	{
		std::vector<Listener> ls;
		while (ls.size() < 3 && s.chance(2, 3))
		{
			Listener l;
			l.async = s.chance(1, 4);
			l.state = !s.chance(1, 4);
			l.disconnects = s.coin();
			l.delay = s.pick<unsigned>({ 0, 0, 1, 3 });
			l.life = s.pick<unsigned>({ 0, 0, 1, 3 });
			TR("listener" << (l.async ? " async" : "") << (l.state ? "" : " without state") << " after " << l.delay << (l.disconnects ? " disconnects after " + std::to_string(l.life) : ""));
			ls.push_back(std::move(l));
		}
		return ls;
	}

	template < typename Kit >
	void observables(Src& s, Ctx& c)
	{
		struct Done { size_t thread, no, before, after; Result result; };
		std::vector<std::vector<Op> > prog(s.weighted({ 3u, 2u }) + 2);
		for (auto& p : prog)
		{
			std::string t;
			while (p.size() < 7 && s.more(4))
			{
				p.push_back(Op{ (unsigned)s.below(Kit::Ops), s.range<int>(0, 3), s.range<int>(0, 4) });
				t += " " + std::to_string(p.back().what) + "(" + std::to_string(p.back().a) + "," + std::to_string(p.back().b) + ")";
			}
			TR("thread:" << t);
		}
		std::vector<Listener> ls = gen_listeners(s, c);
		const shared_ptr<typename Kit::Type> col = Kit::make(s);
		struct Entry { Note note; int thread; size_t op; };
		std::vector<Entry> log;
		State initial, root;
		std::map<int, size_t> current;	// the operation of a thread
		std::vector<Done> done;
		sched::start(s);
		{
			Kit::model(Op{ 99, 0, 0 }, root);
			root.clear();
			// the first to be told
			const Token first = col->OnChanged().connect(Kit::handler([&](const Note& n)
			{
				sched::NoPreempt np;
				log.push_back(Entry{ n, sched::self(), current[sched::self()] });
				REQUIRE(Kit::apply(root, n), show(n) << " is reported for " << pbt::show(root));
			}), false);
			const ITaskExecutorPtr worker = make_shared_ptr<ThreadTaskExecutor>("worker", null);
			std::vector<sched::Thread> threads;
			std::vector<int> selfs(prog.size());
			for (size_t t = 0; t < prog.size(); ++t)
				threads.emplace_back([&, t]
				{
					{ sched::NoPreempt np; selfs[t] = sched::self(); }
					for (size_t i = 0; i < prog[t].size(); ++i)
					{
						Done d;
						{ sched::NoPreempt np; current[sched::self()] = i; d.thread = t; d.no = i; d.before = log.size(); }
						try { d.result = Kit::run(prog[t][i], *col); }
						catch (const Failure&) { throw; }
						catch (const std::exception&) { d.result = Throws; }
						sched::NoPreempt np;
						d.after = log.size();
						done.push_back(d);
					}
				});
			for (Listener& l : ls)
				threads.emplace_back([&]
				{
					if (l.delay) sched::sleep_ms(l.delay);
					const auto h = Kit::handler([&](const Note& n)
					{
						sched::NoPreempt np;
						REQUIRE(!l.disconnected, "a disconnected listener is told");
						l.got.push_back(n);
					});
					l.before = count(log);
					if (l.async) l.token = col->OnChanged().connect(worker, h, l.state);
					else l.token = col->OnChanged().connect(h, l.state);
					l.after = count(log);
					if (!l.disconnects) return;
					if (l.life) sched::sleep_ms(l.life);
					l.disBefore = count(log);
					l.token.Reset();
					sched::NoPreempt np;
					l.disAfter = log.size();
					l.disconnected = true;
				});
			threads.clear();
			bool ready = false;
			worker->AddTask(fn<void ()>([&] { sched::NoPreempt np; ready = true; }));
			sched::wait_until([&] { return ready; });
			const Result last = Kit::run(Op{ Kit::Ops == 18 ? 13u : Kit::Ops == 13 ? 10u : Kit::Ops == 15 ? 11u : 3u, 0, 0 }, *col);
			State r = root;
			const Result want = Kit::model(Op{ Kit::Ops == 18 ? 13u : Kit::Ops == 13 ? 10u : Kit::Ops == 15 ? 11u : 3u, 0, 0 }, r);
			REQUIRE_EQX(last, want, "the contents and the reported changes");
			for (Listener& l : ls) l.token.Reset();
			// states[i]: after i changes; visible, when nobody is in the middle of an operation
			std::vector<State> states(1, initial);
			for (const Entry& e : log) { State x = states.back(); Kit::apply(x, e.note); states.push_back(x); }
			std::vector<bool> visible(states.size(), true);
			for (size_t i = 1; i < log.size(); ++i) visible[i] = !(log[i - 1].thread == log[i].thread && log[i - 1].op == log[i].op);
			std::map<std::pair<int, size_t>, std::pair<size_t, size_t> > groups;
			for (size_t i = 0; i < log.size(); ++i)
			{
				auto& g = groups.insert(std::make_pair(std::make_pair(log[i].thread, log[i].op), std::make_pair(i, i))).first->second;
				REQUIRE(i <= g.second + 1, "the changes of an operation are mixed with those of another");
				g.second = i;
			}
			for (const Done& d : done)
			{
				const Op& o = prog[d.thread][d.no];
				const auto g = groups.find(std::make_pair(selfs[d.thread], d.no));
				if (g != groups.end())
				{
					const size_t b = g->second.first, e = g->second.second + 1;
					REQUIRE(b >= d.before && e <= d.after, "an operation is reported outside of it");
					State x = states[b];
					const Result w = Kit::model(o, x);
					REQUIRE(x == states[e], "operation " << o.what << "(" << o.a << "," << o.b << ") on " << pbt::show(states[b]) << " gives " << pbt::show(states[e]));
					REQUIRE_EQX(d.result, w, "operation " << o.what << "(" << o.a << "," << o.b << ") on " << pbt::show(states[b]));
					continue;
				}
				bool explained = false;
				for (size_t i = d.before; i <= d.after && !explained; ++i)
				{
					if (!visible[i]) continue;
					State x = states[i];
					const Result w = Kit::model(o, x);
					explained = w == d.result && (x == states[i] || (Kit::Ops == 6 && states[i].empty() && x[0] == KV()));
				}
				REQUIRE(explained, "no state explains " << pbt::show(d.result) << " of operation " << o.what << "(" << o.a << "," << o.b << ") between changes " << d.before << " and " << d.after << " of " << pbt::show(states));
			}
			for (const Listener& l : ls)
			{
				bool explained = false;
				for (size_t p = l.before; p <= l.after && !explained; ++p)
				{
					if (!visible[p]) continue;
					std::vector<Note> w = l.state ? Kit::population(states[p]) : std::vector<Note>();
					const size_t n = w.size();
					for (size_t i = p; i < log.size(); ++i) w.push_back(log[i].note);
					std::vector<Note> got = l.got;
					if (got.size() > w.size()) continue;
					if (!l.disconnects && got.size() != w.size()) continue;
					if (l.disconnects && (l.async ? got.size() > n + l.disAfter - std::min(p, l.disAfter) : got.size() < n + std::max(p, l.disBefore) - p || got.size() > n + l.disAfter - p)) continue;
					if (!Kit::ordered() && got.size() >= n) std::sort(got.begin(), got.begin() + n, [](const Note& a, const Note& b) { return a.item < b.item; });
					if (got.size() < n)
					{
						// a part of the state only
						explained = true;
						for (auto& x : got) explained &= std::count(w.begin(), w.begin() + n, x) > 0;
						continue;
					}
					explained = std::equal(got.begin(), got.end(), w.begin());
				}
				std::vector<Note> all;
				for (auto& e : log) all.push_back(e.note);
				REQUIRE(explained, "a listener connected between changes " << l.before << " and " << l.after << " of " << show(all) << " got " << show(l.got));
			}
		}
		bool mixed = false;
		for (size_t i = 1; i < log.size(); ++i) mixed |= log[i].thread != log[i - 1].thread;
		c.nontrivial_if(sched::preemptions() >= 1 && mixed && log.size() >= 3);
	}
}

PROP(lists, 30000, 1000000, 0, "threads took turns in changing the list, three changes, with a preemption") { observables<ListKit>(s, c); }
PROP(sets, 30000, 1000000, 0, "threads took turns in changing the set, three changes, with a preemption") { observables<SetKit>(s, c); }
PROP(dictionaries, 30000, 1000000, 0, "threads took turns in changing the dictionary, three changes, with a preemption") { observables<DictKit>(s, c); }
PROP(values, 20000, 600000, 0, "threads took turns in changing the value, three changes, with a preemption") { observables<ValueKit>(s, c); }


namespace
{
	struct TList
	{
		typedef TransactionalList<int, comparers::Equals> Type;
		typedef IListTransaction<int> Tr;
		typedef Type::DiffTypePtr Diff;
		static bool applyDiff(State& s, const Diff& d)
		{
			for (auto e = d->GetEnumerator(); e->Valid(); e->Next())
				if (!ListKit::apply(s, Note{ opOf(e->Get().Op), KV((int)e->Get().Item.Key, e->Get().Item.Value) })) return false;
			return true;
		}
		static void change(Tr& t, State& p, const Op& o)
		{
			switch (o.what % 6)
			{
			case 0: case 1: t.Add(o.b); p.push_back(KV(o.b, 0)); break;
			case 2: if ((size_t)o.a < p.size()) { t.Set(o.a, o.b); p[o.a] = KV(o.b, 0); } break;
			case 3: { const size_t i = std::min(p.size(), (size_t)o.a); t.Insert(i, o.b); p.insert(p.begin() + i, KV(o.b, 0)); } break;
			case 4: if ((size_t)o.a < p.size()) { t.RemoveAt(o.a); p.erase(p.begin() + o.a); } break;
			case 5: t.Clear(); p.clear(); break;
			}
		}
	};
	struct TSet
	{
		typedef TransactionalSet<int> Type;
		typedef ISetTransaction<int> Tr;
		typedef Type::DiffTypePtr Diff;
		static bool applyDiff(State& s, const Diff& d)
		{
			for (auto e = d->GetEnumerator(); e->Valid(); e->Next())
				if (!SetKit::apply(s, Note{ opOf(e->Get().Op), KV(e->Get().Item, 0) })) return false;
			return true;
		}
		static void change(Tr& t, State& p, const Op& o)
		{
			const auto i = std::find(p.begin(), p.end(), KV(o.b, 0));
			const bool has = i != p.end();
			switch (o.what % 6)
			{
			case 0: case 1: case 2: REQUIRE_EQ(t.Add(o.b), !has); if (!has) p.push_back(KV(o.b, 0)); std::sort(p.begin(), p.end()); break;
			case 3: case 4: REQUIRE_EQ(t.Remove(o.b), has); if (has) p.erase(i); break;
			case 5: t.Clear(); p.clear(); break;
			}
		}
	};
	struct TDict
	{
		typedef TransactionalDictionary<int, int> Type;
		typedef IDictionaryTransaction<int, int> Tr;
		typedef Type::DiffTypePtr Diff;
		static bool applyDiff(State& s, const Diff& d)
		{
			for (auto e = d->GetEnumerator(); e->Valid(); e->Next())
				if (!DictKit::apply(s, Note{ opOf(e->Get().Op), KV(e->Get().Item.Key, e->Get().Item.Value) })) return false;
			return true;
		}
		static void change(Tr& t, State& p, const Op& o)
		{
			const auto i = DictKit::find(p, o.a);
			const bool has = i != p.end();
			switch (o.what % 6)
			{
			case 0: REQUIRE_EQ(t.Add(o.a, o.b), !has); if (!has) p.push_back(KV(o.a, o.b)); std::sort(p.begin(), p.end()); break;
			case 1: case 2: t.Set(o.a, o.b); if (has) i->second = o.b; else p.push_back(KV(o.a, o.b)); std::sort(p.begin(), p.end()); break;
			case 3: case 4: REQUIRE_EQ(t.Remove(o.a), has); if (has) p.erase(i); break;
			case 5: t.Clear(); p.clear(); break;
			}
		}
	};

	template < typename Kit >
	void transactions(Src& s, Ctx& c)
	{
		enum { Read = 0, Change = 1, Commit = 2, Revert = 3, Look = 4 };
		struct Session { bool reader, timed; unsigned delay, pause; size_t timeout; std::vector<std::pair<unsigned, Op> > ops; };
		const bool jumps = s.coin();
		std::vector<std::vector<Session> > prog(s.weighted({ 3u, 2u }) + 2);
		for (size_t t = 0; t < prog.size(); ++t)
			while (prog[t].size() < 3 && (prog[t].empty() || s.coin()))
			{
				Session x;
				x.reader = s.chance(1, 4);
				x.timed = s.chance(1, 4);
				x.delay = s.pick<unsigned>({ 0, 0, 0, 1, 3 });
				x.pause = s.pick<unsigned>({ 0, 0, 0, 1, 4 });
				x.timeout = s.pick<size_t>({ 1, 3, 10 });
				std::string d;
				while (x.ops.size() < 6 && s.more(5))
				{
					const unsigned k = s.weighted({ 0u, 5u, 3u, 1u, 2u });
					x.ops.push_back(std::make_pair(k, Op{ (unsigned)s.below(6), s.range<int>(0, 3), s.range<int>(0, 4) }));
					d += " " + std::to_string(k) + ":" + std::to_string(x.ops.back().second.what) + "(" + std::to_string(x.ops.back().second.a) + "," + std::to_string(x.ops.back().second.b) + ")";
				}
				if (s.chance(3, 4)) { x.ops.push_back(std::make_pair((unsigned)Commit, Op{ 0, 0, 0 })); d += " commit"; }
				TR("thread " << t << (x.reader ? " reads" : " changes") << (x.timed ? " timed" : "") << " after " << x.delay << " pause " << x.pause << " timeout " << x.timeout << d);
				prog[t].push_back(x);
			}
		const std::vector<Listener> gen = gen_listeners(s, c);
		std::vector<std::pair<unsigned, size_t> > cancels;
		while (cancels.size() < 2 && s.chance(1, 3)) { cancels.push_back(std::make_pair(s.pick<unsigned>({ 0, 1, 3 }), s.below(prog.size()))); TR("cancel thread " << cancels.back().second << " after " << cancels.back().first); }
		TR((jumps ? "time jumps" : "no time jumps"));

		std::vector<State> committed(1);
		size_t active = 0, waited = 0, commits = 0, refused = 0;
		std::vector<ns_t> cancelled(prog.size(), -1);
		sched::start(s, sched::Mode(true, jumps));
		{
			const shared_ptr<typename Kit::Type> col = make_shared_ptr<typename Kit::Type>();
			State root;
			const Token first = col->OnChanged().connect(fn<void (const typename Kit::Diff&)>([&](const typename Kit::Diff& d)
			{
				sched::NoPreempt np;
				REQUIRE(active == 1, "a change outside of a transaction");
				REQUIRE(Kit::applyDiff(root, d), "the diff does not apply to " << pbt::show(root));
				committed.push_back(root);
			}), false);
			std::vector<std::unique_ptr<CancellationToken> > tokens;
			for (size_t t = 0; t < prog.size(); ++t) tokens.emplace_back(new CancellationToken);
			const auto readers = [&](const State& got, size_t before)
			{
				sched::NoPreempt np;
				for (size_t i = before; i < committed.size(); ++i) if (committed[i] == got) return;
				REQUIRE(false, "a reader sees " << pbt::show(got) << ", which was none of " << pbt::show(std::vector<State>(committed.begin() + before, committed.end())));
			};
			std::vector<sched::Thread> threads;
			for (size_t t = 0; t < prog.size(); ++t)
				threads.emplace_back([&, t]
				{
					for (const Session& x : prog[t])
					{
						if (x.delay) sched::sleep_ms(x.delay);
						if (x.reader)
						{
							size_t before = count(committed) - 1;
							const auto e = col->GetEnumerator();
							if (x.pause) sched::sleep_ms(x.pause);
							readers(drain(e), before);
							before = count(committed) - 1;
							const auto r = col->Reverse();
							readers(rev(drain(r->GetEnumerator())), before);
							{
								const MutexLock lock(col->GetSyncRoot());
								before = count(committed) - 1;
								const size_t n = col->GetCount();
								sched::point("locked");
								const State st = drain(col->GetEnumerator());
								sched::NoPreempt np;
								REQUIRE(st == committed.back() && before + 1 == committed.size() && st.size() == n && col->IsEmpty() == (n == 0), "a locked collection changed");
							}
							continue;
						}
						const ns_t begin = now();
						std::unique_ptr<TimedCancellationToken> timed;
						if (x.timed) timed.reset(new TimedCancellationToken(TimeDuration::FromMilliseconds((s64)x.timeout)));
						shared_ptr<typename Kit::Tr> tr;
						try { tr = col->StartTransaction(x.timed ? (const ICancellationToken&)*timed : *tokens[t]); }
						catch (const OperationCancelledException&)
						{
							sched::NoPreempt np;
							REQUIRE(!x.timed && cancelled[t] >= 0, "nobody cancelled");
							if (!jumps) REQUIRE(now() - std::max(begin, cancelled[t]) <= slack(), "the cancellation took " << (now() - std::max(begin, cancelled[t])) / Ms << " ms");
							++refused;
							continue;
						}
						catch (const TimeoutException&)
						{
							sched::NoPreempt np;
							REQUIRE(x.timed, "there was no time-out");
							REQUIRE(now() - begin >= (ns_t)x.timeout * Ms, "timed out too early");
							if (!jumps) REQUIRE(now() - begin <= (ns_t)x.timeout * Ms + slack(), "timed out after " << (now() - begin) / Ms << " ms of " << x.timeout);
							++refused;
							continue;
						}
						{ sched::NoPreempt np; REQUIRE(++active == 1, "two transactions at the same time"); waited += now() - begin > Ms; }
						State base;
						{ sched::NoPreempt np; base = committed.back(); }
						State pending = base;
						REQUIRE(!tr->IsDirty(), "a new transaction is dirty");
						for (auto& o : x.ops)
						{
							switch (o.first)
							{
							case Change: Kit::change(*tr, pending, o.second); break;
							case Commit:
								{
									const size_t n = count(committed);
									tr->Commit();
									sched::NoPreempt np;
									const size_t told = committed.size() - n;
									REQUIRE_EQX(told, (size_t)(pending != base), "changes told of a commit");
									REQUIRE_EQX(committed.back(), pending, "what was told of a commit");
									base = pending;
									commits += told;
								}
								break;
							case Revert: tr->Revert(); pending = base; break;
							case Look:
								{
									const auto e = tr->GetEnumerator();
									if (o.second.a == 0) sched::sleep_ms(1);
									REQUIRE_EQX(drain(e), pending, "inside");
									const auto r = tr->Reverse();
									REQUIRE_EQX(rev(drain(r->GetEnumerator())), pending, "inside, reversed");
									State d = base;
									REQUIRE(Kit::applyDiff(d, tr->Diff()) && d == pending, "the diff makes " << pbt::show(d) << " of " << pbt::show(base));
									REQUIRE_EQX(drain(col->GetEnumerator()), base, "outside");
									REQUIRE_EQ(col->GetCount(), base.size());
								}
								break;
							}
							REQUIRE_EQ(tr->GetCount(), pending.size());
							REQUIRE(tr->IsDirty() || pending == base, "changed but not dirty");
						}
						if (x.pause) sched::sleep_ms(x.pause);
						{ sched::NoPreempt np; REQUIRE_EQX(committed.back(), base, "committed by another during a transaction"); }
						{ sched::NoPreempt np; --active; }
						tr.reset();
					}
				});
			std::vector<Listener> ls(gen.size());
			struct Heard { std::vector<State> states; State now; };
			std::vector<Heard> heard(gen.size());
			for (size_t i = 0; i < gen.size(); ++i)
				threads.emplace_back([&, i]
				{
					const Listener& g = gen[i];
					Listener& l = ls[i];
					if (g.delay) sched::sleep_ms(g.delay);
					size_t before = count(committed) - 1;
					const auto h = fn<void (const typename Kit::Diff&)>([&, i](const typename Kit::Diff& d)
					{
						sched::NoPreempt np;
						REQUIRE(!ls[i].disconnected, "a disconnected listener is told");
						REQUIRE(Kit::applyDiff(heard[i].now, d), "the diff does not apply to what a listener knows: " << pbt::show(heard[i].now));
						REQUIRE_EQX(heard[i].now, committed.back(), "what a listener knows");
						heard[i].states.push_back(heard[i].now);
					});
					l.token = col->OnChanged().connect(h);
					size_t known;
					{
						const MutexLock lock(col->GetSyncRoot());
						sched::NoPreempt np;
						if (heard[i].states.empty())
						{
							bool empty = false;
							for (size_t k = before; k < committed.size(); ++k) empty |= committed[k].empty();
							REQUIRE(empty, "a listener was not told the contents");
						}
						REQUIRE_EQX(heard[i].now, committed.back(), "what a connected listener knows");
						before = committed.size();
						known = heard[i].states.size();
					}
					if (g.life) sched::sleep_ms(g.life);
					if (!g.disconnects) return;
					{
						const MutexLock lock(col->GetSyncRoot());
						sched::NoPreempt np;
						REQUIRE_EQX(heard[i].states.size() - known, committed.size() - before, "changes told");
					}
					l.token.Reset();
					sched::NoPreempt np;
					l.disconnected = true;
				});
			for (auto& x : cancels)
				threads.emplace_back([&, x]
				{
					if (x.first) sched::sleep_ms(x.first);
					{ sched::NoPreempt np; if (cancelled[x.second] < 0) cancelled[x.second] = now(); }
					tokens[x.second]->Cancel();
				});
			threads.clear();
			REQUIRE_EQX(drain(col->GetEnumerator()), committed.back(), "the contents");
			for (size_t i = 0; i < gen.size(); ++i)
				if (!gen[i].disconnects) REQUIRE_EQX(heard[i].now, committed.back(), "what a listener knows at last");
		}
		if (refused) c.label("refused");
		if (waited) c.label("waited");
		c.nontrivial_if(sched::preemptions() >= 1 && commits >= 2);
	}
}

PROP(transactional_lists, 20000, 800000, 0, "two commits, with a preemption") { transactions<TList>(s, c); }
PROP(transactional_sets, 20000, 800000, 0, "two commits, with a preemption") { transactions<TSet>(s, c); }
PROP(transactional_dictionaries, 20000, 800000, 0, "two commits, with a preemption") { transactions<TDict>(s, c); }
