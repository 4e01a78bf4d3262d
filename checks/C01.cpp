// ENGINE: seq
// Smart pointers against an ownership model: a set of owners per object.
#include "pbt.h"
#include "tracked.h"
#include <stingraykit/shared_ptr.h>
#include <stingraykit/self_counter.h>
#include <stingraykit/ref_count.h>
#include <stingraykit/Holder.h>
#include <stingraykit/optional.h>
#include <stingraykit/function/bind.h>
#include <vector>
#include <map>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	// ---- objects ----------------------------------------------------------------------------------------------------
	struct World
	{
		std::vector<int>	destroyed;		// per object: number of destructions
		std::vector<int>	deleted;		// per object: number of custom deleter calls
		int					unborn;			// objects whose constructor threw
		std::string			error;
		World() : unborn(0) { }
	};
	World* W;
	unsigned probe;		// null dereferences are probed now and then: an exception costs a backtrace

	struct Left
	{
		int id;
		uint32_t pad[3];
		Left(int id_) : id(id_) { ThrowPlan::hit(); pad[0] = 0x11111111; }
		virtual ~Left() { pad[0] = 0xdead; ++W->destroyed[id]; }
	};
	struct Right
	{
		int rid;
		Right(int id) : rid(id) { ThrowPlan::hit(); }
		virtual ~Right() { }
	};
	struct Both : public Left, public Right
	{
		NTracked			member;
		int					num;
		shared_ptr<Left>	next;		// only objects with smaller ids, so no cycles
		weak_ptr<Both>		self;

		Both(int id) : Left(id), Right(id), member(id), num(id * 10) { ThrowPlan::hit(); }
		~Both()
		{
			if (!self.expired() || self.lock())
				W->error = "object revived by weak_ptr::lock() in its own destructor";
			if (self.use_count() != 0)
				W->error = "use_count() of a weak_ptr is not zero in the destructor of its object";
		}
	};

	struct Deleter
	{
		int id;
		bool throwOnCopy;
		Deleter(int i, bool t) : id(i), throwOnCopy(t) { }
		Deleter(const Deleter& o) : id(o.id), throwOnCopy(o.throwOnCopy) { if (throwOnCopy) throw std::runtime_error("deleter copy"); }
		template < typename T >
		void operator () (T* p) const { ++W->deleted[id]; delete p; }
	};

	// ---- model ------------------------------------------------------------------------------------------------------
	// slot: owner = object whose lifetime it controls/observes (-1 none), target = what get() must yield (-1 null)
	struct MS { int owner; int target; bool null; MS() : owner(-1), target(-1), null(true) { } MS(int o, int t) : owner(o), target(t), null(t < 0) { } };

	const size_t NL = 3, NB = 3, NR = 2, NI = 2, NWL = 3, NWB = 2, NWR = 2, NUL = 2, NUB = 2;

	struct M
	{
		std::vector<bool>	alive, isBoth, viaDeleter, hasSelf;
		std::vector<int>	next;			// -1
		std::vector<void*>	l, r, b, i;		// addresses
		MS sl[NL], sb[NB], sr[NR], si[NI], wl[NWL], wb[NWB], wr[NWR];
		int ul[NUL], ub[NUB];

		M() { for (int& x : ul) x = -1; for (int& x : ub) x = -1; }

		int strong(int id) const
		{
			int n = 0;
			for (const MS& s : sl) n += s.owner == id;
			for (const MS& s : sb) n += s.owner == id;
			for (const MS& s : sr) n += s.owner == id;
			for (const MS& s : si) n += s.owner == id;
			for (size_t k = 0; k < next.size(); ++k) n += alive[k] && next[k] == id;
			return n;
		}
		bool uniqueHeld(int id) const
		{
			for (int x : ul) if (x == id) return true;
			for (int x : ub) if (x == id) return true;
			return false;
		}
		void settle()
		{
			for (bool again = true; again; )
			{
				again = false;
				for (size_t k = 0; k < alive.size(); ++k)
					if (alive[k] && !strong(k) && !uniqueHeld(k))
					{ alive[k] = false; again = true; }
			}
		}
	};

	struct R	// the real thing
	{
		shared_ptr<Left> sl[NL];
		shared_ptr<Both> sb[NB];
		shared_ptr<Right> sr[NR];
		shared_ptr<int> si[NI];
		weak_ptr<Left> wl[NWL];
		weak_ptr<Both> wb[NWB];
		weak_ptr<Right> wr[NWR];
		unique_ptr<Left> ul[NUL];
		unique_ptr<Both> ub[NUB];
	};

	template < typename P >
	void checkStrong(const P& p, const MS& m, void* addr, const M& mod, const char* what)
	{
		void* want = m.target < 0 ? NULL : addr;
		REQUIRE_EQX((void*)p.get(), want, what);
		REQUIRE_EQX((bool)p, want != NULL, what);
		REQUIRE_EQX(p.is_initialized(), want != NULL, what);
		REQUIRE_EQX(p == null, want == NULL, what);
		REQUIRE_EQX(null != p, want != NULL, what);
		size_t n = m.owner < 0 ? 0 : mod.strong(m.owner);
		REQUIRE_EQX(p.use_count(), n, what);
		REQUIRE_EQX(p.unique(), n == 1, what);
		if (want)
		{
			REQUIRE_EQX((void*)p.operator->(), want, what);
			REQUIRE_EQX((void*)&*p, want, what);
		}
		else if (++probe % 32 == 1)
		{
			REQUIRE(THROWS(*p), "dereferencing a null shared_ptr must be refused");
			REQUIRE(THROWS(p.operator->()), "dereferencing a null shared_ptr must be refused");
		}
	}

	template < typename P >
	void checkWeak(const P& p, const MS& m, void* addr, const M& mod, const char* what)
	{
		bool al = m.owner >= 0 && mod.alive[m.owner];
		size_t n = al ? mod.strong(m.owner) : 0;
		REQUIRE_EQX(p.use_count(), n, what);
		REQUIRE_EQX(p.expired(), n == 0, what);
		auto l = p.lock();
		REQUIRE_EQX((void*)l.get(), (n && m.target >= 0) ? addr : (void*)NULL, what);
		REQUIRE_EQX(l.use_count(), n ? n + 1 : 0, what);
	}

	void checkAll(const M& m, const R& r)
	{
		if (!W->error.empty()) FAIL(W->error);
		for (size_t k = 0; k < m.alive.size(); ++k)
		{
			REQUIRE_EQX(W->destroyed[k], m.alive[k] ? 0 : 1, "destructions of object " + std::to_string(k));
			REQUIRE_EQX(W->deleted[k], (m.viaDeleter[k] && !m.alive[k]) ? 1 : 0, "deleter calls for object " + std::to_string(k));
		}
		auto A = [&](const std::vector<void*>& v, int t) { return t < 0 ? (void*)NULL : v[t]; };
		for (size_t i = 0; i < NL; ++i) checkStrong(r.sl[i], m.sl[i], A(m.l, m.sl[i].target), m, "shared_ptr<Left>");
		for (size_t i = 0; i < NB; ++i) checkStrong(r.sb[i], m.sb[i], A(m.b, m.sb[i].target), m, "shared_ptr<Both>");
		for (size_t i = 0; i < NR; ++i) checkStrong(r.sr[i], m.sr[i], A(m.r, m.sr[i].target), m, "shared_ptr<Right>");
		for (size_t i = 0; i < NI; ++i) checkStrong(r.si[i], m.si[i], A(m.i, m.si[i].target), m, "aliasing shared_ptr<int>");
		for (size_t i = 0; i < NWL; ++i) checkWeak(r.wl[i], m.wl[i], A(m.l, m.wl[i].target), m, "weak_ptr<Left>");
		for (size_t i = 0; i < NWB; ++i) checkWeak(r.wb[i], m.wb[i], A(m.b, m.wb[i].target), m, "weak_ptr<Both>");
		for (size_t i = 0; i < NWR; ++i) checkWeak(r.wr[i], m.wr[i], A(m.r, m.wr[i].target), m, "weak_ptr<Right>");
		for (size_t i = 0; i < NUL; ++i)
		{
			REQUIRE_EQ((void*)r.ul[i].get(), A(m.l, m.ul[i]));
			REQUIRE_EQ((bool)r.ul[i], m.ul[i] >= 0);
			if (m.ul[i] < 0) { if (++probe % 32 == 1) REQUIRE(THROWS(r.ul[i].operator->()), ""); } else REQUIRE_EQ(r.ul[i]->id, m.ul[i]);
		}
		for (size_t i = 0; i < NUB; ++i) REQUIRE_EQ((void*)r.ub[i].get(), A(m.b, m.ub[i]));
		// content is intact
		for (size_t i = 0; i < NB; ++i) if (m.sb[i].target >= 0) { REQUIRE_EQ(r.sb[i]->id, m.sb[i].target); REQUIRE_EQ(r.sb[i]->member.get(), m.sb[i].target); }
		for (size_t i = 0; i < NR; ++i) if (m.sr[i].target >= 0) REQUIRE_EQ(r.sr[i]->rid, m.sr[i].target);
		for (size_t i = 0; i < NI; ++i) if (m.si[i].target >= 0) REQUIRE_EQ(*r.si[i], m.si[i].target * 10);
		// comparisons
		REQUIRE_EQ(r.sl[0] == r.sl[1], m.sl[0].target == m.sl[1].target);
		REQUIRE_EQ(r.sl[0] != r.sb[0], m.sl[0].target != m.sb[0].target);
		REQUIRE_EQ(!r.sl[0].owner_before(r.sb[1]) && !r.sb[1].owner_before(r.sl[0]), m.sl[0].owner == m.sb[1].owner);
		REQUIRE_EQ(!r.sl[0].owner_before(r.wl[1]) && !r.wl[1].owner_before(r.sl[0]), m.sl[0].owner == m.wl[1].owner);
	}

	int newObj(M& m, bool both)
	{
		m.alive.push_back(true); m.isBoth.push_back(both); m.viaDeleter.push_back(false); m.hasSelf.push_back(false); m.next.push_back(-1);
		m.l.push_back(NULL); m.r.push_back(NULL); m.b.push_back(NULL); m.i.push_back(NULL);
		W->destroyed.push_back(0); W->deleted.push_back(0);
		return (int)m.alive.size() - 1;
	}
	void bornL(M& m, int id, Left* p) { m.l[id] = p; }
	void bornB(M& m, int id, Both* p) { m.l[id] = static_cast<Left*>(p); m.r[id] = static_cast<Right*>(p); m.b[id] = p; m.i[id] = &p->num; }
}

PROP(shared_weak_unique, 90000, 900000, pbt::LeakCheck, "at least 3 objects, one of which was shared by two owners and then destroyed")
{
	World w; W = &w; probe = 0;
	{
		M m; R r;
		bool sharedOnce = false, destroyedShared = false;
		std::vector<bool> wasShared;
		while (s.more(40))
		{
			const size_t op = s.weighted({6, 3, 3, 3, 4, 4, 4, 4, 3, 3, 3, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2});
			size_t a = s.below(3), b = s.below(3);
			c.tr("op ", op, " a=", a, " b=", b);
			switch (op)
			{
			case 0:		// create Both into sb[a]
			case 1:		// create Left into sl[a]
				{
					const bool both = op == 0;
					const size_t how = s.weighted({3, 3, 2, 2, 1, 1});
					const int id = newObj(m, both);
					c.tr("  create ", both ? "Both" : "Left", " #", id, " how=", how);
					auto go = [&](auto& slot, MS& ms, auto* tag, auto born)
					{
						typedef typename std::remove_pointer<decltype(tag)>::type T;
						if (how == 0)
						{ slot = make_shared_ptr<T>(id); born(m, id, slot.get()); ms = MS(id, id); }
						else if (how == 1)
						{ T* p = new T(id); born(m, id, p); if (s.coin()) slot.reset(p); else slot = shared_ptr<T>(p); ms = MS(id, id); }
						else if (how == 2)
						{ T* p = new T(id); born(m, id, p); slot = shared_ptr<T>(p, Deleter(id, false)); m.viaDeleter[id] = true; ms = MS(id, id); }
						else if (how == 3)	// constructor throws
						{
							ThrowPlan t((int)s.below(both ? 4 : 1));
							if (s.coin())
								REQUIRE(THROWS(make_shared_ptr<T>(id)), "");
							else
								REQUIRE(THROWS(slot = shared_ptr<T>(new T(id))), "");
							m.alive[id] = true; W->destroyed[id] = 0;	// never existed: neutralise (a completed Left base is destroyed by the language)
							m.alive[id] = false; W->destroyed[id] = 1;
						}
						else if (how == 4)	// deleter that cannot be copied: the object must still be destroyed exactly once
						{
							T* p = new T(id); born(m, id, p);
							Deleter d(id, true);
							m.viaDeleter[id] = true;
							REQUIRE(THROWS(shared_ptr<T>(p, d)), "");
						}
						else
						{ unique_ptr<T> u(new T(id)); born(m, id, u.get()); if (s.coin()) slot = std::move(u); else slot = shared_ptr<T>(std::move(u)); REQUIRE(!u, "unique_ptr gave up ownership"); ms = MS(id, id); }
					};
					if (both) go(r.sb[a], m.sb[a], (Both*)0, bornB); else go(r.sl[a], m.sl[a], (Left*)0, bornL);
				}
				break;
			case 2:	if (s.coin()) r.sl[a].reset(); else r.sl[a] = null; m.sl[a] = MS(); break;
			case 3:	if (s.coin()) r.sb[a].reset(); else r.sb[a] = shared_ptr<Both>(); m.sb[a] = MS(); break;
			case 4:	if (s.coin()) { r.sl[a] = r.sl[b]; m.sl[a] = m.sl[b]; } else { r.sb[a] = r.sb[b]; m.sb[a] = m.sb[b]; } break;
			case 5:		// move, self included
				if (s.coin()) { MS t = m.sl[b]; m.sl[b] = MS(); m.sl[a] = t; r.sl[a] = std::move(r.sl[b]); if (a == b) { /* self-move keeps the value (tmp+swap) */ } }
				else { MS t = m.sb[b]; m.sb[b] = MS(); m.sb[a] = t; r.sb[a] = std::move(r.sb[b]); }
				break;
			case 6:		// up-casts, copy and move
				if (s.coin())
				{
					if (s.coin()) { r.sl[a] = r.sb[b]; m.sl[a] = m.sb[b]; }
					else { r.sl[a] = std::move(r.sb[b]); m.sl[a] = m.sb[b]; m.sb[b] = MS(); }
				}
				else
				{
					a %= NR;
					if (s.coin()) { shared_ptr<Right> p(r.sb[b]); r.sr[a] = p; m.sr[a] = m.sb[b]; }
					else { shared_ptr<Right> p(std::move(r.sb[b])); r.sr[a] = std::move(p); m.sr[a] = m.sb[b]; m.sb[b] = MS(); }
				}
				break;
			case 7:		// down-cast
				{
					shared_ptr<Both> p;
					MS t = s.coin() ? m.sl[b] : m.sr[b % NR];
					if (&t, t.owner == m.sl[b].owner && t.target == m.sl[b].target) { t = m.sl[b]; p = DynamicCast<shared_ptr<Both>>(r.sl[b]); }
					else p = dynamic_caster(r.sr[b % NR]);
					r.sb[a] = p;
					m.sb[a] = (t.target >= 0 && m.isBoth[t.target]) ? t : MS();
				}
				break;
			case 8:	// weak from strong
				switch (s.below(4))
				{
				case 0: r.wl[a] = r.sl[b]; m.wl[a] = m.sl[b]; break;
				case 1: r.wb[a % NWB] = r.sb[b].weak(); m.wb[a % NWB] = m.sb[b]; break;
				case 2: r.wr[a % NWR] = r.sb[b]; m.wr[a % NWR] = m.sb[b]; break;
				default: r.wl[a] = weak_ptr<Left>(r.sb[b]); m.wl[a] = m.sb[b]; break;
				}
				break;
			case 9:	// weak copy / move / self / convert
				switch (s.below(4))
				{
				case 0: r.wl[a] = r.wl[b]; m.wl[a] = m.wl[b]; break;
				case 1: { MS t = m.wl[b]; m.wl[b] = MS(); m.wl[a] = t; r.wl[a] = std::move(r.wl[b]); } break;
				case 2: r.wl[a] = r.wb[b % NWB]; m.wl[a] = m.wb[b % NWB]; break;
				default: r.wl[a] = std::move(r.wb[b % NWB]); m.wl[a] = m.wb[b % NWB]; m.wb[b % NWB] = MS(); break;
				}
				break;
			case 10: // lock
				{
					auto lk = [&](const MS& x) { return x.owner >= 0 && m.strong(x.owner) ? x : MS(); };
					switch (s.below(3))
					{
					case 0: { MS t = lk(m.wl[b]); r.sl[a] = r.wl[b].lock(); m.sl[a] = t; } break;
					case 1: { MS t = lk(m.wb[b % NWB]); r.sb[a] = r.wb[b % NWB].lock(); m.sb[a] = t; } break;
					default: { MS t = lk(m.wr[b % NWR]); r.sr[a % NR] = r.wr[b % NWR].lock(); m.sr[a % NR] = t; } break;
					}
				}
				break;
			case 11: if (s.coin()) { r.wl[a].reset(); m.wl[a] = MS(); } else { r.wb[a % NWB].reset(); m.wb[a % NWB] = MS(); } break;
			case 12: // swap
				if (s.coin()) { if (s.coin()) r.sb[a].swap(r.sb[b]); else swap(r.sb[a], r.sb[b]); std::swap(m.sb[a], m.sb[b]); }
				else { if (s.coin()) r.wl[a].swap(r.wl[b]); else swap(r.wl[a], r.wl[b]); std::swap(m.wl[a], m.wl[b]); }
				break;
			case 13: // release_if_unique
				{
					const bool want = m.sb[a].owner >= 0 && m.strong(m.sb[a].owner) == 1;
					REQUIRE_EQ(r.sb[a].release_if_unique(), want);
					if (want) m.sb[a] = MS();
				}
				break;
			case 14: // aliasing copy
				a %= NI;
				if (m.sb[b].target >= 0)
				{
					r.si[a] = shared_ptr<int>(r.sb[b], &r.sb[b]->num);
					m.si[a] = MS(m.sb[b].owner, m.sb[b].target);
				}
				else { r.si[a].reset(); m.si[a] = MS(); }
				break;
			case 15: // aliasing move
				a %= NI;
				if (m.sb[b].target >= 0)
				{
					int* p = &r.sb[b]->num;
					r.si[a] = shared_ptr<int>(std::move(r.sb[b]), p);
					m.si[a] = MS(m.sb[b].owner, m.sb[b].target);
					m.sb[b] = MS();
				}
				break;
			case 16: if (s.coin()) { r.sr[a % NR].reset(); m.sr[a % NR] = MS(); } else { r.si[a % NI].reset(); m.si[a % NI] = MS(); } break;
			case 17: // chain: object x owns object y < x
				{
					const MS x = m.sb[a];
					const MS y = s.coin() ? m.sl[b] : m.sb[b];
					if (x.target >= 0 && y.target >= 0 && y.owner < x.target && y.target < x.target)
					{
						shared_ptr<Left> p;
						if (y.target == m.sl[b].target) p = r.sl[b]; else p = r.sb[b];
						c.tr("  #", x.target, ".next = #", y.target);
						r.sb[a]->next = p;
						p.reset();
						m.next[x.target] = y.owner;
					}
				}
				break;
			case 18: // unlink
				if (m.sb[a].target >= 0) { r.sb[a]->next.reset(); m.next[m.sb[a].target] = -1; }
				break;
			case 19: // weak to itself
				if (m.sb[a].target >= 0 && m.sb[a].owner == m.sb[a].target) { r.sb[a]->self = r.sb[a]; m.hasSelf[m.sb[a].target] = true; }
				break;
			case 20: // unique: create / reset / move / swap / release
				{
					const int id = newObj(m, true);
					switch (s.below(5))
					{
					case 0: { Both* p = new Both(id); bornB(m, id, p); r.ub[a % NUB].reset(p); m.ub[a % NUB] = id; } break;
					case 1: { r.ub[a % NUB] = make_unique_ptr<Both>(id); bornB(m, id, r.ub[a % NUB].get()); m.ub[a % NUB] = id; } break;
					case 2: { Left* p = new Left(id); m.isBoth[id] = false; bornL(m, id, p); r.ul[a % NUL] = unique_ptr<Left>(p); m.ul[a % NUL] = id; } break;
					default: m.alive[id] = false; W->destroyed[id] = 1; break;
					}
				}
				break;
			case 21:
				switch (s.below(5))
				{
				case 0: { size_t x = a % NUB, y = b % NUB; int t = m.ub[y]; m.ub[y] = -1; m.ub[x] = t; r.ub[x] = std::move(r.ub[y]); } break;
				case 1: { size_t x = a % NUL, y = b % NUB; m.ul[x] = m.ub[y]; m.ub[y] = -1; r.ul[x] = std::move(r.ub[y]); } break;
				case 2: { size_t x = a % NUL, y = b % NUL; std::swap(m.ul[x], m.ul[y]); r.ul[x].swap(r.ul[y]); } break;
				case 3: { size_t x = a % NUL; delete r.ul[x].release(); m.ul[x] = -1; } break;
				default: r.ub[a % NUB].reset(); m.ub[a % NUB] = -1; break;
				}
				break;
			case 22: // unique -> shared, conversion included
				switch (s.below(3))
				{
				case 0: { size_t y = b % NUB; r.sb[a] = std::move(r.ub[y]); m.sb[a] = m.ub[y] < 0 ? MS() : MS(m.ub[y], m.ub[y]); m.ub[y] = -1; } break;
				case 1: { size_t y = b % NUB; r.sl[a] = std::move(r.ub[y]); m.sl[a] = m.ub[y] < 0 ? MS() : MS(m.ub[y], m.ub[y]); m.ub[y] = -1; } break;
				default: { size_t y = b % NUL; shared_ptr<Left> p(std::move(r.ul[y])); r.sl[a] = p; m.sl[a] = m.ul[y] < 0 ? MS() : MS(m.ul[y], m.ul[y]); m.ul[y] = -1; } break;
				}
				break;
			}
			m.settle();
			for (size_t k = 0; k < m.alive.size(); ++k)
			{
				if (wasShared.size() <= k) wasShared.resize(k + 1);
				if (m.strong(k) >= 2) { wasShared[k] = true; sharedOnce = true; }
				if (wasShared[k] && !m.alive[k]) destroyedShared = true;
			}
			checkAll(m, r);
		}
		c.nontrivial_if(m.alive.size() >= 3 && sharedOnce && destroyedShared);
		for (int x : m.next) c.label_if(x >= 0, "object owning another");
		for (bool x : m.viaDeleter) c.label_if(x, "custom deleter");
		for (bool x : m.hasSelf) c.label_if(x, "weak pointer to itself");
	}
	if (!w.error.empty()) FAIL(w.error);
	for (size_t k = 0; k < w.destroyed.size(); ++k)
		REQUIRE_EQX(w.destroyed[k], 1, "destructions of object " + std::to_string(k) + " in the end");
}

namespace
{
	int scAlive;
	struct ScBase : public self_counter<ScBase>
	{
		int id; NTracked t;
		ScBase(int i) : id(i), t(i) { ThrowPlan::hit(); ++scAlive; }
		virtual ~ScBase() { --scAlive; ++W->destroyed[id]; }
	};
	struct ScExtra { int x; ScExtra() : x(5) { } virtual ~ScExtra() { } };
	struct ScDerived : public ScExtra, public ScBase
	{ self_count_ptr<ScBase> next; ScDerived(int i) : ScBase(i) { } };
}

PROP(self_counted, 80000, 800000, pbt::LeakCheck, "an object had two owners and was destroyed")
{
	World w; W = &w; probe = 0; scAlive = 0;
	{
		const size_t N = 4, ND = 2;
		self_count_ptr<ScBase> p[N];
		self_count_ptr<ScDerived> d[ND];
		int mp[N], md[ND];
		for (int& x : mp) x = -1;
		for (int& x : md) x = -1;
		std::vector<int> next; std::vector<bool> alive, derived, shared;
		auto strong = [&](int id) { int n = 0; for (int x : mp) n += x == id; for (int x : md) n += x == id; for (size_t k = 0; k < next.size(); ++k) n += alive[k] && next[k] == id; return n; };
		while (s.more(30))
		{
			size_t a = s.below(N), b = s.below(N);
			const size_t op = s.weighted({4, 3, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1});
			c.tr("op ", op, " a=", a, " b=", b);
			auto fresh = [&](bool der) { alive.push_back(true); derived.push_back(der); next.push_back(-1); shared.push_back(false); w.destroyed.push_back(0); return (int)alive.size() - 1; };
			switch (op)
			{
			case 0: { int id = fresh(false); if (s.coin()) p[a] = make_self_count_ptr<ScBase>(id); else p[a].reset(new ScBase(id)); mp[a] = id; } break;
			case 1: { int id = fresh(true); d[a % ND] = make_self_count_ptr<ScDerived>(id); md[a % ND] = id; } break;
			case 2: p[a] = p[b]; mp[a] = mp[b]; break;
			case 3: { int t = mp[b]; mp[b] = -1; mp[a] = t; p[a] = std::move(p[b]); } break;
			case 4: if (s.coin()) { p[a] = d[b % ND]; mp[a] = md[b % ND]; } else { p[a] = std::move(d[b % ND]); mp[a] = md[b % ND]; md[b % ND] = -1; } break;
			case 5: // static downcast
				if (mp[b] < 0 || derived[mp[b]])
				{
					if (s.coin()) { d[a % ND] = self_count_ptr<ScDerived>(p[b], static_cast_tag()); md[a % ND] = mp[b]; }
					else { d[a % ND] = self_count_ptr<ScDerived>(std::move(p[b]), static_cast_tag()); md[a % ND] = mp[b]; mp[b] = -1; }
				}
				break;
			case 6: p[a].swap(p[b]); std::swap(mp[a], mp[b]); break;
			case 7: if (s.coin()) p[a].reset(); else p[a] = null; mp[a] = -1; break;
			case 8: if (s.coin()) { d[a % ND].reset(); md[a % ND] = -1; } else { std::swap(md[0], md[1]); d[0].swap(d[1]); } break;
			case 9: if (mp[b] >= 0) { p[a] = p[b]->self_count_ptr_from_this(); mp[a] = mp[b]; } break;
			case 10:
				if (md[a % ND] >= 0 && mp[b] >= 0 && mp[b] < md[a % ND]) { d[a % ND]->next = p[b]; next[md[a % ND]] = mp[b]; }
				break;
			default:
				{ ThrowPlan t(0); REQUIRE(THROWS(make_self_count_ptr<ScBase>(0)), ""); }
				break;
			}
			for (bool again = true; again; )
			{
				again = false;
				for (size_t k = 0; k < alive.size(); ++k)
				{
					if (strong(k) >= 2) shared[k] = true;
					if (alive[k] && !strong(k)) { alive[k] = false; again = true; c.nontrivial_if(shared[k]); }
				}
			}
			int n = 0;
			for (size_t k = 0; k < alive.size(); ++k) { REQUIRE_EQX(w.destroyed[k], alive[k] ? 0 : 1, "object " + std::to_string(k)); n += alive[k]; }
			REQUIRE_EQ(scAlive, n);
			for (size_t k = 0; k < N; ++k)
			{
				REQUIRE_EQ((bool)p[k], mp[k] >= 0);
				REQUIRE_EQ(p[k] == null, mp[k] < 0);
				REQUIRE_EQ(p[k].use_count(), (size_t)(mp[k] < 0 ? 0 : strong(mp[k])));
				REQUIRE_EQ(p[k].unique(), mp[k] >= 0 && strong(mp[k]) == 1);
				if (mp[k] >= 0) { REQUIRE_EQ(p[k]->id, mp[k]); REQUIRE_EQ((*p[k]).t.get(), mp[k]); }
				else if (++probe % 32 == 1) REQUIRE(THROWS(p[k].operator->()), "");
			}
			for (size_t k = 0; k < ND; ++k)
			{
				REQUIRE_EQ((bool)d[k], md[k] >= 0);
				REQUIRE_EQ(d[k].use_count(), (size_t)(md[k] < 0 ? 0 : strong(md[k])));
				if (md[k] >= 0) { REQUIRE_EQ(d[k]->id, md[k]); REQUIRE_EQ(d[k]->x, 5); }
			}
			REQUIRE_EQ(p[a] == p[b], mp[a] == mp[b]);
			REQUIRE_EQ(p[a] != d[0], mp[a] != md[0]);
		}
	}
	REQUIRE_EQ(scAlive, 0);
	for (int x : w.destroyed) REQUIRE_EQ(x, 1);
}

PROP(unique_array, 20000, 150000, pbt::LeakCheck, "an array changed hands")
{
	LIVE_BASE(NTracked);
	{
		unique_ptr<NTracked[]> u[3];
		size_t n[3] = { 0, 0, 0 }; bool has[3] = { false, false, false };
		while (s.more(10))
		{
			size_t a = s.below(3), b = s.below(3);
			switch (s.below(5))
			{
			case 0: { size_t k = s.below(5); u[a] = make_unique_ptr<NTracked[]>(k); n[a] = k; has[a] = true; for (size_t i = 0; i < k; ++i) u[a][i].value = (int)(k * 100 + i); } break;
			case 1: { size_t k = n[b]; bool h = has[b]; n[b] = 0; has[b] = false; n[a] = k; has[a] = h; u[a] = std::move(u[b]); c.nontrivial_if(h); } break;
			case 2: u[a].swap(u[b]); std::swap(n[a], n[b]); std::swap(has[a], has[b]); break;
			case 3: u[a].reset(); n[a] = 0; has[a] = false; break;
			default: { NTracked* p = u[a].release(); CheckedArrayDelete(p); n[a] = 0; has[a] = false; } break;
			}
			size_t total = 0;
			for (size_t i = 0; i < 3; ++i)
			{
				total += n[i];
				REQUIRE_EQ((bool)u[i], has[i]);
				for (size_t k = 0; k < n[i]; ++k) REQUIRE_EQ(u[i][k].get(), (int)(n[i] * 100 + k));
				if (!has[i]) REQUIRE(THROWS(u[i][0]), "");
			}
			REQUIRE_EQ(NTracked::live(), liveBase_NTracked + (long)total);
		}
	}
	LIVE_CHECK(NTracked);
}

PROP(ref_counts, 20000, 150000, pbt::LeakCheck, "two handles to one counter")
{
	typedef basic_ref_count<std::string> RC;
	std::vector<RC> v; std::vector<int> who; std::vector<int> count;
	while (s.more(14))
	{
		switch (s.below(6))
		{
		case 0: if (v.size() < 6) { v.push_back(RC(std::string("counter number ") + std::to_string(count.size()))); who.push_back((int)count.size()); count.push_back(1); } break;
		case 1: if (!v.empty() && v.size() < 6) { size_t i = s.below(v.size()); RC t(v[i]); v.push_back(t); who.push_back(who[i]); c.nontrivial(); } break;
		case 2: if (!v.empty()) { size_t i = s.below(v.size()), j = s.below(v.size()); v[i] = v[j]; who[i] = who[j]; } break;
		case 3: if (!v.empty()) { size_t i = s.below(v.size()); v.erase(v.begin() + i); who.erase(who.begin() + i); } break;
		case 4: if (!v.empty()) { size_t i = s.below(v.size()); ++count[who[i]]; REQUIRE_EQ(v[i].add_ref(), (u32)count[who[i]]); } break;
		default:
			if (!v.empty())
			{
				size_t i = s.below(v.size());
				if (s.coin()) { bool u = count[who[i]] == 1; REQUIRE_EQ(v[i].release_if_unique(), u); if (u) count[who[i]] = 0; }
				else if (count[who[i]] > 0) { --count[who[i]]; REQUIRE_EQ(v[i].release(), (u32)count[who[i]]); }
			}
			break;
		}
		for (size_t i = 0; i < v.size(); ++i)
		{
			REQUIRE(!v[i].IsNull(), "");
			REQUIRE_EQ(v[i].get(), (u32)count[who[i]]);
			REQUIRE_EQ(v[i].GetUserData(), std::string("counter number ") + std::to_string(who[i]));
			for (size_t j = 0; j < i; ++j) REQUIRE_EQ(v[i].get_ptr() == v[j].get_ptr(), who[i] == who[j]);
		}
	}
}

PROP(holders, 20000, 150000, pbt::LeakCheck, "a handle was replaced or released")
{
	std::vector<int> closed;
	std::vector<int> expect;
	{
		ScopedHolder<int> h(std::function<void (int)>([&](int x) { closed.push_back(x); }));
		optional<SharedHolder<int>> sh[3];
		struct Imp { bool valid; int v; };
		std::vector<Imp> imps; int which[3] = { -1, -1, -1 };
		bool valid = false; int cur = 0, nextv = 1;
		auto drop = [&](int i) { if (i >= 0 && imps[i].valid && which[0] != i && which[1] != i && which[2] != i) { expect.push_back(imps[i].v); imps[i].valid = false; } };
		while (s.more(12))
		{
			size_t a = s.below(3), b = s.below(3);
			switch (s.below(8))
			{
			case 0: if (valid) { expect.push_back(cur); c.nontrivial(); } cur = nextv++; h.Set(cur); valid = true; break;
			case 1: if (valid) expect.push_back(cur); valid = false; h.Clear(); break;
			case 2: if (valid) { REQUIRE_EQ(h.Release(), cur); c.nontrivial(); } else REQUIRE(THROWS(h.Release()), ""); valid = false; break;
			case 3: { int old = which[a]; imps.push_back(Imp{ true, nextv }); which[a] = (int)imps.size() - 1; sh[a] = SharedHolder<int>(nextv++, std::function<void (int)>([&](int x) { closed.push_back(x); })); drop(old); } break;
			case 4: { int old = which[a]; which[a] = which[b]; sh[a] = sh[b]; drop(old); } break;
			case 5: { int old = which[a]; which[a] = -1; sh[a].reset(); drop(old); } break;
			case 6: if (which[a] >= 0) { Imp& i = imps[which[a]]; if (i.valid) expect.push_back(i.v); i.valid = false; sh[a]->Clear(); } break;
			default: if (which[a] >= 0) { Imp& i = imps[which[a]]; if (i.valid) { expect.push_back(i.v); c.nontrivial(); } i.valid = true; i.v = nextv++; sh[a]->Set(i.v); } break;
			}
			REQUIRE_EQ(h.Valid(), valid);
			if (valid) REQUIRE_EQ(h.Get(), cur); else REQUIRE(THROWS(h.Get()), "");
			for (int k = 0; k < 3; ++k)
				if (which[k] >= 0)
				{
					REQUIRE_EQ(sh[k]->Valid(), imps[which[k]].valid);
					if (imps[which[k]].valid) REQUIRE_EQ(sh[k]->Get(), imps[which[k]].v);
				}
			REQUIRE_EQX(closed, expect, "handles cleaned up");
		}
		std::sort(expect.begin(), expect.end());
		if (valid) expect.push_back(cur);
		for (const Imp& i : imps) if (i.valid) expect.push_back(i.v);
	}
	std::sort(closed.begin(), closed.end()); std::sort(expect.begin(), expect.end());
	REQUIRE_EQX(closed, expect, "handles cleaned up in the end");
}
