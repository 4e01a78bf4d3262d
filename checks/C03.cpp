// ENGINE: seq
// flat_map / flat_set against std::map / std::set driven by the same operations.
#include "pbt.h"
#include "tracked.h"
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <map>
#include <set>
#include <list>
#include <memory>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	// stateful orders, one of them with equivalent but distinguishable keys
	struct Ord
	{
		int mode;
		Ord(int m = 0) : mode(m) { }
		static int num(int v) { return v; }
		static int num(const std::string& v) { return atoi(v.c_str() + 1); }
		static int num(const Tracked& v) { return v.get(); }
		template < typename T >
		bool operator () (const T& a, const T& b) const
		{
			const int x = num(a), y = num(b);
			switch (mode)
			{
			case 0: return x < y;
			case 1: return x > y;
			default: return x / 2 < y / 2;
			}
		}
	};

	struct MoveOnly
	{
		std::unique_ptr<int> p;
		MoveOnly() { }
		MoveOnly(int v) : p(new int(v)) { }
	};

	template < typename T > struct Mk;
	template < > struct Mk<int> { static int make(int v) { return v; } static int val(int v) { return v; } };
	template < > struct Mk<std::string> { static std::string make(int v) { char b[16]; snprintf(b, sizeof(b), "k%03d", v); return b; } static int val(const std::string& v) { return v.empty() ? -9 : atoi(v.c_str() + 1); } };
	template < > struct Mk<Tracked> { static Tracked make(int v) { return Tracked(v); } static int val(const Tracked& v) { return v.get(); } };
	template < > struct Mk<MoveOnly> { static MoveOnly make(int v) { return MoveOnly(v); } static int val(const MoveOnly& v) { return v.p ? *v.p : -9; } };
	template < typename T > struct Blank { static int val() { return Mk<T>::val(T()); } };

	typedef std::map<int, int, Ord> Ref;

	template < typename M >
	std::vector<std::pair<int, int>> content(const M& m)
	{
		std::vector<std::pair<int, int>> r;
		for (typename M::const_iterator it = m.begin(); it != m.end(); ++it)
			r.push_back(std::make_pair(Mk<typename M::key_type>::val(it->first), Mk<typename M::mapped_type>::val(it->second)));
		return r;
	}
	std::vector<std::pair<int, int>> refContent(const Ref& m) { return std::vector<std::pair<int, int>>(m.begin(), m.end()); }
	template < typename M, typename I >
	int pos(const M& m, I it) { return (int)std::distance(m.begin(), typename M::const_iterator(it)); }
	int rpos(const Ref& m, Ref::const_iterator it) { return (int)std::distance(m.begin(), it); }

	template < typename K, typename V, typename M >
	void checkMap(M& m, Ref& r, int keys, Src& s)
	{
		REQUIRE_EQ(content(m), refContent(r));
		REQUIRE_EQ(m.size(), r.size());
		REQUIRE_EQ(m.empty(), r.empty());
		const M& cm = m; const Ref& cr = r;
		{
			std::vector<std::pair<int, int>> a, b;
			for (typename M::reverse_iterator it = m.rbegin(); it != m.rend(); ++it) a.push_back(std::make_pair(Mk<K>::val(it->first), Mk<V>::val(it->second)));
			for (typename M::const_reverse_iterator it = cm.crbegin(); it != cm.crend(); ++it) b.push_back(std::make_pair(Mk<K>::val(it->first), Mk<V>::val(it->second)));
			std::vector<std::pair<int, int>> e(r.rbegin(), r.rend());
			REQUIRE_EQ(a, e); REQUIRE_EQ(b, e);
		}
		const int probe = (int)s.below(keys + 1);
		for (int k = -1; k <= keys; ++k)
		{
			const K key(Mk<K>::make(k));
			REQUIRE_EQ(pos(m, m.find(key)), rpos(r, r.find(k)));
			REQUIRE_EQ(pos(cm, cm.find(key)), rpos(cr, cr.find(k)));
			REQUIRE_EQ(cm.count(key), cr.count(k));
			REQUIRE_EQ(pos(m, m.lower_bound(key)), rpos(r, r.lower_bound(k)));
			REQUIRE_EQ(pos(cm, cm.lower_bound(key)), rpos(r, r.lower_bound(k)));
			REQUIRE_EQ(pos(m, m.upper_bound(key)), rpos(r, r.upper_bound(k)));
			REQUIRE_EQ(pos(cm, cm.upper_bound(key)), rpos(r, r.upper_bound(k)));
			REQUIRE_EQ(pos(m, m.equal_range(key).first), rpos(r, r.equal_range(k).first));
			REQUIRE_EQ(pos(cm, cm.equal_range(key).second), rpos(r, r.equal_range(k).second));
			if (r.count(k)) { REQUIRE_EQ(Mk<V>::val(m.at(key)), r.at(k)); REQUIRE_EQ(Mk<V>::val(cm.at(key)), r.at(k)); }
			else if (k == probe && !s.draw(24)) { REQUIRE(THROWS(m.at(key)), "at() of a missing key"); REQUIRE(THROWS(cm.at(key)), ""); }
			REQUIRE_EQ(m.key_comp()(key, Mk<K>::make(probe)), r.key_comp()(k, probe));
		}
	}

	const int Keys = 9;

	// copyable operations
	template < typename K, typename V, bool Throwing >
	void mapHistory(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked);
		{
			typedef flat_map<K, V, Ord> M;
			typedef typename M::value_type P;
			const size_t N = 2;
			const int modes[N] = { (int)s.below(3), (int)s.below(3) };
			M m[N] = { M(Ord(modes[0])), M(Ord(modes[1])) };
			Ref r[N] = { Ref(Ord(modes[0])), Ref(Ord(modes[1])) };
			unsigned dup = 0, grown = 0, thrown = 0;
			while (s.more(30))
			{
				const size_t a = s.below(N), b = s.below(N);
				const int k = (int)s.below(Keys), v = (int)s.below(100);
				const size_t op = s.below(22);
				const int plan = Throwing && s.chance(1, 4) ? (int)s.below(8) : -1;
				c.tr("op ", op, " a=", a, " b=", b, " k=", k, " v=", v, " throw=", plan);
				const P p(Mk<K>::make(k), Mk<V>::make(v));
				const size_t h = s.below(r[a].size() + 1);
				const Ref before(r[a]), beforeB(r[b]);
				try
				{
					ThrowPlan tp(plan);
					switch (op)
					{
					case 0: case 1:
						{
							std::pair<Ref::iterator, bool> y = r[a].insert(std::make_pair(k, v));
							if (!y.second) ++dup;
							P t(p);
							std::pair<typename M::iterator, bool> x = op ? m[a].insert(p) : m[a].insert(std::move(t));
							if (plan < 0) { REQUIRE_EQ(x.second, y.second); REQUIRE_EQ(pos(m[a], x.first), rpos(r[a], y.first)); }
							break;
						}
					case 2: case 3: case 4:
						{
							Ref::iterator y = r[a].insert(std::make_pair(k, v)).first;
							P t(p);
							typename M::iterator x = op == 2 ? m[a].insert(m[a].cbegin() + h, p) : op == 3 ? m[a].insert(m[a].cbegin() + h, std::move(t)) : m[a].emplace_hint(m[a].cbegin() + h, p.first, p.second);
							if (plan < 0) REQUIRE_EQ(pos(m[a], x), rpos(r[a], y));
							break;
						}
					case 5:
						{
							std::pair<Ref::iterator, bool> y = r[a].insert(std::make_pair(k, v));
							std::pair<typename M::iterator, bool> x = m[a].emplace(p.first, p.second);
							if (plan < 0) { REQUIRE_EQ(x.second, y.second); REQUIRE_EQ(pos(m[a], x.first), rpos(r[a], y.first)); }
							break;
						}
					case 6: case 7: { Ref::iterator y = r[a].insert(std::make_pair(k, Blank<V>::val())).first; y->second = v; K t(p.first); V& x = op == 6 ? m[a][p.first] : m[a][std::move(t)]; x = p.second; } break;
					case 8: { const size_t n = r[a].erase(k); const size_t x = m[a].erase(p.first); if (plan < 0) REQUIRE_EQ(x, n); } break;
					case 9: case 10:
						if (h < r[a].size())
						{
							Ref::iterator y = r[a].erase(std::next(r[a].begin(), h));
							typename M::iterator x = op == 9 ? m[a].erase(m[a].begin() + h) : m[a].erase(m[a].cbegin() + h);
							if (plan < 0) REQUIRE_EQ(pos(m[a], x), rpos(r[a], y));
						}
						break;
					case 11:
						{
							const size_t h2 = h + s.below(r[a].size() - h + 1);
							Ref::iterator y = r[a].erase(std::next(r[a].begin(), h), std::next(r[a].begin(), h2));
							typename M::iterator x = m[a].erase(m[a].cbegin() + h, m[a].cbegin() + h2);
							if (plan < 0) REQUIRE_EQ(pos(m[a], x), rpos(r[a], y));
							break;
						}
					case 12: r[a].clear(); m[a].clear(); break;
					case 13: r[a] = r[b]; m[a] = m[b]; break;
					case 14: if (plan < 0) { std::swap(r[a], r[b]); m[a].swap(m[b]); } break;
					case 15: { M t(m[b]); Ref rt(r[b]); m[a] = std::move(t); r[a] = rt; } break;
					case 16: { M t(m[a]); M u(std::move(t)); if (plan < 0) { Ref rr(r[a]); checkMap<K, V>(u, rr, 2, s); } } break;
					case 17: case 18: case 19:
						{
							std::vector<P> ps; std::list<P> ls;
							Ref add(r[a]);
							const Ref addOld(r[a]);
							for (size_t i = s.below(7); i; --i) { const int kk = (int)s.below(Keys), vv = (int)s.below(100); ThrowPlan off(-1); ps.push_back(P(Mk<K>::make(kk), Mk<V>::make(vv))); ls.push_back(ps.back()); add.insert(std::make_pair(kk, vv)); }
							r[a] = add;
							ThrowPlan::left() = plan;
							if (op == 17) m[a].insert(ps.begin(), ps.end());
							else if (op == 18) m[a].insert(ls.begin(), ls.end());
							else
							{
								const Ord cmp(m[a].key_comp());
								Ref fresh(cmp);
								for (auto& x : ps) fresh.insert(std::make_pair(Mk<K>::val(x.first), Mk<V>::val(x.second)));
								r[a] = fresh;
								M t(ls.begin(), ls.end(), cmp);
								m[a] = t;
							}
							break;
						}
					case 20:
						{
							const P q(Mk<K>::make((k + 3) % Keys), Mk<V>::make(v + 1));
							if (s.coin())
							{
								Ref fresh(r[a].key_comp()); fresh.insert(std::make_pair(k, v)); fresh.insert(std::make_pair((k + 3) % Keys, v + 1)); fresh.insert(std::make_pair(k, 1)); r[a] = fresh;
								m[a] = { p, q, P(p.first, Mk<V>::make(1)) };
							}
							else { r[a].insert(std::make_pair(k, v)); r[a].insert(std::make_pair((k + 3) % Keys, v + 1)); m[a].insert({ p, q }); }
							break;
						}
					default:
						{
							const bool mv = s.coin();
							M t(m[b]);
							M u = mv ? M(std::move(t), std::allocator<P>()) : M(t, std::allocator<P>());
							// the copy keeps sorting by the original's order
							r[a] = r[b]; m[a] = u;
							m[a].reserve(r[a].size() + k);
							break;
						}
					}
				}
				catch (const std::runtime_error&)
				{
					if (plan < 0) FAIL("unexpected exception");
					++thrown;
					for (size_t i = 0; i < N; ++i) { m[i].clear(); r[i] = Ref(m[i].key_comp()); }
				}
				if (r[a].size() > before.size()) ++grown;
				for (size_t i = 0; i < N; ++i) checkMap<K, V>(m[i], r[i], Keys, s);
				REQUIRE_EQ(m[0] == m[1], refContent(r[0]) == refContent(r[1])); REQUIRE_EQ(m[0] != m[1], refContent(r[0]) != refContent(r[1]));
				REQUIRE_EQ(m[0] < m[1], refContent(r[0]) < refContent(r[1])); REQUIRE_EQ(m[0] >= m[1], refContent(r[0]) >= refContent(r[1]));
				REQUIRE_EQ(m[0] > m[1], refContent(r[0]) > refContent(r[1])); REQUIRE_EQ(m[0] <= m[1], refContent(r[0]) <= refContent(r[1]));
			}
			c.nontrivial_if(grown >= 3 && (!Throwing || thrown));
			c.label_if(modes[0] == 2 || modes[1] == 2, "order with equivalent keys");
			c.label_if(dup, "duplicate insertion");
		}
		LIVE_CHECK(Tracked);
	}
}

PROP(map_int_string, 9000, 120000, pbt::LeakCheck, "at least three insertions took effect") { mapHistory<int, std::string, false>(s, c); }
PROP(map_string_int, 9000, 120000, pbt::LeakCheck, "at least three insertions took effect") { mapHistory<std::string, int, false>(s, c); }
PROP(map_throwing, 9000, 120000, pbt::LeakCheck, "at least three insertions took effect and an element operation threw") { mapHistory<Tracked, Tracked, true>(s, c); }

PROP(map_move_only, 15000, 150000, pbt::LeakCheck, "at least three insertions took effect")
{
	typedef flat_map<int, MoveOnly, Ord> M;
	const int mode = (int)s.below(3);
	M m{Ord(mode)}; Ref r{Ord(mode)};
	unsigned grown = 0;
	while (s.more(25))
	{
		const int k = (int)s.below(Keys), v = (int)s.below(100);
		const size_t op = s.below(9), h = s.below(r.size() + 1), old = r.size();
		c.tr("op ", op, " k=", k, " v=", v, " h=", h);
		switch (op)
		{
		case 0: { const bool e = r.insert(std::make_pair(k, v)).second; REQUIRE_EQ(m.insert(M::value_type(k, MoveOnly(v))).second, e); } break;
		case 1: { const bool e = r.insert(std::make_pair(k, v)).second; REQUIRE_EQ(m.emplace(k, v).second, e); } break;
		case 2: { const int e = rpos(r, r.insert(std::make_pair(k, v)).first); REQUIRE_EQ(pos(m, m.insert(m.cbegin() + h, M::value_type(k, MoveOnly(v)))), e); } break;
		case 3: { const int e = rpos(r, r.insert(std::make_pair(k, v)).first); REQUIRE_EQ(pos(m, m.emplace_hint(m.cbegin() + h, k, v)), e); } break;
		case 4: r[k] = v; m[k] = MoveOnly(v); break;
		case 5: { const size_t n = r.erase(k); REQUIRE_EQ(m.erase(k), n); } break;
		case 6: { M t(std::move(m)); m = std::move(t); } break;
		case 7: { M t{Ord(mode)}; t.swap(m); REQUIRE(m.empty(), ""); t.swap(m); } break;
		default: if (h < r.size()) { r.erase(std::next(r.begin(), h)); m.erase(m.begin() + h); } break;
		}
		if (r.size() > old) ++grown;
		checkMap<int, MoveOnly>(m, r, Keys, s);
	}
	c.nontrivial_if(grown >= 3);
}

// ---- flat_set -------------------------------------------------------------------------------------------------------
namespace
{
	typedef std::set<int, Ord> RSet;
	template < typename S >
	std::vector<int> items(const S& m) { std::vector<int> r; for (typename S::const_iterator it = m.begin(); it != m.end(); ++it) r.push_back(Mk<typename S::key_type>::val(*it)); return r; }
	template < typename S, typename I >
	int spos(const S& m, I it) { return (int)std::distance(m.begin(), typename S::const_iterator(it)); }

	template < typename K, typename S >
	void checkSet(S& m, RSet& r, int keys)
	{
		const S& cm = m;
		REQUIRE_EQ(items(m), std::vector<int>(r.begin(), r.end()));
		REQUIRE_EQ(m.size(), r.size()); REQUIRE_EQ(m.empty(), r.empty());
		std::vector<int> rev;
		for (typename S::reverse_iterator it = m.rbegin(); it != m.rend(); ++it) rev.push_back(Mk<K>::val(*it));
		REQUIRE_EQ(rev, std::vector<int>(r.rbegin(), r.rend()));
		for (int k = -1; k <= keys; ++k)
		{
			const K key(Mk<K>::make(k));
			REQUIRE_EQ(spos(m, m.find(key)), spos(r, r.find(k))); REQUIRE_EQ(spos(cm, cm.find(key)), spos(r, r.find(k)));
			REQUIRE_EQ(cm.count(key), r.count(k));
			REQUIRE_EQ(spos(m, m.lower_bound(key)), spos(r, r.lower_bound(k))); REQUIRE_EQ(spos(cm, cm.lower_bound(key)), spos(r, r.lower_bound(k)));
			REQUIRE_EQ(spos(m, m.upper_bound(key)), spos(r, r.upper_bound(k))); REQUIRE_EQ(spos(cm, cm.upper_bound(key)), spos(r, r.upper_bound(k)));
			REQUIRE_EQ(spos(m, m.equal_range(key).first), spos(r, r.equal_range(k).first)); REQUIRE_EQ(spos(cm, cm.equal_range(key).second), spos(r, r.equal_range(k).second));
			REQUIRE_EQ(m.key_comp()(key, Mk<K>::make(2)), r.key_comp()(k, 2)); REQUIRE_EQ(m.value_comp()(key, Mk<K>::make(3)), r.key_comp()(k, 3));
		}
	}

	template < typename K, bool Throwing >
	void setHistory(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked);
		{
			typedef flat_set<K, Ord> S;
			const size_t N = 2;
			const int modes[N] = { (int)s.below(3), (int)s.below(3) };
			S m[N] = { S(Ord(modes[0])), S(Ord(modes[1])) };
			RSet r[N] = { RSet(Ord(modes[0])), RSet(Ord(modes[1])) };
			unsigned grown = 0, thrown = 0;
			while (s.more(30))
			{
				const size_t a = s.below(N), b = s.below(N);
				const int k = (int)s.below(Keys);
				const size_t op = s.below(17), h = s.below(r[a].size() + 1), old = r[a].size();
				const int plan = Throwing && s.chance(1, 4) ? (int)s.below(6) : -1;
				c.tr("op ", op, " a=", a, " b=", b, " k=", k, " h=", h, " throw=", plan);
				const K p(Mk<K>::make(k));
				try
				{
					ThrowPlan tp(plan);
					switch (op)
					{
					case 0: case 1: case 2:
						{
							auto y = r[a].insert(k);
							K t(p);
							auto x = op == 0 ? m[a].insert(p) : op == 1 ? m[a].insert(std::move(t)) : m[a].emplace(p);
							if (plan < 0) { REQUIRE_EQ(x.second, y.second); REQUIRE_EQ(spos(m[a], x.first), spos(r[a], y.first)); }
							break;
						}
					case 3: case 4: case 5:
						{
							auto y = r[a].insert(k).first;
							K t(p);
							auto x = op == 3 ? m[a].insert(m[a].cbegin() + h, p) : op == 4 ? m[a].insert(m[a].cbegin() + h, std::move(t)) : m[a].emplace_hint(m[a].cbegin() + h, p);
							if (plan < 0) REQUIRE_EQ(spos(m[a], x), spos(r[a], y));
							break;
						}
					case 6: { const size_t n = r[a].erase(k); const size_t x = m[a].erase(p); if (plan < 0) REQUIRE_EQ(x, n); } break;
					case 7: if (h < r[a].size()) { auto y = r[a].erase(std::next(r[a].begin(), h)); auto x = m[a].erase(m[a].begin() + h); if (plan < 0) REQUIRE_EQ(spos(m[a], x), spos(r[a], y)); } break;
					case 8:
						{
							const size_t h2 = h + s.below(r[a].size() - h + 1);
							auto y = r[a].erase(std::next(r[a].begin(), h), std::next(r[a].begin(), h2)); auto x = m[a].erase(m[a].begin() + h, m[a].begin() + h2);
							if (plan < 0) REQUIRE_EQ(spos(m[a], x), spos(r[a], y));
							break;
						}
					case 9: r[a].clear(); m[a].clear(); break;
					case 10: r[a] = r[b]; m[a] = m[b]; break;
					case 11: if (plan < 0) { std::swap(r[a], r[b]); m[a].swap(m[b]); } break;
					case 12: { S t(m[b]); RSet rt(r[b]); m[a] = std::move(t); r[a] = rt; } break;
					case 13: case 14:
						{
							std::vector<K> ps; std::list<K> ls; RSet add(r[a]), fresh(r[a].key_comp());
							for (size_t i = s.below(7); i; --i) { const int kk = (int)s.below(Keys); ThrowPlan off(-1); ps.push_back(Mk<K>::make(kk)); ls.push_back(ps.back()); add.insert(kk); fresh.insert(kk); }
							ThrowPlan::left() = plan;
							if (op == 13) { r[a] = add; if (s.coin()) m[a].insert(ps.begin(), ps.end()); else m[a].insert(ls.begin(), ls.end()); }
							else { r[a] = fresh; S t(ps.begin(), ps.end(), m[a].key_comp()); m[a] = t; }
							break;
						}
					case 15:
						{
							const K q(Mk<K>::make((k + 3) % Keys));
							if (s.coin()) { RSet fresh(r[a].key_comp()); fresh.insert(k); fresh.insert((k + 3) % Keys); r[a] = fresh; m[a] = { p, q, p }; }
							else { r[a].insert(k); r[a].insert((k + 3) % Keys); m[a].insert({ p, q }); }
							break;
						}
					default:
						{
							const bool mv = s.coin();
							S t(m[b]);
							S u = mv ? S(std::move(t), std::allocator<K>()) : S(t, std::allocator<K>());
							r[a] = r[b]; m[a] = u;
							m[a].reserve(r[a].size() + k);
							break;
						}
					}
				}
				catch (const std::runtime_error&)
				{
					if (plan < 0) FAIL("unexpected exception");
					++thrown;
					for (size_t i = 0; i < N; ++i) { m[i].clear(); r[i] = RSet(m[i].key_comp()); }
				}
				if (r[a].size() > old) ++grown;
				for (size_t i = 0; i < N; ++i) checkSet<K>(m[i], r[i], Keys);
				const std::vector<int> x(r[0].begin(), r[0].end()), y(r[1].begin(), r[1].end());
				REQUIRE_EQ(m[0] == m[1], x == y); REQUIRE_EQ(m[0] != m[1], x != y); REQUIRE_EQ(m[0] < m[1], x < y);
				REQUIRE_EQ(m[0] >= m[1], x >= y); REQUIRE_EQ(m[0] > m[1], x > y); REQUIRE_EQ(m[0] <= m[1], x <= y);
			}
			c.nontrivial_if(grown >= 3 && (!Throwing || thrown));
			c.label_if(modes[0] == 2 || modes[1] == 2, "order with equivalent keys");
		}
		LIVE_CHECK(Tracked);
	}
}

PROP(set_int, 15000, 200000, pbt::LeakCheck, "at least three insertions took effect") { setHistory<int, false>(s, c); }
PROP(set_string, 9000, 120000, pbt::LeakCheck, "at least three insertions took effect") { setHistory<std::string, false>(s, c); }
PROP(set_throwing, 12000, 120000, pbt::LeakCheck, "at least three insertions took effect and an element operation threw") { setHistory<Tracked, true>(s, c); }
