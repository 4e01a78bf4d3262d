// ENGINE: seq
// ordered_map / ordered_set against a plain list with linear search; bimap against a list of pairs.
#include "pbt.h"
#include "tracked.h"
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
#include <stingraykit/collection/bimap.h>
#include <map>
#include <list>
#include <memory>
#include <algorithm>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	struct Ord
	{
		int mode;
		Ord(int m = 0) : mode(m) { }
		static int num(int v) { return v; }
		static int num(const std::string& v) { return atoi(v.c_str() + 1); }
		static int num(const Tracked& v) { return v.get(); }
		template < typename T >
		bool operator () (const T& a, const T& b) const
		{
			ThrowPlan::hit();
			const int x = num(a), y = num(b);
			return mode == 0 ? x < y : mode == 1 ? x > y : x / 2 < y / 2;
		}
	};

	template < typename T > struct Mk;
	template < > struct Mk<int> { static int make(int v) { return v; } static int val(int v) { return v; } };
	template < > struct Mk<std::string> { static std::string make(int v) { char b[32]; snprintf(b, sizeof(b), "k%03d, a string on the heap", v); return b; } static int val(const std::string& v) { return v.empty() ? -9 : atoi(v.c_str() + 1); } };
	template < > struct Mk<Tracked> { static Tracked make(int v) { return Tracked(v); } static int val(const Tracked& v) { return v.get(); } };
	template < typename T > struct Blank { static int val() { return Mk<T>::val(T()); } };

	typedef std::pair<int, int> KV;
	struct Model
	{
		std::vector<KV> v; int mode;
		Model(int m = 0) : mode(m) { }
		int key(int k) const { return mode == 2 ? k / 2 : k; }
		int find(int k) const { for (size_t i = 0; i < v.size(); ++i) if (key(v[i].first) == key(k)) return (int)i; return -1; }
		// position of the entry and whether it is new
		std::pair<int, bool> insert(size_t at, int k, int x)
		{
			const int f = find(k);
			if (f >= 0) return std::make_pair(f, false);
			v.insert(v.begin() + at, KV(k, x));
			return std::make_pair((int)at, true);
		}
	};

	// adaptors over map and set
	template < typename K, typename V >
	struct MapOps
	{
		typedef ordered_map<K, V, Ord> C;
		typedef std::pair<const K, V> E;
		static E make(int k, int v) { return E(Mk<K>::make(k), Mk<V>::make(v)); }
		static KV val(const E& e) { return KV(Mk<K>::val(e.first), Mk<V>::val(e.second)); }
		static int value(int v) { return v; }
		static bool emplace(C& c, const E& e, typename C::iterator& i) { auto r = c.emplace(e.first, e.second); i = r.first; return r.second; }
		static typename C::iterator emplaceHint(C& c, typename C::const_iterator h, const E& e) { return c.emplace_hint(h, e.first, e.second); }
		static const K& key(const E& e) { return e.first; }
	};
	template < typename K >
	struct SetOps
	{
		typedef ordered_set<K, Ord> C;
		typedef K E;
		static E make(int k, int) { return Mk<K>::make(k); }
		static KV val(const E& e) { return KV(Mk<K>::val(e), 0); }
		static int value(int) { return 0; }
		static bool emplace(C& c, const E& e, typename C::iterator& i) { auto r = c.emplace(e); i = r.first; return r.second; }
		static typename C::iterator emplaceHint(C& c, typename C::const_iterator h, const E& e) { return c.emplace_hint(h, e); }
		static const K& key(const E& e) { return e; }
	};

	const int Keys = 9;

	template < typename Ops >
	void check(typename Ops::C& m, const Model& r)
	{
		typedef typename Ops::C C;
		const C& cm = m;
		std::vector<KV> f, b, g;
		for (typename C::iterator it = m.begin(); it != m.end(); ++it) f.push_back(Ops::val(*it));
		for (typename C::const_iterator it = cm.begin(); it != cm.end(); it++) g.push_back(Ops::val(*it));
		for (typename C::reverse_iterator it = m.rbegin(); it != m.rend(); ++it) b.push_back(Ops::val(*it));
		REQUIRE_EQ(f, r.v); REQUIRE_EQ(g, r.v);
		std::reverse(b.begin(), b.end());
		REQUIRE_EQ(b, r.v);
		REQUIRE_EQ(m.size(), r.v.size()); REQUIRE_EQ(m.empty(), r.v.empty());
		for (int k = -1; k <= Keys; ++k)
		{
			const auto key(Ops::key(Ops::make(k, 0)));
			const int e = r.find(k) < 0 ? (int)r.v.size() : r.find(k);
			REQUIRE_EQ((int)std::distance(m.begin(), m.find(key)), e);
			REQUIRE_EQ((int)std::distance(cm.begin(), cm.find(key)), e);
			REQUIRE_EQ(cm.count(key), (size_t)(r.find(k) >= 0));
			REQUIRE_EQ(cm.key_comp()(key, Ops::key(Ops::make(2, 0))), Ord(r.mode)(k, 2));
		}
	}

	template < typename K, typename V >
	bool mapOnly(ordered_map<K, V, Ord>& m, Model& r, size_t op, int k, int v, Src& s, bool quiet)
	{
		const K key(Mk<K>::make(k));
		switch (op)
		{
		case 0: case 1:
			{
				K t(key); const V x(Mk<V>::make(v));
				V& ref = op ? m[std::move(t)] : m[key];
				const auto p = r.insert(r.v.size(), k, Blank<V>::val());
				ref = x; r.v[p.first].second = v;
				return true;
			}
		default:
			if (r.find(k) >= 0) { const ordered_map<K, V, Ord>& cm = m; REQUIRE_EQ(Mk<V>::val(m.at(key)), r.v[r.find(k)].second); REQUIRE_EQ(Mk<V>::val(cm.at(key)), r.v[r.find(k)].second); m.at(key) = Mk<V>::make(v); r.v[r.find(k)].second = v; }
			else if (quiet && s.chance(1, 12)) REQUIRE(THROWS(m.at(key)), "at() of a missing key");
			return true;
		}
	}
	template < typename K >
	bool mapOnly(ordered_set<K, Ord>&, Model&, size_t, int, int, Src&, bool) { return false; }

	template < typename Ops, bool Throwing >
	void history(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked);
		{
			typedef typename Ops::C C;
			typedef typename Ops::E E;
			const size_t N = 2;
			const int modes[N] = { (int)s.below(3), (int)s.below(3) };
			C m[N] = { C(Ord(modes[0])), C(Ord(modes[1])) };
			Model r[N] = { Model(modes[0]), Model(modes[1]) };
			unsigned grown = 0, positional = 0, thrown = 0;
			while (s.more(30))
			{
				const size_t a = s.below(N), b = s.below(N);
				const int k = (int)s.below(Keys), v = (int)s.below(100);
				const size_t op = s.below(24);
				const size_t h = s.below(r[a].v.size() + 1), old = r[a].v.size();
				const int plan = Throwing && s.chance(1, 4) ? (int)s.below(12) : -1;
				c.tr("op ", op, " a=", a, " b=", b, " k=", k, " v=", v, " h=", h, " throw=", plan);
				const E p(Ops::make(k, v));
				const Model before(r[a]);
				bool strong = true;		// a failing operation of this kind leaves the contents as they were
				try
				{
					ThrowPlan tp(plan);
					switch (op)
					{
					case 0: case 1: case 2:
						{
							E t(p);
							typename C::iterator it; bool isNew;
							if (op == 0) { auto x = m[a].insert(p); it = x.first; isNew = x.second; }
							else if (op == 1) { auto x = m[a].insert(std::move(t)); it = x.first; isNew = x.second; }
							else isNew = Ops::emplace(m[a], p, it);
							auto y = r[a].insert(r[a].v.size(), k, Ops::value(v));
							REQUIRE_EQ(isNew, y.second); REQUIRE_EQ((int)std::distance(m[a].begin(), it), y.first);
							break;
						}
					case 3: case 4: case 5:
						{
							E t(p);
							typename C::const_iterator hint = std::next(m[a].cbegin(), h);
							typename C::iterator it = op == 3 ? m[a].insert(hint, p) : op == 4 ? m[a].insert(hint, std::move(t)) : Ops::emplaceHint(m[a], hint, p);
							auto y = r[a].insert(h, k, Ops::value(v));
							if (y.second && h < old) ++positional;
							REQUIRE_EQ((int)std::distance(m[a].begin(), it), y.first);
							break;
						}
					case 6: { const size_t n = m[a].erase(Ops::key(p)); const int f = r[a].find(k); REQUIRE_EQ(n, (size_t)(f >= 0)); if (f >= 0) r[a].v.erase(r[a].v.begin() + f); } break;
					case 7: case 8:
						if (h < old)
						{
							typename C::iterator it = op == 7 ? m[a].erase(std::next(m[a].begin(), h)) : m[a].erase(std::next(m[a].cbegin(), h));
							r[a].v.erase(r[a].v.begin() + h);
							REQUIRE_EQ((int)std::distance(m[a].begin(), it), (int)h);
						}
						break;
					case 9:
						{
							const size_t h2 = h + s.below(old - h + 1);
							typename C::iterator it = m[a].erase(std::next(m[a].cbegin(), h), std::next(m[a].cbegin(), h2));
							r[a].v.erase(r[a].v.begin() + h, r[a].v.begin() + h2);
							REQUIRE_EQ((int)std::distance(m[a].begin(), it), (int)h);
							break;
						}
					case 10: if (s.chance(1, 2)) { m[a].clear(); r[a].v.clear(); } break;
					case 11: case 12: strong = false; { const Model o(r[b]); m[a] = m[b]; r[a] = o; } break;
					case 13: m[a].swap(m[b]); std::swap(r[a], r[b]); break;
					case 14: strong = false; { C t(m[b]); { ThrowPlan off(-1); check<Ops>(t, r[b]); } m[a] = std::move(t); r[a] = Model(r[b]); } break;
					case 15: { C t(m[b]); C u(std::move(t)); { ThrowPlan off(-1); check<Ops>(u, r[b]); } u.clear(); } break;
					case 16: case 17: case 18:
						{
							strong = false;
							std::vector<E> ps; std::list<E> ls; Model add(r[a]), fresh(r[a].mode);
							{
								ThrowPlan off(-1);
								for (size_t i = s.below(7); i; --i) { const int kk = (int)s.below(Keys), vv = (int)s.below(100); ps.push_back(Ops::make(kk, vv)); ls.push_back(ps.back()); add.insert(add.v.size(), kk, Ops::value(vv)); fresh.insert(fresh.v.size(), kk, Ops::value(vv)); }
							}
							ThrowPlan::left() = plan;
							if (op == 16) m[a].insert(ps.begin(), ps.end()); else if (op == 17) m[a].insert(ls.begin(), ls.end()); else { C t(ps.begin(), ps.end(), m[a].key_comp()); m[a] = t; }
							r[a] = op == 18 ? fresh : add;
							break;
						}
					case 19:
						{
							strong = false;
							const int k2 = (k + 3) % Keys;
							const E q(Ops::make(k2, v + 1));
							if (s.coin()) { m[a] = { p, q, p }; r[a].v.clear(); } else m[a].insert({ p, q });
							r[a].insert(r[a].v.size(), k, Ops::value(v)); r[a].insert(r[a].v.size(), k2, Ops::value(v + 1));
							break;
						}
					case 20: strong = false; { C t(m[b], std::allocator<E>()); { ThrowPlan off(-1); check<Ops>(t, r[b]); } C u(std::move(t), std::allocator<E>()); m[a] = u; r[a] = Model(r[b]); } break;
					default: strong = false; mapOnly(m[a], r[a], op - 21, k, v, s, plan < 0); break;
					}
				}
				catch (const std::runtime_error&)
				{
					if (plan < 0) FAIL("unexpected exception");
					++thrown;
					if (strong) { r[a] = before; check<Ops>(m[a], r[a]); }
					else { check<Ops>(m[a], [&]() { Model x(m[a].key_comp().mode); for (auto& e : m[a]) x.v.push_back(Ops::val(e)); return x; }()); m[a].clear(); r[a] = Model(m[a].key_comp().mode); }
				}
				if (r[a].v.size() > old) ++grown;
				for (size_t i = 0; i < N; ++i) check<Ops>(m[i], r[i]);
				const std::vector<KV>& x = r[0].v; const std::vector<KV>& y = r[1].v;
				REQUIRE_EQ(m[0] == m[1], x == y); REQUIRE_EQ(m[0] != m[1], x != y); REQUIRE_EQ(m[0] < m[1], x < y);
				REQUIRE_EQ(m[0] >= m[1], x >= y); REQUIRE_EQ(m[0] > m[1], x > y); REQUIRE_EQ(m[0] <= m[1], x <= y);
			}
			c.nontrivial_if(grown >= 3 && (Throwing ? thrown > 0 : positional > 0));
			c.label_if(modes[0] == 2 || modes[1] == 2, "order with equivalent keys");
		}
		LIVE_CHECK(Tracked);
	}
}

PROP(map_int_string, 9000, 120000, pbt::LeakCheck, "three insertions took effect, one of them before existing elements") { history<MapOps<int, std::string>, false>(s, c); }
PROP(map_string_int, 9000, 120000, pbt::LeakCheck, "three insertions took effect, one of them before existing elements") { history<MapOps<std::string, int>, false>(s, c); }
PROP(map_throwing, 9000, 120000, pbt::LeakCheck, "three insertions took effect and an element operation or comparison threw") { history<MapOps<Tracked, Tracked>, true>(s, c); }
PROP(set_int, 12000, 150000, pbt::LeakCheck, "three insertions took effect, one of them before existing elements") { history<SetOps<int>, false>(s, c); }
PROP(set_throwing, 12000, 150000, pbt::LeakCheck, "three insertions took effect and an element operation or comparison threw") { history<SetOps<Tracked>, true>(s, c); }

// ---- bimap ----------------------------------------------------------------------------------------------------------
PROP(bimap_mirror, 40000, 400000, pbt::LeakCheck, "a pair was removed by its right side and an insertion hit an existing key")
{
	typedef std::map<std::string, int> L; typedef std::map<int, std::string> R;
	typedef bimap<L, R> M;
	M m; std::map<int, int> l, r;	// left number -> right number and back
	unsigned rightErased = 0, dup = 0;
	auto str = [](int k) { return "left number " + std::to_string(k); };
	while (s.more(25))
	{
		const int k = (int)s.below(6), v = (int)s.below(6);
		const size_t op = s.below(10);
		c.tr("op ", op, " k=", k, " v=", v);
		switch (op)
		{
		case 0: case 1: case 2: case 3:
			if (l.count(k) || r.count(v)) ++dup;
			else { l[k] = v; r[v] = k; }
			if (op % 2) m.left_insert(str(k), v); else m.right_insert(v, str(k));
			break;
		case 4: if (l.count(k)) { r.erase(l[k]); l.erase(k); } m.left_erase(str(k)); break;
		case 5: if (r.count(v)) { ++rightErased; l.erase(r[v]); r.erase(v); } m.right_erase(v); break;
		case 6: if (l.count(k)) { r.erase(l[k]); l.erase(k); } m.left_erase(m.left_find(str(k))); break;
		case 7: if (r.count(v)) { ++rightErased; l.erase(r[v]); r.erase(v); } m.right_erase(m.right_find(v)); break;
		case 8: if (s.chance(1, 4)) { m.clear(); l.clear(); r.clear(); } break;
		default: { M t(m); m.clear(); REQUIRE(m.empty(), ""); REQUIRE(m.left_begin() == m.left_end(), ""); REQUIRE(m.right_begin() == m.right_end(), ""); m = t; } break;
		}
		const M& cm = m;
		std::vector<KV> fl, fr, bl, br;
		for (M::left_iterator i = m.left_begin(); i != m.left_end(); ++i) fl.push_back(KV(atoi(i->first.c_str() + 12), i->second));
		for (M::right_const_iterator i = cm.right_begin(); i != cm.right_end(); ++i) fr.push_back(KV(i->first, atoi(i->second.c_str() + 12)));
		for (M::left_const_reverse_iterator i = cm.left_rbegin(); i != cm.left_rend(); ++i) bl.push_back(KV(atoi(i->first.c_str() + 12), i->second));
		for (M::right_reverse_iterator i = m.right_rbegin(); i != m.right_rend(); ++i) br.push_back(KV(i->first, atoi(i->second.c_str() + 12)));
		REQUIRE_EQ(fl, std::vector<KV>(l.begin(), l.end())); REQUIRE_EQ(fr, std::vector<KV>(r.begin(), r.end()));
		REQUIRE_EQ(bl, std::vector<KV>(l.rbegin(), l.rend())); REQUIRE_EQ(br, std::vector<KV>(r.rbegin(), r.rend()));
		REQUIRE_EQ(m.size(), l.size()); REQUIRE_EQ(m.empty(), l.empty());
		for (int i = 0; i < 6; ++i)
		{
			REQUIRE_EQ(m.left_find(str(i)) != m.left_end(), l.count(i) != 0); REQUIRE_EQ(cm.right_find(i) != cm.right_end(), r.count(i) != 0);
			if (l.count(i)) { REQUIRE_EQ(cm.left_find(str(i))->second, l[i]); REQUIRE_EQ(cm.left_equal_range(str(i)).first->second, l[i]); }
			if (r.count(i)) { REQUIRE_EQ(m.right_find(i)->second, str(r[i])); REQUIRE_EQ(m.right_equal_range(i).first->second, str(r[i])); }
		}
	}
	c.nontrivial_if(rightErased && dup);
}
