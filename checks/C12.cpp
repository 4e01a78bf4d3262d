// ENGINE: seq
// RefCountingMap/Set/Value and RefCounter against a plain table of counters; the callback log must contain exactly the
// 0 -> 1 and 1 -> 0 transitions, also when a callback throws.
#include "pbt.h"
#include "tracked.h"
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
#include <stingraykit/collection/RefCounter.h>
#include <map>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") { } };
	struct Entry { size_t refs; int value; };
	typedef std::map<int, Entry> Model;
	typedef std::vector<std::string> Log;

	struct ReverseLess : public comparers::RelationalComparerInfo
	{ bool operator () (int a, int b) const { return a > b; } };

	template < typename It > std::vector<int> keysOf(It b, It e) { std::vector<int> r; for (; b != e; ++b) r.push_back((*b).first); return r; }
	template < typename It > std::vector<int> flat(It b, It e) { std::vector<int> r; for (; b != e; ++b) r.push_back(*b); return r; }

	template < typename Cmp, bool Reverse >
	void mapHistory(Src& s, Ctx& c)
	{
		LIVE_BASE(Tracked);
		{
			typedef RefCountingMap<int, Tracked, Cmp> Map;
			const size_t N = 2;
			Map r[N]; Model m[N]; Log log, mlog;
			unsigned multi = 0, boom = 0, gone = 0;
			int serial = 0;
			while (s.more(40))
			{
				const size_t a = s.below(N);
				const int k = (int)s.below(5);
				const bool bad = s.chance(1, 6);
				const size_t op = s.weighted({ 8, 5, 4, 1, 1, 1, 1, 1 });
				c.tr("op ", op, " map ", a, " key ", k, bad ? " throwing" : "");
				Map& R = r[a]; Model& M = m[a];
				const auto it = M.find(k);
				const bool had = it != M.end();
				int created = -1;
				auto add = [&](int key) -> int { log.push_back("+" + std::to_string(key)); REQUIRE(R.find(key) == R.end(), "the creating callback must run before the entry appears"); if (bad) throw Boom(); return created = ++serial; };
				auto rem = [&](int key, Tracked& v) { log.push_back("-" + std::to_string(key) + "=" + std::to_string(v.get())); if (bad) throw Boom(); };
				bool threw = false;
				if (op == 0)
				{
					try
					{
						const typename Map::iterator res = R.add(k, add);
						REQUIRE_EQ((*res).first, k);
						if (!had) M[k] = Entry{ 1, created }; else { ++it->second.refs; ++multi; }
						REQUIRE_EQ((*res).second.get(), M[k].value);
					}
					catch (const Boom&) { threw = true; }
					if (!had) mlog.push_back("+" + std::to_string(k));
					REQUIRE_EQ(threw, !had && bad);
				}
				else if (op == 1 || op == 2)
				{
					const bool last = had && it->second.refs == 1;
					if (last) mlog.push_back("-" + std::to_string(k) + "=" + std::to_string(it->second.value));
					try
					{
						if (op == 1) { const size_t n = R.erase(k, rem); REQUIRE_EQ(n, had ? 1u : 0u); }
						else if (had) R.erase(R.find(k), rem);
						if (had && --it->second.refs == 0) { M.erase(it); ++gone; }
					}
					catch (const Boom&) { threw = true; }
					REQUIRE_EQ(threw, last && bad);
				}
				else if (op == 3 && !bad)
				{
					R.clear(rem);
					auto say = [&](const Model::value_type& e) { mlog.push_back("-" + std::to_string(e.first) + "=" + std::to_string(e.second.value)); };
					if (Reverse) for (auto i = M.rbegin(); i != M.rend(); ++i) say(*i); else for (auto i = M.begin(); i != M.end(); ++i) say(*i);
					M.clear();
				}
				else if (op == 4) { const size_t b = s.below(N); r[a] = r[b]; const Model t(m[b]); m[a] = t; }
				else if (op == 5) { const size_t b = s.below(N); if (a != b) { r[a] = std::move(r[b]); m[a] = m[b]; r[b] = Map(); m[b].clear(); } }
				else if (op == 6) { Map copy(r[a]); copy.erase(k, [](int, Tracked&) { }); std::swap(r[a], copy); std::swap(r[a], copy); }
				else if (op == 7 && had)
				{
					// values are mutable through iterators and keep their identity
					const typename Map::iterator i = R.find(k);
					(*i).second = Tracked(++serial); M[k].value = serial;
				}
				boom += threw;
				REQUIRE_EQ(log, mlog);
				const Map& C = R;
				REQUIRE_EQ(C.size(), M.size()); REQUIRE_EQ(C.empty(), M.empty());
				std::vector<int> keys; for (const auto& e : M) keys.push_back(e.first);
				if (Reverse) std::reverse(keys.begin(), keys.end());
				REQUIRE_EQ(keysOf(C.begin(), C.end()), keys); REQUIRE_EQ(keysOf(R.begin(), R.end()), keys);
				for (int q = 0; q < 5; ++q)
				{
					const auto e = M.find(q);
					REQUIRE_EQX(C.count(q), e == M.end() ? 0u : e->second.refs, "count of " + std::to_string(q));
					REQUIRE_EQ(C.find(q) != C.end(), e != M.end()); REQUIRE_EQ(R.find(q) != R.end(), e != M.end());
					if (e != M.end()) { REQUIRE_EQ((*C.find(q)).second.get(), e->second.value); REQUIRE_EQ(C.find(q)->first, q); REQUIRE(C.find(q) == typename Map::const_iterator(R.find(q)), ""); }
				}
				size_t alive = 0; for (size_t i = 0; i < N; ++i) alive += m[i].size();
				REQUIRE_EQX((size_t)(Tracked::live() - liveBase_Tracked), alive, "values are alive exactly while referenced");
			}
			c.nontrivial_if(multi >= 1 && gone >= 1);
			c.label_if(boom > 0, "throwing callback"); c.label_if(multi > 2, "several references");
		}
		LIVE_CHECK(Tracked);
	}
}

PROP(map, 12000, 400000, pbt::LeakCheck, "some entry had two or more references and some entry was removed") { mapHistory<comparers::Less, false>(s, c); }
PROP(map_custom_order, 6000, 200000, 0, "some entry had two or more references and some entry was removed") { mapHistory<ReverseLess, true>(s, c); }

PROP(set, 12000, 400000, pbt::LeakCheck, "some entry had two or more references and some entry was removed")
{
	typedef RefCountingSet<std::string> Set;
	typedef std::map<std::string, size_t> M_;
	Set r[2]; M_ m[2]; Log log, mlog;
	unsigned multi = 0, gone = 0, boom = 0;
	while (s.more(40))
	{
		const size_t a = s.below(2);
		const std::string k = "key " + std::to_string(s.below(5)) + " long enough for the heap";
		const bool bad = s.chance(1, 6);
		const size_t op = s.weighted({ 8, 5, 4, 1, 1, 1 });
		c.tr("op ", op, " set ", a, " ", k, bad ? " throwing" : "");
		Set& R = r[a]; M_& M = m[a];
		const auto it = M.find(k);
		const bool had = it != M.end();
		auto add = [&](const std::string& key) { log.push_back("+" + key); if (bad) throw Boom(); };
		auto rem = [&](const std::string& key) { log.push_back("-" + key); if (bad) throw Boom(); };
		bool threw = false;
		if (op == 0)
		{
			if (!had) mlog.push_back("+" + k);
			try { const Set::iterator i = R.add(k, add); REQUIRE_EQ(*i, k); ++M[k]; multi += had; } catch (const Boom&) { threw = true; }
			REQUIRE_EQ(threw, !had && bad);
		}
		else if (op == 1 || op == 2)
		{
			const bool last = had && it->second == 1;
			if (last) mlog.push_back("-" + k);
			try
			{
				if (op == 1) REQUIRE_EQ(R.erase(k, rem), had ? 1u : 0u); else if (had) R.erase(R.find(k), rem);
				if (had && --it->second == 0) { M.erase(it); ++gone; }
			}
			catch (const Boom&) { threw = true; }
			REQUIRE_EQ(threw, last && bad);
		}
		else if (op == 3 && !bad) { R.clear(rem); for (const auto& e : M) mlog.push_back("-" + e.first); M.clear(); }
		else if (op == 4) { r[a] = r[1 - a]; m[a] = m[1 - a]; }
		else if (op == 5) { r[a] = std::move(r[1 - a]); m[a] = m[1 - a]; r[1 - a] = Set(); m[1 - a].clear(); }
		boom += threw;
		REQUIRE_EQ(log, mlog);
		const Set& C = R;
		REQUIRE_EQ(C.size(), M.size()); REQUIRE_EQ(C.empty(), M.empty());
		std::vector<std::string> keys; for (const auto& e : M) keys.push_back(e.first);
		{ std::vector<std::string> g; for (auto i = C.begin(); i != C.end(); ++i) g.push_back(*i); REQUIRE_EQ(g, keys); }
		{ std::vector<std::string> g; for (auto i = R.end(); i != R.begin(); ) g.push_back(*--i); std::reverse(g.begin(), g.end()); REQUIRE_EQ(g, keys); }
		for (int q = 0; q < 5; ++q)
		{
			const std::string key = "key " + std::to_string(q) + " long enough for the heap";
			const auto e = M.find(key);
			REQUIRE_EQ(C.count(key), e == M.end() ? 0u : e->second); REQUIRE_EQ(C.find(key) != C.end(), e != M.end()); REQUIRE_EQ(R.find(key) != R.end(), e != M.end());
		}
	}
	c.nontrivial_if(multi && gone); c.label_if(boom > 0, "throwing callback");
}

PROP(value, 12000, 400000, pbt::LeakCheck, "the value was created at least twice and had two references at once")
{
	LIVE_BASE(Tracked);
	{
		RefCountingValue<Tracked> r; size_t refs = 0; int val = 0, serial = 0;
		Log log, mlog; unsigned creations = 0, multi = 0;
		while (s.more(30))
		{
			const bool bad = s.chance(1, 6);
			const size_t op = s.weighted({ 5, 4, 1, 1 });
			c.tr("op ", op, bad ? " throwing" : "", " refs ", refs);
			bool threw = false;
			auto set = [&]() -> int { log.push_back("+"); if (bad) throw Boom(); return ++serial; };
			auto rel = [&](Tracked& v) { log.push_back("-" + std::to_string(v.get())); if (bad) throw Boom(); };
			try
			{
				if (op == 0)
				{
					if (!refs) mlog.push_back("+");
					Tracked& t = r.set(set);
					if (!refs) { val = serial; ++creations; }
					++refs; multi += refs > 1;
					REQUIRE_EQ(t.get(), val); REQUIRE(&t == &*r.get(), "");
				}
				else if (op == 1)
				{
					if (refs == 1) mlog.push_back("-" + std::to_string(val));
					const bool res = r.release(rel);
					REQUIRE_EQ(res, refs > 0);
					if (refs) --refs;
				}
				else if (op == 2) { if (refs) mlog.push_back("-" + std::to_string(val)); r.reset(rel); refs = 0; }
				else { RefCountingValue<Tracked> copy(r); REQUIRE_EQ(copy.count(), refs); copy.release([](Tracked&) { }); REQUIRE_EQ(copy.count(), refs ? refs - 1 : 0); REQUIRE_EQ(r.count(), refs); if (s.coin()) { RefCountingValue<Tracked> other; other = r; r = other; } }
			}
			catch (const Boom&) { REQUIRE(bad, ""); threw = true; }
			c.label_if(threw, "throwing callback");
			REQUIRE_EQ(log, mlog);
			const RefCountingValue<Tracked>& C = r;
			REQUIRE_EQ(r.count(), refs); REQUIRE_EQ((bool)C.get().is_initialized(), refs > 0);
			if (refs) REQUIRE_EQ(C.get()->get(), val);
			REQUIRE_EQ((size_t)(Tracked::live() - liveBase_Tracked), refs ? 1u : 0u);
		}
		c.nontrivial_if(creations >= 2 && multi);
	}
	LIVE_CHECK(Tracked);
}

PROP(counter, 12000, 400000, 0, "the counter went up from zero at least twice and reached two")
{
	RefCounter r; size_t refs = 0; Log log, mlog; unsigned ups = 0, multi = 0;
	while (s.more(30))
	{
		const bool bad = s.chance(1, 6);
		const size_t op = s.weighted({ 5, 4, 1 });
		c.tr("op ", op, bad ? " throwing" : "", " refs ", refs);
		auto set = [&] { log.push_back("+"); if (bad) throw Boom(); };
		auto rel = [&] { log.push_back("-"); if (bad) throw Boom(); };
		try
		{
			if (op == 0) { if (!refs) mlog.push_back("+"); r.set(set); if (!refs) ++ups; ++refs; multi += refs > 1; }
			else if (op == 1) { if (refs == 1) mlog.push_back("-"); const bool res = r.release(rel); REQUIRE_EQ(res, refs > 0); if (refs) --refs; }
			else { if (refs) mlog.push_back("-"); r.reset(rel); refs = 0; }
		}
		catch (const Boom&)
		{
			REQUIRE(bad, ""); c.label("throwing callback");
			// whether a throwing release gives up the last reference is not specified
			if (op != 0) { REQUIRE(r.count() <= refs, ""); refs = r.count(); }
		}
		REQUIRE_EQ(log, mlog); REQUIRE_EQ(r.count(), refs);
	}
	c.nontrivial_if(ups >= 2 && multi);
}
