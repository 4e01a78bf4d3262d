// ENGINE: seq
// FIFO, LRU and two-queue caches against list models of their policies.
#include "pbt.h"
#include "util.h"
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>
#include <list>
#include <memory>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::pair<int, int> KV;		// value: size * 1000 + n
	struct SizeOfValue { size_t operator () (int v) const { return v / 1000; } };

	// keys compared by their half: 2k and 2k+1 are the same key
	struct HalfLess : public comparers::RelationalComparerInfo { bool operator () (int a, int b) const { return a / 2 < b / 2; } };

	struct Policy
	{
		bool lru, half; size_t cap;
		std::list<KV> q;
		std::vector<KV> evicted;
		Policy(bool l, size_t c, bool h = false) : lru(l), half(h), cap(c) { }
		static size_t sizeOf(const KV& e) { return e.second / 1000; }
		bool same(int a, int b) const { return half ? a / 2 == b / 2 : a == b; }
		size_t size() const { size_t r = 0; for (auto& e : q) r += sizeOf(e); return r; }
		std::list<KV>::iterator find(int k) { auto i = q.begin(); while (i != q.end() && !same(i->first, k)) ++i; return i; }
		bool get(int k, int& v) { auto i = find(k); if (i == q.end()) return false; v = i->second; if (lru) q.splice(q.end(), q, i); return true; }
		bool remove(int k) { auto i = find(k); if (i == q.end()) return false; q.erase(i); return true; }
		void set(int k, int v, const std::function<void(KV)>& onEvicted)
		{
			auto i = find(k);
			if (i != q.end()) { i->second = v; q.splice(q.end(), q, i); } else q.push_back(KV(k, v));
			while (size() > cap) { const KV e = q.front(); q.pop_front(); onEvicted(e); }
		}
	};

	template < typename Cache >
	void queueHistory(Src& s, Ctx& c, bool lru, bool sized, bool half)
	{
		const size_t cap = sized ? s.below(12) : s.below(5);
		Cache cache(cap); Policy m(lru, cap, half);
		std::vector<KV> got; std::vector<size_t> sizes; unsigned evictions = 0; bool touched = false;
		Token t = cache.OnEvicted().connect(fn<void(int, int)>([&](int k, int v)
		{
			got.push_back(KV(k, v)); sizes.push_back(cache.GetSize());
		}));
		const size_t keys = 6;
		while (s.more(30))
		{
			const int k = (int)s.below(keys), v = (sized ? (int)s.below(6) : 1) * 1000 + (int)s.below(1000);
			const size_t op = s.weighted({6, 4, 2, 1});
			c.tr("op ", op, " k=", k, " v=", v, " cap=", cap);
			got.clear(); sizes.clear();
			std::vector<KV> expect; std::vector<size_t> expectSizes;
			switch (op)
			{
			case 0: m.set(k, v, [&](KV e) { expect.push_back(e); expectSizes.push_back(m.size()); ++evictions; }); cache.Set(k, v); break;
			case 1: { int a = -1, b = -1; const bool e = m.get(k, b); REQUIRE_EQ(cache.TryGet(k, a), e); REQUIRE_EQ(a, b); touched |= e; } break;
			case 2: { const bool e = m.remove(k); REQUIRE_EQ(cache.Remove(k), e); } break;
			default: if (s.chance(1, 3)) { m.q.clear(); cache.Clear(); } break;
			}
			REQUIRE_EQ(got, expect); REQUIRE_EQ(sizes, expectSizes);
			REQUIRE_EQ(cache.GetSize(), m.size());
			REQUIRE(cache.GetSize() <= cap, cache.GetSize());
			if (!lru)	// looking does not change a FIFO
				for (int i = 0; i < (int)keys; ++i) { int a = -1, b = -1; const bool e = m.get(i, b); REQUIRE_EQ(cache.TryGet(i, a), e); REQUIRE_EQ(a, b); }
		}
		// drain in policy order: with everything else removed from the model's front
		while (!m.q.empty())
		{
			const int k = m.q.front().first; int v = -1;
			if (s.coin()) { REQUIRE(cache.Remove(k), "an element still cached was not found"); m.q.pop_front(); }
			else { REQUIRE(cache.TryGet(k, v), "an element still cached was not found"); REQUIRE_EQ(v, m.q.front().second); REQUIRE(cache.Remove(k), ""); m.q.pop_front(); }
			REQUIRE_EQ(cache.GetSize(), m.size());
		}
		c.nontrivial_if(evictions >= 2 && touched);
	}
}

PROP(fifo, 30000, 300000, 0, "at least two evictions and a hit") { queueHistory<FifoCache<int, int>>(s, c, false, false, false); }
PROP(fifo_sized, 40000, 400000, 0, "at least two evictions and a hit") { queueHistory<FifoCache<int, int, SizeOfValue>>(s, c, false, true, false); }
PROP(lru, 40000, 400000, 0, "at least two evictions and a hit") { queueHistory<LruCache<int, int>>(s, c, true, false, false); }
PROP(lru_sized, 40000, 400000, 0, "at least two evictions and a hit") { queueHistory<LruCache<int, int, SizeOfValue>>(s, c, true, true, false); }

// an eviction handler that uses the cache it is called from
PROP(reentrant, 20000, 200000, 0, "the handler ran")
{
	const bool lru = s.coin();
	typedef std::unique_ptr<ICache<int, int>> P;
	const size_t cap = s.below(8);
	P cache(lru ? (ICache<int, int>*)new LruCache<int, int, SizeOfValue>(cap) : (ICache<int, int>*)new FifoCache<int, int, SizeOfValue>(cap));
	Policy m(lru, cap);
	unsigned depth = 0; bool ran = false;
	std::vector<KV> plan;		// what the handler does at the n-th call: get / set
	size_t calls = 0;
	for (size_t i = 0; i < 12; ++i) plan.push_back(KV((int)s.below(4), (int)s.below(3) * 1000 + (int)i));
	std::vector<KV> log, mlog;
	std::function<void(KV)> handler = [&](KV e)
	{
		mlog.push_back(e);
		const KV p = plan[calls++ % plan.size()];
		if (p.first == 0 || depth >= 2) return;
		if (p.first == 1) { int v; m.get((int)calls % 5, v); return; }
		++depth; m.set((int)calls % 5, p.second, handler); --depth;
	};
	Token t = cache->OnEvicted().connect(fn<void(int, int)>([&](int k, int v)
	{
		ran = true;
		log.push_back(KV(k, v));
		const KV p = plan[calls++ % plan.size()];
		if (p.first == 0 || depth >= 2) return;
		if (p.first == 1) { int x; cache->TryGet((int)calls % 5, x); return; }
		++depth; cache->Set((int)calls % 5, p.second); --depth;
	}));
	while (s.more(12))
	{
		const int k = (int)s.below(5), v = (int)s.below(5) * 1000 + (int)s.below(1000);
		c.tr("set ", k, " ", v);
		calls = 0; m.set(k, v, handler);
		calls = 0; cache->Set(k, v);
		REQUIRE_EQ(log, mlog); REQUIRE_EQ(cache->GetSize(), m.size()); REQUIRE(cache->GetSize() <= cap, "");
	}
	c.nontrivial_if(ran);
}
PROP(string_values, 15000, 150000, pbt::LeakCheck, "at least one eviction")
{
	LruCache<std::string, std::string> cache(3); Policy m(true, 3);
	std::vector<std::pair<std::string, std::string>> got, expect;
	auto ks = [](int k) { return "a key of the cache " + std::to_string(k); };
	auto vs = [](int v) { return "a value of the cache " + std::to_string(v); };
	Token t = cache.OnEvicted().connect(fn<void(const std::string&, const std::string&)>([&](const std::string& k, const std::string& v) { got.push_back(std::make_pair(k, v)); }));
	while (s.more(15))
	{
		const int k = (int)s.below(6), v = 1000 + (int)s.below(1000);
		switch (s.below(3))
		{
		case 0: m.set(k, v, [&](KV e) { expect.push_back(std::make_pair(ks(e.first), vs(e.second))); }); cache.Set(ks(k), vs(v)); break;
		case 1: { int b; std::string a; const bool e = m.get(k, b); REQUIRE_EQ(cache.TryGet(ks(k), a), e); if (e) REQUIRE_EQ(a, vs(b)); } break;
		default: { const bool e = m.remove(k); REQUIRE_EQ(cache.Remove(ks(k)), e); } break;
		}
		REQUIRE(got == expect, got.size() << " evictions, expected " << expect.size());
		REQUIRE_EQ(cache.GetSize(), m.size());
	}
	c.nontrivial_if(!expect.empty());
}

namespace
{
	template < typename Cache >
	void twoQueue(Src& s, Ctx& c, bool sized)
	{
		const size_t ci = s.below(sized ? 9 : 4), co = s.below(sized ? 9 : 4), ch = s.below(sized ? 9 : 4);
		Cache cache(ci, co, ch);
		Policy in(false, ci), out(false, co), hot(true, ch);
		std::vector<KV> got, expect;
		unsigned evictions = 0, promoted = 0;
		Token t = cache.OnEvicted().connect(fn<void(int, int)>([&](int k, int v) { got.push_back(KV(k, v)); }));
		auto evict = [&](KV e) { expect.push_back(e); ++evictions; };
		auto toOut = [&](KV e) { out.set(e.first, e.second, evict); };
		const size_t keys = 8;
		while (s.more(40))
		{
			const int k = (int)s.below(keys), v = (sized ? (int)s.below(5) : 1) * 1000 + (int)s.below(1000);
			const size_t op = s.weighted({6, 6, 2, 1});
			c.tr("op ", op, " k=", k, " v=", v, " caps ", ci, " ", co, " ", ch);
			got.clear(); expect.clear();
			switch (op)
			{
			case 0: if (!hot.remove(k)) out.remove(k); in.set(k, v, toOut); cache.Set(k, v); break;
			case 1:
				{
					int a = -1, b = -1;
					bool e = hot.get(k, b) || in.get(k, b);
					if (!e && out.get(k, b)) { out.remove(k); hot.set(k, b, evict); e = true; ++promoted; }
					REQUIRE_EQ(cache.TryGet(k, a), e); REQUIRE_EQ(a, b);
					break;
				}
			case 2: { const bool e = hot.remove(k) || out.remove(k) || in.remove(k); REQUIRE_EQ(cache.Remove(k), e); } break;
			default: if (s.chance(1, 3)) { in.q.clear(); out.q.clear(); hot.q.clear(); cache.Clear(); } break;
			}
			REQUIRE_EQ(got, expect);
			REQUIRE_EQ(cache.GetSize(), in.size() + out.size() + hot.size());
			REQUIRE(cache.GetSize() <= ci + co + ch, cache.GetSize());
		}
		for (int k = 0; k < (int)keys; ++k)
		{
			const bool e = hot.remove(k) || out.remove(k) || in.remove(k);
			REQUIRE_EQ(cache.Remove(k), e);
			REQUIRE_EQ(cache.GetSize(), in.size() + out.size() + hot.size());
		}
		REQUIRE_EQ(cache.GetSize(), (size_t)0);
		c.nontrivial_if(evictions && promoted);
	}
}
PROP(two_queue, 40000, 400000, 0, "an eviction and a promotion to the hot queue") { twoQueue<TwoQueueCache<int, int>>(s, c, false); }
PROP(two_queue_sized, 40000, 400000, 0, "an eviction and a promotion to the hot queue") { twoQueue<TwoQueueCache<int, int, SizeOfValue>>(s, c, true); }

PROP(custom_order, 15000, 150000, 0, "at least two evictions and a hit")
{
	if (s.coin()) queueHistory<LruCache<int, int, DefaultCacheSizeMapper, HalfLess>>(s, c, true, false, true);
	else queueHistory<FifoCache<int, int, SizeOfValue, HalfLess>>(s, c, false, true, true);
}
