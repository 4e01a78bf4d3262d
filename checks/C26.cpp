// ENGINE: seq
// Circular, bithread, shared and paged buffers against a queue of bytes.
#include <stingraykit/string/ToString.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/SharedCircularBuffer.h>
#include <stingraykit/io/PagedBuffer.h>
#include "../engine/pbt.h"
#include "../engine/util.h"
#include "../engine/token.h"
#include <deque>

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes randomBytes(Src& s, size_t n) { Bytes b(n); for (auto& x : b) x = (u8)s.below(256); return b; }
	ConstByteData view(const Bytes& b) { return ConstByteData(b.data(), b.size()); }

	template < bool Discard >
	void circular(Src& s, Ctx& c)
	{
		const size_t n = 1 + s.below(16);
		MemoryCircularBuffer<Discard> b(n);
		std::deque<u8> q;
		CircularDataReserverPtr held; size_t locked = 0; size_t read = 0;	// read: position in the storage, to know where pieces end
		std::vector<CircularDataReserverPtr> empties;
		unsigned wraps = 0, overflows = 0, clears = 0;
		TR("storage of " << n << "\n");
		while (s.more(40))
		{
			switch (s.weighted({ 8, 6, 4, 1, 1 }))
			{
			case 0:
				{
					const Bytes d = randomBytes(s, s.chance(1, 4) ? n - q.size() : s.below(n + (s.chance(1, 4) ? 5 : 1)));
					TR("Push(" << d.size() << ") with " << q.size() << " of " << n << "\n");
					REQUIRE_EQX(b.CanPush(d.size()), d.size() <= n - q.size(), "CanPush(" << d.size() << ")");
					const bool fits = d.size() <= n - q.size();
					bool thrown = false;
					try { b.Push(view(d)); } catch (const std::exception&) { thrown = true; }
					if (!Discard)
						REQUIRE_EQX(thrown, !fits, "Push(" << d.size() << ") with " << q.size() << " of " << n << " used");
					else
						REQUIRE_EQX(thrown, !fits && locked != 0, "Push(" << d.size() << ") with " << q.size() << " of " << n << " used and " << locked << " locked");
					if (!fits) ++overflows;
					if (!thrown)
					{
						if (Discard && !fits)
						{	// the newest n bytes stay
							const size_t before = q.size();
							for (u8 x : d) q.push_back(x);
							size_t drop = q.size() - n;
							while (drop--) q.pop_front();
							read = (read + (before + std::min(d.size(), n) - n)) % n;
						}
						else
						{
							if ((read + q.size()) % n + d.size() > n) ++wraps;
							for (u8 x : d) q.push_back(x);
						}
					}
				}
				break;
			case 1:
				if (locked) { TR("Pop while a piece is locked\n"); REQUIRE(THROWS(b.Pop()), "Pop() gave out data while the previous piece is still locked"); break; }
				{
					const bool all = s.coin(); const size_t want = all ? (size_t)-1 : s.below(n + 2);
					const CircularDataReserverPtr r = all ? b.Pop() : b.Pop(want);
					const size_t got = r->GetData().size(), expect = std::min(std::min(want, q.size()), n - read);
					TR("Pop(" << (all ? std::string("all") : ToString(want)) << ") -> " << got << "\n");
					REQUIRE(got <= std::min(want, q.size()), "Pop gave " << got << " of " << q.size() << " bytes");
					REQUIRE(got > 0 || want == 0 || q.empty(), "Pop gave nothing although there are " << q.size() << " bytes");
					REQUIRE_EQX(got, expect, "size of the contiguous piece at " << read << " of " << n << " with " << q.size() << " bytes");
					for (size_t i = 0; i < got; ++i) REQUIRE_EQX((int)r->GetData()[i], (int)q[i], "byte " << i << " of the piece");
					if (got) { held = r; locked = got; } else if (s.coin()) empties.push_back(r);
				}
				break;
			case 2:
				if (held)
				{
					TR("release " << locked << "\n");
					for (size_t i = 0; i < locked; ++i) REQUIRE_EQX((int)held->GetData()[i], (int)q[i], "byte " << i << " of the locked piece changed");
					held.reset();
					for (size_t i = 0; i < locked; ++i) q.pop_front();
					read = (read + locked) % n; locked = 0;
				}
				break;
			case 3:
				TR("Clear with " << locked << " locked\n");
				b.Clear(); ++clears;
				q.resize(locked);
				break;
			case 4: TR("release empty pieces\n"); empties.clear(); break;
			}
			REQUIRE_EQX(b.GetSize(), q.size(), "GetSize()");
			REQUIRE_EQX(b.GetFreeSize(), n - q.size(), "GetFreeSize()");
			REQUIRE_EQ(b.GetStorageSize(), n);
			const shared_ptr<std::vector<u8> > all = b.GetAllData();
			REQUIRE(std::deque<u8>(all->begin(), all->end()) == q, "GetAllData() differs from the bytes pushed and not popped");
		}
		held.reset();
		c.nontrivial_if(wraps > 0);
		if (overflows) c.label("overflow");
		if (clears) c.label("clear");
	}
}

PROP(memory_circular_buffer, 3000, 80000, 0, "a push crossed the end of the storage")
{ circular<false>(s, c); }

PROP(discarding_circular_buffer, 3000, 80000, 0, "a push crossed the end of the storage")
{ circular<true>(s, c); }

PROP(bithread_circular_buffer, 4000, 100000, 0, "the data crossed the end of the storage")
{
	const size_t n = 1 + s.below(16);
	Bytes own(n);
	const bool external = s.coin();
	unique_ptr<BithreadCircularBuffer> b(external ? new BithreadCircularBuffer(BytesOwner(ByteData(own.data(), n), Token())) : new BithreadCircularBuffer(n));
	std::deque<u8> q; size_t rd = 0; unsigned crossed = 0;
	// at most one reader and one writer are outstanding, as with two threads
	optional<BithreadCircularBuffer::Reader> r; optional<BithreadCircularBuffer::Writer> w; 
	while (s.more(40))
	{
		const size_t wr = (rd + q.size()) % n;
		switch (s.weighted({ 4, 5, 4, 5, 1 }))
		{
		case 0: w = b->Write();
			{
				const size_t expect = q.size() == n ? 0 : rd + q.size() >= n ? n - q.size() : n - wr;
				TR("Write() -> " << w->size() << "\n");
				REQUIRE_EQX(w->size(), expect, "size of the writer at " << wr << " with " << q.size() << " of " << n);
				REQUIRE_EQX(w->IsBufferEnd(), wr + expect == n, "writer's IsBufferEnd()");
				REQUIRE_EQ(w->GetData().size(), expect); REQUIRE_EQ((size_t)std::distance(w->begin(), w->end()), expect); REQUIRE_EQ(w->data(), w->GetData().data());
			}
			break;
		case 1:
			if (w)
			{
				const Bytes d = randomBytes(s, s.chance(1, 3) ? w->size() : s.below(w->size() + 1));
				TR("Push(" << d.size() << ")\n");
				std::copy(d.begin(), d.end(), w->begin());
				w->Push(d.size());
				if (wr + d.size() == n && d.size()) ++crossed;
				for (u8 x : d) q.push_back(x);
				REQUIRE_EQ(w->size(), 0u);
				w.reset();
			}
			break;
		case 2: r = b->Read();
			{
				const size_t expect = std::min(q.size(), n - rd);
				TR("Read() -> " << r->size() << "\n");
				REQUIRE_EQX(r->size(), expect, "size of the reader at " << rd << " with " << q.size() << " of " << n);
				REQUIRE_EQX(r->IsBufferEnd(), rd + expect == n, "reader's IsBufferEnd()");
				REQUIRE_EQ(r->GetData().size(), expect);
			}
			break;
		case 3:
			if (r)
			{
				for (size_t i = 0; i < r->size(); ++i) REQUIRE_EQX((int)r->data()[i], (int)q[i], "byte " << i << " of the reader");
				const size_t k = s.chance(1, 3) ? r->size() : s.below(r->size() + 1);
				TR("Pop(" << k << ")\n");
				r->Pop(k);
				for (size_t i = 0; i < k; ++i) q.pop_front();
				rd = (rd + k) % n;
				REQUIRE_EQ(r->size(), 0u);
				r.reset();
			}
			break;
		case 4:
			if (!r && !w)
			{
				if (s.coin()) { TR("Clear\n"); b->Clear(); q.clear(); rd = 0; }
				else
				{
					BithreadCircularBuffer::Writer bad = b->Write(); BithreadCircularBuffer::Reader bad2 = b->Read();
					TR("Push and Pop beyond the storage\n");
					REQUIRE(THROWS(bad.Push(n + 1)), "a push of more than the storage was accepted");
					REQUIRE(THROWS(bad2.Pop(n + 1)), "a pop of more than the storage was accepted");
				}
			}
			break;
		}
		REQUIRE_EQX(b->GetDataSize(), q.size(), "GetDataSize()");
		REQUIRE_EQX(b->GetFreeSize(), n - q.size(), "GetFreeSize()");
		REQUIRE_EQ(b->GetTotalSize(), n);
	}
	r.reset(); w.reset();
	b.reset();
	c.nontrivial_if(crossed > 0);
}

PROP(shared_circular_buffer, 2000, 40000, 0, "data crossed the end of the storage")
{
	const size_t n = 1 + s.below(12);
	SharedCircularBuffer b(n);
	std::deque<u8> q; size_t rd = 0; bool eod = false, exc = false; unsigned crossed = 0;
	NonBlockingToken token;
	while (s.more(30))
	{
		SharedCircularBuffer::BufferLock bl(b);
		switch (s.weighted({ 6, 6, 1, 1, 1, 2 }))
		{
		case 0:
			{
				SharedCircularBuffer::WriteLock wl(bl), wl2(bl);	// several writers are allowed
				BithreadCircularBuffer::Writer w = wl.Write();
				const Bytes d = randomBytes(s, s.below(w.size() + 1));
				std::copy(d.begin(), d.end(), w.begin());
				if ((rd + q.size()) % n + d.size() == n) ++crossed;
				w.Push(d.size()); wl.BroadcastEmpty();
				for (u8 x : d) q.push_back(x);
				REQUIRE(THROWS(bl.Clear()), "Clear() was accepted while somebody writes");
				if (q.size() == n) REQUIRE(wl.WaitFull(token) != ConditionWaitResult::Broadcasted, "WaitFull");
			}
			break;
		case 1:
			{
				SharedCircularBuffer::ReadLock rl(bl);
				BithreadCircularBuffer::Reader r = rl.Read();
				REQUIRE_EQ(r.size(), std::min(q.size(), n - rd));
				for (size_t i = 0; i < r.size(); ++i) REQUIRE_EQX((int)r.data()[i], (int)q[i], "byte " << i);
				const size_t k = s.below(r.size() + 1);
				r.Pop(k); rl.BroadcastFull();
				for (size_t i = 0; i < k; ++i) q.pop_front();
				rd = (rd + k) % n;
				REQUIRE(THROWS(bl.Clear()), "Clear() was accepted while somebody reads");
				REQUIRE(THROWS(SharedCircularBuffer::ReadLock(bl)), "a second reader was accepted");
			}
			break;
		case 2:
			REQUIRE_EQX(THROWS(bl.SetEndOfData()), exc, "SetEndOfData()");
			if (!exc) eod = true;
			break;
		case 3:
			REQUIRE_EQX(THROWS(bl.SetException(std::runtime_error("x"), token)), eod, "SetException()");
			if (!eod) exc = true;
			break;
		case 4: bl.Clear(); q.clear(); rd = 0; eod = exc = false; break;
		case 5:
			{
				bool thrown = false;
				try { bl.RethrowExceptionIfAny(); } catch (const std::exception& ex) { thrown = true; REQUIRE(std::string(ex.what()).find("x") != std::string::npos, ex.what()); }
				REQUIRE_EQX(thrown, exc, "RethrowExceptionIfAny()");
			}
			break;
		}
		REQUIRE_EQ(bl.GetDataSize(), q.size()); REQUIRE_EQ(bl.GetFreeSize(), n - q.size()); REQUIRE_EQ(bl.GetStorageSize(), n);
		REQUIRE_EQ(bl.IsEndOfData(), eod); REQUIRE_EQ(bl.HasException(), exc);
	}
	c.nontrivial_if(crossed > 0);
}

namespace
{
	struct PageFault { };
	struct TestPagedBuffer : public PagedBuffer
	{
		struct Page : public virtual IPage
		{
			Src& src; Bytes data; size_t chunk; const u64 pageSize; int* live;
			Page(Src& src, size_t chunk, u64 pageSize, int* live) : src(src), chunk(chunk), pageSize(pageSize), live(live) { ++*live; }
			~Page() { --*live; }
			virtual size_t Read(u64 offset, IDataConsumer& consumer, const ICancellationToken& token)
			{
				REQUIRE(offset < data.size(), "a page of " << data.size() << " bytes was read at " << offset);
				const size_t whole = (data.size() - offset) / chunk * chunk;
				REQUIRE(whole > 0, "a page was read at " << offset << " where it has no whole chunk");
				const size_t n = src.chance(1, 3) ? chunk * (1 + src.below(whole / chunk)) : whole;
				return consumer.Process(ConstByteData(data.data() + offset, n), token);
			}
			virtual size_t Write(u64 offset, ConstByteData d, const ICancellationToken&)
			{
				REQUIRE_EQX(offset, data.size(), "offset of a write to a page");
				REQUIRE(offset + d.size() <= pageSize, "a write of " << d.size() << " bytes at " << offset << " of a page of " << pageSize);
				data.insert(data.end(), d.begin(), d.end());
				return d.size();
			}
		};
		Src& src; const u64 pageSize; int live;
		TestPagedBuffer(Src& src, u64 pageSize, size_t chunk) : PagedBuffer("test", pageSize, chunk), src(src), pageSize(pageSize), live(0) { }
		virtual IPagePtr CreatePage(size_t chunk) { return make_shared_ptr<Page>(wrap_ref(src), chunk, pageSize, &live); }
	};
}

PROP(paged_buffer, 4000, 100000, 0, "a page was dropped and data was read")
{
	const size_t chunk = 1 + s.below(4), pages = 1 + s.below(4), pageSize = chunk * pages;
	TestPagedBuffer b(s, pageSize, chunk);
	Bytes all; u64 start = 0, cur = 0;		// everything ever pushed, and the positions in it
	NonBlockingToken token;
	unsigned dropped = 0, readSome = 0, inside = 0;
	const auto pop = [&](u64 n)
		{
			const u64 size = all.size() - start;
			bool thrown = false;
			try { b.Pop(n); } catch (const std::exception&) { thrown = true; }
			REQUIRE_EQX(thrown, n > size || n % chunk != 0, "Pop(" << n << ") of " << size);
			if (thrown) return false;
			if ((start + n) / pageSize != start / pageSize) ++dropped;
			start += n;
			return true;
		};
	const auto seek = [&](u64 to)
		{
			const u64 size = all.size() - start;
			bool thrown = false;
			try { b.Seek(to); } catch (const std::exception&) { thrown = true; }
			REQUIRE_EQX(thrown, to > size || to % chunk != 0, "Seek(" << to << ") of " << size);
			return !thrown;
		};
	TR("pages of " << pageSize << " bytes, chunks of " << chunk << "\n");
	while (s.more(40))
	{
		switch (s.weighted({ 6, 9, 4, 2, 1 }))
		{
		case 0:
			{
				const Bytes d = randomBytes(s, s.below(2 * pageSize + 3));
				TR("Push(" << d.size() << ")\n");
				b.Push(view(d), token);
				all.insert(all.end(), d.begin(), d.end());
			}
			break;
		case 1:
			{
				unsigned calls = 0; u64 expectCur = cur;
				TR("Read at " << cur << " of " << start << ".." << all.size() << "\n");
				const u64 at = cur;
				b.ReadToFunction(fn<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) -> size_t
					{
						REQUIRE(++calls == 1, "a page was read twice by one Read()");
						REQUIRE(d.size() % chunk == 0 && d.size() > 0 && at + d.size() <= all.size(), d.size() << " bytes were offered at " << at);
						for (size_t i = 0; i < d.size(); ++i) REQUIRE_EQX((int)d[i], (int)all[at + i], "byte at " << at + i << " of the stream");
						const size_t take = chunk * s.below(d.size() / chunk + 1);
						bool moved = false;
						while (s.chance(1, 4))
						{	// the buffer is used while a page is read
							++inside;
							switch (s.below(3))
							{
							case 0: { const Bytes e = randomBytes(s, s.below(pageSize + 2)); TR("  Push(" << e.size() << ")\n"); b.Push(view(e), token); all.insert(all.end(), e.begin(), e.end()); } break;
							case 1: if (cur > start) { const u64 n = chunk * s.below((cur - start) / chunk + 1); TR("  Pop(" << n << ")\n"); pop(n); } break;
							case 2: { const u64 to = chunk * s.below((all.size() - start) / chunk + 1); TR("  Seek(" << to << ")\n"); if (seek(to)) { cur = expectCur = start + to; moved = true; } } break;
							}
						}
						if (!moved) expectCur = at + take;
						TR("  takes " << take << "\n");
						if (take) ++readSome;
						REQUIRE(THROWS(b.ReadToFunction(fn<size_t (ConstByteData, const ICancellationToken&)>([](ConstByteData, const ICancellationToken&) -> size_t { return 0; }), token)), "a second simultaneous Read() was accepted");
						return take;
					}), token);
				REQUIRE_EQX(calls, (all.size() - at >= chunk || calls) ? 1u : 0u, "number of calls of the consumer");
				cur = expectCur;
			}
			break;
		case 2:
			{
				const u64 size = all.size() - start;
				const u64 n = s.chance(1, 6) ? s.below(size + 3) : s.chance(1, 3) ? chunk * s.below(size / chunk + 1) : chunk * s.below((cur - start) / chunk + 1);
				TR("Pop(" << n << ") of " << size << "\n");
				if (pop(n)) cur = std::max(cur, start);
			}
			break;
		case 3:
			{
				const u64 size = all.size() - start;
				const u64 to = s.chance(1, 6) ? s.below(size + 3) : chunk * s.below(size / chunk + 1);
				TR("Seek(" << to << ") of " << size << "\n");
				if (seek(to)) cur = start + to;
			}
			break;
		case 4: break;
		}
		REQUIRE_EQX(b.GetStorageSize(), all.size() - start, "GetStorageSize()");
		REQUIRE_EQX((u64)b.live, (all.size() + pageSize - 1) / pageSize - start / pageSize, "number of pages kept");
	}
	c.nontrivial_if(dropped && readSome);
	if (inside) c.label("reentrant");
}
