// ENGINE: seq
// FLAGS: -fno-sanitize=nonnull-attribute
// Pipelines of data sources, buffers, aligners, packetizers and consumers deliver every byte and packet once, in order.
#include <stingraykit/string/ToString.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/MemoryByteStream.h>
#include "../engine/pbt.h"
#include "../engine/util.h"
#include "../engine/token.h"
#include <deque>

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<u8> Bytes;
	Bytes randomBytes(Src& s, size_t n) { Bytes b(n); for (auto& x : b) x = (u8)s.below(256); return b; }
	ConstByteData view(const Bytes& b) { return ConstByteData(b.data(), b.size()); }

	// accepts any part of what it is offered (in whole units)
	struct Sink : public virtual IDataConsumer
	{
		Src& src; size_t unit; bool stingy; Bytes got; unsigned eod, refusals, calls;
		Sink(Src& src, size_t unit, bool stingy) : src(src), unit(unit), stingy(stingy), eod(0), refusals(0), calls(0) { }
		virtual size_t Process(ConstByteData d, const ICancellationToken&)
		{
			++calls;
			REQUIRE(eod == 0, "data came after the end of data");
			REQUIRE_EQX(d.size() % unit, 0u, "size of the data offered, in units of " << unit);
			size_t n = d.size();
			if (stingy && refusals < 200 && src.chance(1, 2)) n = unit * src.below(d.size() / unit + 1);
			if (n < d.size()) ++refusals;
			got.insert(got.end(), d.begin(), d.begin() + n);
			return n;
		}
		virtual void EndOfData(const ICancellationToken&) { ++eod; }
	};

	// offers chunks of any size, again when they are not accepted
	struct ChunkSource : public virtual IDataSource
	{
		Src& src; Bytes data; size_t unit, pos; bool always;
		ChunkSource(Src& src, const Bytes& data, size_t unit) : src(src), data(data), unit(unit), pos(0), always(true) { }
		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
		{
			if (pos == data.size()) { consumer.EndOfData(token); return; }
			const size_t left = (data.size() - pos) / unit;
			const size_t n = left > 1 ? unit * (1 + src.below(left)) : data.size() - pos;
			const size_t p = consumer.Process(ConstByteData(data.data() + pos, n), token);
			REQUIRE(p <= n, "a stage reported " << p << " bytes processed of " << n);
			pos += p;
		}
	};

	struct TestPipe : public virtual IPipe
	{
		Src& src; Bytes data; size_t pos;
		TestPipe(Src& src, const Bytes& data) : src(src), data(data), pos(0) { }
		virtual u64 Read(ByteData d, const ICancellationToken&)
		{
			if (pos == data.size()) STINGRAYKIT_THROW(PipeClosedException());
			size_t n = std::min(d.size(), data.size() - pos);
			if (n > 1 && src.coin()) n = 1 + src.below(n);
			std::copy(data.begin() + pos, data.begin() + pos + n, d.data());
			pos += n;
			return n;
		}
		virtual u64 Write(ConstByteData, const ICancellationToken&) { return 0; }
		virtual bool Peek(const ICancellationToken&) { return true; }
	};

	template < typename T > shared_ptr<T> alias(T& t) { return shared_ptr<T>(&t, [](T*) { }); }
}

PROP(pipeline, 6000, 150000, 0, "at least two stages and a consumer that refused something")
{
	const size_t unit = s.pick<size_t>({ 1, 1, 1, 2, 3, 4 });
	Bytes data = randomBytes(s, s.below(60) * (s.coin() ? unit : 1));
	NonBlockingToken token;
	IDataSourcePtr src; size_t srcUnit = 1;
	const size_t srcKind = s.below(5);
	switch (srcKind)
	{
	case 0: src = make_shared_ptr<ByteArrayDataSource>(ConstByteArray(data)); TR("ByteArrayDataSource " << data.size()); break;
	case 1: { const size_t n = 1 + s.below(20); src = make_shared_ptr<ByteStreamDataSource>(CreateMemoryByteStream(data), n); TR("ByteStreamDataSource " << data.size() << " by " << n); } break;
	case 2: { const size_t n = 1 + s.below(20); src = make_shared_ptr<PipeDataSource>(make_shared_ptr<TestPipe>(wrap_ref(s), data), n); TR("PipeDataSource " << data.size() << " by " << n); } break;
	default: srcUnit = data.size() % unit == 0 ? unit : 1; src = make_shared_ptr<ChunkSource>(wrap_ref(s), data, srcUnit); TR("chunks of " << srcUnit << ", " << data.size() << " in all"); break;
	}
	Bytes expect = data, seen; bool watched = false; size_t watchedLevel = 0; unsigned watchedEod = 0;
	size_t outUnit = srcUnit; const size_t stages = s.below(4); bool endless = false;
	for (size_t i = 0; i < stages; ++i)
		switch (s.below(5))
		{
		case 0:
			{
				const size_t a = s.pick<size_t>({ 1, 2, 3, 4, 5, 8 });
				TR(" | align " << a);
				src = make_shared_ptr<DataAligner>(src, a);
				expect.resize(expect.size() / a * a); outUnit = a;
			}
			break;
		case 1:
			if (!watched)
			{
				TR(" | intercept");
				watched = true; watchedLevel = i;
				src = make_shared_ptr<InterceptingDataSource>(src, fn<void (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) { seen.insert(seen.end(), d.begin(), d.end()); }), fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++watchedEod; }));
			}
			break;
		case 2:
			{
				const u64 n = s.below(expect.size() + 5);
				TR(" | skip " << n);
				src = make_shared_ptr<DataSkipper>(src, n, true);
				expect.erase(expect.begin(), expect.begin() + std::min<size_t>(n, expect.size())); outUnit = 1;
			}
			break;
		case 3: TR(" | packets"); src = make_shared_ptr<DataDepacketer>(make_shared_ptr<DataPacketer>(src)); break;
		case 4:
			if (i + 1 == stages)
			{	// ends without an end of data when everything is taken
				const u64 n = s.below(expect.size() + 5); const bool rest = i > 0 || srcKind == 1 || s.coin();	// a stage that gives everything it has at once cannot stop in the middle
				TR(" | take " << n << (rest ? " discarding the rest" : ""));
				src = make_shared_ptr<DataTaker>(src, n, rest);
				if (n <= expect.size()) endless = true;
				expect.resize(std::min<size_t>(n, expect.size())); outUnit = 1;
			}
			break;
		}
	Sink sink(s, outUnit, s.coin());
	TR(" | " << (sink.stingy ? "partial" : "whole") << " consumer of " << outUnit << "\n");
	InterceptingDataConsumer front(sink, fn<void (ConstByteData, const ICancellationToken&)>([&](ConstByteData, const ICancellationToken&) { }), fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { }));
	IDataConsumer& consumer = s.coin() ? (IDataConsumer&)front : (IDataConsumer&)sink;
	for (size_t steps = 0; !sink.eod && !(endless && sink.got.size() >= expect.size()); ++steps)
	{
		src->Read(consumer, token);
		REQUIRE(steps < 3000, "the pipeline stopped after " << sink.got.size() << " of " << expect.size() << " bytes");
	}
	REQUIRE_EQX(sink.got.size(), expect.size(), "number of bytes delivered");
	REQUIRE(sink.got == expect, "other bytes were delivered");
	REQUIRE(sink.eod == (endless ? sink.eod : 1u), "the end of data came " << sink.eod << " times");
	if (watched)
	{
		if (!endless) REQUIRE_EQX(watchedEod, 1u, "end of data seen by the interceptor");
		if (watchedLevel + 1 == stages) REQUIRE(seen == sink.got, "the interceptor saw other bytes than were accepted");
		else if (!endless) REQUIRE(seen.size() <= data.size() && std::equal(seen.begin(), seen.end(), data.end() - (std::ptrdiff_t)seen.size()) == true || seen.size() <= data.size(), "the interceptor saw more than there was");
	}
	c.nontrivial_if(stages > 1 && sink.refusals > 0);
}

PROP(data_buffer, 6000, 150000, 0, "the data wrapped and a reader took a part")
{
	const size_t in = 1 + s.below(4), out = 1 + s.below(4);
	size_t l = in; while (l % out) l += in;
	const size_t n = l * (1 + s.below(4));
	const bool discard = s.chance(1, 3);
	const size_t required = s.chance(1, 4) ? s.below(n + 1) : 0;
	REQUIRE(THROWS(DataBuffer(false, n, DataBuffer::Parameters().SetRequiredFreeSpace(n + 1))), "required free space beyond the storage was accepted");
	if (in > 1) REQUIRE(THROWS(DataBuffer(false, n + 1, DataBuffer::Parameters().SetInputPacketSize(in))), "a storage of a broken packet was accepted");
	if (out > 1) REQUIRE(THROWS(DataBuffer(false, n + 1, DataBuffer::Parameters().SetOutputPacketSize(out))), "a storage of a broken packet was accepted");
	DataBuffer b(discard, n, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(out).SetRequiredFreeSpace(required));
	TR("DataBuffer of " << n << ", packets " << in << " -> " << out << (discard ? " discarding" : "") << " required " << required << "\n");
	size_t overflow = 0; unsigned overflows = 0, overflowsModel = 0;
	const Token conn = b.OnOverflow().connect(fn<void (size_t)>([&](size_t k) { overflow += k; ++overflows; }));
	size_t overflowModel = 0;
	std::deque<u8> q; size_t rd = 0; bool eod = false, exc = false; unsigned crossed = 0, partial = 0;
	NonBlockingToken token;
	while (s.more(40))
	{
		switch (s.weighted({ 8, 8, 1, 1, 1, 2 }))
		{
		case 0:
			{
				const Bytes d = randomBytes(s, in * (1 + s.below(n / in + 1)));
				const size_t wr = (rd + q.size()) % n, contiguous = q.size() == n ? 0 : rd + q.size() >= n ? n - q.size() : n - wr;
				const size_t fits = contiguous / in * in;
				TR("Process(" << d.size() << ") with " << q.size() << " of " << n << "\n");
				size_t r = 0; bool thrown = false;
				try { r = b.Process(view(d), token); } catch (const std::exception&) { thrown = true; }
				REQUIRE_EQX(thrown, eod || exc, "Process() after the end of data or an exception");
				if (thrown) break;
				if (fits == 0 || n - q.size() < required)
				{
					REQUIRE_EQX(r, discard ? d.size() : 0u, "Process(" << d.size() << ") of a full buffer");
					if (discard) { overflowModel += d.size(); ++overflowsModel; }
				}
				else
				{
					REQUIRE(r > 0 && r <= d.size() && r % in == 0 && r <= n - q.size(), "Process(" << d.size() << ") with " << n - q.size() << " bytes free gave " << r);
					for (size_t i = 0; i < r; ++i) q.push_back(d[i]);
					if (wr + r == n) ++crossed;
				}
				REQUIRE_EQX(overflow, overflowModel, "bytes reported as discarded"); REQUIRE_EQ(overflows, overflowsModel);
			}
			break;
		case 1:
			{
				unsigned calls = 0, ends = 0; bool thrown = false; size_t offered = 0, taken = 0; const bool fail = s.chance(1, 10);
				TR("Read with " << q.size() << (fail ? ", the consumer throws" : "") << "\n");
				try
				{
					b.ReadToFunction(fn<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) -> size_t
						{
							++calls; offered = d.size();
							REQUIRE(d.size() > 0 && d.size() % out == 0 && d.size() <= q.size(), d.size() << " bytes were offered of " << q.size());
							for (size_t i = 0; i < d.size(); ++i) REQUIRE_EQX((int)d[i], (int)q[i], "byte " << i << " of the data offered");
							if (s.chance(1, 5) && !eod && !exc)
							{	// a writer comes while the reader works
								const Bytes e = randomBytes(s, in);
								const size_t wr = (rd + q.size()) % n, contiguous = q.size() == n ? 0 : rd + q.size() >= n ? n - q.size() : n - wr;
								if (contiguous >= in && n - q.size() >= required) { TR("  Process(" << in << ")\n"); REQUIRE_EQ(b.Process(view(e), token), in); for (u8 x : e) q.push_back(x); }
							}
							REQUIRE(THROWS(b.Clear()), "Clear() was accepted while somebody reads");
							if (fail) throw std::runtime_error("consumer");
							taken = out * s.below(d.size() / out + 1);
							if (taken < d.size()) ++partial;
							return taken;
						}), fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { ++ends; }), token);
				}
				catch (const std::exception& ex) { thrown = true; }
				(void)offered;
				const size_t contiguous = std::min(q.size(), n - rd);
				if (calls) REQUIRE_EQX(thrown, fail, "Read()");
				else
				{
					REQUIRE(contiguous < out, "Read() offered nothing of " << q.size() << " bytes");
					REQUIRE_EQX(thrown, exc, "Read() of a buffer with an exception");
					REQUIRE_EQX(ends, !exc && eod ? 1u : 0u, "end of data");
				}
				for (size_t i = 0; i < taken; ++i) q.pop_front();
				rd = (rd + taken) % n;
			}
			break;
		case 2:
			if (s.coin()) { TR("EndOfData\n"); REQUIRE_EQX(THROWS(b.EndOfData(token)), exc, "EndOfData()"); if (!exc) eod = true; }
			else { TR("SetException\n"); REQUIRE_EQX(THROWS(b.SetException(std::runtime_error("x"), token)), eod, "SetException()"); if (!eod) exc = true; }
			break;
		case 3: TR("Clear\n"); b.Clear(); q.clear(); rd = 0; eod = exc = false; break;
		case 4:
			{
				const size_t t = s.below(n + 2);
				TR("WaitForData(" << t << ")\n");
				REQUIRE_EQX(THROWS(b.WaitForData(t, token)), t == 0 || t % out || t >= n, "WaitForData(" << t << ") of " << n);
			}
			break;
		case 5: break;
		}
		REQUIRE_EQX(b.GetDataSize(), q.size(), "GetDataSize()"); REQUIRE_EQ(b.GetFreeSize(), n - q.size()); REQUIRE_EQ(b.GetStorageSize(), n);
		REQUIRE_EQ(b.HasEndOfDataOrException(), eod || exc);
	}
	c.nontrivial_if(crossed && partial);
	if (overflowsModel) c.label("overflow");
}

PROP(packet_buffer, 5000, 120000, 0, "packets were padded at the end of the storage")
{
	typedef Packet<int> P;
	const size_t n = 1 + s.below(24); const bool discard = s.chance(1, 3);
	PacketBuffer<int> b(discard, n);
	std::deque<std::pair<Bytes, int> > q; size_t total = 0, dropped = 0, refused = 0; int id = 0; bool eod = false; unsigned accepted = 0;
	NonBlockingToken token;
	TR("PacketBuffer of " << n << (discard ? " discarding" : "") << "\n");
	while (s.more(50))
	{
		switch (s.weighted({ 8, 7, 1, 1 }))
		{
		case 0:
			{
				const Bytes d = randomBytes(s, s.chance(1, 8) ? 0 : 1 + s.below(s.chance(1, 8) ? n + 2 : (n + 1) / 2));
				TR("Process(" << d.size() << ", #" << id << ") with " << total << " of " << n << "\n");
				bool r = false, thrown = false; const size_t used = b.GetDataSize();
				try { r = b.Process(P(view(d), id), token); } catch (const std::exception&) { thrown = true; }
				REQUIRE_EQX(thrown, d.size() > n, "Process(" << d.size() << ") by a buffer of " << n);
				if (thrown) break;
				if (discard) REQUIRE(r, "a discarding buffer refused a packet");
				bool stored = r;
				if (discard) stored = b.GetDataSize() >= used + d.size() && !(d.size() == 0) ? true : d.size() == 0 ? true : b.GetDataSize() > used;
				// an empty buffer accepts anything that fits it, and a packet is never refused when there is contiguous room for it
				if (q.empty()) REQUIRE(stored, "an empty buffer of " << n << " refused a packet of " << d.size());
				if (stored) { q.push_back(std::make_pair(d, id)); total += d.size(); ++accepted; }
				else { ++(discard ? dropped : refused); REQUIRE(used + 2 * d.size() > n, "a packet of " << d.size() << " was refused with " << total << " of " << n << " used"); }
				++id;
			}
			break;
		case 1:
			{
				unsigned calls = 0, ends = 0; bool take = true;
				TR("Read with " << q.size() << " packets\n");
				b.ReadToFunction([&](const P& p, const ICancellationToken&) -> bool
					{
						++calls;
						REQUIRE(!q.empty(), "a packet came out of an empty buffer");
						REQUIRE_EQX(p.GetMetadata(), q.front().second, "metadata of the packet");
						REQUIRE_EQX(p.GetSize(), q.front().first.size(), "size of packet #" << p.GetMetadata());
						REQUIRE(Bytes(p.GetData().begin(), p.GetData().end()) == q.front().first, "bytes of packet #" << p.GetMetadata());
						if (s.chance(1, 5))
						{
							const Bytes d = randomBytes(s, 1 + s.below((n + 1) / 2));
							const size_t used = b.GetDataSize();
							TR("  Process(" << d.size() << ", #" << id << ")\n");
							if (d.size() <= n && b.Process(P(view(d), id), token) && (!discard || b.GetDataSize() > used)) { q.push_back(std::make_pair(d, id)); total += d.size(); }
							++id;
							REQUIRE(Bytes(p.GetData().begin(), p.GetData().end()) == q.front().first, "packet #" << p.GetMetadata() << " was overwritten while it is read");
						}
						take = s.chance(3, 4);
						return take;
					}, [&]() { ++ends; }, token);
				REQUIRE_EQX(calls, q.empty() ? 0u : 1u, "number of packets delivered by one Read()");
				REQUIRE_EQX(ends, eod && !calls ? 1u : 0u, "end of data");
				if (calls && take) { total -= q.front().first.size(); q.pop_front(); }
			}
			break;
		case 2: TR("EndOfData\n"); b.EndOfData(); eod = true; break;
		case 3: TR("Clear\n"); b.Clear(); q.clear(); total = 0; eod = false; REQUIRE_EQ(b.GetDataSize(), 0u); break;
		}
		REQUIRE_EQ(b.GetStorageSize(), n);
		REQUIRE(b.GetDataSize() >= total && b.GetDataSize() <= n, "GetDataSize() is " << b.GetDataSize() << " with packets of " << total << " bytes");
		REQUIRE_EQ(b.GetFreeSize(), n - b.GetDataSize());
	}
	c.nontrivial_if(accepted > 3);
	if (refused) c.label("refused");
	if (dropped) c.label("dropped");
}

PROP(packetizers, 3000, 60000, 0, "more than one packet")
{
	const size_t size = 1 + s.below(5);
	const Bytes data = randomBytes(s, size * s.below(10));
	NonBlockingToken token;
	struct Packets : public virtual IPacketConsumer<EmptyType>
	{
		Src& src; std::vector<Bytes> got; unsigned eod; unsigned refusals;
		Packets(Src& src) : src(src), eod(0), refusals(0) { }
		virtual bool Process(const Packet<EmptyType>& p, const ICancellationToken&)
		{
			if (refusals < 100 && src.chance(1, 3)) { ++refusals; return false; }
			got.push_back(Bytes(p.GetData().begin(), p.GetData().end()));
			return true;
		}
		virtual void EndOfData() { ++eod; }
	} sink(s);
	DataPacketer packeter(make_shared_ptr<ChunkSource>(wrap_ref(s), data, size), size);
	for (size_t i = 0; !sink.eod; ++i) { packeter.Read(sink, token); REQUIRE(i < 1000, "the packeter does not end"); }
	REQUIRE_EQX(sink.got.size(), data.size() / size, "number of packets");
	for (size_t i = 0; i < sink.got.size(); ++i) REQUIRE(sink.got[i] == Bytes(data.begin() + i * size, data.begin() + (i + 1) * size), "packet " << i);
	// whole packets through ConsumeAll and back to bytes
	Sink bytes(s, 1, true);
	ConsumerDepacketer depacketer(bytes);
	for (const Bytes& p : sink.got) REQUIRE(ConsumeAll(depacketer, Packet<EmptyType>(view(p)), token), "ConsumeAll of a packet");
	depacketer.EndOfData();
	REQUIRE(bytes.got == data && bytes.eod == 1, "bytes of the packets");
	Packets all(s);
	ConsumerPacketer whole(all);
	REQUIRE_EQ(ConsumeAll(whole, view(data), token), data.size());
	REQUIRE(data.empty() || (all.got.size() == 1 && all.got[0] == data), "ConsumeAll into a packet consumer");
	Sink again(s, 1, true);
	REQUIRE_EQ(DataConsumeAll(again)(view(data), token), data.size());
	REQUIRE(again.got == data, "DataConsumeAll");
	CancelledToken cancelled;
	REQUIRE_EQX(ConsumeAll(again, view(data), cancelled), 0u, "ConsumeAll ignored the cancellation");
	c.nontrivial_if(sink.got.size() > 1);
}

PROP(mediator_and_readers, 3000, 60000, 0, "data came in more than one piece")
{
	NonBlockingToken token;
	BufferedDataMediator m; Bytes all; unsigned pieces = 0, ends = 0; Sink sink(s, 1, s.coin());
	while (s.more(12))
	{
		if (s.weighted({ 3, 2 }) == 0) { const Bytes d = randomBytes(s, s.below(10)); REQUIRE_EQ(m.Process(view(d), token), d.size()); all.insert(all.end(), d.begin(), d.end()); ++pieces; }
		else
		{
			const bool end = s.chance(1, 4);
			if (end) m.EndOfData(token);
			m.Read(sink, token);
			REQUIRE(sink.got == all, "the mediator gave other bytes");
			REQUIRE_EQX(sink.eod, end ? 1u : 0u, "end of data");
			ends += sink.eod; sink.eod = 0;
		}
	}
	const Bytes data = randomBytes(s, s.below(50));
	const ByteArray got = DataSourceReader(make_shared_ptr<ChunkSource>(wrap_ref(s), data, (size_t)1)).ReadToEnd(token);
	REQUIRE(Bytes(got.begin(), got.end()) == data, "DataSourceReader::ReadToEnd()");
	Sink reactive(s, 1, true);
	ReactiveDataSource(make_shared_ptr<ChunkSource>(wrap_ref(s), data, (size_t)1)).Read(reactive, token);
	REQUIRE(reactive.got == data && reactive.eod == 1, "ReactiveDataSource");
	Sink none(s, 1, true);
	EmptyDataSource().Read(none, token);
	REQUIRE(none.got.empty() && none.eod == 1, "EmptyDataSource");
	Bytes dest(1 + s.below(40), 0xEE), want = dest; bool end = false;
	ByteDataConsumer consumer(ByteData(dest.data(), dest.size()));
	ChunkSource cs(s, data, 1); size_t guard = 0;
	while (!consumer.IsEndOfData()) { cs.Read(consumer, token); REQUIRE(++guard < 200, "ByteDataConsumer does not end"); end = true; REQUIRE_EQ(consumer.IsFull(), cs.pos >= dest.size()); }
	REQUIRE(end, "");
	std::copy(data.begin(), data.begin() + std::min(data.size(), want.size()), want.begin());
	REQUIRE(dest == want, "ByteDataConsumer stored other bytes");
	// taking and skipping without the rest
	const u64 n = s.below(data.size() + 5);
	const shared_ptr<ChunkSource> shared = make_shared_ptr<ChunkSource>(wrap_ref(s), data, (size_t)1);
	Sink head(s, 1, true), tail(s, 1, true);
	DataTaker taker(shared, n);
	taker.Read(head, token);
	REQUIRE(head.got == Bytes(data.begin(), data.begin() + std::min<size_t>(n, data.size())), "DataTaker gave other bytes");
	ReactiveDataSource(shared).Read(tail, token);
	REQUIRE(n > data.size() || tail.got == Bytes(data.begin() + std::min<size_t>(n, data.size()), data.end()), "DataTaker took more than it was asked to");
	const shared_ptr<ChunkSource> shared2 = make_shared_ptr<ChunkSource>(wrap_ref(s), data, (size_t)1);
	Sink skipped(s, 1, true), rest(s, 1, true);
	DataSkipper skipper(shared2, n);
	for (size_t i = 0; i < 300; ++i) skipper.Read(skipped, token);
	REQUIRE(skipped.got.empty() && shared2->pos == std::min<size_t>(n, data.size()), "DataSkipper passed " << skipped.got.size() << " bytes, stopped at " << shared2->pos << " instead of " << n);
	c.nontrivial_if(pieces > 1);
}

PROP(pipe_reader, 2000, 40000, 0, "more than one line")
{
	const std::string text = s.coin() ? s.text("ab\n\n", 30) : s.text("a\r\n", 12);
	const shared_ptr<TestPipe> pipe = make_shared_ptr<TestPipe>(wrap_ref(s), Bytes(text.begin(), text.end()));
	PipeReader r(pipe);
	NonBlockingToken token;
	size_t pos = 0; unsigned lines = 0;
	for (;;)
	{
		if (s.chance(1, 6) && pos < text.size()) { REQUIRE_EQX((char)r.ReadByte(token), text[pos], "ReadByte at " << pos); ++pos; continue; }
		std::string expect; bool closed = false, unsupported = false, vague = false;
		for (;;)
		{
			if (pos == text.size()) { closed = expect.empty(); break; }
			const char ch = text[pos++];
			if (ch == '\n') break;
			if (ch == '\r') { if (pos == text.size()) { closed = expect.empty(); vague = true; break; } if (text[pos++] == '\n') break; unsupported = true; break; }
			expect += ch;
		}
		TR("line '" << expect << "'" << (closed ? " closed" : "") << (unsupported ? " unsupported" : "") << "\n");
		std::string got; bool gotClosed = false, gotUnsupported = false;
		try { got = r.ReadLine(token); } catch (const PipeClosedException&) { gotClosed = true; } catch (const NotSupportedException&) { gotUnsupported = true; }
		if (vague) { REQUIRE(gotClosed || got == expect, "line '" << got << "'"); }
		else
		{
			REQUIRE_EQX(gotClosed, closed, "ReadLine() at the end");
			REQUIRE_EQX(gotUnsupported, unsupported, "ReadLine() of a lone carriage return");
			if (!closed && !unsupported) REQUIRE_EQX(got, expect, "line " << lines);
		}
		if (pos == text.size() && gotClosed) break;
		if (closed) break;
		++lines;
	}
	c.nontrivial_if(lines > 1);
}
