// ENGINE: conc
// FLAGS: -Wno-c++11-narrowing
// Buffers and pipes between threads.
#include <stingraykit/string/ToString.h>
#include <stingraykit/diagnostics/ExecutorsProfiler.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include "dsched.h"
#include "util.h"
#include <memory>

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<u8> Bytes;
	typedef int64_t ns_t;
	const ns_t Ms = 1000000;
	// the time which the threads needed to run, when nobody had to wait
	ns_t slack() { return (ns_t)sched::ticks_ns() + Ms; }
	ns_t now() { return (ns_t)sched::now_ns(); }
	const size_t MaxPerWriter = 60;

	// byte k of writer w
	u8 value(size_t w, size_t k) { return (u8)(w * 64 + k % 64); }

	// a token of a thread, which another may cancel
	struct Cancel
	{
		CancellationToken token;
		ns_t at = -1;
		bool timed = false;
		void cancel() { { sched::NoPreempt np; if (at < 0) at = now(); } token.Cancel(); }
		void check(const char* what, ns_t begin) const
		{
			if (at >= 0) REQUIRE(now() - std::max(at, begin) <= slack(), what << " ended " << (now() - std::max(at, begin)) / Ms << " ms after it was cancelled");
		}
	};

	// how a consumer behaves
	struct Bite { size_t take; unsigned ms; };
	std::vector<Bite> gen_bites(Src& s, Ctx& c)
	{
		std::vector<Bite> b(s.range<size_t>(1, 5));
		bool any = false;
		for (auto& x : b) { x = Bite{ s.pick<size_t>({ 100, 1, 2, 3, 0, 100 }), s.pick<unsigned>({ 0, 0, 0, 1, 4 }) }; any |= x.take > 0; }
		if (!any) b[0].take = 100;
		std::string t;
		for (auto& x : b) t += " " + std::to_string(x.take) + "/" + std::to_string(x.ms) + "ms";
		TR("consumer takes" << t);
		return b;
	}
	struct Canceller { unsigned ms; int who; };
	std::vector<Canceller> gen_cancels(Src& s, Ctx& c, size_t writers)
	{
		std::vector<Canceller> r;
		while (r.size() < 2 && s.chance(1, 3))
		{
			r.push_back(Canceller{ s.pick<unsigned>({ 0, 1, 3, 10 }), (int)s.below(writers + 1) - 1 });
			TR("cancel " << (r.back().who < 0 ? std::string("the reader") : "writer " + std::to_string(r.back().who)) << " after " << r.back().ms << " ms");
		}
		return r;
	}
}


PROP(data_buffers, 60000, 2000000, 0, "bytes crossed threads while a writer or the reader had to wait, with a preemption")
{
	// all sizes divide that of the storage
	const size_t storage = s.pick<size_t>({ 1, 2, 3, 4, 6, 6, 8, 12 });
	std::vector<size_t> divisors;
	for (size_t i = 1; i <= storage; ++i) if (storage % i == 0) divisors.push_back(i);
	const size_t in = s.coin() ? 1 : s.pick_from(divisors), out = s.coin() ? 1 : s.pick_from(divisors);
	const size_t required = s.chance(1, 4) && storage > out ? s.range<size_t>(0, storage - out) : 0;
	const bool discard = s.chance(1, 4), jumps = s.coin();
	std::vector<std::vector<std::pair<size_t, unsigned> > > prog(s.weighted({ 3u, 2u, 1u }) + 1);
	for (auto& p : prog)
	{
		size_t total = 0;
		std::string t;
		while (p.size() < 6 && s.more(4))
		{
			const size_t n = s.range<size_t>(0, 8) * in;
			if (total + n > MaxPerWriter) break;
			total += n;
			p.push_back(std::make_pair(n, s.pick<unsigned>({ 0, 0, 0, 1, 5 })));
			t += " " + std::to_string(n) + "/" + std::to_string(p.back().second) + "ms";
		}
		TR("writer:" << t);
	}
	const std::vector<Bite> bites = gen_bites(s, c);
	const std::vector<Canceller> cancels = gen_cancels(s, c, prog.size());
	const unsigned end = s.weighted({ 3u, 1u });	// end of data or an exception
	std::vector<unsigned> clears;	// somebody clears the buffer
	if (s.chance(1, 4)) do clears.push_back(s.pick<unsigned>({ 0, 0, 0, 0, 1, 4 })); while (clears.size() < 8 && s.chance(5, 6));
	TR("clears " << clears.size());
	// whoever waits for data must not wait for more than the writers can put there
	size_t threshold = 0;
	if (s.chance(1, 3) && storage > in + required + out) threshold = s.range<size_t>(1, (storage - in - required) / out) * out;
	if (threshold >= storage || discard) threshold = 0;
	const bool reactive = s.chance(1, 4);
	TR("storage " << storage << " in " << in << " out " << out << " required " << required << (discard ? " discards" : "") << (end ? " exception" : "") << " threshold " << threshold << (reactive ? " reactive" : "") << (jumps ? " time jumps" : ""));

	std::vector<Cancel> tokens(prog.size());
	Cancel reader;
	std::vector<size_t> accepted(prog.size()), given(prog.size());
	Bytes got;
	size_t dropped = 0, ends = 0, offered = 0, biteNo = 0;
	bool wasFull = false, thrown = false;
	sched::start(s, sched::Mode(true, jumps));
	{
		const shared_ptr<DataBuffer> buffer = make_shared_ptr<DataBuffer>(discard, storage, DataBuffer::Parameters().SetInputPacketSize(in).SetOutputPacketSize(out).SetRequiredFreeSpace(required));
		const Token overflow = buffer->OnOverflow().connect(fn<void (size_t)>([&](size_t n) { sched::NoPreempt np; dropped += n; }));
		const auto process = fn<size_t (ConstByteData, const ICancellationToken&)>([&](ConstByteData d, const ICancellationToken&) -> size_t
		{
			REQUIRE(d.size() > 0 && d.size() % out == 0, "the consumer is given " << d.size() << " bytes");
			REQUIRE(d.size() <= storage && ends == 0, "data after its end");
			const Bite b = bites[biteNo++ % bites.size()];
			const size_t n = std::min(d.size(), b.take * out);
			Bytes copy(d.begin(), d.begin() + n);
			if (b.ms) sched::sleep_ms(b.ms);
			else sched::point("consumer");
			REQUIRE(std::equal(copy.begin(), copy.end(), d.begin()), "data changed while it was being read");
			sched::NoPreempt np;
			++offered;
			got.insert(got.end(), copy.begin(), copy.end());
			return n;
		});
		const auto eod = fn<void (const ICancellationToken&)>([&](const ICancellationToken&) { sched::NoPreempt np; ++ends; });
		auto read = [&](const ICancellationToken& token)
		{
			FunctorDataConsumer<decltype(process), decltype(eod)> consumer(process, eod);
			try
			{
				if (reactive) ReactiveDataSource(buffer).Read(consumer, token);
				else buffer->Read(consumer, token);
			}
			catch (const Failure&) { throw; }
			catch (const std::exception& e)
			{
				REQUIRE(end == 1 && diagnostic_information(e).find("the end") != std::string::npos, "reading throws " << diagnostic_information(e));
				thrown = true;
			}
		};
		sched::Thread r([&]
		{
			while (reader.token && !ends && !thrown)
			{
				if (threshold)
				{
					const ns_t begin = now();
					buffer->WaitForData(threshold, reader.token);
					if (!jumps) reader.check("waiting for data", begin);
					REQUIRE(buffer->GetDataSize() >= threshold || buffer->HasEndOfDataOrException() || !reader.token || !clears.empty(), "waiting for data ended with " << buffer->GetDataSize() << " bytes");
				}
				read(reader.token);
			}
			// nobody reads any more
			if (!ends && !thrown) for (Cancel& x : tokens) x.cancel();
		});
		std::vector<sched::Thread> writers, others;
		for (size_t w = 0; w < prog.size(); ++w)
			writers.emplace_back([&, w]
			{
				for (auto& m : prog[w])
				{
					Bytes data;
					for (size_t i = 0; i < m.first; ++i) data.push_back(value(w, given[w] + i));
					size_t done = 0;
					while (tokens[w].token && done < data.size())
					{
						const ns_t begin = now();
						const size_t n = buffer->Process(ConstByteData(data.data() + done, data.size() - done), tokens[w].token);
						REQUIRE(n <= data.size() - done && n % in == 0, "a writer of " << data.size() - done << " bytes is told that " << n << " were taken");
						if (!jumps) tokens[w].check("writing", begin);
						sched::NoPreempt np;
						wasFull |= n == 0;
						done += n;
						accepted[w] += n;
					}
					given[w] += m.first;
					if (m.second) sched::sleep_ms(m.second);
				}
			});
		for (const Canceller& x : cancels)
			others.emplace_back([&, x] { if (x.ms) sched::sleep_ms(x.ms); (x.who < 0 ? reader : tokens[x.who]).cancel(); });
		if (!clears.empty())
			others.emplace_back([&]
			{
				for (unsigned ms : clears)
				{
					if (ms) sched::sleep_ms(ms);
					else sched::point("clear");
					// refused while the buffer is being read or written
					try { buffer->Clear(); }
					catch (const InvalidOperationException&) { }
				}
			});
		writers.clear();
		if (!clears.empty()) others.pop_back();
		if (end) buffer->SetException(std::runtime_error("the end"), DummyCancellationToken());
		else buffer->EndOfData(DummyCancellationToken());
		r.join();
		others.clear();
		// what the reader left there
		while (!ends && !thrown) read(DummyCancellationToken());
	}
	REQUIRE(end ? thrown && !ends : ends == 1 && !thrown, "the end came " << ends << " times");
	size_t all = 0;
	for (size_t n : accepted) all += n;
	REQUIRE(dropped <= all, "more was dropped than given");
	if (clears.empty()) REQUIRE_EQ(got.size(), (all - dropped) / out * out);
	else REQUIRE(got.size() <= all - dropped, got.size() << " bytes read of " << all - dropped);
	std::vector<size_t> next(prog.size());
	for (size_t i = 0; i < got.size(); ++i)
	{
		const size_t w = got[i] / 64, k = got[i] % 64;
		REQUIRE(w < prog.size(), "byte " << (int)got[i] << " was not written");
		REQUIRE(discard || !clears.empty() ? k >= next[w] : k == next[w], "byte " << k << " of writer " << w << " came instead of " << next[w]);
		next[w] = k + 1;
		if (i % in && (clears.empty() || out % in == 0)) REQUIRE(got[i] == got[i - 1] + 1, "a packet is torn at " << i);
	}
	size_t busy = 0;
	for (size_t n : accepted) busy += n > 0;
	c.label(prog.size() == 1 ? "one writer" : "several writers");
	c.nontrivial_if(sched::preemptions() >= 1 && busy && (wasFull || dropped || all > storage));
}


PROP(packet_buffers, 50000, 1500000, 0, "packets crossed threads and a writer had to wait or a packet was refused, with a preemption")
{
	const size_t storage = s.range<size_t>(1, 12);
	const bool discard = s.chance(1, 5), jumps = s.coin();
	struct P { size_t size; unsigned ms; };
	std::vector<std::vector<size_t> > prog(s.weighted({ 3u, 2u }) + 1);
	std::vector<P> packets;
	for (auto& p : prog)
	{
		std::string t;
		while (p.size() < 6 && s.more(5))
		{
			p.push_back(packets.size());
			packets.push_back(P{ s.range<size_t>(1, storage), s.pick<unsigned>({ 0, 0, 0, 1, 5 }) });
			t += " " + std::to_string(packets.back().size) + "/" + std::to_string(packets.back().ms) + "ms";
		}
		TR("writer:" << t);
	}
	const std::vector<Bite> bites = gen_bites(s, c);
	const std::vector<Canceller> cancels = gen_cancels(s, c, prog.size());
	TR("storage " << storage << (discard ? " discards" : "") << (jumps ? " time jumps" : ""));
	std::vector<Cancel> tokens(prog.size());
	Cancel reader;
	std::vector<size_t> taken, got;
	size_t ends = 0, biteNo = 0, refused = 0, waited = 0;
	sched::start(s, sched::Mode(true, jumps));
	{
		PacketBuffer<int> buffer(discard, storage);
		const auto process = fn<bool (const Packet<int>&, const ICancellationToken&)>([&](const Packet<int>& p, const ICancellationToken&) -> bool
		{
			REQUIRE(ends == 0, "a packet after the end");
			const Bite b = bites[biteNo++ % bites.size()];
			REQUIRE(p.GetMetadata() >= 0 && (size_t)p.GetMetadata() < packets.size(), "metadata " << p.GetMetadata());
			const size_t id = p.GetMetadata();
			REQUIRE_EQ(p.GetSize(), packets[id].size);
			for (int pass = 0; pass < 2; ++pass)
			{
				for (size_t i = 0; i < p.GetSize(); ++i)
					REQUIRE(p.GetData()[i] == (u8)(id * 13 + i), "byte " << i << " of packet " << id << " of " << p.GetSize() << " bytes is wrong");
				if (pass) break;
				if (b.ms) sched::sleep_ms(b.ms);
				else sched::point("consumer");
			}
			sched::NoPreempt np;
			if (b.take == 0) { ++refused; return false; }
			got.push_back(id);
			return true;
		});
		const auto eod = fn<void ()>([&] { sched::NoPreempt np; ++ends; });
		sched::Thread r([&]
		{
			while (reader.token && !ends)
			{
				const ns_t begin = now();
				const size_t n = biteNo;
				buffer.ReadToFunction(process, eod, reader.token);
				if (!jumps && biteNo == n) reader.check("reading", begin);
			}
			if (!ends) for (Cancel& x : tokens) x.cancel();
		});
		std::vector<sched::Thread> writers, others;
		for (size_t w = 0; w < prog.size(); ++w)
			writers.emplace_back([&, w]
			{
				for (size_t id : prog[w])
				{
					Bytes data;
					for (size_t i = 0; i < packets[id].size; ++i) data.push_back((u8)(id * 13 + i));
					const Packet<int> p(ConstByteData(data.data(), data.size()), (int)id);
					bool done = false;
					while (tokens[w].token && !done)
					{
						const ns_t begin = now();
						done = buffer.Process(p, tokens[w].token);
						if (!jumps && prog.size() == 1) tokens[w].check("writing", begin);
						sched::NoPreempt np;
						if (done) taken.push_back(id);
						else ++waited;
					}
					if (packets[id].ms) sched::sleep_ms(packets[id].ms);
				}
			});
		for (const Canceller& x : cancels)
			others.emplace_back([&, x] { if (x.ms) sched::sleep_ms(x.ms); (x.who < 0 ? reader : tokens[x.who]).cancel(); });
		writers.clear();
		buffer.EndOfData();
		r.join();
		others.clear();
		while (!ends) buffer.ReadToFunction(process, eod, DummyCancellationToken());
	}
	REQUIRE_EQ(ends, 1u);
	std::vector<size_t> at(packets.size(), ~(size_t)0);
	for (size_t i = 0; i < got.size(); ++i)
	{
		REQUIRE(at[got[i]] == ~(size_t)0, "packet " << got[i] << " was delivered twice");
		at[got[i]] = i;
	}
	for (size_t id : got) REQUIRE(std::count(taken.begin(), taken.end(), id) == 1, "packet " << id << " was not accepted, but delivered");
	if (!discard) for (size_t id : taken) REQUIRE(at[id] != ~(size_t)0, "packet " << id << " is lost");
	for (auto& p : prog)
	{
		size_t last = 0;
		for (size_t id : p)
			if (at[id] != ~(size_t)0) { REQUIRE(at[id] >= last, "packet " << id << " was delivered before an earlier one of its writer"); last = at[id]; }
	}
	c.label(prog.size() == 1 ? "one writer" : "several writers");
	c.nontrivial_if(sched::preemptions() >= 1 && got.size() >= 2 && (waited || refused));
}


PROP(pipes, 50000, 1500000, 0, "a message was read in parts or a writer was cancelled or two writers wrote, with a preemption")
{
	const bool sync = s.coin(), jumps = s.coin();
	std::vector<std::vector<std::pair<size_t, unsigned> > > prog(sync ? s.range<size_t>(1, 3) : 1);
	struct Message { size_t writer, begin, size; bool done; };
	std::vector<Message> messages;
	for (size_t w = 0; w < prog.size(); ++w)
	{
		size_t total = 0;
		std::string t;
		while (prog[w].size() < 5 && s.more(4))
		{
			const size_t n = s.range<size_t>(0, 9);
			if (total + n > MaxPerWriter) break;
			prog[w].push_back(std::make_pair(messages.size(), s.pick<unsigned>({ 0, 0, 0, 1, 5 })));
			messages.push_back(Message{ w, total, n, false });
			total += n;
			t += " " + std::to_string(n) + "/" + std::to_string(prog[w].back().second) + "ms";
		}
		TR("writer:" << t);
	}
	const size_t buffered = s.coin() ? s.range<size_t>(1, 6) : 0;
	std::vector<std::pair<size_t, unsigned> > reads(s.range<size_t>(1, 4));
	std::string rt;
	for (auto& x : reads) { x = std::make_pair(s.pick<size_t>({ 1, 2, 3, 4, 7, 20 }), s.pick<unsigned>({ 0, 0, 0, 1, 4 })); rt += " " + std::to_string(x.first) + "/" + std::to_string(x.second) + "ms"; }
	const std::vector<Canceller> cancels = gen_cancels(s, c, prog.size());
	const bool byBytes = s.chance(1, 5);
	TR("reads" << rt << ", buffered " << buffered << (sync ? " synchronized" : "") << (byBytes ? " by bytes" : "") << (jumps ? " time jumps" : ""));
	std::vector<Cancel> tokens(prog.size());
	Cancel reader;
	Bytes got;
	bool parts = false, given = false, stopped = false;
	size_t busy = 0;
	sched::start(s, sched::Mode(true, jumps));
	{
		const shared_ptr<BithreadPipe> pipe = make_shared_ptr<BithreadPipe>();
		const IPipePtr in = sync ? IPipePtr(make_shared_ptr<SynchronizedPipe>(pipe)) : IPipePtr(pipe);
		const IPipePtr out = buffered ? IPipePtr(make_shared_ptr<BufferedPipe>(pipe, buffered)) : IPipePtr(pipe);
		sched::Thread r([&]
		{
			PipeReader bytes(out);
			for (size_t n = 0; ; ++n)
			{
				const auto x = reads[n % reads.size()];
				if (x.second) sched::sleep_ms(x.second);
				const ns_t begin = now();
				Bytes b(x.first, 0xEE);
				try
				{
					if (n % 3 == 1) out->Peek(reader.token);
					if (byBytes)
					{
						const u8 v = bytes.ReadByte(reader.token);
						sched::NoPreempt np;
						got.push_back(v);
					}
					else
					{
						const u64 k = out->Read(ByteData(b.data(), b.size()), reader.token);
						REQUIRE(k <= b.size(), "read " << k << " bytes of " << b.size());
						for (size_t i = k; i < b.size(); ++i) REQUIRE_EQ((int)b[i], 0xEE);
						sched::NoPreempt np;
						got.insert(got.end(), b.begin(), b.begin() + k);
					}
				}
				catch (const OperationCancelledException&) { REQUIRE(!reader.token, "reading was cancelled"); if (!jumps) reader.check("reading", begin); break; }
				catch (const Failure&) { throw; }
				catch (const std::exception& e)
				{
					// a byte which was not read
					REQUIRE(byBytes, "reading throws " << diagnostic_information(e));
				}
			}
			sched::NoPreempt np;
			stopped = true;
		});
		std::vector<sched::Thread> writers, others;
		for (size_t w = 0; w < prog.size(); ++w)
			writers.emplace_back([&, w]
			{
				for (auto& m : prog[w])
				{
					Message& x = messages[m.first];
					Bytes data;
					for (size_t i = 0; i < x.size; ++i) data.push_back(value(w, x.begin + i));
					const ns_t begin = now();
					try
					{
						const u64 n = in->Write(ConstByteData(data.data(), data.size()), tokens[w].token);
						REQUIRE_EQ(n, x.size);
						sched::NoPreempt np;
						x.done = true;
					}
					catch (const OperationCancelledException&) { REQUIRE(!tokens[w].token, "writing was cancelled"); if (!jumps) tokens[w].check("writing", begin); break; }
					if (m.second) sched::sleep_ms(m.second);
				}
			});
		for (const Canceller& x : cancels)
			others.emplace_back([&, x]
			{
				if (x.ms) sched::sleep_ms(x.ms);
				if (x.who >= 0) { given = true; tokens[x.who].cancel(); }
				else
				{
					reader.cancel();
					const std::function<bool ()> f = [&] { return stopped; };
					sched::wait_until(f);
					for (Cancel& t : tokens) t.cancel();
				}
			});
		writers.clear();
		reader.cancel();
		r.join();
		others.clear();
	}
	// messages of a writer in order, each one in a piece unless its writer was cancelled
	std::vector<size_t> at(prog.size());		// the next message
	size_t i = 0;
	while (i < got.size())
	{
		const size_t w = got[i] / 64;
		REQUIRE(w < prog.size(), "byte " << (int)got[i] << " was not written");
		while (at[w] < prog[w].size() && messages[prog[w][at[w]].first].size == 0) ++at[w];
		REQUIRE(at[w] < prog[w].size(), "byte " << (int)got[i] << " came twice");
		const Message& m = messages[prog[w][at[w]++].first];
		size_t n = 0;
		while (n < m.size && i < got.size() && got[i] == value(w, m.begin + n)) { ++i; ++n; }
		REQUIRE(n > 0, "byte " << (int)got[i] << " came instead of " << (int)value(w, m.begin));
		if (n < m.size) REQUIRE(!m.done, "a message of " << m.size << " bytes was written, but only " << n << " came in a piece");
		parts |= m.size > reads[0].first;
	}
	size_t accepted = 0, size = 0;
	for (const Message& m : messages) if (m.done) accepted += m.size;
	for (size_t w = 0; w < prog.size(); ++w)
	{
		busy += !prog[w].empty();
		for (size_t k = at[w]; k < prog[w].size(); ++k) REQUIRE(!messages[prog[w][k].first].done || messages[prog[w][k].first].size == 0 || reader.at < 0 || buffered, "a written message is lost");
	}
	bool early = false;
	for (const Canceller& x : cancels) early |= x.who < 0;
	(void)size;
	if (!early) REQUIRE(got.size() >= accepted, accepted << " bytes were written, " << got.size() << " were read");
	c.nontrivial_if(sched::preemptions() >= 1 && got.size() >= 2 && (parts || given || busy >= 2));
}


// the positions of a bithread buffer change under a lock, the bytes are copied outside of it
PROP(bithread_buffers, 50000, 1500000, 0, "data crossed the end of the storage, with a preemption")
{
	const size_t storage = s.range<size_t>(1, 9), total = s.range<size_t>(0, 40);
	std::vector<size_t> in(s.range<size_t>(1, 4)), out(s.range<size_t>(1, 4));
	for (size_t& x : in) x = s.range<size_t>(1, 5);
	for (size_t& x : out) x = s.range<size_t>(1, 5);
	TR("storage " << storage << " total " << total << " in " << show(in) << " out " << show(out));
	Bytes got;
	sched::start(s);
	{
		BithreadCircularBuffer buffer(storage);
		Mutex mutex;
		ConditionVariable cond;
		bool end = false;
		sched::Thread w([&]
		{
			size_t done = 0;
			for (size_t n = 0; done < total; ++n)
			{
				MutexLock l(mutex);
				while (buffer.GetFreeSize() == 0) cond.Wait(mutex);
				BithreadCircularBuffer::Writer x = buffer.Write();
				REQUIRE(x.size() > 0 && x.size() <= buffer.GetFreeSize(), "a writer of " << x.size() << " bytes while " << buffer.GetFreeSize() << " are free");
				const size_t k = std::min(std::min(x.size(), in[n % in.size()]), total - done);
				{
					MutexUnlock u(l);
					for (size_t i = 0; i < k; ++i) { x.data()[i] = (u8)(done + i); if (i % 2 == 0) sched::point("write"); }
				}
				x.Push(k);
				done += k;
				cond.Broadcast();
			}
			MutexLock l(mutex);
			end = true;
			cond.Broadcast();
		});
		for (size_t n = 0; ; ++n)
		{
			MutexLock l(mutex);
			while (buffer.GetDataSize() == 0 && !end) cond.Wait(mutex);
			if (buffer.GetDataSize() == 0) break;
			REQUIRE_EQ(buffer.GetDataSize() + buffer.GetFreeSize(), storage);
			BithreadCircularBuffer::Reader x = buffer.Read();
			REQUIRE(x.size() > 0 && x.size() <= buffer.GetDataSize(), "a reader of " << x.size() << " bytes while " << buffer.GetDataSize() << " are there");
			const size_t k = std::min(x.size(), out[n % out.size()]);
			{
				MutexUnlock u(l);
				for (size_t i = 0; i < k; ++i) { got.push_back(x.data()[i]); if (i % 2 == 0) sched::point("read"); }
			}
			x.Pop(k);
			cond.Broadcast();
		}
		w.join();
	}
	REQUIRE_EQ(got.size(), total);
	for (size_t i = 0; i < total; ++i) REQUIRE(got[i] == (u8)i, "byte " << i << " is " << (int)got[i]);
	c.nontrivial_if(sched::preemptions() >= 1 && total > storage);
}
