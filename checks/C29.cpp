// ENGINE: seq
// FLAGS: -fno-sanitize=object-size
// C29: what the arithmetic coder and the PPM compressor encode, their counterparts decode to exactly the same.
#include <stingraykit/string/ToString.h>
#include <stingraykit/collection/array.h>
#include <stingraykit/compression/ArithmeticCoder.h>
#include <stingraykit/compression/ArithmeticDecoder.h>
#include <stingraykit/compression/ppm/PpmDictionaryFactory.h>
#include "../engine/pbt.h"
#include "../engine/util.h"
#include "../engine/token.h"
#include <deque>

using namespace stingray;
using namespace pbt;

namespace
{
	typedef std::vector<u8> Bytes;

	struct Step { u32 low, high, scale; };

	// Keeps track of the interval of the coder in order to aim at its weak point: intervals around the middle give no bits for a long time.
	struct Shadow
	{
		u64 low, high, pending;
		Shadow() : low(0), high(0x7FFFFFFF), pending(0) { }
		u32 middle(u32 scale) const
		{
			const u64 range = (high - low + 1) / scale;
			return (u32)std::min<u64>(scale - 1, (0x40000000u - low) / range);
		}
		void apply(const Step& s)
		{
			const u64 range = (high - low + 1) / s.scale;
			high = low + range * s.high - 1;
			low = low + range * s.low;
			for (;;)
			{
				if (((low ^ high) & 0x40000000) == 0) pending = 0;
				else if ((low & 0x20000000) && !(high & 0x20000000)) { ++pending; low &= 0x1FFFFFFF; high |= 0x20000000; }
				else return;
				low = (low << 1) & 0x7FFFFFFF;
				high = ((high << 1) & 0x7FFFFFFF) | 1;
			}
		}
	};

	// accepts any part of what it is offered
	struct Sink : public virtual IDataConsumer
	{
		Src& src; bool stingy; Bytes got; unsigned eod, refusals;
		Sink(Src& src, bool stingy) : src(src), stingy(stingy), eod(0), refusals(0) { }
		virtual size_t Process(ConstByteData d, const ICancellationToken&)
		{
			REQUIRE(eod == 0, "data came after the end of data");
			size_t n = d.size();
			if (stingy && refusals < 300) n = src.weighted({ 2, 2, 1, 1 }) ? std::min<size_t>(n, src.below(n < 4 ? 4 : n)) : 0;
			if (n < d.size()) ++refusals;
			got.insert(got.end(), d.begin(), d.begin() + n);
			return n;
		}
		virtual void EndOfData(const ICancellationToken&) { ++eod; }
	};

	struct ChunkSource : public virtual IDataSource
	{
		Src& src; const Bytes& data; size_t pos;
		ChunkSource(Src& src, const Bytes& data) : src(src), data(data), pos(0) { }
		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
		{
			if (pos == data.size()) { consumer.EndOfData(token); return; }
			const size_t left = data.size() - pos;
			const size_t n = src.chance(1, 4) ? left : 1 + src.below(std::min<size_t>(left, 600));
			const size_t p = consumer.Process(ConstByteData(data.data() + pos, n), token);
			REQUIRE(p <= n, "a stage reported " << p << " bytes processed of " << n);
			pos += p;
		}
	};

	Bytes drain(Src& s, const IDataSourcePtr& source, size_t limit, const char* what)
	{
		NonBlockingToken token;
		Sink sink(s, s.chance(2, 3));
		for (size_t i = 0; sink.eod == 0; ++i)
		{
			source->Read(sink, token);
			REQUIRE(i < limit, what << " makes no progress after " << i << " reads, " << sink.got.size() << " bytes received");
			REQUIRE(sink.got.size() <= limit, what << " gave too much data: " << sink.got.size());
		}
		REQUIRE_EQX(sink.eod, 1u, what << ": number of ends of data");
		return sink.got;
	}

	// the result depends on the data only, however they come and whatever part of the result is accepted at a time
	Bytes pack(Src& s, const ICompressionDictionaryPtr& dictionary, const Bytes& data)
	{
		const Bytes packed = drain(s, dictionary->Compress(make_shared_ptr<ChunkSource>(wrap_ref(s), wrap_const_ref(data))), data.size() * 8 + 2000, "compressor");
		const Bytes again = drain(s, dictionary->Compress(make_shared_ptr<ChunkSource>(wrap_ref(s), wrap_const_ref(data))), data.size() * 8 + 2000, "compressor");
		REQUIRE(packed == again, "the same " << data.size() << " bytes were compressed into " << packed.size() << " bytes and then into other " << again.size());
		return packed;
	}

	Bytes gen(Src& s, size_t max)
	{
		Bytes b;
		const size_t n = s.chance(1, 8) ? s.below(max + 1) : s.below(std::min<size_t>(max, 60) + 1);
		switch (s.below(4))
		{
		case 0: for (size_t i = 0; i < n; ++i) b.push_back((u8)s.below(256)); break;
		case 1: for (size_t i = 0; i < n; ++i) b.push_back((u8)('a' + s.below(3))); break;
		case 2:	// repeats of a phrase with a rare change
			{
				Bytes phrase; const size_t m = 1 + s.below(12);
				for (size_t i = 0; i < m; ++i) phrase.push_back((u8)s.below(256));
				const u8 rare = (u8)s.below(256); const size_t when = 1 + s.below(50);
				for (size_t i = 0; i < n; ++i) b.push_back(i % when == when - 1 ? rare : phrase[i % m]);
			}
			break;
		default:	// a long pseudo-random run for a few choices
			{
				u32 x = s.below(0x7fffffff); const u32 mask = s.pick<u32>({ 1, 3, 15, 255 });
				for (size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; b.push_back((u8)((x >> 16) & mask)); }
			}
			break;
		}
		return b;
	}

	template < typename Config, typename Models >
	void ppm(Src& s, Ctx& c, const char* name)
	{
		typedef PpmDictionaryFactory<Config, Models> Factory;
		const size_t high = s.pick<size_t>({ 2000, 20000, 1000000 }) + 20000;
		const size_t low = high / 2, final = s.pick<size_t>({ 6000, 20000, 1000000 });
		ICompressionDictionaryBuilderPtr builder = Factory(low, high, final).CreateBuilder();
		const size_t parts = 1 + s.below(3);
		size_t trained = 0;
		Bytes sample;
		for (size_t i = 0; i < parts; ++i)
		{
			const Bytes t = gen(s, 900);
			builder->Process(ConstByteData(t.data(), t.size()));
			trained += t.size();
			sample = t;
		}
		if (trained == 0) { builder->Process(ConstByteData((const u8*)"x", 1)); trained = 1; }
		const ICompressionDictionaryPtr dictionary = builder->Finish();

		const size_t streams = 1 + s.below(2);
		for (size_t i = 0; i < streams; ++i)
		{
			Bytes data = gen(s, 3000);
			if (s.chance(1, 3) && !sample.empty())	// what the dictionary knows
				for (size_t k = 0, n = s.below(200); k < n; ++k) data.insert(data.begin() + s.below(data.size() + 1), sample[k % sample.size()]);
			TR(name << " trained on " << trained << ", " << data.size() << " bytes: " << ToString(ConstByteData(data.data(), std::min<size_t>(data.size(), 40))));
			const Bytes packed = pack(s, dictionary, data);
			TR(" packed into " << packed.size());
			const Bytes back = drain(s, dictionary->Decompress(make_shared_ptr<ChunkSource>(wrap_ref(s), wrap_const_ref(packed))), data.size() * 8 + 2000, "decompressor");
			REQUIRE(back == data, name << ": " << data.size() << " bytes were compressed to " << packed.size() << " and decompressed to " << back.size() << " bytes, first difference at "
					<< (std::mismatch(back.begin(), back.begin() + std::min(back.size(), data.size()), data.begin()).first - back.begin()));
			c.nontrivial_if(data.size() >= 10);
			if (packed.size() > 1024) c.label("more than the buffer");
			if (packed.size() < data.size() / 2) c.label("compressed at least twice");
		}
	}
}

PROP(coder, 12000, 600000, 0, "at least 5 symbols")
{
	std::vector<Step> steps;
	Shadow shadow;
	const size_t n = s.chance(1, 10) ? s.below(300) : s.below(20);
	const bool aim = s.chance(1, 3);
	bool underflow = false;
	const u32 maxScale = s.pick<u32>({ 1, 2, 3, 257, 4096, 65536, 1u << 24, 1u << 29 });
	for (size_t i = 0; i < n; ++i)
	{
		Step st;
		st.scale = 1 + (u32)s.below(maxScale);
		if (aim && s.chance(9, 10))
		{
			const u32 m = shadow.middle(st.scale);
			st.low = m - std::min<u32>(m, (u32)s.below(2)); st.high = std::min<u32>(st.scale, m + 1 + (u32)s.below(2));
		}
		else
		{
			st.low = (u32)s.below(st.scale);
			st.high = s.coin() ? st.low + 1 : st.low + 1 + (u32)s.below(st.scale - st.low);
		}
		shadow.apply(st);
		underflow = underflow || shadow.pending > 3;
		steps.push_back(st);
	}
	TR(n << " symbols up to scale " << maxScale << (aim ? ", aiming at the middle" : "") << ", pending " << shadow.pending << ":");
	for (size_t i = 0; i < std::min<size_t>(n, 12); ++i) TR(" [" << steps[i].low << "," << steps[i].high << ")/" << steps[i].scale);
	c.nontrivial_if(n >= 5);
	if (underflow) c.label("pending bits");
	if (shadow.pending) c.label("pending bits at the end");

	std::vector<bool> bits;
	const auto put = fn<void (bool)>([&](bool b) { bits.push_back(b); });
	ArithmeticCoder coder;
	for (const auto& st : steps) coder.Encode(st.low, st.high, st.scale, put);
	coder.EndOfData(put);
	if (n == 0) c.label("nothing");

	// whatever follows the end does not matter
	const int tail = (int)s.below(3);
	size_t pos = 0;
	const auto get = fn<bool ()>([&]() -> bool { if (pos < bits.size()) return bits[pos++]; ++pos; return tail == 2 ? s.coin() : tail == 1; });
	ArithmeticDecoder decoder(get);
	for (size_t i = 0; i < n; ++i)
	{
		const u32 p = decoder.GetProbability(steps[i].scale);
		REQUIRE(p >= steps[i].low && p < steps[i].high, "symbol " << i << " of " << n << " was [" << steps[i].low << ", " << steps[i].high << ") of " << steps[i].scale
				<< ", decoded " << p << ", " << bits.size() << " bits, followed by " << (tail == 2 ? "anything" : tail ? "ones" : "zeros"));
		decoder.SymbolDecoded(steps[i].low, steps[i].high, steps[i].scale, get);
	}
}

PROP(coder_arguments, 500, 20000, 0, "the range of the symbol is invalid")
{
	const u32 scale = (u32)s.below(6), low = (u32)s.below(7), high = (u32)s.below(7);
	const bool valid = low < high && high <= scale;
	c.nontrivial_if(!valid);
	TR("[" << low << ", " << high << ") of " << scale);
	std::vector<bool> bits;
	const auto put = fn<void (bool)>([&](bool b) { bits.push_back(b); });
	const auto zero = fn<bool ()>([]() { return false; });
	ArithmeticCoder coder; ArithmeticDecoder decoder(zero);
	REQUIRE_EQX(THROWS(coder.Encode(low, high, scale, put)), !valid, "encoding [" << low << ", " << high << ") of " << scale);
	if (!valid)
	{
		REQUIRE(bits.empty(), "bits were written by a refused call");
		REQUIRE(THROWS(decoder.SymbolDecoded(low, high, scale, zero)), "the decoder accepted [" << low << ", " << high << ") of " << scale);
		// and the coder goes on as if nothing happened
		coder.Encode(1, 2, 3, put); coder.EndOfData(put);
		size_t pos = 0;
		const auto get = fn<bool ()>([&]() -> bool { return pos < bits.size() ? (bool)bits[pos++] : false; });
		ArithmeticDecoder d(get);
		REQUIRE_EQ(d.GetProbability(3), 1u);
	}
	// too big a scale is refused instead of giving a wrong code
	ArithmeticCoder big;
	big.Encode(0, 1, 2, put);
	REQUIRE(THROWS(big.Encode(0, 1, 0x80000000u + (u32)s.below(1000), put)), "a scale greater than the precision was accepted");
}

PROP(ppm_round_trip, 3000, 20000, 0, "at least 10 bytes are compressed")
{
	switch (s.below(4))
	{
	case 0: return ppm<PpmConfig<u8, u32>, TypeList<PpmModelConfig<2, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u8> > >(s, c, "2-1-0");
	case 1: return ppm<PpmConfig<u8, u32>, TypeList<PpmModelConfig<3, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u16> > >(s, c, "3-1-0");
	case 2: return ppm<PpmConfig<u8, u32>, TypeList<PpmModelConfig<1, u16>, PpmModelConfig<0, u8> > >(s, c, "1-0");
	default: return ppm<PpmConfig<u8, u32>, TypeList<PpmModelConfig<4, u8>, PpmModelConfig<3, u8>, PpmModelConfig<2, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u8> > >(s, c, "4-3-2-1-0");
	}
}

PROP(ppm_pending_bits, 400, 4000, 0, "the coder holds more than 16 bits back at once")
{
	// all 256 symbols and the end are equally probable: the symbols are chosen so that the coder cannot decide on the next bit
	typedef PpmDictionaryFactory<PpmConfig<u8, u32>, TypeList<PpmModelConfig<0, u8> > > Factory;
	ICompressionDictionaryBuilderPtr builder = Factory(100000, 200000, 100000).CreateBuilder();
	builder->Process(ConstByteData((const u8*)"x", 1));
	const ICompressionDictionaryPtr dictionary = builder->Finish();
	Bytes data;
	Shadow shadow; u64 worst = 0;
	const size_t rounds = 1 + s.below(4);
	for (size_t r = 0; r < rounds; ++r)
	{
		for (size_t i = 0, n = s.below(30); i < n; ++i)
		{
			const u32 x = (u32)s.below(256);
			data.push_back((u8)x); shadow.apply(Step{ x, x + 1, 257 });
		}
		for (size_t i = 0, n = s.pick<size_t>({ 2, 5, 30, 1100 }); i < n; ++i)
		{
			const u32 x = std::min<u32>(255, shadow.middle(257));
			data.push_back((u8)x); shadow.apply(Step{ x, x + 1, 257 });
			worst = std::max(worst, shadow.pending);
		}
	}
	c.nontrivial_if(worst > 16);
	if (worst > 8192) c.label("more than the buffer");
	TR(data.size() << " bytes, up to " << worst << " bits held back");
	const Bytes packed = pack(s, dictionary, data);
	const Bytes back = drain(s, dictionary->Decompress(make_shared_ptr<ChunkSource>(wrap_ref(s), wrap_const_ref(packed))), data.size() * 8 + 2000, "decompressor");
	REQUIRE(back == data, data.size() << " bytes were compressed to " << packed.size() << " and decompressed to " << back.size() << ", " << worst << " bits were held back");
}
