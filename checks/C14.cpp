// ENGINE: seq
// FLAGS: -fno-sanitize=pointer-overflow
// BitsGetter/BitsSetter, bit streams, IntegerBuilder and bit operations against a plain array of bits.
#include "C14_common.h"

namespace
{
	// one row of the table of run-time callable operations for a field of Bits bits
	template < typename Stream, size_t Bits >
	struct Ops
	{
		typedef typename Min<Bits>::T MinT;
		static u64 read(Stream& st, size_t how)
		{
			switch (how)
			{
			case 0: { const u64 v = st.template Read<Bits>(); return v; }
			case 1: { const MinT v = st.template Read<Bits>(); return v; }
			case 2: { typedef typename std::make_signed<MinT>::type S; const S v = st.template Read<Bits>(); return (u64)v & maskOf(sizeof(MinT) * 8); }
			case 3: { const u64 v = st.template Peek<Bits>(); const u64 w = st.template Peek<Bits>(); REQUIRE_EQ(v, w); st.Skip(Bits); return v; }
			default:
				{ const size_t p = st.GetBitPosition(); u64 v; { typename Stream::Rollback r(st); v = st.template Read<Bits>(); REQUIRE_EQ(st.GetBitPosition(), p + Bits); } REQUIRE_EQ(st.GetBitPosition(), p); st.Seek(p + Bits); return v; }
			}
		}
		static void write(Stream& st, u64 v, size_t how)
		{
			switch (how)
			{
			case 0: st.template Write<Bits>(v); break;
			case 1: st.template Write<Bits>((MinT)v); break;
			case 2: if (v <= 0xff) st.template Write<Bits>((u8)v); else if (v <= 0xffffffffu) st.template Write<Bits>((u32)v); else st.template Write<Bits>(v); break;	// a narrower type than the field
			default: { typename Stream::template DeferredWriter<Bits> w(st); w.Write(v); } break;
			}
		}
	};
	template < typename Stream >
	struct Row { u64 (*read)(Stream&, size_t); void (*write)(Stream&, u64, size_t); };
	template < size_t... N > struct Sizes { };
	typedef Sizes<1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 17, 24, 31, 32, 33, 48, 57, 63, 64>	BigSizes;
	typedef Sizes<1, 3, 7, 8, 16, 24, 32, 40, 48, 56, 64>								LittleSizes;
	template < typename Stream, size_t... N >
	const Row<Stream>* rowFor(Src& s, Sizes<N...>, size_t& n, std::true_type) { static const Row<Stream> rows[] = { { &Ops<Stream, N>::read, &Ops<Stream, N>::write }... }; static const size_t sizes[] = { N... }; const size_t i = s.below(sizeof...(N)); n = sizes[i]; return rows + i; }
	template < typename Stream, size_t... N >
	const Row<Stream>* rowFor(Src& s, Sizes<N...>, size_t& n, std::false_type) { static const Row<Stream> rows[] = { { &Ops<Stream, N>::read, NULL }... }; static const size_t sizes[] = { N... }; const size_t i = s.below(sizeof...(N)); n = sizes[i]; return rows + i; }

	template < typename Stream, typename Data, typename Sizes_ >
	void readHistory(Src& s, Ctx& c, bool be)
	{
		const Bytes b = randomBytes(s, 48);
		const size_t from = s.chance(1, 3) && !b.empty() ? s.below(b.size()) : 0, cut = s.chance(1, 3) ? s.below(b.size() - from + 1) : b.size() - from;
		const Bytes win(b.begin() + from, b.begin() + from + cut);
		const Data data(b.data(), b.size());
		Stream st = from || cut != b.size() ? Stream(data, from, cut) : Stream(data);
		const size_t total = win.size() * 8;
		size_t pos = 0; unsigned crossing = 0, rejected = 0;
		while (s.more(25))
		{
			const size_t op = s.weighted({ 12, 2, 2, 1, 1 });
			if (op == 0)
			{
				size_t n; const Row<Stream>* row = rowFor<Stream>(s, Sizes_(), n, std::false_type()); const size_t how = s.below(5);
				c.tr("read ", n, " at ", pos, " of ", total);
				u64 got = 0; bool ok = true;
				try { got = row->read(st, how); } catch (const std::exception&) { ok = false; }
				REQUIRE_EQX(ok, pos <= total && n <= total - pos, "read of " + std::to_string(n) + " bits at " + std::to_string(pos) + " of " + std::to_string(total));
				if (ok) { REQUIRE_EQX(got, modelRead(win, pos, n, be), "bits " + std::to_string(pos) + " + " + std::to_string(n)); pos += n; crossing += pos % 8 != 0 && n > 8; }
				else { ++rejected; st.Seek(pos); }
			}
			else if (op == 1) { pos = s.below(total + 1); st.Seek(pos); }
			else if (op == 2) { const size_t n = s.below(20); pos += n; st.Skip(n); }
			else if (op == 3)
			{
				if (pos % 8 == 0 && pos <= total) { const auto d = st.GetAvailableByteData(); REQUIRE_EQ(Bytes(d.begin(), d.end()), Bytes(win.begin() + pos / 8, win.end())); }
				else REQUIRE(THROWS(st.GetAvailableByteData()), "");
				const auto d = st.GetData(); REQUIRE_EQ(Bytes(d.begin(), d.end()), win);
				const size_t o = s.below(win.size() + 2), l = s.below(win.size() + 2);
				bool ok = true; try { Stream sub(st, o, l); REQUIRE_EQ(sub.GetRemainingBitsCount(), 8 * l); if (l && o < win.size()) REQUIRE_EQ((u64)(u8)sub.template Read<8>(), (u64)win[o]); } catch (const std::exception&) { ok = false; }
				REQUIRE_EQ(ok, o <= win.size() && l <= win.size() - o);
			}
			else
			{
				const size_t n = s.integer<size_t>();
				REQUIRE_EQX(st.CanRead(n), pos <= total && n <= total - pos, "CanRead(" + std::to_string(n) + ") at " + std::to_string(pos) + " of " + std::to_string(total));
			}
			REQUIRE_EQ(st.GetBitPosition(), pos); REQUIRE_EQ(st.AtEnd(), pos / 8 >= win.size()); REQUIRE_EQ(st.GetRemainingBitsCount(), pos < total ? total - pos : 0);
		}
		c.nontrivial_if(crossing); c.label_if(rejected, "read beyond the end rejected");
	}

	template < typename Stream > Stream makeStream(ByteArray, Bytes& st, size_t, size_t) { return Stream(ByteArray(st)); }
	template < typename Stream > Stream makeStream(ByteData, Bytes& st, size_t f, size_t l) { return Stream(ByteData(st), f, l); }

	template < typename Stream, typename Data, bool Grows, typename Sizes_ >
	void writeHistory(Src& s, Ctx& c, bool be)
	{
		Bytes b = randomBytes(s, 40);
		Bytes store(b); Bytes guard(b);
		// for plain views: a window inside of a larger buffer whose other bytes must not change
		const size_t from = !Grows && !b.empty() ? s.below(b.size()) : 0, len = Grows ? 0 : s.below(b.size() - from + 1);
		Stream st = makeStream<Stream>(Data(), store, from, len);
		Bytes win = Grows ? b : Bytes(b.begin() + from, b.begin() + from + len);
		size_t pos = 0; unsigned fields = 0, rejected = 0, crossing = 0;
		std::vector<std::pair<size_t, std::pair<size_t, u64>>> written;
		bool overlapping = false;
		while (s.more(25))
		{
			const size_t total = win.size() * 8, op = s.weighted({ 14, 2, 1, 3 });
			if (op == 0)
			{
				size_t n; const Row<Stream>* row = rowFor<Stream>(s, Sizes_(), n, std::true_type()); const size_t how = s.below(4);
				const u64 v = fieldValue(s, n);
				c.tr("write ", n, " at ", pos, " of ", total, " value ", v, " how ", how);
				bool ok = true; try { row->write(st, v, how); } catch (const std::exception&) { ok = false; }
				const bool expect = Grows || (pos <= total && n <= total - pos);
				REQUIRE_EQX(ok, expect, "write of " + std::to_string(n) + " bits at " + std::to_string(pos) + " of " + std::to_string(total));
				if (ok)
				{
					if (Grows && (pos + n + 7) / 8 > win.size()) win.resize((pos + n + 7) / 8);
					modelWrite(win, pos, n, v, be); crossing += pos % 8 != 0 && n > 8; pos += n; ++fields;
				}
				else { ++rejected; st.Seek(pos); }
			}
			else if (op == 1) { pos = s.below(total + 1); st.Seek(pos); overlapping = true; }
			else if (op == 2) { const size_t n = s.below(20); pos += n; st.Skip(n); }
			else if (pos <= total) { size_t n; const Row<Stream>* row = rowFor<Stream>(s, Sizes_(), n, std::true_type()); if (n <= total - pos) { const u64 got = row->read(st, s.below(5)); REQUIRE_EQX(got, modelRead(win, pos, n, be), "bits " + std::to_string(pos) + " + " + std::to_string(n)); pos += n; } }
			const auto d = st.GetData();
			REQUIRE_EQX(Bytes(d.begin(), d.end()), win, "contents after the operation");
			REQUIRE_EQ(st.GetBitPosition(), pos);
			if (!Grows) { std::copy(win.begin(), win.end(), guard.begin() + from); REQUIRE_EQX(store, guard, "bytes outside of the window"); }
		}
		c.nontrivial_if(crossing); c.label_if(rejected, "write beyond the end rejected");
	}

}

PROP(stream_read, 15000, 500000, 0, "a field wider than a byte ended inside of a byte") { readHistory<ConstBitStream, ConstByteData, BigSizes>(s, c, true); }
PROP(stream_read_little_endian, 10000, 300000, 0, "a field wider than a byte ended inside of a byte") { readHistory<ConstLittleEndianBitStream, ConstByteData, LittleSizes>(s, c, false); }
PROP(stream_read_array, 6000, 200000, 0, "a field wider than a byte ended inside of a byte") { readHistory<ConstSeisedBitStream, ConstByteArray, LittleSizes>(s, c, true); }
PROP(stream_write, 15000, 500000, 0, "a field wider than a byte started inside of a byte") { writeHistory<BitStream, ByteData, false, BigSizes>(s, c, true); }
PROP(stream_write_little_endian, 10000, 300000, 0, "a field wider than a byte started inside of a byte") { writeHistory<LittleEndianBitStream, ByteData, false, LittleSizes>(s, c, false); }
PROP(stream_write_growing, 10000, 300000, 0, "a field wider than a byte started inside of a byte") { writeHistory<SeisedBitStream, ByteArray, true, Sizes<1, 3, 7, 8, 13, 16, 24, 32, 33, 64>>(s, c, true); }

PROP(records, 15000, 500000, 0, "a record with strings and arrays at an unaligned position was written and read back")
{
	// a random record layout is written, then read back
	struct Item { size_t kind; u64 v; std::string str; std::vector<u64> arr; size_t n; };
	std::vector<Item> items;
	SeisedBitStream out((ByteArray()));
	std::vector<std::pair<size_t, SeisedBitStream::DeferredWriter<16>>> deferred;
	bool unaligned = false; size_t bits = 0;
	while (s.more(10))
	{
		Item it; it.kind = s.below(9); it.v = 0; it.n = 0;
		c.tr("item ", it.kind, " at ", bits);
		switch (it.kind)
		{
		case 0: it.v = s.below(8); out.Write<3>((u8)it.v); bits += 3; break;
		case 1: it.v = s.draw(0); out.Write<64>(it.v); bits += 64; break;
		case 2: it.str = s.bytes(20); out.WriteLengthPrefixedString<8>(it.str); bits += 8 + 8 * it.str.size(); break;
		case 3: it.str = s.bytes(20); out.WriteLengthPrefixedArray<13>(ConstByteData((const u8*)it.str.data(), it.str.size())); bits += 13 + 8 * it.str.size(); break;
		case 4: it.str = s.text("abcdefg \xff", 20); out.WriteNullTerminatedString(it.str); bits += 8 + 8 * it.str.size(); break;
		case 5: for (size_t i = s.below(6); i; --i) it.arr.push_back(s.below(1 << 11)); { std::vector<u16> a(it.arr.begin(), it.arr.end()); if (s.coin()) out.WriteArray<11>(a); else if (s.coin()) out.WriteArray<11>(a.begin(), a.size()); else out.WriteArray<11>(a.begin(), a.end()); bits += 11 * a.size(); } break;
		case 6: it.n = deferred.size(); deferred.push_back(std::make_pair(items.size(), SeisedBitStream::DeferredWriter<16>(out))); bits += 16; break;
		case 7: it.n = s.below(12); out.Skip(it.n); bits += it.n; break;
		default: it.v = s.coin(); out.Write<1>((bool)it.v); bits += 1; break;
		}
		unaligned |= bits % 8 != 0 && it.str.size() > 1;
		items.push_back(it);
		REQUIRE_EQ(out.GetBitPosition(), bits);
	}
	for (auto& d : deferred) { items[d.first].v = s.below(1 << 16); d.second.Write((u16)items[d.first].v); }
	out.Seek(bits); if (bits % 8) out.Write<7>(0);
	const ByteArray data = out.GetData();
	ConstBitStream in((ConstByteData(data)));
	size_t pos = 0;
	for (size_t i = 0; i < items.size(); ++i)
	{
		const Item& it = items[i];
		const std::string where = "item " + std::to_string(i) + " of kind " + std::to_string(it.kind) + " at " + std::to_string(pos);
		ConstBitStream::Watcher w(in);
		const size_t before = pos;
		switch (it.kind)
		{
		case 0: REQUIRE_EQX((u64)(u8)in.Read<3>(), it.v, where); pos += 3; break;
		case 1: REQUIRE_EQX((u64)in.Read<64>(), it.v, where); pos += 64; break;
		case 2: REQUIRE_EQX(in.ReadLengthPrefixedString<8>(), it.str, where); pos += 8 + 8 * it.str.size(); break;
		case 3: { const ByteArray a = in.ReadLengthPrefixedArray<13>(); REQUIRE_EQX(std::string(a.begin(), a.end()), it.str, where); pos += 13 + 8 * it.str.size(); } break;
		case 4: if (s.coin()) REQUIRE_EQX(in.ReadNullTerminatedString(), it.str, where); else REQUIRE_EQX(in.ReadStringTerminatedBy(0), it.str, where); pos += 8 + 8 * it.str.size(); break;
		case 5:
			{
				std::vector<u16> a;
				if (s.coin()) in.ReadArray<11>(std::back_inserter(a), it.arr.size()); else { a.resize(it.arr.size()); in.ReadArray<11>(a.begin(), a.end()); }
				REQUIRE_EQX(std::vector<u64>(a.begin(), a.end()), it.arr, where); pos += 11 * a.size();
			}
			break;
		case 6: REQUIRE_EQX((u64)(u16)in.Read<16>(), it.v, where); pos += 16; break;
		case 7: in.Skip(it.n); pos += it.n; break;
		default: REQUIRE_EQX((bool)in.Read<1>(), (bool)it.v, where); pos += 1; break;
		}
		REQUIRE_EQ(in.GetBitPosition(), pos); REQUIRE_EQ(w.GetOffsetDelta(), pos - before);
		if (before % 8 == 0 && pos <= 8 * data.size()) { const ConstByteData d = w.GetDataDelta(); REQUIRE_EQ(Bytes(d.begin(), d.end()), Bytes(data.begin() + before / 8, data.begin() + before / 8 + (pos - before) / 8)); }
	}
	// cut short: the string and array readers must reject what is missing
	if (!items.empty() && data.size())
	{
		const size_t keep = s.below(data.size());
		ConstBitStream part(ConstByteData(data), 0, keep); pos = 0; bool ok = true;
		try
		{
			for (const Item& it : items)
				switch (it.kind)
				{
				case 2: pos += 8 + 8 * it.str.size(); part.ReadLengthPrefixedString<8>(); break;
				case 3: pos += 13 + 8 * it.str.size(); part.ReadLengthPrefixedArray<13>(); break;
				case 4: pos += 8 + 8 * it.str.size(); part.ReadNullTerminatedString(); break;
				case 7: pos += it.n; part.Skip(it.n); break;
				default: { const size_t n = it.kind == 0 ? 3 : it.kind == 1 ? 64 : it.kind == 5 ? 11 * it.arr.size() : it.kind == 6 ? 16 : 1; pos += n; part.Skip(n); } break;
				}
		}
		catch (const std::exception&) { ok = false; }
		bool expect = true; size_t p = 0; for (const Item& it : items) { const size_t n = it.kind == 0 ? 3 : it.kind == 1 ? 64 : it.kind == 2 || it.kind == 4 ? 8 + 8 * it.str.size() : it.kind == 3 ? 13 + 8 * it.str.size() : it.kind == 5 ? 11 * it.arr.size() : it.kind == 6 ? 16 : it.kind == 7 ? it.n : 1; p += n; if ((it.kind == 2 || it.kind == 3 || it.kind == 4) && p > keep * 8) { expect = false; break; } }
		REQUIRE_EQX(ok, expect, "reading a record cut to " + std::to_string(keep) + " bytes");
	}
	c.nontrivial_if(unaligned);
}

PROP(integer_builder, 20000, 600000, 0, "three or more fields, one with bits above its size")
{
	IntegerBuilder<u64> b; IntegerBuilder<u32> b32; u64 m = 0; size_t used = 0, n = 0; bool dirty = false;
	while (s.more(8))
	{
		const size_t kind = s.below(9), width = kind == 0 ? 1 : kind <= 2 ? 8 : kind <= 4 ? 16 : kind <= 6 ? 32 : 64;
		const size_t size = kind == 0 ? 1 : s.below(width + 1);
		if (used + size > 64 || size == 64) continue;
		const u64 v = s.integer<u64>();
		c.tr("append kind ", kind, " value ", (s64)v, " size ", size);
		switch (kind)
		{
		case 0: b.Append((bool)(v & 1)); b32.Append((bool)(v & 1)); break;
		case 1: b.Append((u8)v, size); if (size < 32) b32.Append((u8)v, size); break;
		case 2: b.Append((s8)v, size); if (size < 32) b32.Append((s8)v, size); break;
		case 3: b.Append((u16)v, size); if (size < 32) b32.Append((u16)v, size); break;
		case 4: b.Append((s16)v, size); if (size < 32) b32.Append((s16)v, size); break;
		case 5: b.Append((u32)v, size); if (size < 32) b32.Append((u32)v, size); break;
		case 6: b.Append((s32)v, size); if (size < 32) b32.Append((s32)v, size); break;
		case 7: b.Append((u64)v, size); if (size < 32) b32.Append((u64)v, size); break;
		default: b.Append((s64)v, size); if (size < 32) b32.Append((s64)v, size); break;
		}
		if (size >= 32) b32 = IntegerBuilder<u32>(), b32.Append((u32)(v >> 0), 0);
		m = (size < 64 ? m << size : 0) | (v & maskOf(size)); used += size; ++n; dirty |= (v & maskOf(width)) != (v & maskOf(size));
		REQUIRE_EQ(b.GetResult(), m);
	}
	c.nontrivial_if(n >= 3 && dirty);
}

namespace
{
	template < typename T, size_t I >
	struct BitOps
	{
		static void run(Src& s)
		{
			const T v = s.integer<T>(); typedef typename std::make_unsigned<T>::type U;
			const U b = (U)((U)1 << I);
			REQUIRE_EQ((TestBit<I, T>(v)), ((U)v & b) != 0); REQUIRE_EQ((SetBit<I, T>(v)), (T)(U)((U)v | b)); REQUIRE_EQ((ResetBit<I, T>(v)), (T)(U)((U)v & (U)~b)); REQUIRE_EQ((FlipBit<I, T>(v)), (T)(U)((U)v ^ b));
		}
	};
	template < typename T, size_t... I > void bitOps(Src& s, std::index_sequence<I...>) { static void (* const t[])(Src&) = { &BitOps<T, I>::run... }; t[s.below(sizeof...(I))](s); }
}
PROP(bit_operations, 20000, 500000, 0, "every case")
{
	switch (s.below(8))
	{
	case 0: bitOps<u8>(s, std::make_index_sequence<8>()); break;
	case 1: bitOps<s8>(s, std::make_index_sequence<8>()); break;
	case 2: bitOps<u16>(s, std::make_index_sequence<16>()); break;
	case 3: bitOps<u32>(s, std::make_index_sequence<32>()); break;
	case 4: bitOps<s32>(s, std::make_index_sequence<32>()); break;
	case 5: bitOps<u64>(s, std::make_index_sequence<64>()); break;
	case 6: bitOps<s64>(s, std::make_index_sequence<64>()); break;
	default: { const u8 v = (u8)s.draw(256); u8 e = 0; for (int i = 0; i < 8; ++i) if (v >> i & 1) e |= (u8)(0x80 >> i); REQUIRE_EQ(ReverseBits(v), e); } break;
	}
	c.nontrivial();
}
