// FLAGS: -fno-sanitize=pointer-overflow
#include "C14_common.h"

namespace
{
	// direct getters and setters with offsets of several bytes
	template < typename B, size_t Offset, size_t Size, bool BE >
	struct Field
	{
		static void run(Src& s, Ctx& c)
		{
			typedef typename Min<Size>::T MinT;
			Bytes b = randomBytes(s, 14); const size_t start = s.below(3);
			const bool fitsIn = start <= b.size() && (Offset + Size + 7) / 8 <= b.size() - start;
			bool ok = true; u64 v = 0, w = 0;
			try { BasicBitsGetter<ConstByteData, BE> g(ConstByteData(b), start); v = g.template Get<Offset, Size>(); w = (MinT)g.template Get<Offset, Size>(); } catch (const std::exception&) { ok = false; }
			REQUIRE_EQX(ok, fitsIn, "Get<" + std::to_string(Offset) + "," + std::to_string(Size) + "> of " + std::to_string(b.size()) + " bytes from " + std::to_string(start));
			const Bytes win = start <= b.size() ? Bytes(b.begin() + start, b.end()) : Bytes();
			if (ok)
			{
				const u64 e = modelRead(win, Offset, Size, BE); REQUIRE_EQ(v, e); REQUIRE_EQ(w, e);
				BasicBitsGetter<ConstByteData, BE> g(ConstByteData(b), start);
				const auto field = g.template Get<Offset, Size>(); REQUIRE(field == e, "compare with a field"); REQUIRE(!(e != field), ""); REQUIRE_EQ((u64)(field & (u64)0xff), e & 0xff); REQUIRE_EQ((u64)(field + (u64)1), e + 1);
				BasicBitsGetter<Detail::UnsafeConstByteData, BE> ug(Detail::UnsafeConstByteData(b.data() + start)); const u64 uv = ug.template Get<Offset, Size>(); REQUIRE_EQ(uv, e);
				c.nontrivial_if(Offset % 8 + Size > 8);
			}
			const u64 x = fieldValue(s, Size);
			Bytes t(b), e(b);
			ok = true;
			try { BasicBitsSetter<ByteData, BE> g(ByteData(t.data(), t.size()), start); if (s.coin()) g.template Set<Offset, Size>(x); else g.template Set<Offset, Size>((MinT)x); } catch (const std::exception&) { ok = false; }
			REQUIRE_EQ(ok, fitsIn);
			if (ok) { Bytes ew(win); modelWrite(ew, Offset, Size, x, BE); std::copy(ew.begin(), ew.end(), e.begin() + start); }
			REQUIRE_EQX(t, e, "buffer after Set<" + std::to_string(Offset) + "," + std::to_string(Size) + ">(" + std::to_string(x) + ")");
			if (ok) { Bytes ut(b); BasicBitsSetter<Detail::UnsafeByteData, BE> us(Detail::UnsafeByteData(ut.data() + start)); us.template Set<Offset, Size>(x); REQUIRE_EQ(ut, e); }
			// growing array
			ByteArray arr(b); BasicBitsSetter<ByteArray, BE> g(arr, start); g.template Set<Offset, Size>(x);
			Bytes ga(b); const size_t need = start + (Offset + Size + 7) / 8; if (ga.size() < need) ga.resize(need);
			Bytes gw(ga.begin() + start, ga.end()); modelWrite(gw, Offset, Size, x, BE); std::copy(gw.begin(), gw.end(), ga.begin() + start);
			REQUIRE_EQX(Bytes(arr.begin(), arr.end()), ga, "array after Set<" + std::to_string(Offset) + "," + std::to_string(Size) + ">");
		}
	};
	template < size_t I > struct OffsetAt { static const size_t Value = I == 0 ? 0 : I == 1 ? 1 : I == 2 ? 7 : I == 3 ? 8 : I == 4 ? 13 : 23; };
	template < size_t I > struct SizeAt { static const size_t Value = I < 4 ? I + 1 : I == 4 ? 7 : I == 5 ? 8 : I == 6 ? 9 : I == 7 ? 12 : I == 8 ? 16 : I == 9 ? 24 : I == 10 ? 31 : I == 11 ? 32 : I == 12 ? 33 : I == 13 ? 56 : I == 14 ? 63 : 64; };
	template < size_t I > struct LeSizeAt { static const size_t Value = I < 8 ? 8 * (I + 1) : I == 8 ? 1 : I == 9 ? 2 : I == 10 ? 5 : 7; };
	template < size_t... I > void bigField(Src& s, Ctx& c, std::index_sequence<I...>)
	{ static void (* const t[])(Src&, Ctx&) = { &Field<ConstByteData, OffsetAt<I / 16>::Value, SizeAt<I % 16>::Value, true>::run... }; const size_t k = s.below(sizeof...(I)); c.tr("field ", k / 16, "/", k % 16); t[k](s, c); }
	template < size_t... I > void littleField(Src& s, Ctx& c, std::index_sequence<I...>)
	{ static void (* const t[])(Src&, Ctx&) = { &Field<ConstByteData, OffsetAt<I / 12>::Value, LeSizeAt<I % 12>::Value, false>::run... }; const size_t k = s.below(sizeof...(I)); c.tr("field ", k / 12, "/", k % 12); t[k](s, c); }
}

PROP(fields, 60000, 2000000, 0, "the field crosses a byte border") { bigField(s, c, std::make_index_sequence<6 * 16>()); }
PROP(fields_little_endian, 40000, 1000000, 0, "the field crosses a byte border") { littleField(s, c, std::make_index_sequence<6 * 12>()); }
