#pragma once
#include "pbt.h"
#include <stingraykit/BitsGetter.h>
#include <stingraykit/io/BitStream.h>
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/IntegerBuilder.h>
#include <utility>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<u8> Bytes;
	u64 maskOf(size_t bits) { return bits >= 64 ? ~0ull : (1ull << bits) - 1; }
	bool bit(const Bytes& b, size_t i) { return (b[i >> 3] >> (7 - (i & 7))) & 1; }
	void setBit(Bytes& b, size_t i, bool v) { const u8 m = (u8)(1u << (7 - (i & 7))); if (v) b[i >> 3] |= m; else b[i >> 3] &= (u8)~m; }
	u64 swapBytes(u64 v, size_t bits) { u64 r = 0; for (size_t i = 0; i < bits / 8; ++i) r |= ((v >> (8 * i)) & 0xff) << (bits - 8 * (i + 1)); return r; }
	// model: the big-endian value of the bits; little-endian fields of whole bytes are byte-swapped
	u64 modelRead(const Bytes& b, size_t ofs, size_t bits, bool be) { u64 r = 0; for (size_t i = 0; i < bits; ++i) r = (r << 1) | bit(b, ofs + i); return be || bits < 8 ? r : swapBytes(r, bits); }
	void modelWrite(Bytes& b, size_t ofs, size_t bits, u64 v, bool be) { if (!be && bits >= 8) v = swapBytes(v & maskOf(bits), bits); for (size_t i = 0; i < bits; ++i) setBit(b, ofs + i, (v >> (bits - 1 - i)) & 1); }
	bool fits(size_t bits, bool be) { return be || bits < 8 || bits % 8 == 0; }

	Bytes randomBytes(Src& s, size_t max) { const size_t n = s.size(max); Bytes r; for (size_t i = 0; i < n; ++i) r.push_back((u8)s.draw(256)); return r; }
	u64 fieldValue(Src& s, size_t bits) { return s.integer<u64>() & maskOf(bits); }

	template < size_t Bits > struct Min { typedef typename std::conditional<(Bits <= 8), u8, typename std::conditional<(Bits <= 16), u16, typename std::conditional<(Bits <= 32), u32, u64>::type>::type>::type T; };

}
