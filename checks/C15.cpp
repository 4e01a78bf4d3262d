// ENGINE: seq
// BigUnsignedInteger against a schoolbook implementation on base-256 digits.
#include "pbt.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/BigNum.h>
#include <algorithm>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;
typedef BigUnsignedInteger Big;

namespace
{
	// digits little-endian, base 256, no leading zeroes
	struct Ref
	{
		std::vector<unsigned> d;
		Ref() { }
		explicit Ref(u64 v) { for (; v; v >>= 8) d.push_back((unsigned)(v & 255)); }
		void trim() { while (!d.empty() && !d.back()) d.pop_back(); }
		bool zero() const { return d.empty(); }
		size_t bits() const { return d.size() * 8; }
		bool bit(size_t i) const { return i / 8 < d.size() && (d[i / 8] >> (i % 8) & 1); }
	};
	int cmp(const Ref& a, const Ref& b)
	{
		if (a.d.size() != b.d.size()) return a.d.size() < b.d.size() ? -1 : 1;
		for (size_t i = a.d.size(); i--; ) if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1;
		return 0;
	}
	Ref add(const Ref& a, const Ref& b) { Ref r; unsigned c = 0; for (size_t i = 0; i < a.d.size() || i < b.d.size() || c; ++i) { c += (i < a.d.size() ? a.d[i] : 0) + (i < b.d.size() ? b.d[i] : 0); r.d.push_back(c & 255); c >>= 8; } return r; }
	Ref sub(const Ref& a, const Ref& b) { Ref r; int c = 0; for (size_t i = 0; i < a.d.size(); ++i) { int v = (int)a.d[i] - (i < b.d.size() ? (int)b.d[i] : 0) - c; c = v < 0; r.d.push_back((unsigned)(v & 255)); } r.trim(); return r; }
	Ref mul(const Ref& a, const Ref& b)
	{
		Ref r; r.d.resize(a.d.size() + b.d.size() + 1);
		for (size_t i = 0; i < a.d.size(); ++i) { unsigned c = 0; for (size_t j = 0; j < b.d.size() || c; ++j) { c += r.d[i + j] + a.d[i] * (j < b.d.size() ? b.d[j] : 0); r.d[i + j] = c & 255; c >>= 8; } }
		r.trim(); return r;
	}
	Ref shl(const Ref& a, size_t n) { Ref r; r.d.resize((a.bits() + n) / 8 + 1); for (size_t i = 0; i < a.bits(); ++i) if (a.bit(i)) r.d[(i + n) / 8] |= 1u << ((i + n) % 8); r.trim(); return r; }
	Ref shr(const Ref& a, size_t n) { Ref r; r.d.resize(a.d.size()); for (size_t i = n; i < a.bits(); ++i) if (a.bit(i)) r.d[(i - n) / 8] |= 1u << ((i - n) % 8); r.trim(); return r; }
	void divide(const Ref& a, const Ref& b, Ref& q, Ref& m)
	{
		q = Ref(); m = Ref(); q.d.resize(a.d.size());
		for (size_t i = a.bits(); i--; )
		{
			m = add(m, m); if (a.bit(i)) m = add(m, Ref(1));
			if (cmp(m, b) >= 0) { m = sub(m, b); q.d[i / 8] |= 1u << (i % 8); }
		}
		q.trim();
	}
	template < typename F > Ref bitwise(const Ref& a, const Ref& b, const F& f) { Ref r; for (size_t i = 0; i < a.d.size() || i < b.d.size(); ++i) r.d.push_back(f(i < a.d.size() ? a.d[i] : 0u, i < b.d.size() ? b.d[i] : 0u)); r.trim(); return r; }
	std::string str(const Ref& a, unsigned base)
	{
		std::string r; std::vector<unsigned> d(a.d);
		while (!d.empty())
		{
			unsigned c = 0;
			for (size_t i = d.size(); i--; ) { c = (c << 8) | d[i]; d[i] = c / base; c %= base; }
			while (!d.empty() && !d.back()) d.pop_back();
			r += (char)(c < 10 ? '0' + c : 'A' + c - 10);
		}
		std::reverse(r.begin(), r.end());
		return r.empty() ? "0" : r;
	}
	u64 low64(const Ref& a) { u64 r = 0; for (size_t i = a.d.size() < 8 ? a.d.size() : 8; i--; ) r = r << 8 | a.d[i]; return r; }

	std::vector<u8> bytesOf(const Ref& a) { std::vector<u8> r; for (size_t i = a.d.size(); i--; ) r.push_back((u8)a.d[i]); return r; }

	// random numbers with long runs of ones and zeroes, and sizes at the borders of 64-bit words
	Ref number(Src& s, size_t maxBytes)
	{
		Ref r;
		switch (s.weighted({ 2, 3, 3, 3, 2 }))
		{
		case 0: return Ref(s.below(20));
		case 1: return Ref(s.integer<u64>());
		case 2: { const size_t n = s.size(maxBytes); for (size_t i = 0; i < n; ++i) r.d.push_back((unsigned)s.draw(256)); break; }
		case 3: { const size_t n = s.size(maxBytes); unsigned v = s.coin() ? 255 : 0; for (size_t i = 0; i < n; ++i) { if (s.chance(1, 6)) v = s.pick({ 0u, 255u, 1u, 128u }); r.d.push_back(v); } break; }
		default: r = shl(Ref(1), s.below(maxBytes * 8)); if (s.coin() && !r.zero()) r = sub(r, Ref(s.below(3) == 0 ? 0 : 1)); else r = add(r, Ref(s.below(3)));
		}
		r.trim();
		return r;
	}

	Big make(Src& s, const Ref& r)
	{
		switch (s.below(6))
		{
		case 0: { const std::vector<u8> b = bytesOf(r); return Big(ConstByteData(b)); }
		case 1: { const unsigned base = 2 + (unsigned)s.below(35); std::string t = str(r, base); if (s.coin()) std::transform(t.begin(), t.end(), t.begin(), [](char c) { return (char)tolower(c); }); if (s.chance(1, 4)) t = "00" + t; return Big(t, base); }
		case 2: return Big(str(r, 10));
		case 3: return Big("0x" + str(r, 16));
		case 4: return Big(("0b" + str(r, 2)).c_str());
		default: if (r.d.size() <= 8) { const u64 v = low64(r); if (v < 128 && s.coin()) return Big((signed char)v); if (v <= 0xffff && s.coin()) return Big((u16)v); if (v <= 0x7fffffff && s.coin()) return Big((int)v); if (v <= 0x7fffffffffffffffull && s.coin()) return Big((s64)v); return Big(v); }
			{ std::vector<u8> b = bytesOf(r); b.insert(b.begin(), s.below(3), 0); return Big(ConstByteData(b)); }
		}
	}

	void check(Src& s, const Big& b, const Ref& r, const char* what)
	{
		REQUIRE_EQX(b.ToString(), str(r, 16), what);
		if (s.chance(1, 4)) { const unsigned base = 2 + (unsigned)s.below(35); REQUIRE_EQX(b.ToString(base), str(r, base), std::string(what) + " in base " + std::to_string(base)); }
		if (s.chance(1, 6)) { const ByteArray a = b.ToByteArray(); REQUIRE_EQX(std::vector<u8>(a.begin(), a.end()), bytesOf(r), what); }
	}

	template < typename T >
	void primitive(const Big& b, const Ref& r)
	{
		const u64 v = low64(r);
		const bool fits = r.d.size() <= 8 && v <= (u64)std::numeric_limits<T>::max();
		T got = 0; bool ok = true;
		try { got = b.ToPrimitive<T>(); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, fits, str(r, 10)); if (ok) REQUIRE_EQ((u64)got, v);
	}
}

PROP(arithmetic, 12000, 400000, 0, "an operand is longer than 64 bits and the result of a division, subtraction or multiplication was checked")
{
	const Ref a = number(s, 40), b = s.chance(1, 8) ? a : number(s, 40);
	const Big x = make(s, a), y = make(s, b);
	c.tr("a = ", str(a, 16), " b = ", str(b, 16));
	check(s, x, a, "construction"); check(s, y, b, "construction");
	check(s, x + y, add(a, b), "+");
	check(s, x * y, mul(a, b), "*");
	if (cmp(a, b) >= 0) check(s, x - y, sub(a, b), "-"); else REQUIRE(THROWS(x - y), "a negative difference");
	if (b.zero()) { REQUIRE(THROWS(x / y), "division by zero"); REQUIRE(THROWS(x % y), "division by zero"); Big t(x); REQUIRE(THROWS(t /= y), ""); REQUIRE(THROWS(t %= y), ""); check(s, t, a, "operand of a rejected division"); }
	else { Ref q, m; divide(a, b, q, m); check(s, x / y, q, "/"); check(s, x % y, m, "%"); }
	check(s, x & y, bitwise(a, b, [](unsigned p, unsigned q) { return p & q; }), "&");
	check(s, x | y, bitwise(a, b, [](unsigned p, unsigned q) { return p | q; }), "|");
	check(s, x ^ y, bitwise(a, b, [](unsigned p, unsigned q) { return p ^ q; }), "^");
	const int n = (int)s.below(200) - 20;
	check(s, x << n, n >= 0 ? shl(a, n) : shr(a, -n), "<<"); check(s, x >> n, n >= 0 ? shr(a, n) : shl(a, -n), ">>");
	const int k = cmp(a, b);
	REQUIRE_EQ(x < y, k < 0); REQUIRE_EQ(x > y, k > 0); REQUIRE_EQ(x <= y, k <= 0); REQUIRE_EQ(x >= y, k >= 0); REQUIRE_EQ(x == y, k == 0); REQUIRE_EQ(x != y, k != 0);
	primitive<u8>(x, a); primitive<s8>(x, a); primitive<u16>(x, a); primitive<int>(x, a); primitive<u32>(x, a); primitive<s64>(x, a); primitive<u64>(x, a);
	check(s, x, a, "operand afterwards"); check(s, y, b, "operand afterwards");
	c.nontrivial_if(a.d.size() > 8 || b.d.size() > 8);
	c.label_if(a.d.size() > 8 && b.d.size() > 8, "both operands long"); c.label_if(k == 0, "equal operands"); c.label_if(b.zero(), "zero divisor");
}

PROP(chains, 10000, 300000, 0, "five or more compound operations, one operand longer than 64 bits")
{
	std::vector<Big> v; std::vector<Ref> m;
	for (size_t i = 0; i < 3; ++i) { m.push_back(number(s, 20)); v.push_back(make(s, m.back())); }
	unsigned ops = 0; bool longOp = false;
	while (s.more(16))
	{
		const size_t i = s.below(3), j = s.below(3);	// i == j: the operand is the target itself
		const size_t op = s.below(11);
		c.tr("op ", op, " ", i, " ", j, ": ", str(m[i], 16), " ", str(m[j], 16));
		const Ref b(m[j]); const Ref a(m[i]);
		longOp |= a.d.size() > 8 && b.d.size() > 0;
		switch (op)
		{
		case 0: v[i] += v[j]; m[i] = add(a, b); break;
		case 1: if (cmp(a, b) >= 0) { v[i] -= v[j]; m[i] = sub(a, b); } else REQUIRE(THROWS(v[i] -= v[j]), ""); break;
		case 2: if (a.d.size() + b.d.size() < 80) { v[i] *= v[j]; m[i] = mul(a, b); } break;
		case 3: if (!b.zero()) { v[i] /= v[j]; Ref q, r; divide(a, b, q, r); m[i] = q; } break;
		case 4: if (!b.zero()) { v[i] %= v[j]; Ref q, r; divide(a, b, q, r); m[i] = r; } break;
		case 5: v[i] &= v[j]; m[i] = bitwise(a, b, [](unsigned p, unsigned q) { return p & q; }); break;
		case 6: v[i] |= v[j]; m[i] = bitwise(a, b, [](unsigned p, unsigned q) { return p | q; }); break;
		case 7: v[i] ^= v[j]; m[i] = bitwise(a, b, [](unsigned p, unsigned q) { return p ^ q; }); break;
		case 8: { const int n = (int)s.below(140); if (a.d.size() < 60) { v[i] <<= n; m[i] = shl(a, n); } } break;
		case 9: { const int n = s.coin() ? (int)s.below(140) : 64 * (int)s.below(3); v[i] >>= n; m[i] = shr(a, n); } break;
		default: m[i] = number(s, 20); v[i] = make(s, m[i]); break;
		}
		++ops;
		check(s, v[i], m[i], "result"); check(s, v[j], m[j], "operand");
		const int k = cmp(m[i], m[j]); REQUIRE_EQ(v[i] < v[j], k < 0); REQUIRE_EQ(v[i] == v[j], k == 0);
	}
	c.nontrivial_if(ops >= 5 && longOp);
}

PROP(parsing, 10000, 300000, 0, "the text contains a digit that is out of range of the base")
{
	const unsigned base = 2 + (unsigned)s.below(35);
	const std::string t = s.text("0123456789abcdefghijklmnopqrstuvwxyzABCDXYZ -+._", 12);
	c.tr(pbt::quote(t), " base ", base);
	bool valid = true; Ref e;
	for (char ch : t)
	{
		const int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
		if (v >= (int)base) { valid = false; break; }
		e = add(mul(e, Ref(base)), Ref(v));
	}
	bool ok = true; Big b;
	try { b = Big(t, base); } catch (const std::exception&) { ok = false; }
	REQUIRE_EQX(ok, valid, pbt::quote(t) + " in base " + std::to_string(base));
	if (ok) check(s, b, e, "parsed");
	REQUIRE(THROWS(Big(-1 - (int)s.below(5))), "a negative number"); REQUIRE(THROWS(Big((s64)-1 - (s64)s.below(5))), "a negative number");
	c.nontrivial_if(!valid);
}
