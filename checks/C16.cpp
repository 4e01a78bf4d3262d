// ENGINE: seq
// FLAGS: -fno-sanitize=shift
// Decimal, fixed_point and the fraction helpers against exact integer arithmetic.
#include "pbt.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/Decimal.h>
#include <stingraykit/fixed_point.h>
#include <stingraykit/math.h>
#include <algorithm>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;
typedef __int128 i128;
typedef unsigned __int128 u128;

namespace
{
	const s64 S64Max = std::numeric_limits<s64>::max(), S64Min = std::numeric_limits<s64>::min();
	bool fits(i128 v) { return v >= S64Min && v <= S64Max; }
	i128 p10(unsigned n) { i128 r = 1; while (n--) r *= 10; return r; }

	s64 mantissa(Src& s, unsigned maxdigits = 18)
	{
		const unsigned digits = (unsigned)s.range(0, maxdigits);
		u64 v = 0;
		switch (s.below(4))
		{
		case 0: for (unsigned i = 0; i < digits; ++i) v = v * 10 + s.below(10); break;
		case 1: for (unsigned i = 0; i < digits; ++i) v = v * 10 + 9; break;
		case 2: { const unsigned z = (unsigned)s.range(0, digits); for (unsigned i = 0; i < digits - z; ++i) v = v * 10 + s.below(10); for (unsigned i = 0; i < z; ++i) v *= 10; break; }
		default: v = (u64)1 << s.below(60); v += s.below(3); if (maxdigits < 18) v %= (u64)p10(maxdigits); break;
		}
		return s.coin() ? -(s64)v : (s64)v;
	}
	std::string digits(u128 v) { std::string r; do { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return r; }
	std::string text(const Decimal& d) { return pbt::cat(d.GetMantissa(), "e-", d.GetExponent()); }

	// exact comparison on aligned digit strings
	int refcmp(const Decimal& a, const Decimal& b)
	{
		const int sa = a.GetMantissa() < 0 ? -1 : a.GetMantissa() > 0, sb = b.GetMantissa() < 0 ? -1 : b.GetMantissa() > 0;
		if (sa != sb) return sa < sb ? -1 : 1;
		std::string x = digits(a.GetMantissa() < 0 ? -(i128)a.GetMantissa() : (i128)a.GetMantissa()), y = digits(b.GetMantissa() < 0 ? -(i128)b.GetMantissa() : (i128)b.GetMantissa());
		const unsigned e = std::max(a.GetExponent(), b.GetExponent());
		x += std::string(e - a.GetExponent(), '0'); y += std::string(e - b.GetExponent(), '0');
		const size_t w = std::max(x.size(), y.size());
		x.insert(0, w - x.size(), '0'); y.insert(0, w - y.size(), '0');
		const int r = x.compare(y);
		return sa * (r < 0 ? -1 : r > 0);
	}
	std::string refstr(const Decimal& d)
	{
		const bool neg = d.GetMantissa() < 0;
		std::string m = digits(neg ? -(i128)d.GetMantissa() : (i128)d.GetMantissa());
		if (m.size() <= d.GetExponent()) m.insert(0, d.GetExponent() + 1 - m.size(), '0');
		std::string f = m.substr(m.size() - d.GetExponent()); m.resize(m.size() - d.GetExponent());
		while (!f.empty() && f.back() == '0') f.pop_back();
		return (neg ? "-" : "") + m + (f.empty() ? "" : "." + f);
	}
}

PROP(decimal_compare, 20000, 600000, 0, "the two decimals have different exponents and the same sign, or are equal")
{
	const Decimal a(mantissa(s), (u16)s.range(0, s.chance(1, 8) ? 300 : 22));
	Decimal b(mantissa(s), (u16)s.range(0, s.chance(1, 8) ? 300 : 22));
	if (s.coin()) // the same number (or a neighbour) on another scale
	{
		const unsigned up = (unsigned)s.range(0, 20);
		i128 m = a.GetMantissa();
		unsigned k = 0;
		while (k < up && fits(m * 10)) { m *= 10; ++k; }
		const i128 n = m + (s.coin() ? 0 : (i128)s.range(0, 2) - 1);
		b = Decimal(fits(n) ? (s64)n : (s64)m, (u16)(a.GetExponent() + k));
	}
	TR("a=" << text(a) << " b=" << text(b));
	const int r = refcmp(a, b);
	c.nontrivial_if(r == 0 || (a.GetExponent() != b.GetExponent() && (a.GetMantissa() < 0) == (b.GetMantissa() < 0)));
	REQUIRE_EQX(a == b, r == 0, "operator ==");
	REQUIRE_EQX(a != b, r != 0, "operator !=");
	REQUIRE_EQX(a < b, r < 0, "operator <");
	REQUIRE_EQX(a > b, r > 0, "operator >");
	REQUIRE_EQX(a <= b, r <= 0, "operator <=");
	REQUIRE_EQX(a >= b, r >= 0, "operator >=");
	REQUIRE_EQX(b == a, r == 0, "operator == swapped");
	REQUIRE_EQX(b < a, r > 0, "operator < swapped");
}

PROP(decimal_arith, 20000, 600000, 0, "the operands have different exponents, both nonzero, and the result is representable")
{
	const unsigned md = (unsigned)s.range(1, 18);
	const Decimal a(mantissa(s, md), (u16)s.range(0, 18 - s.range(0, md))), b(mantissa(s, (unsigned)s.range(1, 18)), (u16)s.range(0, 18));
	TR("a=" << text(a) << " b=" << text(b));
	const unsigned e = std::max(a.GetExponent(), b.GetExponent());
	const i128 am = a.GetMantissa(), bm = b.GetMantissa();
	const i128 x = am * p10(e - a.GetExponent()), y = bm * p10(e - b.GetExponent());
	const bool differ = a.GetExponent() != b.GetExponent() && am && bm;
	if (fits(x) && fits(y) && fits(x + y) && fits(x - y))
	{
		if (differ) c.nontrivial_if(true);
		const Decimal sum = a + b, diff = a - b;
		REQUIRE(refcmp(sum, Decimal((s64)(x + y), (u16)e)) == 0, pbt::cat("a + b is ", text(sum), ", expected ", digits(x + y < 0 ? x + y : x + y)));
		REQUIRE(refcmp(diff, Decimal((s64)(x - y), (u16)e)) == 0, pbt::cat("a - b is ", text(diff)));
		Decimal t(a); t += b; t -= b;
		REQUIRE(refcmp(t, a) == 0, pbt::cat("a + b - b is ", text(t)));
		Decimal u(a); u -= u;
		REQUIRE(u == Decimal(), "a -= a is not zero");
	}
	// the product is representable if it is after removing trailing zeros
	const i128 m = am * bm;
	if (fits(m))
	{
		if (differ) c.nontrivial_if(true);
		const Decimal prod = a * b;
		REQUIRE(refcmp(prod, Decimal((s64)m, (u16)(a.GetExponent() + b.GetExponent()))) == 0, pbt::cat("a * b is ", text(prod)));
		Decimal t(a); t *= b;
		REQUIRE(t == prod, "a *= b differs from a * b");
	}
	const Decimal n = -a;
	REQUIRE(refcmp(n, Decimal(-a.GetMantissa(), a.GetExponent())) == 0, pbt::cat("-a is ", text(n)));
}

PROP(decimal_text, 20000, 600000, 0, "the decimal has a fraction or a negative sign")
{
	const Decimal d(s.chance(1, 40) ? (s.coin() ? S64Min : S64Max) : mantissa(s), (u16)s.range(0, 25));
	TR("d=" << text(d));
	const std::string t = d.ToString();
	c.nontrivial_if(d.GetMantissa() < 0 || t.find('.') != std::string::npos);
	REQUIRE_EQX(t, refstr(d), "ToString");
	// shifting more than 18 digits is not representable when both an integral part and the fraction are present
	if (d.GetMantissa() != S64Min)
		REQUIRE(refcmp(Decimal::FromString(t), d) == 0, pbt::cat("parsing ", t, " gives ", text(Decimal::FromString(t))));
}

PROP(decimal_parse, 20000, 600000, 0, "the text has a sign, leading or trailing zeros, or is malformed")
{
	const std::string sign = std::string(s.pick({ "", "-", "+", "" }));
	std::string ip, fp;
	const unsigned total = (unsigned)s.range(1, 18), ni = (unsigned)s.range(0, total);
	const unsigned kind = (unsigned)s.below(3);
	for (unsigned i = 0; i < ni; ++i) ip += (char)('0' + (kind == 0 ? 9 : kind == 1 && i < 3 ? 0 : s.below(10)));
	for (unsigned i = ni; i < total; ++i) fp += (char)('0' + (kind == 0 ? 9 : kind == 1 && i + 3 > total ? 0 : s.below(10)));
	const bool dot = !fp.empty() || s.coin();
	if (ip.empty() && fp.empty()) ip = "0";
	std::string t = sign + ip + (dot ? "." : "") + fp;
	const bool malform = s.chance(1, 3);
	if (malform)
	{
		switch (s.below(7))
		{
		case 0: t.insert(s.range(0, t.size()), 1, (char)s.pick({ 'x', ' ', ',', '/', ':', '\0', 'e' })); break;
		case 1: if (!dot) t += "."; t.insert(s.range(0, t.size()), 1, '.'); break;
		case 2: t.insert(s.range(1, t.size()), 1, s.pick({ '-', '+' })); if (sign.empty() && ip.empty() && t[1] != '.') t.insert(0, "1"); break;
		case 3: t = sign; break;
		case 4: t = sign + "."; break;
		case 5: t += s.pick({ '-', '+', ' ' }); break;
		default: t.insert(0, "+-"); break;
		}
		TR("malformed '" << t << "'");
		c.nontrivial_if(true);
		bool thrown = false;
		try { Decimal d(t); (void)d; } catch (const std::exception&) { thrown = true; }
		REQUIRE(thrown, pbt::cat("'", t, "' was accepted"));
		return;
	}
	TR("text '" << t << "'");
	c.nontrivial_if(!sign.empty() || ip[0] == '0' || (!fp.empty() && fp.back() == '0'));
	i128 m = 0; for (char ch : ip + fp) m = m * 10 + (ch - '0');
	if (sign == "-") m = -m;
	const Decimal d = s.coin() ? Decimal::FromString(t) : Decimal(string_view(t));
	REQUIRE(refcmp(d, Decimal((s64)m, (u16)fp.size())) == 0, pbt::cat("'", t, "' parsed as ", text(d)));
	REQUIRE_EQX(d.ToString(), refstr(Decimal((s64)m, (u16)fp.size())), "ToString of the parsed value");
}

namespace
{
	i128 floordiv(i128 a, i128 b) { i128 q = a / b; if (a % b && (a < 0) != (b < 0)) --q; return q; }

	template < int N, typename V >
	struct Fp
	{
		typedef fixed_point<N, V> F;
		static bool ok(i128 v) { return v >= std::numeric_limits<V>::min() && v <= std::numeric_limits<V>::max(); }
		static V gen(Src& s)
		{
			switch (s.below(5))
			{
			case 0: return (V)s.integer<V>();
			case 1: { const i128 v = ((i128)s.range(0, 200) - 100) << N; return ok(v) ? (V)v : (V)1; }
			case 2: { const i128 v = (i128)s.range(0, 1u << std::min(N + 4, (int)sizeof(V) * 8 - 2)) * (s.coin() ? 1 : -1); return (V)v; }
			case 3: return (V)s.pick({ 0, 1, -1, 2, -2 });
			default: { const i128 v = ((i128)1 << s.below(sizeof(V) * 8 - 1)) * (s.coin() ? 1 : -1); return (V)v; }
			}
		}
		static void run(Src& s, Ctx& c)
		{
			const V ra = gen(s), rb = gen(s);
			TR("fixed_point<" << N << "> a=" << (s64)ra << " b=" << (s64)rb);
			const F a = F::FromRawValue(ra), b = F::FromRawValue(rb);
			REQUIRE_EQX((s64)a.GetValue(), (s64)ra, "raw value");
			REQUIRE_EQX(a == b, ra == rb, "=="); REQUIRE_EQX(a != b, ra != rb, "!="); REQUIRE_EQX(a < b, ra < rb, "<");
			REQUIRE_EQX(a > b, ra > rb, ">"); REQUIRE_EQX(a <= b, ra <= rb, "<="); REQUIRE_EQX(a >= b, ra >= rb, ">=");
			const i128 A = ra, B = rb, One = (i128)1 << N;
			c.nontrivial_if(A % One != 0 && B != 0);
			if (ok(A + B)) REQUIRE_EQX((s64)(a + b).GetValue(), (s64)(A + B), "a + b");
			if (ok(A - B)) REQUIRE_EQX((s64)(a - b).GetValue(), (s64)(A - B), "a - b");
			if (ok(-A)) REQUIRE_EQX((s64)(-a).GetValue(), (s64)-A, "-a");
			const i128 prod = floordiv(A * B, One);
			if (ok(prod)) REQUIRE_EQX((s64)(a * b).GetValue(), (s64)prod, "a * b");
			if (B != 0 && ok(A * One / B)) REQUIRE_EQX((s64)(a / b).GetValue(), (s64)(A * One / B), "a / b");
			const int k = (int)s.range(0, 40) - 20;
			if (ok(A * k)) REQUIRE_EQX((s64)(a * k).GetValue(), (s64)(A * k), "a * integer");
			if (k && ok(A / k)) REQUIRE_EQX((s64)(a / k).GetValue(), (s64)(A / k), "a / integer");
			REQUIRE_EQX((s64)a.to_int(), (s64)floordiv(A, One), "to_int");
			const int sh = (int)s.range(0, 6);
			if (ok(A * (1 << sh))) REQUIRE_EQX((s64)(a << sh).GetValue(), (s64)(A * (1 << sh)), "a << n");
			REQUIRE_EQX((s64)(a >> sh).GetValue(), (s64)floordiv(A, 1 << sh), "a >> n");
			const int iv = (int)s.range(0, 60) - 30;
			if (ok(iv * One)) { const F f((V)iv); REQUIRE_EQX((s64)f.GetValue(), (s64)(iv * One), "from an integer"); REQUIRE_EQX((s64)f.to_int(), (s64)iv, "to_int of an integer"); }
			{
				const fixed_point<N + 3, s32> w(a);
				if (A * 8 >= std::numeric_limits<s32>::min() && A * 8 <= std::numeric_limits<s32>::max()) { REQUIRE_EQX((s64)w.GetValue(), (s64)(A * 8), "to a finer fraction"); F back; back = w; REQUIRE_EQX((s64)back.GetValue(), (s64)A, "back from a finer fraction"); }
				const fixed_point<N - 1, V> n(a);
				REQUIRE_EQX((s64)n.GetValue(), (s64)floordiv(A, 2), "to a coarser fraction");
			}
			// sqrt of an integer, truncated to the fraction
			const V sq = (V)(s.coin() ? s.range(0, 300) : (u64)s.range(0, (u64)std::numeric_limits<V>::max()));
			i128 root = 0; { i128 lo = 0, hi = (i128)1 << 33; const i128 target = (i128)sq << (2 * N); while (lo < hi) { const i128 mid = (lo + hi + 1) / 2; if (mid * mid <= target) lo = mid; else hi = mid - 1; } root = lo; }
			if (ok(root) && ((i128)sq << (2 * N)) < ((i128)1 << (sizeof(V) * 16 - 1)))
				REQUIRE_EQX((s64)F::sqrt(sq).GetValue(), (s64)root, pbt::cat("sqrt(", (s64)sq, ")"));
			// text
			const i128 abs = A < 0 ? -A : A;
			const std::string ms = digits((u128)(abs % One * 1000 / One));
			const std::string want = std::string(A < 0 ? "-" : "") + digits((u128)(abs / One)) + "." + std::string(3 - ms.size(), '0') + ms;
			const std::string got = a.ToString();
			REQUIRE_EQX(got, want, "ToString");
			if (A != std::numeric_limits<V>::min())
			{
				const i128 back = F::FromString(got).GetValue(), delta = A < 0 ? back - A : A - back;
				REQUIRE(delta >= 0 && delta <= One / 1000 + 2, pbt::cat(got, " parsed back as raw ", (s64)back));
			}
			// digits of a fraction
			std::string f; for (unsigned i = (unsigned)s.range(1, 14); i--; ) f += (char)('0' + s.below(10));
			const int ip = (int)s.range(0, 5);
			if (!ok((ip + 1) * One)) return;
			const bool neg = s.coin();
			const std::string t = std::string(neg ? "-" : "") + digits((u128)ip) + "." + f;
			i128 exact = 0; for (char ch : f) exact = exact * 10 + (ch - '0');
			exact = exact * One / p10((unsigned)f.size()) + ip * One;
			const i128 parsed = F::FromString(t).GetValue() * (neg ? -1 : 1);
			REQUIRE(parsed <= exact && parsed >= exact - 1, pbt::cat(t, " parsed as raw ", (s64)parsed, " instead of ", (s64)exact));
		}
	};
}

PROP(fixed_point_32_16, 6000, 150000, 0, "the first operand has a fraction and the second is not zero") { Fp<16, s32>::run(s, c); }
PROP(fixed_point_32_10, 6000, 150000, 0, "the first operand has a fraction and the second is not zero") { Fp<10, s32>::run(s, c); }
PROP(fixed_point_16_5, 6000, 150000, 0, "the first operand has a fraction and the second is not zero") { Fp<5, s16>::run(s, c); }

PROP(fraction_remainder, 20000, 600000, 0, "the division leaves a remainder")
{
	const auto gen = [&] { u64 v = s.coin() ? s.range(0, 2000) : ((u64)s.draw(0)) >> s.below(64); if (s.chance(1, 10)) v = std::numeric_limits<u64>::max() - s.below(3); return v; };
	const u64 a = gen(), b = std::max<u64>(gen(), 1);
	const unsigned target = (unsigned)s.range(0, 22), radix = s.coin() ? 10 : (unsigned)s.range(2, 16);
	TR(a << " / " << b << " to " << target << " digits base " << radix);
	const FractionInfo f = CalculateFractionRemainder(a, b, target, radix);
	const u128 rem = a % b;
	c.nontrivial_if(rem != 0);
	if (!rem) { REQUIRE(f.Fraction == 0 && !f.IsOverflow, "a fraction without a remainder"); return; }
	unsigned maxp = 0; for (u128 r = rem; r * radix <= std::numeric_limits<u64>::max(); r *= radix) ++maxp;
	const unsigned p = std::min(target, maxp);
	REQUIRE(f.Precision == p || (f.Fraction == 0 && f.Precision <= p), pbt::cat("precision ", f.Precision, " instead of ", p));
	u128 base = 1; for (unsigned i = 0; i < p; ++i) base *= radix;
	REQUIRE(f.Fraction < base, "the fraction has more digits than its precision");
	// |F / base - rem / b| in units of the last digit: |F * b - rem * base| / b
	const u128 F = (u128)f.Fraction + (f.IsOverflow ? base : 0);
	const long double err = (long double)F - (long double)rem * (long double)base / (long double)b;
	TR("F=" << digits(F) << " precision " << f.Precision << " error " << (double)err);
	const long double slack = 1e-4L + (long double)base * 1e-17L;
	if (p == maxp) REQUIRE(err <= slack && err > -1 - slack, "the fraction is not the truncated quotient");
	else if (radix == 10) REQUIRE(err <= 0.556L + slack && err >= -0.62L - slack, "the fraction is not rounded to the nearest digit");
	else REQUIRE(err <= 1 + slack && err >= -1 - slack, "the fraction is not rounded to a neighbouring digit");
	// the exact test for the truncated form
	if (p == maxp) REQUIRE(!f.IsOverflow && f.Fraction == (u64)(rem * base / b), "the fraction is not the truncated quotient (exact)");
}

PROP(fraction_parse, 20000, 600000, 0, "the digits are cut or extended")
{
	std::string t(s.chance(1, 4) ? s.range(0, 12) : 0, '0');
	const unsigned n = (unsigned)s.range(1, 19); const bool nines = s.chance(1, 3);
	for (unsigned i = 0; i < n; ++i) t += (char)('0' + (nines && !s.chance(1, 8) ? 9 : s.below(10)));
	if (s.chance(1, 10)) t = std::string(s.range(0, 5), '0') + "18446744073709551615";
	const unsigned target = (unsigned)s.range(0, 26);
	TR("'" << t << "' to " << target);
	u128 v = 0; for (char ch : t) v = v * 10 + (unsigned)(ch - '0');
	c.nontrivial_if(target != t.size() && v);
	if (!v) { const FractionInfo f = ParseDecimalFraction(t, target); REQUIRE(f.Fraction == 0 && !f.IsOverflow, "zero"); return; }
	if (target >= t.size())
	{
		u128 want = v; bool over = false;
		for (size_t i = t.size(); i < target; ++i) { want *= 10; over |= want > std::numeric_limits<u64>::max(); if (over) break; }
		if (over) { REQUIRE(THROWS(ParseDecimalFraction(t, target)), "an unrepresentable fraction was accepted"); return; }
		const FractionInfo f = ParseDecimalFraction(t, target);
		REQUIRE(f.Fraction == (u64)want && f.Precision == target && !f.IsOverflow, pbt::cat("got ", f.Fraction, " precision ", f.Precision, " overflow ", f.IsOverflow));
		return;
	}
	// half-up digit by digit
	const FractionInfo f = ParseDecimalFraction(t, target);
	u128 w = v;
	for (size_t i = t.size(); i > target; --i) w = w / 10 + (w % 10 >= 5);
	u128 base = 1; bool huge = false; for (unsigned i = 0; i < target; ++i) { base *= 10; huge |= base > ((u128)1 << 100); }
	const bool over = !huge && w >= base;
	if (over) w -= base;
	REQUIRE_EQX(f.Fraction, (u64)w, "fraction");
	REQUIRE_EQX(f.IsOverflow, over, "overflow");
	REQUIRE(f.Precision == target || (w == 0 && f.Precision <= target), "precision");
}
