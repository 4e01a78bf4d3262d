// ENGINE: seq
// Value types with an algebra: ranges, sizes, rectangles, versions, accumulators, integer and bit helpers, value mappers.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/Accumulators.h>
#include <stingraykit/AggregateProgressReporter.h>
#include <stingraykit/Average.h>
#include <stingraykit/BitwiseOperations.h>
#include <stingraykit/IntegerSequenceGenerator.h>
#include <stingraykit/Mapper.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/ProgressValue.h>
#include <stingraykit/Random.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/Version.h>
#include <stingraykit/math.h>
#include <algorithm>
#include <cmath>
#include <tuple>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;
typedef __int128 i128;
typedef unsigned __int128 u128;

namespace
{
	template < typename T >
	T gen(Src& s) { return s.coin() ? (T)s.range(0, 12) : s.template integer<T>(); }

	// all six operators against the expected ordering
	template < typename T >
	void ops(const T& a, const T& b, int r, const char* what)
	{
		REQUIRE_EQX(a < b, r < 0, std::string(what) + " <"); REQUIRE_EQX(a > b, r > 0, std::string(what) + " >");
		REQUIRE_EQX(a <= b, r <= 0, std::string(what) + " <="); REQUIRE_EQX(a >= b, r >= 0, std::string(what) + " >=");
		REQUIRE_EQX(a == b, r == 0, std::string(what) + " =="); REQUIRE_EQX(a != b, r != 0, std::string(what) + " !=");
	}
	template < typename Tp > int cmp(const Tp& a, const Tp& b) { return a < b ? -1 : b < a; }

	template < typename T >
	struct Ranges
	{
		typedef SimpleNumericRange<T> R;
		struct M { T a, b; bool empty() const { return a == b; } };
		static M range(Src& s) { T x = gen<T>(s), y = s.chance(1, 8) ? x : gen<T>(s); return M{ std::min(x, y), std::max(x, y) }; }
		static bool is(const R& r, const M& m) { return r.GetStart() == m.a && r.GetEnd() == m.b; }
		static void run(Src& s, Ctx& c)
		{
			const M x = range(s); M y = range(s);
			if (s.chance(1, 4)) { y.a = s.coin() ? x.b : x.a; if (y.b < y.a) y.b = y.a; } // touching and nested
			const R rx(x.a, x.b), ry(y.a, y.b);
			TR("x=" << rx.ToString() << " y=" << ry.ToString());
			REQUIRE(is(rx, x) && is(ry, y), "bounds");
			REQUIRE_EQX(rx.IsEmpty(), x.empty(), "IsEmpty");
			const bool common = !x.empty() && !y.empty() && std::max(x.a, y.a) < std::min(x.b, y.b);
			c.nontrivial_if(!x.empty() && !y.empty()); c.label_if(common, "intersecting");
			REQUIRE_EQX(rx.IsIntersecting(ry), common, "IsIntersecting");
			REQUIRE_EQX(ry.IsIntersecting(rx), common, "IsIntersecting swapped");
			const R in = rx.Intersect(ry), un = rx.Union(ry);
			if (common) REQUIRE(is(in, M{ std::max(x.a, y.a), std::min(x.b, y.b) }), "Intersect is " << in.ToString());
			else REQUIRE(in.IsEmpty() && in == R::CreateEmpty(), "Intersect of disjoint ranges is " << in.ToString());
			REQUIRE(in == ry.Intersect(rx), "Intersect is not symmetric");
			const M u = x.empty() ? y : y.empty() ? x : M{ std::min(x.a, y.a), std::max(x.b, y.b) };
			REQUIRE(is(un, u), "Union is " << un.ToString());
			for (T v : { x.a, x.b, y.a, y.b, gen<T>(s), (T)(x.a / 2 + x.b / 2) })
			{
				REQUIRE_EQX(rx.Contains(v), !x.empty() && x.a <= v && v <= x.b, pbt::cat("Contains ", +v));
				REQUIRE_EQX(rx.ContainsStrict(v), x.a < v && v < x.b, pbt::cat("ContainsStrict ", +v));
				REQUIRE_EQX(rx.Clamp(v), v < x.a ? x.a : v > x.b ? x.b : v, pbt::cat("Clamp ", +v));
			}
			REQUIRE_EQX(rx == ry, x.a == y.a && x.b == y.b, "==");
			REQUIRE_EQX(rx != ry, x.a != y.a || x.b != y.b, "!=");
			if ((i128)x.b - x.a <= std::numeric_limits<T>::max()) REQUIRE_EQX(rx.Distance(), (T)(x.b - x.a), "Distance");
			if (!x.empty()) REQUIRE(THROWS(R(x.b, x.a)), "a reversed range was accepted");
			REQUIRE_EQX(rx.ToString(), "[" + ToString(x.a) + " - " + ToString(x.b) + "]", "ToString");
			R m; m.SetStart(x.a); m.SetEnd(x.b); REQUIRE(m == rx, "setters");
		}
	};
}

PROP(range_int, 20000, 400000, 0, "both ranges are not empty") { Ranges<int>::run(s, c); }
PROP(range_s64, 20000, 400000, 0, "both ranges are not empty") { Ranges<s64>::run(s, c); }
PROP(range_u8, 20000, 400000, 0, "both ranges are not empty") { Ranges<u8>::run(s, c); }
PROP(range_u64, 20000, 400000, 0, "both ranges are not empty") { Ranges<u64>::run(s, c); }

namespace
{
	template < typename T >
	void rects(Src& s, Ctx& c)
	{
		typedef BasicRect<T> R; typedef BasicPosition<T> P;
		const T lim = (T)s.pick({ 4, 20, 1000000 });
		const auto co = [&] { return (T)s.range<s64>(-(s64)lim, lim); };
		const auto rect = [&](bool valid) { T x1 = co(), y1 = co(), x2 = co(), y2 = co(); if (valid) { if (x2 < x1) std::swap(x1, x2); if (y2 < y1) std::swap(y1, y2); ++x2; ++y2; } return R(x1, y1, x2, y2); };
		const bool valid = s.chance(3, 4);
		const R a = rect(valid), b = s.chance(1, 10) ? a : rect(valid);
		TR("a=" << a.ToString() << " b=" << b.ToString());
		REQUIRE_EQX(a.Valid(), a.X1 < a.X2 && a.Y1 < a.Y2, "Valid");
		REQUIRE_EQX(a.GetWidth(), a.X2 - a.X1, "width"); REQUIRE_EQX(a.GetHeight(), a.Y2 - a.Y1, "height");
		REQUIRE(a.GetSize() == Size((int)(a.X2 - a.X1), (int)(a.Y2 - a.Y1)), "GetSize");
		REQUIRE(a.GetTopLeft() == P(a.X1, a.Y1) && a.GetRightBottom() == P(a.X2, a.Y2), "corners");
		ops(a, b, cmp(std::tie(a.X1, a.Y1, a.X2, a.Y2), std::tie(b.X1, b.Y1, b.X2, b.Y2)), "rect");
		ops(a.GetTopLeft(), b.GetTopLeft(), cmp(std::tie(a.X1, a.Y1), std::tie(b.X1, b.Y1)), "position");
		const T dx = co(), dy = co();
		const R mv = a.Move(dx, dy);
		REQUIRE(mv == R(a.X1 + dx, a.Y1 + dy, a.X2 + dx, a.Y2 + dy) && mv == a.Move(P(dx, dy)), "Move gives " << mv.ToString());
		REQUIRE(mv.Move(-dx, -dy) == a, "Move back");
		const R in = a.Intersect(b);
		REQUIRE(in == R(std::max(a.X1, b.X1), std::max(a.Y1, b.Y1), std::min(a.X2, b.X2), std::min(a.Y2, b.Y2)), "Intersect gives " << in.ToString());
		REQUIRE(in == b.Intersect(a) && a.Intersect(a) == a, "Intersect is not symmetric and idempotent");
		if (a.Valid() && b.Valid())
		{
			c.nontrivial_if(true); c.label_if(in.Valid(), "overlapping");
			const bool touch = in.X1 <= in.X2 && in.Y1 <= in.Y2;
			REQUIRE_EQX(a.Intersects(b), touch, "Intersects"); REQUIRE_EQX(b.Intersects(a), touch, "Intersects swapped");
			// membership of a point
			const T x = co(), y = co();
			const auto has = [&](const R& r) { return r.X1 <= x && x < r.X2 && r.Y1 <= y && y < r.Y2; };
			REQUIRE_EQX(has(in), has(a) && has(b), "point in the intersection");
		}
		REQUIRE_EQX(a.ToString(), pbt::cat("[", a.X1, ", ", a.Y1, ", ", a.X2, ", ", a.Y2, "]"), "ToString");
		REQUIRE(R((T)7, (T)9) == R(0, 0, 7, 9) && R(Size(7, 9)) == R(0, 0, 7, 9) && R() == R(0, 0, 0, 0), "constructors");
	}
}
PROP(rect_int, 10000, 300000, 0, "both rectangles are valid") { rects<int>(s, c); }
PROP(rect_s64, 10000, 300000, 0, "both rectangles are valid") { rects<s64>(s, c); }

PROP(sizes, 10000, 300000, 0, "the sizes differ in both dimensions")
{
	const int lim = s.pick({ 3, 30, 20000 });
	const auto co = [&] { return (int)s.range(0, 2 * lim) - lim; };
	const Size a(co(), co()), b(s.chance(1, 3) ? a.Width : co(), s.chance(1, 3) ? a.Height : co());
	TR("a=" << a.ToString() << " b=" << b.ToString());
	c.nontrivial_if(a.Width != b.Width && a.Height != b.Height);
	ops(a, b, cmp(std::tie(a.Width, a.Height), std::tie(b.Width, b.Height)), "size");
	REQUIRE(a + b == Size(a.Width + b.Width, a.Height + b.Height), "a + b"); REQUIRE(a - b == Size(a.Width - b.Width, a.Height - b.Height), "a - b");
	Size t(a); t += b; REQUIRE(t == a + b, "+="); t -= b; REQUIRE(t == a, "-=");
	const int k = (int)s.range(0, 40) - 20;
	REQUIRE(a * k == Size(a.Width * k, a.Height * k), "a * k");
	if (k) REQUIRE(a / k == Size(a.Width / k, a.Height / k), "a / k");
	if (b.Width && b.Height) REQUIRE(a / b == Size(a.Width / b.Width, a.Height / b.Height), "a / b");
	REQUIRE_EQX(a.Valid(), a.Width > 0 && a.Height > 0, "Valid");
	REQUIRE_EQX(a.ToString(), pbt::cat(a.Width, "x", a.Height), "ToString");
	const SizeScale x(a.Width, a.Height), y(b.Width, b.Height);
	ops(x, y, cmp(std::tie(a.Width, a.Height), std::tie(b.Width, b.Height)), "scale");
	REQUIRE_EQX(x.Valid(), a.Valid(), "scale Valid"); REQUIRE_EQX(x.ToString(), pbt::cat(a.Width, ":", a.Height), "scale ToString");
	REQUIRE(Size() == Size(0, 0) && SizeScale() == SizeScale(0, 0), "default");
}

PROP(versions, 10000, 300000, 0, "the versions share their major number")
{
	const auto n = [&] { return s.coin() ? (unsigned)s.below(3) : s.integer<unsigned>(); };
	const auto ver = [&] { const unsigned a = n(), b = n(); return s.coin() ? Version(a, b, n()) : Version(a, b); };
	const Version a = ver(); Version b = ver();
	if (s.coin()) b = Version(a.GetMajor(), s.coin() ? a.GetMinor() : n(), s.coin() ? a.GetBuild() : s.coin() ? optional<unsigned>(n()) : optional<unsigned>());
	TR("a=" << a.ToString() << " b=" << b.ToString());
	c.nontrivial_if(a.GetMajor() == b.GetMajor());
	// a version without a build precedes all builds of it
	const auto key = [](const Version& v) { return std::make_tuple((u64)v.GetMajor(), (u64)v.GetMinor(), v.GetBuild() ? (s64)*v.GetBuild() : -1); };
	ops(a, b, cmp(key(a), key(b)), "version");
	const std::string t = a.ToString();
	REQUIRE_EQX(t, pbt::cat(a.GetMajor(), ".", a.GetMinor()) + (a.GetBuild() ? pbt::cat(".", *a.GetBuild()) : std::string()), "ToString");
	REQUIRE(Version::FromString(t) == a, "parsing back " << t << " gives " << Version::FromString(t).ToString());
	for (const std::string& bad : { t + ".", "." + t, t + "x", pbt::cat(a.GetMajor()), t + ".1.2", std::string(), std::string("4294967296.1"), "1.2.x" + t })
		REQUIRE(THROWS(Version::FromString(bad)), "'" << bad << "' was accepted");
}

namespace
{
	template < typename T >
	void integers(Src& s, Ctx& c)
	{
		const T Max = std::numeric_limits<T>::max();
		T v = gen<T>(s), b = s.coin() ? (T)s.range(1, 40) : gen<T>(s);
		if (v < 0) v = -(v + 1);
		if (b < 0) b = -(b + 1);
		TR("v=" << +v << " boundary=" << +b);
		if (!b) { REQUIRE(THROWS(AlignUp<T>(v, b)) && THROWS(AlignDown<T>(v, b)), "a zero boundary was accepted"); return; }
		const i128 dn = (i128)v / b * b, up = ((i128)v + b - 1) / b * b;
		c.nontrivial_if(dn != v);
		REQUIRE_EQX(AlignDown<T>(v, b), (T)dn, "AlignDown");
		if ((i128)v + b <= Max) REQUIRE_EQX(AlignUp<T>(v, b), (T)up, "AlignUp");
		REQUIRE_EQX(Max == stingray::Max<T>(v, Max), true, "Max"); REQUIRE_EQX(stingray::Max<T>(v, b), v < b ? b : v, "Max"); REQUIRE_EQX(stingray::Min<T>(v, b), v < b ? v : b, "Min");
	}
	template < u64 N > void powers(u64 v) { u128 p = 1; bool is = false; while (p <= std::numeric_limits<u64>::max()) { is |= p == v; p *= N; } REQUIRE_EQX(IsPowerOfNumber<N>(v), is, pbt::cat("IsPowerOfNumber<", N, ">(", v, ")")); }
	template < u64 N > u64 somePower(Src& s) { u64 v = 1; for (size_t k = s.below(64); k-- && v <= std::numeric_limits<u64>::max() / N; ) v *= N; return v + s.below(3) - 1; }
}
PROP(align_int, 10000, 300000, 0, "the value is not aligned") { integers<int>(s, c); }
PROP(align_size, 10000, 300000, 0, "the value is not aligned") { integers<size_t>(s, c); }
PROP(align_s64, 10000, 300000, 0, "the value is not aligned") { integers<s64>(s, c); }

PROP(gcd_powers, 20000, 400000, 0, "the numbers have a common factor, or the number is a neighbour of a power")
{
	const auto n = [&] { return s.coin() ? (size_t)s.range(0, 60) : (size_t)s.range(0u, 0xffffffffu); };
	const size_t f = s.coin() ? 1 + s.below(50) : 1, a = n() * f, b = n() * f;
	TR("a=" << a << " b=" << b);
	size_t x = a, y = b; while (y) { const size_t t = x % y; x = y; y = t; }
	c.nontrivial_if(x > 1);
	REQUIRE_EQX(Gcd(a, b), x, "Gcd"); REQUIRE_EQX(Gcd(b, a), x, "Gcd swapped");
	if (x && (u128)a / x * b <= std::numeric_limits<size_t>::max()) { const size_t l = a / x * b; REQUIRE_EQX(Lcm(a, b), l, "Lcm"); REQUIRE_EQX(Lcm(b, a), l, "Lcm swapped"); }
	switch (s.below(6))
	{
	case 0: powers<2>(somePower<2>(s)); break;
	case 1: powers<3>(somePower<3>(s)); break;
	case 2: powers<10>(somePower<10>(s)); break;
	case 3: powers<255>(somePower<255>(s)); break;
	case 4: powers<65536>(somePower<65536>(s)); break;
	default: powers<7>(s.integer<u64>()); break;
	}
	const s64 v = s.integer<s64>();
	if (v != std::numeric_limits<s64>::min()) REQUIRE_EQX(Abs(v), v < 0 ? -v : v, "Abs s64");
	const s32 v4 = s.integer<s32>(); if (v4 != std::numeric_limits<s32>::min()) REQUIRE_EQX(Abs(v4), v4 < 0 ? -v4 : v4, "Abs s32");
	const s16 v2 = s.integer<s16>(); if (v2 != -32768) REQUIRE_EQX((int)Abs(v2), v2 < 0 ? -v2 : v2, "Abs s16");
	const s8 v1 = s.integer<s8>(); if (v1 != -128) REQUIRE_EQX((int)Abs(v1), v1 < 0 ? -v1 : v1, "Abs s8");
}

namespace
{
	template < typename T, size_t I > struct BitAt
	{
		static void run(T v)
		{
			const u64 m = (u64)1 << I, u = (u64)(typename std::make_unsigned<T>::type)v;
			REQUIRE_EQX((TestBit<I, T>(v)), (u & m) != 0, pbt::cat("TestBit ", I));
			REQUIRE_EQX((SetBit<I, T>(v)), (T)(u | m), pbt::cat("SetBit ", I));
			REQUIRE_EQX((ResetBit<I, T>(v)), (T)(u & ~m), pbt::cat("ResetBit ", I));
			REQUIRE_EQX((FlipBit<I, T>(v)), (T)(u ^ m), pbt::cat("FlipBit ", I));
			BitAt<T, I - 1>::run(v);
		}
	};
	template < typename T > struct BitAt<T, (size_t)-1> { static void run(T) { } };
}
PROP(bits, 3000, 60000, 0, "always")
{
	c.nontrivial_if(true);
	BitAt<u8, 7>::run(s.integer<u8>()); BitAt<u16, 15>::run(s.integer<u16>()); BitAt<u32, 31>::run(s.integer<u32>()); BitAt<u64, 63>::run(s.integer<u64>());
	BitAt<s32, 30>::run(s.integer<s32>()); BitAt<s64, 62>::run(s.integer<s64>()); BitAt<s16, 14>::run(s.integer<s16>());
	const u8 v = (u8)s.below(256); u8 r = 0; for (int i = 0; i < 8; ++i) if (v >> i & 1) r |= (u8)(0x80 >> i);
	REQUIRE_EQX(ReverseBits(v), r, pbt::cat("ReverseBits ", +v));
}

PROP(averages, 5000, 100000, 0, "at least two different values")
{
	Average<s64> avg; Average<double> davg; Accumulators<double>::Mean mean; Accumulators<double>::Deviation dev;
	REQUIRE(avg.Get() == 0 && mean.Get() == 0 && dev.Get() == 0, "an empty average is not zero");
	std::vector<double> v; s64 sum = 0; const s64 lim = s.pick({ 3, 1000, 1000000000 });
	while (s.more(15))
	{
		const s64 x = s.range<s64>(-lim, lim);
		avg.Accumulate(x); davg.Accumulate((double)x); sum += x; v.push_back((double)x);
		int calls = 0; double seen = 0;
		mean.Process((double)x, [&](double y) { ++calls; seen = y; }); REQUIRE(calls == 1 && seen == (double)x, "Mean does not pass the value on");
		dev.Process((double)x, [&](double y) { ++calls; seen += y; }); REQUIRE(calls == 2 && seen == 2 * (double)x, "Deviation does not pass the value on");
		const double m = (double)sum / (double)v.size(); double var = 0; for (double z : v) var += (z - m) * (z - m);
		var /= (double)v.size();
		REQUIRE_EQX(avg.Get(), sum / (s64)v.size(), "Average");
		const double eps = 1e-9 * (double)lim;
		REQUIRE(std::fabs(davg.Get() - m) <= eps, "Average of doubles is " << davg.Get() << " instead of " << m);
		REQUIRE(std::fabs(mean.Get() - m) <= eps, "Mean is " << mean.Get() << " instead of " << m);
		REQUIRE(std::fabs(dev.Get() - var) <= 1e-9 * (double)lim * (double)lim, "Deviation is " << dev.Get() << " instead of " << var);
		if (s.chance(1, 20)) { mean.Reset(); dev.Reset(); REQUIRE(mean.Get() == 0 && dev.Get() == 0, "Reset"); avg = Average<s64>(); davg = Average<double>(); v.clear(); sum = 0; }
		c.nontrivial_if(v.size() >= 2 && v.front() != v.back());
	}
}

PROP(sequences, 3000, 60000, 0, "more than one number was taken")
{
	const s64 start = s.range<s64>(-1000, 1000);
	IntegerSequenceGenerator<s64> g(start); const size_t n = s.size(20);
	for (size_t i = 0; i < n; ++i) REQUIRE_EQX(g.Next(), start + (s64)i, "sequence");
	c.nontrivial_if(n > 1);
	Random r((u32)s.integer<u32>());
	for (size_t i = 0; i < n; ++i)
	{
		const u32 lo = (u32)s.range(0u, 5000u), hi = lo + 1 + (u32)s.range(0u, 5000u);
		const u32 x = r.Next(lo, hi); REQUIRE(x >= lo && x < hi, "Next(" << lo << ", " << hi << ") is " << x);
		const u32 y = r.Next(hi); REQUIRE(y < hi, "Next(" << hi << ") is " << y);
	}
	// progress
	const s64 total = s.range<s64>(0, 1000), cur = s.range<s64>(0, total);
	const ProgressValue p(cur, total);
	REQUIRE_EQX(p.InPercents(), total ? (int)(cur * 100 / total) : 0, "InPercents");
	const size_t count = 1 + s.below(10), idx = s.below(count), size = 1 + s.below(count - idx);
	s64 seen = -1, seenTotal = -1;
	AggregateProgressReporter rep(fn<void(const ProgressValue&)>([&](const ProgressValue& v) { seen = v.Current; seenTotal = v.Total; }), idx, size, count);
	rep(p);
	REQUIRE_EQX(seen, (s64)((idx * 100 + size * (size_t)p.InPercents()) / count), "aggregate progress"); REQUIRE_EQX(seenTotal, (s64)100, "aggregate total");
}

namespace
{
	struct TotalMapper : public BaseValueMapper<TotalMapper, int, int>
	{
		typedef TypeList<Src::Value<1>, Dst::Value<10>, Src::Range<20, 30>, Dst::Value<11>, Src::BiValue<40, 41>, Dst::BiValue<12, 13>, Src::TriValue<50, 51, 52>, Dst::Range<100, 110, 105>, Src::Value<60>, Dst::Fail,
			Src::MultiValue<70, Src::Value<71>>, Dst::QuadValue<200, 201, 202, 203>, Src::Range<60, 64, 63>, Dst::Value<300>> MappingsList0;
		typedef TypeList<Src::Value<1>, Dst::Value<10>, Src::Range<20, 30>, Dst::Value<11>, Src::BiValue<40, 41>, Dst::BiValue<12, 13>, Src::TriValue<50, 51, 52>, Dst::Range<100, 110, 105>,
			Src::MultiValue<70, Src::Value<71>>, Dst::QuadValue<200, 201, 202, 203>, Src::Range<60, 64, 63>, Dst::Value<300>, Src::Range<62, 68>, Dst::Value<301>> MappingsList;
		typedef TypeList<Src::Fail, Dst::Value<999>> DefaultMapping;
	};
}
PROP(mappers, 5000, 60000, 0, "the value falls under an entry")
{
	typedef TotalMapper M;
	const int v = (int)s.range(0, 80);
	TR("value " << v);
	int want = 999;
	if (v == 1) want = 10; else if (v >= 20 && v < 30) want = 11; else if (v == 40 || v == 41) want = 12; else if (v >= 50 && v <= 52) want = 105; else if (v == 70 || v == 71) want = 200;
	else if (v >= 60 && v < 64) want = 300; else if (v >= 62 && v < 68) want = 301;
	c.nontrivial_if(want != 999);
	REQUIRE_EQX(M::Map(v), want, "Map"); REQUIRE(M::HasMapping(v), "HasMapping");
	const int d = s.coin() ? (int)s.range(8, 14) : s.coin() ? (int)s.range(98, 112) : s.coin() ? (int)s.range(198, 206) : (int)s.range(298, 303);
	TR("back " << d);
	int back = -1;
	if (d == 10) back = 1; else if (d == 11) back = 20; else if (d == 12 || d == 13) back = 40; else if (d >= 100 && d < 110) back = 50; else if (d >= 200 && d <= 203) back = 70; else if (d == 300) back = 63; else if (d == 301) back = 62;
	REQUIRE_EQX(M::HasBackMapping(d), back != -1, "HasBackMapping");
	if (back != -1) REQUIRE_EQX(M::Unmap(d), back, "Unmap"); else REQUIRE(THROWS(M::Unmap(d)), "an unmapped value was accepted");
}
