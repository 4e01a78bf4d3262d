// ENGINE: seq
// Time: calendar, text forms, other epochs, durations, intervals.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/time/NtpTimestamp.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/time/TimeEngine.h>
#include <stingraykit/time/TimeInterval.h>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	const s64 DayMs = 86400000;

	s64 floordiv(s64 a, s64 b) { return a / b - (a % b != 0 && (a < 0) != (b < 0)); }
	s64 floormod(s64 a, s64 b) { return a - floordiv(a, b) * b; }
	bool leap(s64 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
	int monthDays(s64 y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }
	s64 daysBefore(s64 y) { --y; return y * 365 + floordiv(y, 4) - floordiv(y, 100) + floordiv(y, 400); }   // days from 0001-01-01 to y-01-01
	s64 days(s64 y, s64 m, s64 d)   // days since 1970-01-01, any month and day number
	{
		y += floordiv(m - 1, 12); m = floormod(m - 1, 12) + 1;
		s64 r = daysBefore(y) - daysBefore(1970) + d - 1;
		for (int i = 1; i < m; ++i) r += monthDays(y, i);
		return r;
	}
	struct Civil { s64 y; int m, d, yday, wday; };
	Civil civil(s64 n)
	{
		Civil c; c.y = 1970 + floordiv(n, 366);
		while (days(c.y + 1, 1, 1) <= n) ++c.y;
		while (days(c.y, 1, 1) > n) --c.y;
		c.yday = (int)(n - days(c.y, 1, 1)); c.m = 1; int left = c.yday;
		while (left >= monthDays(c.y, c.m)) left -= monthDays(c.y, c.m++);
		c.d = left + 1; c.wday = (int)floormod(n + 4, 7);
		return c;
	}
	std::string num(s64 v, int w) { char b[40]; snprintf(b, sizeof b, "%0*lld", w, (long long)v); return b; }

	struct Zone { Zone(int m) { TimeEngine::SetMinutesFromUtc((s16)m); } ~Zone() { TimeEngine::SetMinutesFromUtc(0); } };
	int offset(Src& s) { return s.chance(1, 4) ? 0 : s.chance(1, 3) ? s.pick<int>({ -720, 840, 1, -1, 330, -210, 60 }) : s.range<int>(-720, 840); }

	s64 moment(Src& s, s64 fromYear, s64 toYear)
	{
		const s64 lo = days(fromYear, 1, 1), hi = days(toYear + 1, 1, 1) - 1;
		s64 d;
		switch (s.below(5))
		{
		case 0: d = s.range<s64>(lo, hi); break;
		case 1: d = days(s.range<s64>(fromYear, toYear), s.pick<int>({ 2, 3, 1, 12 }), s.pick<int>({ 1, 28, 29, 31, 2 })); break;
		case 2: d = days(s.pick<s64>({ 1600, 1700, 1900, 1970, 1972, 2000, 2038, 2100, 2400, 1969, 2024 }), s.pick<int>({ 2, 3, 1, 12 }), s.pick<int>({ 1, 28, 29, 31 })); break;
		default: d = s.range<s64>(-4000, 30000); break;
		}
		d = std::max(lo, std::min(hi, d));
		const s64 t = s.chance(1, 3) ? s.pick<s64>({ 0, DayMs - 1, DayMs - 1000, 43200000, 1, 999, 1000 }) : s.range<s64>(0, DayMs - 1);
		s64 ms = d * DayMs + t;
		if (s.chance(1, 2)) ms = floordiv(ms, 1000) * 1000;
		return ms;
	}
	// the sub-second part of moments before the epoch is left out of the fields: the repository's own test pins it as negative
	s64 visible(s64 ms) { return ms < 0 ? floordiv(ms, 1000) * 1000 : ms; }
	std::string iso(s64 ms)
	{
		const s64 d = floordiv(ms, DayMs), t = floormod(ms, DayMs); const Civil c = civil(d);
		return num(c.y, 4) + "-" + num(c.m, 2) + "-" + num(c.d, 2) + "T" + num(t / 3600000, 2) + ":" + num(t / 60000 % 60, 2) + ":" + num(t / 1000 % 60, 2) + "." + num(t % 1000, 3) + "Z";
	}
}

PROP(calendar, 60000, 600000, 0, "the moment is not in the first 28 days of a month of 1970-2037, or the zone is not UTC")
{
	const s64 ms = visible(moment(s, 1, 9998));
	const int off = offset(s); const Zone zone(off);
	const TimeKind kind = s.coin() ? TimeKind::Utc : TimeKind::Local;
	const s64 shown = ms + (kind == TimeKind::Local ? off * 60000 : 0);
	TR("moment " << ms << " zone " << off);
	const BrokenDownTime b = Time(ms).BreakDown(kind);
	if (shown >= 0 || shown % 1000 == 0)
	{
		const s64 t = floormod(shown, DayMs); const Civil e = civil(floordiv(shown, DayMs));
		c.nontrivial_if(e.d > 28 || e.y < 1970 || e.y > 2037 || shown != ms);
		REQUIRE_EQ((s64)b.Year, e.y); REQUIRE_EQ((int)b.Month, e.m); REQUIRE_EQ((int)b.MonthDay, e.d);
		REQUIRE_EQ((s64)b.Hours, t / 3600000); REQUIRE_EQ((s64)b.Minutes, t / 60000 % 60); REQUIRE_EQ((s64)b.Seconds, t / 1000 % 60); REQUIRE_EQ((s64)b.Milliseconds, t % 1000);
		REQUIRE_EQ((int)b.WeekDay, e.wday); REQUIRE_EQ((int)b.YearDay, e.yday);
		REQUIRE_EQ(b.GetMaxDaysInMonth(), monthDays(e.y, e.m)); REQUIRE_EQ(BrokenDownTime::GetMaxDaysInMonth((int)e.y, e.m), monthDays(e.y, e.m));
		const BrokenDownTime start = b.GetDayStart();
		REQUIRE_EQX(Time::FromBrokenDownTime(start, kind).GetMilliseconds(), floordiv(shown, DayMs) * DayMs - (shown - ms), "the start of the day");
		const s64 other = visible(moment(s, 1, 9998));
		const s64 otherShown = other + (shown - ms);
		if (otherShown >= 0 || otherShown % 1000 == 0)
			REQUIRE_EQX(b < Time(other).BreakDown(kind), ms < other, "order of the broken-down times of " << ms << " and " << other);
		const std::string text = b.ToString(), expText = num(e.d, 2) + "/" + num(e.m, 2) + "/" + num(e.y, 4) + " " + num(t / 3600000, 2) + ":" + num(t / 60000 % 60, 2) + ":" + num(t / 1000 % 60, 2) + "." + num(t % 1000, 3);
		REQUIRE(text == expText, "default text is " << text << " instead of " << expText);
		const std::string fmt = s.pick<const char*>({ "dd.MM.YYYY", "yyyyMMddThhmmss", "hh:mm", "ss.lll", "[dd]%MM", "d M YYY ll", "ddd", "mmm" });
		std::string exp; for (size_t i = 0; i < fmt.size(); )
		{
			static const char* const K[] = { "dd", "MM", "YYYY", "yyyy", "hh", "mm", "ss", "lll" };
			const s64 v[] = { e.d, e.m, e.y, e.y, t / 3600000, t / 60000 % 60, t / 1000 % 60, t % 1000 };
			bool hit = false;
			for (int k = 0; k < 8 && !hit; ++k) if (fmt.compare(i, strlen(K[k]), K[k]) == 0) { exp += num(v[k], (int)strlen(K[k])); i += strlen(K[k]); hit = true; }
			if (!hit) exp += fmt[i++];
		}
		if (fmt != "ddd" && fmt != "mmm") REQUIRE(b.ToString(fmt) == exp, "\"" << fmt << "\" gives " << b.ToString(fmt) << " instead of " << exp);
	}
	REQUIRE_EQX(Time::FromBrokenDownTime(b, kind).GetMilliseconds(), ms, "moment -> fields -> moment");
	// fields out of their ranges carry over
	const int addMonth = s.range<int>(-30, 30), addDay = s.range<int>(-400, 400), addHour = s.range<int>(-100, 100), addMin = s.range<int>(-2000, 2000), addSec = s.range<int>(-5000, 5000), addMs = s.range<int>(-9000, 9000);
	BrokenDownTime x = b; x.Month += addMonth; x.MonthDay += addDay; x.Hours += addHour; x.Minutes += addMin; x.Seconds += addSec; x.Milliseconds += addMs;
	const s64 moved = (days(b.Year, b.Month + addMonth, b.MonthDay + addDay)) * DayMs + (b.Hours + addHour) * 3600000LL + (b.Minutes + addMin) * 60000LL + (b.Seconds + addSec) * 1000LL + b.Milliseconds + addMs - (shown - ms);
	REQUIRE_EQX(Time::FromBrokenDownTime(x, kind).GetMilliseconds(), moved, "fields with carry");
}

PROP(other_epochs, 60000, 600000, 0, "the moment is before 1970 or has a fraction of a second")
{
	const s64 ms = moment(s, 1601, 2035);
	const Time t(ms);
	TR("moment " << ms);
	c.nontrivial_if(ms < 0 || ms % 1000);
	REQUIRE_EQX((s64)t.GetMjd(), 40587 + floordiv(ms, DayMs), "GetMjd");
	const s64 sec = visible(ms) / 1000;
	const u32 bcd = Time(visible(ms)).GetBcdTime(TimeKind::Utc); const s64 sod = floormod(sec, 86400);
	const auto bc = [](s64 v) { return (u32)(v / 10 * 16 + v % 10); };
	REQUIRE_EQX(bcd, bc(sod / 3600) << 16 | bc(sod / 60 % 60) << 8 | bc(sod % 60), "GetBcdTime");
	REQUIRE_EQX(Time::MjdToEpoch(t.GetMjd(), bcd).GetMilliseconds(), sec * 1000, "MJD and BCD time back to the moment");
	REQUIRE_EQX(TimeDuration::FromBcdDuration(bcd).GetMilliseconds(), sod * 1000, "FromBcdDuration");

	if (ms >= -2208988800000LL)
	{
		const s64 whole = visible(ms) / 1000 * 1000;
		REQUIRE_EQX(Time(whole).ToNtpTimestamp(), (u64)(whole / 1000 + 2208988800LL), "ToNtpTimestamp");
		REQUIRE_EQX(Time::FromNtpTimestamp(Time(whole).ToNtpTimestamp()).GetMilliseconds(), whole, "NTP seconds back to the moment");
		const NtpTimestamp n = NtpTimestamp::FromTime(t);
		REQUIRE_EQX(n.GetTimestamp() >> 32, (u64)(floordiv(ms, 1000) + 2208988800LL), "seconds of NtpTimestamp");
		REQUIRE_EQX(n.ToTime().GetMilliseconds(), ms, "NtpTimestamp back to the moment");
		const u64 raw = n.GetTimestamp() >> 32 << 32 | s.integer<u32>();
		const double exact = ((double)(raw >> 32) - 2208988800.0) * 1000 + (double)(raw & 0xffffffff) * 1000 / 4294967296.0;
		REQUIRE(std::abs((double)NtpTimestamp(raw).ToTime().GetMilliseconds() - exact) <= 1, "NtpTimestamp " << raw << " is " << NtpTimestamp(raw).ToTime().GetMilliseconds() << " ms instead of " << exact);
	}
	const s64 whole = floordiv(ms, 1000);
	REQUIRE_EQX(Time::FromWindowsFileTime((u64)(whole + 11644473600LL) * 10000000).GetMilliseconds(), whole * 1000, "FromWindowsFileTime");
	if (ms >= 0) REQUIRE_EQX((s64)t.ToTimeT(), ms / 1000, "ToTimeT");
	REQUIRE_EQX(Time::FromTimeT((time_t)whole).GetMilliseconds(), whole * 1000, "FromTimeT");

	const int off = offset(s); const Zone zone(off);
	const s64 a = visible(ms), b = visible(moment(s, 1601, 2400));
	const auto localDay = [&](s64 m) { return floordiv(m + off * 60000, DayMs); };
	if (a + off * 60000 >= 0 || a % 1000 == 0) REQUIRE_EQX((s64)Time(a).DaysTo(Time(b)), localDay(b) - localDay(a), "DaysTo " << b << " in zone " << off);
}

PROP(iso_time, 60000, 600000, 0, "the text has a fraction of a second or an offset")
{
	const s64 ms = visible(moment(s, 101, 9990));
	const std::string text = iso(ms);
	TR(text);
	REQUIRE(TimeUtility::ToIso8601(Time(ms)) == text, "ToIso8601 of " << ms << " gives " << TimeUtility::ToIso8601(Time(ms)) << " instead of " << text);
	REQUIRE_EQX(TimeUtility::FromIso8601(text).GetMilliseconds(), ms, "FromIso8601 of " << text);
	std::string low = text; for (char& ch : low) ch = (char)tolower(ch);
	REQUIRE_EQX(TimeUtility::FromIso8601(low).GetMilliseconds(), ms, "FromIso8601 of " << low);

	// other forms of the same moment
	const int off = s.range<int>(-899, 899);
	const s64 local = ms + off * 60000LL;
	std::string form = iso(local).substr(0, 19); s64 exp = floordiv(local, 1000) * 1000;
	if (s.coin())
	{
		std::string frac; for (size_t n = 1 + s.below(9); n; --n) frac += (char)('0' + (s.chance(1, 4) ? 9 : s.below(10)));
		form += "." + frac;
		s64 us = 0; for (size_t i = 0; i < 6; ++i) us = us * 10 + (i < frac.size() ? frac[i] - '0' : 0);
		// two roundings are accepted: of the six digits kept, and of the whole fraction
		const s64 lo = (us + 500) / 1000, hi = (us + 1 + 500) / 1000;
		exp += lo; c.nontrivial_if(true);
		const std::string full = form + "Z";
		const s64 got = TimeUtility::FromIso8601(full).GetMilliseconds();
		REQUIRE(got == exp || got == exp - lo + hi, "FromIso8601 of " << full << " gives " << got << " instead of " << exp);
		exp = got;
	}
	const size_t suffix = s.below(3);
	if (suffix == 1) { form += "Z"; }
	else if (suffix == 2) { form += (off < 0 ? "-" : "+") + num(std::abs(off) / 60, 2) + ":" + num(std::abs(off) % 60, 2); exp -= off * 60000LL; c.nontrivial_if(true); }
	REQUIRE_EQX(TimeUtility::FromIso8601(form).GetMilliseconds(), exp, "FromIso8601 of " << form);
	REQUIRE_EQX(TimeUtility::FromIso8601(text.substr(0, 10)).GetMilliseconds(), floordiv(ms, DayMs) * DayMs, "FromIso8601 of " << text.substr(0, 10));

	// text that is no moment at all is refused
	std::string bad = text;
	switch (s.below(5))
	{
	case 0: bad = bad.substr(0, s.below(8)); break;
	case 1: bad[s.pick<int>({ 4, 7, 10, 13, 16 })] = 'x'; break;
	case 2: bad[s.pick<int>({ 0, 5, 8, 11, 14, 17 })] = 'a'; break;
	case 3: bad += s.pick<const char*>({ "Z", "x", "+", "+1" }); break;
	default: bad = s.text("0123456789-:TZ+. ", 5); break;
	}
	REQUIRE(THROWS(TimeUtility::FromIso8601(bad)), "FromIso8601 accepts \"" << bad << "\"");
}

PROP(time_text, 40000, 400000, 0, "the text was read in a zone other than UTC")
{
	const s64 ms = visible(moment(s, 101, 9990)) / 1000 * 1000;
	const int off = offset(s); const Zone zone(off);
	const TimeKind kind = s.coin() ? TimeKind::Utc : TimeKind::Local;
	const s64 shift = kind == TimeKind::Local ? off * 60000 : 0, shown = ms + shift;
	c.nontrivial_if(shift != 0);
	const std::string i = iso(shown); const std::string date = i.substr(8, 2) + "%" + i.substr(5, 2) + "%" + i.substr(0, 4);
	const s64 day = floordiv(shown, DayMs) * DayMs - shift;
	const auto with = [&](char ch) { std::string r = date; for (char& x : r) if (x == '%') x = ch; return r; };
	TR(i << " zone " << off);
	REQUIRE_EQX(Time::FromString(Time(ms).ToString("", kind), kind).GetMilliseconds(), ms, "Time -> text -> Time for " << Time(ms).ToString("", kind));
	for (char ch : { '.', '/' })
	{
		REQUIRE_EQX(Time::FromString(with(ch) + " " + i.substr(11, 8), kind).GetMilliseconds(), ms, "FromString(" << with(ch) << " " << i.substr(11, 8) << ")");
		REQUIRE_EQX(Time::FromString(with(ch) + " " + i.substr(11, 5), kind).GetMilliseconds(), floordiv(shown, 60000) * 60000 - shift, "FromString without seconds");
		REQUIRE_EQX(Time::FromString(with(ch), kind).GetMilliseconds(), day, "FromString of a date");
	}
	REQUIRE_EQX(Time::FromString(i.substr(0, 19), kind).GetMilliseconds(), ms, "FromString(" << i.substr(0, 19) << ")");
	REQUIRE_EQX(Time::FromString(i.substr(0, 19) + "Z", kind).GetMilliseconds(), shown, "FromString(" << i.substr(0, 19) << "Z)");
	const int o = s.range<int>(-839, 839); const std::string os = (o < 0 ? "-" : "+") + num(std::abs(o) / 60, 2) + ":" + num(std::abs(o) % 60, 2);
	REQUIRE_EQX(Time::FromString(i.substr(0, 19) + os, kind).GetMilliseconds(), shown - o * 60000LL, "FromString(" << i.substr(0, 19) << os << ")");
	REQUIRE(THROWS(Time::FromString(s.pick<const char*>({ "", "x", "1", "12-", "now-", "10.10", "1/2", "a:b" }))), "text without a date or time is accepted");

	const int z = s.range<int>(-720, 840); const TimeZone tz((s16)z);
	REQUIRE_EQX((int)tz.GetMinutesFromUtc(), z, "TimeZone");
	REQUIRE_EQX((int)TimeZone::FromString(tz.ToString()).GetMinutesFromUtc(), z, "TimeZone -> " << tz.ToString() << " -> TimeZone");
	const std::string zs = (z < 0 ? "-" : s.coin() ? "+" : "") + num(std::abs(z) / 60, 2) + (s.coin() ? ":" : "") + num(std::abs(z) % 60, 2);
	REQUIRE_EQX((int)TimeZone::FromString(zs).GetMinutesFromUtc(), z, "TimeZone::FromString(" << zs << ")");
	const int far = s.coin() ? s.range<int>(841, 200000) : s.range<int>(721, 200000) * -1;
	const std::string fs = (far < 0 ? "-" : "+") + num(std::abs(far) / 60, 2) + ":" + num(std::abs(far) % 60, 2);
	REQUIRE(THROWS(TimeZone::FromString(fs)), "TimeZone::FromString(" << fs << ") is accepted");
	if (far >= -32768 && far <= 32767) REQUIRE(THROWS(TimeZone((s16)far)), "TimeZone(" << far << ") is accepted");
	REQUIRE_EQ(TimeZone((s16)z) < TimeZone((s16)0), z < 0);
	REQUIRE_EQX((int)TimeZone::Current().GetMinutesFromUtc(), off, "TimeZone::Current");
}

namespace
{
	s64 micros(Src& s)
	{
		s64 v;
		switch (s.below(4))
		{
		case 0: v = s.integer<s64>(); break;
		case 1: v = s.range<s64>(-5000, 5000); break;
		case 2: v = s.range<s64>(-200, 200) * s.pick<s64>({ 1000, 1000000, 60000000, 3600000000LL, 86400000000LL }) + s.range<s64>(-2, 2); break;
		default: v = s.range<s64>(-400000000000LL, 400000000000LL); break;
		}
		return v;
	}
	s64 clip(s64 v, s64 m) { return v % m; }
}

PROP(duration, 60000, 600000, 0, "a negative value or one with a fraction of a millisecond took part")
{
	const s64 a = micros(s), b = micros(s); const int k = s.coin() ? s.range<int>(-100, 100) : s.integer<int>();
	const TimeDuration x = TimeDuration::FromMicroseconds(a), y = TimeDuration::FromMicroseconds(b);
	TR("durations " << a << " us, " << b << " us, " << k);
	c.nontrivial_if(a < 0 || a % 1000);
	const auto us = [](TimeDuration d) { return d.GetMicroseconds(); };
	REQUIRE_EQ(us(x), a); REQUIRE_EQ(x.GetMilliseconds(), a / 1000); REQUIRE_EQ(x.GetSeconds(), a / 1000000); REQUIRE_EQ(x.GetMinutes(), a / 60000000); REQUIRE_EQ(x.GetHours(), a / 3600000000LL); REQUIRE_EQ(x.GetDays(), a / 86400000000LL);
	s64 r;
	if (!__builtin_add_overflow(a, b, &r)) { REQUIRE_EQ(us(x + y), r); TimeDuration z = x; z += y; REQUIRE_EQ(us(z), r); REQUIRE_EQ(us(x + y - y), a); }
	if (!__builtin_sub_overflow(a, b, &r)) { REQUIRE_EQ(us(x - y), r); TimeDuration z = x; z -= y; REQUIRE_EQ(us(z), r); }
	if (!__builtin_mul_overflow(a, (s64)k, &r)) { REQUIRE_EQ(us(x * k), r); TimeDuration z = x; z *= k; REQUIRE_EQ(us(z), r); }
	if (k && !(a == std::numeric_limits<s64>::min() && k == -1)) { REQUIRE_EQ(us(x / k), a / k); TimeDuration z = x; z /= k; REQUIRE_EQ(us(z), a / k); }
	if (b && !(a == std::numeric_limits<s64>::min() && b == -1)) { REQUIRE_EQ(x / y, a / b); REQUIRE_EQ(us(x % y), a % b); TimeDuration z = x; z %= y; REQUIRE_EQ(us(z), a % b); }
	REQUIRE_EQ(x < y, a < b); REQUIRE_EQ(x == y, a == b); REQUIRE_EQ(x <= y, a <= b); REQUIRE_EQ(x > y, a > b); REQUIRE_EQ(x >= y, a >= b); REQUIRE_EQ(x != y, a != b);
	if (a != std::numeric_limits<s64>::min()) { REQUIRE_EQ(us(-x), -a); REQUIRE_EQ(us(x.Absolute()), a < 0 ? -a : a); }
	else REQUIRE(THROWS(x.Absolute()), "Absolute() of the least duration is not refused");
	if (a > -9223372036854775000LL && a < 9223372036854775000LL)
	{
		const s64 m = a < 0 ? -((-a + 500) / 1000) : (a + 500) / 1000;
		REQUIRE_EQX(us(x.RoundToMilliseconds()), m * 1000, "RoundToMilliseconds");
	}
	REQUIRE_EQ(us(TimeDuration::FromSeconds(k)), k * 1000000LL); REQUIRE_EQ(us(TimeDuration::FromMinutes(k)), k * 60000000LL);
	const int kk = (int)clip(k, 2000000); REQUIRE_EQ(us(TimeDuration::FromHours(kk)), kk * 3600000000LL); REQUIRE_EQ(us(TimeDuration::FromDays(kk)), kk * 86400000000LL);
	REQUIRE_EQ(us(TimeDuration::FromMilliseconds(kk)), kk * 1000LL);
	REQUIRE_EQX(us(TimeDuration::FromString(ToString(kk) + "h")), kk * 3600000000LL, "FromString");
	REQUIRE_EQX(us(TimeDuration::FromString(ToString(k) + "m")), k * 60000000LL, "FromString");
	REQUIRE_EQX(us(TimeDuration::FromString(ToString(k) + "S")), k * 1000000LL, "FromString");
	REQUIRE_EQX(us(TimeDuration::FromString(ToString(k))), k * 1000LL, "FromString");
	REQUIRE(THROWS(TimeDuration::FromString(ToString(k) + s.pick<const char*>({ "x", "d", ":" }))), "an unknown unit is accepted");

	// moments and durations
	const s64 t = moment(s, 1, 9998), u = moment(s, 1, 9998);
	REQUIRE_EQ((Time(t) - Time(u)).GetMilliseconds(), t - u);
	REQUIRE_EQ((Time(u) + (Time(t) - Time(u))).GetMilliseconds(), t);
	const TimeDuration d = TimeDuration::FromMicroseconds(clip(a, 1000000000000000LL));
	REQUIRE_EQ((Time(t) + d).GetMilliseconds(), t + d.GetMilliseconds()); REQUIRE_EQ((Time(t) - d).GetMilliseconds(), t - d.GetMilliseconds());
	REQUIRE_EQ((Time(t) + d - d).GetMilliseconds(), t);
	REQUIRE_EQ(Time(t) < Time(u), t < u); REQUIRE_EQ(Time(t) == Time(u), t == u);
	const s64 jitter = s.pick<s64>({ 0, 1, 1000, DayMs }); const s64 v = s.coin() ? u : t + s.range<s64>(-2, 2) + s.pick<s64>({ 0, 1, -1 }) * jitter;
	REQUIRE_EQX(TimeCmp(TimeDuration(jitter))(Time(t), Time(v)), std::abs(t - v) <= jitter ? 0 : t < v ? -1 : 1, "TimeCmp with jitter " << jitter << " of " << t << " and " << v);
}

PROP(duration_text, 60000, 600000, 0, "the duration is negative or the format has no hours")
{
	s64 a = micros(s); if (a == std::numeric_limits<s64>::min()) ++a;
	const TimeDuration x = TimeDuration::FromMicroseconds(a);
	const s64 m = a < 0 ? -a : a;
	static const char* const Units[] = { "h", "hh", "m", "mm", "s", "ss", "l", "ll", "lll", "llll", "lllll", "llllll", "lllllll" };
	std::vector<std::string> parts; bool H = false, M = false, S = false; size_t P = 0; std::string fmt;
	for (size_t n = 1 + s.below(5); n; --n)
	{
		if (s.chance(1, 4)) { parts.push_back(s.pick<const char*>({ "\\h", "\\m", "\\\\", "\\l" })); fmt += parts.back(); }
		else
		{
			const std::string u = Units[s.below(13)];
			parts.push_back(u); fmt += u; H |= u[0] == 'h'; M |= u[0] == 'm'; S |= u[0] == 's'; if (u[0] == 'l') P = std::max(P, u.size());
		}
		parts.push_back(s.pick<const char*>({ ":", ".", " ", "-" })); fmt += parts.back();
	}
	TR(a << " us as \"" << fmt << "\"");
	c.nontrivial_if(a < 0 || !H);
	static const s64 Div[] = { 1000000, 100000, 10000, 1000, 100, 10, 1 };
	const std::string sign = a < 0 && m / Div[std::min<size_t>(P, 6)] ? "-" : "";
	const s64 h = H ? m / 3600000000LL : 0, mi = (m - h * 3600000000LL) / 60000000, se = m / 1000000 % 60;
	std::string exp;
	for (const std::string& u : parts)
		if (u[0] == '\\') exp += u[1];
		else if (u[0] == 'h') exp += sign + num(h, (int)u.size());
		else if (u[0] == 'm') exp += (H ? "" : sign) + num(mi, (int)u.size());
		else if (u[0] == 's') exp += (H || M ? "" : sign) + num(se, (int)u.size());
		else if (u[0] == 'l') { const size_t p = std::min<size_t>(u.size(), 6); exp += (H || M || S ? "" : sign) + num(m % 1000000 / Div[p], (int)p); }
		else exp += u;
	REQUIRE(x.ToString(fmt) == exp, "\"" << fmt << "\" of " << a << " us gives \"" << x.ToString(fmt) << "\" instead of \"" << exp << "\"");
	const std::string dflt = (a / 1000 < 0 ? "-" : "") + num(m / 3600000000LL, 2) + ":" + num(m / 60000000 % 60, 2) + ":" + num(m / 1000000 % 60, 2) + "." + num(m / 1000 % 1000, 3);
	REQUIRE(x.ToString() == dflt, "default text of " << a << " us is " << x.ToString() << " instead of " << dflt);
	REQUIRE(THROWS(x.ToString(fmt + "\\")), "a lone backslash is accepted");
}

PROP(iso_duration, 40000, 400000, 0, "the duration has years, months or more than 32767 hours")
{
	const s64 base = visible(moment(s, 1900, 2400));
	const Civil bc = civil(floordiv(base, DayMs));
	// duration -> text -> duration
	const s64 sec = s.chance(1, 3) ? s.range<s64>(0, 100) * s.pick<s64>({ 1, 60, 3600, 86400, 86400 * 30LL, 86400 * 365LL }) + s.range<s64>(0, 1) : s.coin() ? s.range<s64>(0, 400 * 86400) : s.range<s64>(0, 6000000000LL);
	const TimeDuration d = TimeDuration::FromMicroseconds(sec * 1000000 + s.pick<s64>({ 0, 0, 1, 999999, 500000 }));
	TR("duration " << sec << " s from " << base);
	c.nontrivial_if(sec > 32767 * 3600LL);
	const std::string plain = TimeDurationUtility::ToIso8601(d);
	REQUIRE_EQX(TimeDurationUtility::FromIso8601(plain, Time(base)).GetMicroseconds(), sec * 1000000, "FromIso8601(" << plain << ")");
	const std::string based = TimeDurationUtility::ToIso8601(d, Time(base));
	// from the 29th of February the two directions disagree (the tests pin one of them): see KNOWN below
	if (!(bc.m == 2 && bc.d == 29))
		REQUIRE_EQX(TimeDurationUtility::FromIso8601(based, Time(base)).GetMicroseconds(), sec * 1000000, "FromIso8601(" << based << ") from " << iso(base));
	if (d > TimeDuration()) REQUIRE(THROWS(TimeDurationUtility::ToIso8601(-d)), "a negative duration is not refused");

	// text -> duration
	s64 v[6]; static const char U[] = "YMDHMS"; std::string text = "P", time; int used = 0;
	for (int i = 0; i < 6; ++i)
	{
		v[i] = 0;
		if (s.chance(1, 2)) continue;
		v[i] = s.coin() ? s.range<s64>(0, 40) : s.range<s64>(0, i == 0 ? 300 : i == 1 ? 3000 : 50000);
		++used;
		(i < 3 ? text : time) += ToString(v[i]) + U[i];
	}
	if (!time.empty()) text += "T" + time;
	if (!used) text = "PT0S";
	if (s.chance(1, 3)) for (char& ch : text) ch = (char)tolower(ch);
	s64 exp = v[2] * DayMs + v[3] * 3600000 + v[4] * 60000 + v[5] * 1000;
	exp += (days(bc.y + v[0], bc.m + v[1], bc.d) - days(bc.y, bc.m, bc.d)) * DayMs;
	c.nontrivial_if(v[0] || v[1]);
	REQUIRE_EQX(TimeDurationUtility::FromIso8601(text, Time(base)).GetMilliseconds(), exp, "FromIso8601(" << text << ") from " << iso(base));
	const int w = s.range<int>(0, 4000);
	REQUIRE_EQX(TimeDurationUtility::FromIso8601("P" + ToString(w) + "W", Time(base)).GetMilliseconds(), w * 7 * DayMs, "FromIso8601(P" << w << "W)");
	const std::string bad = s.chance(2, 3) ? s.pick<const char*>({ "", "P", "PT", "T1S", "1D", "P1", "P1S", "PT1D", "P1Y2W", "P1DT", "PT1S2M", "P-1D", "P1.5D", " P1D", "P1D ", "PD", "P1D1Y" }) : "x" + text;
	REQUIRE(THROWS(TimeDurationUtility::FromIso8601(bad)), "FromIso8601 accepts \"" << bad << "\"");
}

PROP(interval, 30000, 300000, 0, "two non-empty intervals overlap")
{
	const auto gen = [&] { return s.range<s64>(0, 9); };
	s64 v[4] = { gen(), gen(), gen(), gen() };
	if (v[0] > v[1]) { REQUIRE(THROWS(TimeInterval(Time(v[0]), Time(v[1]))), "an interval that ends before it starts is accepted"); std::swap(v[0], v[1]); }
	if (v[2] > v[3]) std::swap(v[2], v[3]);
	const TimeInterval a((Time(v[0])), Time(v[1])), b((Time(v[2])), Time(v[3]));
	TR("[" << v[0] << ", " << v[1] << "] and [" << v[2] << ", " << v[3] << "]");
	const bool ea = v[0] == v[1], eb = v[2] == v[3];
	REQUIRE_EQ(a.IsEmpty(), ea);
	REQUIRE_EQ(a.GetDuration().GetMilliseconds(), v[1] - v[0]);
	const s64 p = gen();
	REQUIRE_EQX(a.Contains(Time(p)), !ea && v[0] <= p && p <= v[1], "Contains(" << p << ")");
	REQUIRE_EQX(a.ContainsStrict(Time(p)), v[0] < p && p < v[1], "ContainsStrict(" << p << ")");
	REQUIRE_EQX(a.Clamp(Time(p)).GetMilliseconds(), std::max(v[0], std::min(p, v[1])), "Clamp(" << p << ")");
	const s64 lo = std::max(v[0], v[2]), hi = std::min(v[1], v[3]);
	const bool meet = !ea && !eb && lo < hi;
	c.nontrivial_if(meet);
	REQUIRE_EQ(a.IsIntersecting(b), meet);
	const TimeInterval i = a.Intersect(b);
	REQUIRE_EQX(i.IsEmpty(), !meet, "the intersection");
	if (meet) REQUIRE(i.GetStart() == Time(lo) && i.GetEnd() == Time(hi), "the intersection is [" << i.GetStart().GetMilliseconds() << ", " << i.GetEnd().GetMilliseconds() << "]");
	const TimeInterval u = a.Union(b);
	const TimeInterval e = ea ? b : eb ? a : TimeInterval(Time(std::min(v[0], v[2])), Time(std::max(v[1], v[3])));
	REQUIRE(u.GetStart() == e.GetStart() && u.GetEnd() == e.GetEnd(), "the union is [" << u.GetStart().GetMilliseconds() << ", " << u.GetEnd().GetMilliseconds() << "]");
}

KNOWN(windows_ticks, "Time::FromWindowsFileTime adds the 100 ns ticks of the last second as milliseconds (the repository's own test pins it)")
{
	const s64 got = Time::FromWindowsFileTime(116444736000000000ULL + 5000000).GetMilliseconds();
	REQUIRE_EQX(got, (s64)500, "half a second after the epoch");
}

KNOWN(negative_fields, "Time(-1).BreakDown(Utc) gives 1970-01-01 00:00:00 and -1 ms (the repository's own test pins negative milliseconds)")
{
	const BrokenDownTime b = Time(-1).BreakDown(TimeKind::Utc);
	REQUIRE(b.Milliseconds == 999 && b.Year == 1969, "year " << b.Year << ", " << b.Milliseconds << " ms");
}

KNOWN(february_29, "one year from the 29th of February is 365 days for ToIso8601 (pinned by the repository's own test) and 366 days for FromIso8601")
{
	const Time base(68169600000LL);
	const TimeDuration d = TimeDuration::FromDays(365);
	REQUIRE_EQX(TimeDurationUtility::FromIso8601(TimeDurationUtility::ToIso8601(d, base), base).GetDays(), (s64)365, "days");
}
