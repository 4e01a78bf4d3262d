// ENGINE: seq
// string_view against std::string; the string output stream; fixed character arrays.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/string_stream.h>
#include <stingraykit/string/string_view.h>
#include <stingraykit/CharArrayProxy.h>
#include <cmath>
#include <cstdio>
#include <memory>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	int sgn(int v) { return v < 0 ? -1 : v > 0; }

	// the characters of a view live in a heap block of exactly that size, so that the sanitizer sees every look outside
	struct Exact
	{
		std::unique_ptr<char[]> p; size_t n;
		explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
		string_view view() const { return string_view(p.get(), n); }
	};

	std::string text(Src& s, size_t max) { return s.chance(1, 8) ? s.text("a\xff\x80\x01", max) : s.text("aab", max); }
	size_t position(Src& s, size_t n)
	{
		switch (s.below(6))
		{
		case 0: return string_view::npos;
		case 1: return s.pick<size_t>({ n, n + 1, n + 5, string_view::npos - 1, (size_t)1 << 63, (size_t)1 << 32 });
		default: return s.below(n + 2);
		}
	}

	template < typename F >
	std::string outcome(F f) { try { return f(); } catch (const pbt::Failure&) { throw; } catch (const std::exception&) { return "<exception>"; } }
}

PROP(search, 60000, 600000, 0, "neither text nor pattern is empty")
{
	const std::string m = text(s, 16), p = s.chance(1, 8) ? m : text(s, 4);
	const Exact em(m), ep(p); const string_view v = em.view(), q = ep.view(); const size_t pos = position(s, m.size());
	const size_t cnt = s.below(p.size() + 1); const char ch = "ab\xff"[s.below(3)];
	TR("\"" << m << "\" pattern \"" << p << "\" position " << pos << " count " << cnt);
	c.nontrivial_if(!m.empty() && !p.empty());
	const std::string pc = p.c_str();
#define BOTH(NAME, STDNAME) \
	REQUIRE_EQX(v.NAME(q, pos), m.STDNAME(p, pos), #NAME " of a view"); \
	REQUIRE_EQX(v.NAME(ch, pos), m.STDNAME(ch, pos), #NAME " of a character"); \
	REQUIRE_EQX(v.NAME(p.c_str(), pos), m.STDNAME(pc, pos), #NAME " of a literal"); \
	REQUIRE_EQX(v.NAME(ep.p.get(), pos, cnt), m.STDNAME(p.data(), pos, cnt), #NAME " of a counted pattern"); \
	REQUIRE_EQX(v.NAME(q), m.STDNAME(p), #NAME " with the default position"); \
	REQUIRE_EQX(v.NAME(ch), m.STDNAME(ch), #NAME " of a character with the default position"); \
	REQUIRE_EQX(v.NAME(p.c_str()), m.STDNAME(pc), #NAME " of a literal with the default position")
	BOTH(find, find); BOTH(rfind, rfind);
	BOTH(find_first_of, find_first_of); BOTH(find_last_of, find_last_of);
	BOTH(find_first_not_of, find_first_not_of); BOTH(find_last_not_of, find_last_not_of);
#undef BOTH
	const bool st = m.compare(0, p.size(), p) == 0, en = m.size() >= p.size() && m.compare(m.size() - p.size(), p.size(), p) == 0;
	REQUIRE_EQX(v.starts_with(q), st, "starts_with"); REQUIRE_EQX(v.ends_with(q), en, "ends_with");
	REQUIRE_EQX(v.starts_with(p.c_str()), m.compare(0, pc.size(), pc) == 0, "starts_with literal");
	REQUIRE_EQX(v.ends_with(p.c_str()), m.size() >= pc.size() && m.compare(m.size() - pc.size(), pc.size(), pc) == 0, "ends_with literal");
	REQUIRE_EQX(v.starts_with(ch), !m.empty() && m[0] == ch, "starts_with char"); REQUIRE_EQX(v.ends_with(ch), !m.empty() && m[m.size() - 1] == ch, "ends_with char");
}

PROP(compare, 40000, 400000, 0, "the texts have a common first character")
{
	const std::string a = text(s, 10); std::string b = s.coin() ? text(s, 10) : a;
	if (s.coin() && !b.empty()) b[s.below(b.size())] = "ab\xff\0"[s.below(4)];
	if (s.chance(1, 4)) b += "a";
	const Exact ea(a), eb(b); const string_view v = ea.view(), w = eb.view();
	const size_t p1 = position(s, a.size()), n1 = position(s, a.size()), p2 = position(s, b.size()), n2 = position(s, b.size());
	TR("\"" << a << "\" \"" << b << "\" " << p1 << " " << n1 << " " << p2 << " " << n2);
	c.nontrivial_if(!a.empty() && !b.empty() && a[0] == b[0]);
	const int r = sgn(a.compare(b));
	REQUIRE_EQX(sgn(v.compare(w)), r, "compare");
	REQUIRE_EQX(v == w, r == 0, "=="); REQUIRE_EQX(v != w, r != 0, "!="); REQUIRE_EQX(v < w, r < 0, "<"); REQUIRE_EQX(v > w, r > 0, ">"); REQUIRE_EQX(v <= w, r <= 0, "<="); REQUIRE_EQX(v >= w, r >= 0, ">=");
	const std::string bc = b.c_str();
	REQUIRE_EQX(sgn(v.compare(b.c_str())), sgn(a.compare(bc)), "compare with a literal");
#define SAME(X, Y) REQUIRE_EQX(outcome([&] { return std::to_string(sgn(X)); }), outcome([&] { return std::to_string(sgn(Y)); }), #X)
	SAME(v.compare(p1, n1, w), a.compare(p1, n1, b));
	SAME(v.compare(p1, n1, w, p2, n2), a.compare(p1, n1, b, p2, n2));
	SAME(v.compare(p1, n1, b.c_str()), a.compare(p1, n1, bc));
	const size_t k = std::min(n2, b.size());
	SAME(v.compare(p1, n1, eb.p.get(), k), a.compare(p1, n1, b.data(), k));
#undef SAME
	// sizes far apart: only the common part is looked at
	const string_view big(ea.p.get(), a.size() + ((size_t)1 << 32));
	REQUIRE(v.compare(big) < 0 && big.compare(v) > 0 && v != big, "a view and one that is 2^32 characters longer");
}

PROP(slices, 30000, 300000, 0, "a proper part was taken")
{
	std::string m = text(s, 16); const Exact em(m); string_view v = em.view();
	for (size_t n = s.range(1, 6); n--; )
	{
		const size_t p = position(s, m.size()), k = position(s, m.size());
		switch (s.below(4))
		{
		case 0:
			{
				TR("substr " << p << " " << k);
				const bool bad = p > m.size(); bool thrown = false; string_view r;
				try { r = v.substr(p, k); } catch (const std::exception&) { thrown = true; }
				REQUIRE_EQX(thrown, bad, "substr rejected");
				if (!bad) { c.nontrivial_if(p > 0 && p < m.size()); m = m.substr(p, k); v = r; }
				break;
			}
		case 1:
			{
				TR("remove_prefix " << p);
				const bool bad = p > m.size(); bool thrown = false;
				try { v.remove_prefix(p); } catch (const std::exception&) { thrown = true; }
				REQUIRE_EQX(thrown, bad, "remove_prefix rejected");
				if (!bad) m.erase(0, p);
				break;
			}
		case 2:
			{
				TR("remove_suffix " << p);
				const bool bad = p > m.size(); bool thrown = false;
				try { v.remove_suffix(p); } catch (const std::exception&) { thrown = true; }
				REQUIRE_EQX(thrown, bad, "remove_suffix rejected");
				if (!bad) m.resize(m.size() - p);
				break;
			}
		default:
			{
				string_view o("xy"); TR("swap");
				swap(v, o); REQUIRE_EQX(v.copy(), "xy", "swapped"); v.swap(o); REQUIRE_EQX(o.copy(), "xy", "swapped back");
			}
		}
		REQUIRE_EQX(v.copy(), m, "contents"); REQUIRE_EQX(v.size(), m.size(), "size"); REQUIRE_EQX(v.length(), m.size(), "length"); REQUIRE_EQX(v.empty(), m.empty(), "empty");
		REQUIRE_EQX(std::string(v.begin(), v.end()), m, "iteration"); REQUIRE_EQX(std::string(v.rbegin(), v.rend()), std::string(m.rbegin(), m.rend()), "reverse iteration");
		if (!m.empty()) { REQUIRE_EQX(v.front(), m[0], "front"); REQUIRE_EQX(v.back(), m[m.size() - 1], "back"); }
		const size_t i = position(s, m.size());
		REQUIRE_EQX(outcome([&] { return std::string(1, v.at(i)); }), outcome([&] { return std::string(1, m.at(i)); }), "at");
		if (i < m.size()) REQUIRE_EQX(v[i], m[i], "operator []");
		const string_view whole(m); REQUIRE(whole.data() == m.data() && whole.size() == m.size(), "view of a string");
	}
	REQUIRE(string_view().empty() && string_view().copy() == "" && string_view() == string_view(""), "default view");
}

PROP(output_stream, 25000, 250000, 0, "the pieces together are longer than 256 characters")
{
	string_ostream o; std::string m; char b[64];
	for (size_t n = s.size(s.coin() ? 12 : 60); n--; )
	{
		switch (s.below(17))
		{
#define INT(T, F, C) { const T x = s.integer<T>(); snprintf(b, sizeof b, F, (C)x); o << x; m += b; TR(#T " " << b); break; }
		case 0: INT(unsigned char, "%u", unsigned)
		case 1: INT(short, "%d", int)
		case 2: INT(unsigned short, "%u", unsigned)
		case 3: INT(int, "%d", int)
		case 4: INT(unsigned, "%u", unsigned)
		case 5: INT(long, "%ld", long)
		case 6: INT(unsigned long, "%lu", unsigned long)
		case 7: INT(long long, "%lld", long long)
		case 8: INT(unsigned long long, "%llu", unsigned long long)
#undef INT
		case 9: { const bool x = s.coin(); o << x; m += x ? "true" : "false"; break; }
		case 10: { const char x = (char)s.below(256); o << x; m += x; break; }
		case 11: { const std::string x = s.bytes(s.chance(1, 5) ? 600 : 10); o << x; m += x; TR("string of " << x.size()); break; }
		case 12: { const std::string x = s.bytes(s.chance(1, 5) ? 600 : 10); const Exact e(x); o << e.view(); m += x; TR("view of " << x.size()); break; }
		case 13: { const std::string x = s.text("abc%", s.chance(1, 5) ? 300 : 10); o << x.c_str(); m += x; TR("literal of " << x.size()); break; }
		case 14:
			{ // printed floats read back to nearly the same value
				const double x = (double)s.integer<s64>() / (double)(1 + s.below(1000)); const std::string before = o.str(); o << x;
				const std::string p = o.str().substr(before.size()); TR("double " << p);
				const double y = strtod(p.c_str(), NULL); REQUIRE(std::fabs(x - y) <= std::fabs(x) * 1e-15, "printed double " << p);
				m += p; break;
			}
		case 15: { const float x = (float)s.integer<s32>() / 8; snprintf(b, sizeof b, "%.7g", (double)x); o << x; m += b; break; }
		default: { const char x = (char)s.below(256); o.push_back(x); m += x; break; }
		}
		if (s.chance(1, 40)) { o.clear(); m.clear(); TR("clear"); }
		REQUIRE_EQX(o.empty(), m.empty(), "empty");
		if (s.chance(1, 4)) REQUIRE_EQX(o.str(), m, "collected so far");
	}
	c.nontrivial_if(m.size() > 256);
	REQUIRE_EQX(o.str(), m, "collected"); REQUIRE_EQX(o.str(), m, "collected, read again");
}

PROP(char_arrays, 6000, 60000, 0, "the text just fits or just does not")
{
	const std::string t = s.text("abc", 11); char buf[12]; memset(buf, '#', sizeof buf);
	TR("text of " << t.size());
	c.nontrivial_if(t.size() >= 6 && t.size() <= 9);
	const bool lit = s.coin();
	char* const field = buf + 2; // 8 characters in the middle
	CharArrayProxy<char, 8> p(field); bool thrown = false;
	try { if (lit) p = t.c_str(); else p = t; } catch (const std::exception&) { thrown = true; }
	REQUIRE_EQX(thrown, t.size() >= 8, "text of " + std::to_string(t.size()) + " characters rejected");
	REQUIRE(buf[0] == '#' && buf[1] == '#' && buf[10] == '#' && buf[11] == '#', "written outside of the array");
	if (!thrown) REQUIRE_EQX(std::string(field), t, "contents");
	thrown = false; std::string got;
	try { StringToCharArrayHelper<8> h(t); got = (char*)h; } catch (const std::exception&) { thrown = true; }
	REQUIRE_EQX(thrown, t.size() >= 8, "helper"); if (!thrown) REQUIRE_EQX(got, t, "contents of the helper");
}
