// ENGINE: seq
// FLAGS: -fno-sanitize=enum
// Text conversions: printing and parsing of integers, enums, hex, UUIDs, sizes; printing of composites.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/Hex.h>
#include <stingraykit/string/HumanReadableSize.h>
#include <stingraykit/string/lexical_cast.h>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
#include <stingraykit/UUID.h>
#include <stingraykit/toolkit.h>
#include <cmath>
#include <cstdio>
#include <deque>
#include <list>
#include <map>
#include <set>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;
typedef __int128 i128;
typedef unsigned __int128 u128;

namespace
{
	std::string dec(i128 v)
	{
		if (v == 0) return "0";
		std::string r; const bool n = v < 0; u128 u = n ? -(u128)v : (u128)v;
		for (; u; u /= 10) r.insert(r.begin(), char('0' + (int)(u % 10)));
		return n ? "-" + r : r;
	}

	// -> has value?
	template < typename T >
	bool ref_parse(const std::string& str, T& out)
	{
		size_t i = 0; bool neg = false;
		if (i < str.size() && (str[i] == '-' || str[i] == '+')) neg = str[i++] == '-';
		if (i == str.size()) return false;
		i128 v = 0;
		for (; i < str.size(); ++i)
		{
			if (str[i] < '0' || str[i] > '9') return false;
			if (v < ((i128)1 << 100)) v = v * 10 + (str[i] - '0');
		}
		if (neg) v = -v;
		if (v < (i128)std::numeric_limits<T>::min() || v > (i128)std::numeric_limits<T>::max()) return false;
		out = (T)v; return true;
	}

	template < typename T >
	void parse_all(const std::string& str, bool ok, T exp)
	{
		if (ok && str[0] == '-' && !std::numeric_limits<T>::is_signed) return; // "-0" of an unsigned type: not specified
		optional<T> r;
		try { r = FromString<T>(str); } catch (const std::exception&) { }
		REQUIRE(r.is_initialized() == ok, "FromString(\"" << str << "\") " << (ok ? "rejected" : "accepted"));
		if (ok) REQUIRE_EQX(*r, exp, "FromString(\"" + str + "\")");
		const std::string padded = "7" + str + "1"; // a view must not look outside its window
		optional<T> rv;
		try { rv = FromString<T>(string_view(padded.data() + 1, str.size())); } catch (const std::exception&) { }
		REQUIRE(rv == r, "FromString(string_view) differs for \"" << str << "\"");
		if (str.find('\0') == std::string::npos)
		{
			optional<T> rc;
			try { rc = FromString<T>(str.c_str()); } catch (const std::exception&) { }
			REQUIRE(rc == r, "FromString(const char*) differs for \"" << str << "\"");
			REQUIRE(TryFromString<T>(str.c_str()) == r, "TryFromString(const char*) \"" << str << "\"");
		}
		REQUIRE(TryFromString<T>(str) == r, "TryFromString \"" << str << "\"");
		REQUIRE(TryFromString<T>(string_view(padded.data() + 1, str.size())) == r, "TryFromString(view) \"" << str << "\"");
	}

	template < typename T >
	void int_case(Src& s, Ctx& c, const char* name)
	{
		const T v = s.integer<T>();
		const std::string str = ToString(v);
		TR(name << " value " << dec(v) << " printed \"" << str << "\"");
		REQUIRE_EQX(str, dec((i128)v), "ToString");
		REQUIRE(FromString<T>(str) == v, "round trip");
		REQUIRE((lexical_cast<std::string>(v)) == str, "lexical_cast to string");
		if (!(lexical_cast<T>(str) == v)) FAIL("lexical_cast from string");
		const T viaCaster = lexical_caster(str); REQUIRE(viaCaster == v, "lexical_caster");

		std::string t;
		switch (s.below(5))
		{
		case 0: // around the limits
			{
				const i128 base = s.coin() ? (i128)std::numeric_limits<T>::max() : (i128)std::numeric_limits<T>::min();
				const i128 d = s.coin() ? (i128)s.range(-20, 20) : (i128)s.range(-20, 20) * (base == 0 ? 1 : base / 10);
				t = dec(base + d);
				c.label("limit");
				break;
			}
		case 1: t = dec(s.integer<T>()); t.insert(s.size(t.size()), 1, s.pick({ ' ', '-', '+', 'x', '.', '\t', '\0', '/', ':', 'a' })); c.label("junk"); break;
		case 2: { const i128 w = s.integer<T>(); t = (w < 0 ? "-" : s.pick({ "", "+" })) + std::string(s.size(12), '0') + dec(w < 0 ? -w : w); c.label("zeros"); break; }
		case 3: t = s.text("+-0123456789", 6); break;
		default: t = s.pick({ "", "+", "-" }); t += s.text("0123456789", 26); break;
		}
		TR("parse \"" << t << "\"");
		T exp = T(); const bool ok = ref_parse<T>(t, exp);
		c.label(ok ? "accepted" : "rejected");
		c.nontrivial_if(t.size() > 1);
		parse_all<T>(t, ok, exp);
	}
}

PROP(integers, 40000, 400000, 0, "a text of two or more characters was parsed")
{
	switch (s.below(10))
	{
	case 0: int_case<s8>(s, c, "s8"); break;
	case 1: int_case<u8>(s, c, "u8"); break;
	case 2: int_case<s16>(s, c, "s16"); break;
	case 3: int_case<u16>(s, c, "u16"); break;
	case 4: int_case<s32>(s, c, "s32"); break;
	case 5: int_case<u32>(s, c, "u32"); break;
	case 6: int_case<s64>(s, c, "s64"); break;
	case 7: int_case<u64>(s, c, "u64"); break;
	case 8: int_case<long>(s, c, "long"); break;
	default: // bool is parsed as a number of one bit
		{
			const std::string t = s.coin() ? s.text("01", 4) : s.text("+-0123", 4);
			bool exp = false; const bool ok = ref_parse<bool>(t, exp);
			TR("bool \"" << t << "\"");
			c.nontrivial_if(t.size() > 1);
			parse_all<bool>(t, ok, exp);
			break;
		}
	}
}

namespace
{
	struct Plain
	{
		STINGRAYKIT_ENUM_VALUES(Minus = -5, MinusNext, Zero = 0, One, Ten = 10, Eleven, Big = 0x7ffffffe, Low = -2147483647 - 1);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Plain);
	};
	struct Flags
	{
		STINGRAYKIT_ENUM_VALUES(A = 1, B = 2, C = 4, AB = 3, D = 0x100, Top = (int)0x80000000);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Flags);
	};
	STINGRAYKIT_DECLARE_ENUM_CLASS_BIT_OPERATORS(Flags);
	struct Overlap
	{
		STINGRAYKIT_ENUM_VALUES(None, X = 3, Y = 6, Z = 12, W = X + 13);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Overlap);
	};
	struct Single
	{
		STINGRAYKIT_ENUM_VALUES(Only);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Single);
	};

	typedef std::vector<std::pair<std::string, int> > Names;
	Names names(const Plain&) { return { { "Minus", -5 }, { "MinusNext", -4 }, { "Zero", 0 }, { "One", 1 }, { "Ten", 10 }, { "Eleven", 11 }, { "Big", 0x7ffffffe }, { "Low", -2147483647 - 1 } }; }
	Names names(const Flags&) { return { { "A", 1 }, { "B", 2 }, { "C", 4 }, { "AB", 3 }, { "D", 0x100 }, { "Top", (int)0x80000000 } }; }
	Names names(const Overlap&) { return { { "None", 0 }, { "X", 3 }, { "Y", 6 }, { "Z", 12 }, { "W", 16 } }; }
	Names names(const Single&) { return { { "Only", 0 } }; }

	template < typename E >
	void enum_case(Src& s, Ctx& c, const char* name)
	{
		typedef typename E::Enum Enum;
		const Names ns = names(E());
		std::vector<int> vals; for (const auto& n : ns) vals.push_back(n.second);
		{ // iteration gives exactly the declared values
			std::vector<int> got; for (E e : E()) got.push_back((int)e.val());
			REQUIRE(got == vals, name << ": declared values are not what iteration gives");
			REQUIRE((int)E().val() == vals.front(), name << ": default value");
		}

		int v = 0;
		switch (s.below(4))
		{
		case 0: v = s.pick_from(vals); break;
		case 1: for (size_t i = s.range(1, 4); i--; ) v |= s.pick_from(vals); c.label("combination"); break;
		case 2: v = (int)s.range(-20, 40); break;
		default: v = s.integer<int>(); break;
		}
		const E e((Enum)v);
		const std::string str = e.ToString();
		TR(name << " value " << v << " printed \"" << str << "\"");
		std::string single;
		for (const auto& n : ns) if (n.second == v && single.empty()) single = n.first;
		if (!single.empty()) REQUIRE_EQX(str, single, "name of a declared value");
		int covered = 0; for (const auto& n : ns) if ((n.second & ~v) == 0) covered |= n.second;
		if (single.empty())
		{
			if (v != 0 && covered == v)
			{ // a list of declared names
				int o = 0; std::string rest = str;
				while (!rest.empty())
				{
					const size_t p = rest.find('|'); const std::string item = rest.substr(0, p);
					bool known = false; for (const auto& n : ns) if (n.first == item) { known = true; o |= n.second; }
					REQUIRE(known, "printed name '" << item << "' is not declared");
					rest = p == std::string::npos ? "" : rest.substr(p + 1);
				}
				REQUIRE_EQX(o, v, "printed flags");
				c.label("flags");
			}
			else
			{ REQUIRE_EQX(str, dec((i128)(unsigned)v), "value without names"); c.label("number"); }
		}
		const E back = E::FromString(str);
		REQUIRE_EQX((int)back.val(), v, "enum round trip of \"" + str + "\"");
		if (!(FromString<E>(str) == e)) FAIL("FromString<Enum>");

		// parsing of written flag lists and of junk
		std::string t; int exp = 0; bool ok = true;
		const size_t n = s.range(1, 4);
		static const char* const sp[] = { "", "", "", " ", "  ", "\t" };
		for (size_t i = 0; i < n; ++i)
		{
			if (i) t += "|";
			t += sp[s.below(6)];
			if (s.chance(1, 8)) { t += s.pick({ "Nope", "a", "A1", "-1", "ABA", "on", "X.", "=" }); ok = false; }
			else { const auto& x = s.pick_from(ns); t += x.first; exp |= x.second; }
			t += sp[s.below(6)];
			if (s.chance(1, 12) ) { t += s.pick({ " x", ", ", "; ", " " }); t += s.pick_from(ns).first; ok = false; }
		}
		TR("parse \"" << t << "\"");
		bool thrown = false; int got = 0;
		try { got = (int)E::FromString(t).val(); } catch (const std::exception&) { thrown = true; }
		c.label(ok ? "list" : "bad list");
		c.nontrivial_if(n > 1 || !ok);
		if (ok) { REQUIRE(!thrown, "\"" << t << "\" rejected"); REQUIRE_EQX(got, exp, "flags of \"" + t + "\""); }
		else REQUIRE(thrown, "\"" << t << "\" accepted as " << got);

		const std::string num = s.coin() ? dec((i128)s.integer<u32>()) : s.pick({ "4294967295", "4294967296", "99999999999", "1 2", "1a", " 7 ", "7|1", "", " ", "0" });
		thrown = false;
		try { got = (int)E::FromString(num).val(); } catch (const std::exception&) { thrown = true; }
		std::string trimmed = num; while (!trimmed.empty() && trimmed[0] == ' ') trimmed.erase(0, 1); while (!trimmed.empty() && trimmed.back() == ' ') trimmed.pop_back();
		u32 u = 0; const bool nok = ref_parse<u32>(trimmed, u);
		REQUIRE(thrown == !nok, "number \"" << num << "\" " << (nok ? "rejected" : "accepted"));
		if (nok) REQUIRE_EQX((u32)got, u, "number \"" + num + "\"");
	}
}

PROP(enums, 20000, 200000, 0, "a list of two or more flags, or a malformed one, was parsed")
{
	switch (s.below(4))
	{
	case 0: enum_case<Plain>(s, c, "Plain"); break;
	case 1: enum_case<Flags>(s, c, "Flags"); break;
	case 2: enum_case<Overlap>(s, c, "Overlap"); break;
	default: enum_case<Single>(s, c, "Single"); break;
	}
}

namespace
{
	template < typename T >
	void hex_case(Src& s, Ctx& c, const char* name)
	{
		typedef typename std::make_unsigned<T>::type U;
		const T v = s.integer<T>(); const size_t width = s.coin() ? s.size(20) : 0; const bool cap = s.coin(), pre = s.coin();
		char buf[64]; snprintf(buf, sizeof buf, cap ? "%llX" : "%llx", (unsigned long long)(U)v);
		std::string exp = buf; if (exp.size() < width) exp.insert(0, width - exp.size(), '0');
		TR(name << " hex of " << dec(v) << " width " << width);
		REQUIRE_EQX(ToHex(v, width, cap, pre), (pre ? "0x" : "") + exp, "ToHex");
		snprintf(buf, sizeof buf, "%llx", (unsigned long long)(U)v);
		std::string low = buf; if (low.size() < width) low.insert(0, width - low.size(), '0');
		REQUIRE_EQX(ToString(Hex(v, width)), low, "Hex");
		if (v >= 0) { const T back = FromHex<T>(exp); REQUIRE(back == v, "FromHex(ToHex)"); }

		std::string t; bool ok = true;
		if (s.coin()) t = s.text("0123456789abcdefABCDEF", sizeof(T) * 2 + 3);
		else if (s.coin()) { t = std::string(s.size(3), '0') + exp; if (s.coin()) t += s.pick({ '0', 'f', 'g', '@', 'G', '`', '/', ':', ' ', '-', '\x90' }); }
		else { t = exp; t.insert(s.size(t.size()), 1, s.pick({ 'g', 'x', '@', '`', '/', ':', ' ', '-', '\0', '\xb1' })); }
		i128 r = 0;
		for (char ch : t)
		{
			int d = -1;
			if (ch >= '0' && ch <= '9') d = ch - '0'; else if (ch >= 'a' && ch <= 'f') d = ch - 'a' + 10; else if (ch >= 'A' && ch <= 'F') d = ch - 'A' + 10;
			if (d < 0) { ok = false; break; }
			r = r * 16 + d;
			if (r > (i128)std::numeric_limits<T>::max()) { ok = false; break; }
		}
		if (t.empty()) ok = false;
		TR("parse \"" << t << "\"");
		c.label(ok ? "accepted" : "rejected"); c.nontrivial_if(t.size() > 1);
		const std::string padded = "f" + t + "f";
		for (int mode = 0; mode < 2; ++mode)
		{
			bool thrown = false; T got = T();
			try { got = mode ? FromHex<T>(string_view(padded.data() + 1, t.size())) : FromHex<T>(t); } catch (const std::exception&) { thrown = true; }
			REQUIRE(thrown == !ok, "FromHex(\"" << t << "\") " << (ok ? "rejected" : "accepted"));
			if (ok) REQUIRE_EQX(dec((i128)got), dec(r), "FromHex(\"" + t + "\")");
		}
	}
}

PROP(hex_integers, 30000, 300000, 0, "a text of two or more characters was parsed")
{
	switch (s.below(8))
	{
	case 0: hex_case<u8>(s, c, "u8"); break;
	case 1: hex_case<s8>(s, c, "s8"); break;
	case 2: hex_case<u16>(s, c, "u16"); break;
	case 3: hex_case<s16>(s, c, "s16"); break;
	case 4: hex_case<u32>(s, c, "u32"); break;
	case 5: hex_case<s32>(s, c, "s32"); break;
	case 6: hex_case<u64>(s, c, "u64"); break;
	default: hex_case<s64>(s, c, "s64"); break;
	}
}

PROP(hex_bytes, 20000, 200000, 0, "two or more bytes")
{
	const std::vector<u8> v = u8s(s, s.chance(1, 20) ? 300 : 20);
	const bool cap = s.coin(), pre = s.coin();
	std::string exp;
	for (u8 b : v) { char x[4]; snprintf(x, sizeof x, cap ? "%02X" : "%02x", b); exp += x; }
	const ByteArray a(v.begin(), v.end());
	c.nontrivial_if(v.size() > 1);
	TR("bytes " << exp);
	const size_t width = s.coin() ? s.size(50) : 0;
	std::string wide = exp; if (wide.size() < width) wide.insert(0, width - wide.size(), '0');
	REQUIRE_EQX(ToHex(a, width, cap, pre), (pre ? "0x" : "") + wide, "ToHex of bytes");
	const ConstByteData cd(v); REQUIRE_EQX(ToHex(cd, 0, cap), exp, "ToHex of data");
	{ const ByteArray back = FromHex<ByteArray>(ToHex(a, 0, cap, pre)); REQUIRE(std::equal(back.begin(), back.end(), v.begin(), v.end()), "bytes do not survive ToHex/FromHex"); }

	// arbitrary text: an odd number of digits means that the first byte has one digit
	std::string t = exp;
	if (s.coin() && !t.empty()) t.erase(s.below(t.size()), 1);
	if (s.chance(1, 3)) t.insert(s.size(t.size()), 1, s.pick({ 'x', 'g', ' ', '-', '0', 'F', '\0' }));
	const bool p2 = s.coin();
	bool ok = true; for (char ch : t) if (!isxdigit((unsigned char)ch)) ok = false;
	std::vector<u8> ref;
	if (!p2 && t.size() >= 2 && t[0] == '0' && t[1] == 'x')
	{ ok = true; for (size_t i = 2; i < t.size(); ++i) if (!isxdigit((unsigned char)t[i])) ok = false; }
	if (ok)
	{
		std::string d = t; if (!p2 && d.size() >= 2 && d[1] == 'x') d.erase(0, 2);
		if (d.size() % 2) d.insert(0, 1, '0');
		for (size_t i = 0; i < d.size(); i += 2) ref.push_back((u8)strtoul(d.substr(i, 2).c_str(), NULL, 16));
	}
	bool thrown = false; ByteArray got;
	TR("parse \"" << (p2 ? "0x" : "") << t << "\"");
	try { got = FromHex<ByteArray>((p2 ? "0x" : "") + t); } catch (const std::exception&) { thrown = true; }
	REQUIRE(thrown == !ok, "bytes \"" << t << "\" " << (ok ? "rejected" : "accepted"));
	if (ok) REQUIRE(std::equal(got.begin(), got.end(), ref.begin(), ref.end()), "bytes of \"" << t << "\"");
}

PROP(hex_dumps, 8000, 80000, 0, "more than one line, or a truncated short dump")
{
	const std::vector<u8> v = u8s(s, s.coin() ? 70 : 12);
	const size_t width = s.coin() ? 16 : s.range(1, 40), limit = s.coin() ? 16 : s.size(40), size = s.coin() ? v.size() : s.size(80);
	const size_t n = std::min(size, v.size());
	std::string exp;
	for (size_t o = 0; o < n; o += width)
	{
		char b[16]; snprintf(b, sizeof b, "%08zx: ", o);
		if (o) exp += "\n";
		exp += b;
		for (size_t i = 0; i < width; ++i) { if (o + i < n) { snprintf(b, sizeof b, "%02x ", v[o + i]); exp += b; } else exp += "   "; }
		for (size_t i = o; i < std::min(n, o + width); ++i) exp += v[i] >= 32 && v[i] < 127 ? (char)v[i] : '.';
	}
	TR("size " << n << " width " << width);
	REQUIRE_EQX(ToString(HexDump(v, size, width)), exp, "HexDump of vector");
	REQUIRE_EQX(ToString(HexDump(v.data(), n, width)), exp, "HexDump of pointer");
	REQUIRE_EQX(ToString(HexDump(ConstByteData(v), size, width)), exp, "HexDump of data");
	REQUIRE_EQX(ToString(HexDump(ByteArray(v.begin(), v.end()), size, width)), exp, "HexDump of array");

	std::string sh = "{ ";
	for (size_t i = 0; i < std::min(v.size(), limit); ++i) { char b[8]; snprintf(b, sizeof b, "%02x ", v[i]); sh += b; }
	if (limit < v.size()) sh += "... ";
	sh += "}";
	c.nontrivial_if(n > width || limit < v.size());
	REQUIRE_EQX(ToString(ShortHexDump(v.data(), v.size(), limit)), sh, "ShortHexDump of pointer");
	REQUIRE_EQX(ToString(ShortHexDump(v, limit)), sh, "ShortHexDump of vector");
	REQUIRE_EQX(ToString(ShortHexDump(ConstByteData(v), limit)), sh, "ShortHexDump of data");
	REQUIRE_EQX(ToString(ShortHexDump(ByteArray(v.begin(), v.end()), limit)), sh, "ShortHexDump of array");

	array<u8, 6> arr; std::fill(arr.begin(), arr.end(), 0); std::copy_n(v.begin(), std::min<size_t>(6, v.size()), arr.begin());
	const std::vector<u8> av(arr.begin(), arr.end());
	REQUIRE_EQX(ToString(ShortHexDump(arr, limit)), ToString(ShortHexDump(av.data(), 6, limit)), "ShortHexDump of fixed array");
	REQUIRE_EQX(ToString(HexDump(arr, size, width)), ToString(HexDump(av, size, width)), "HexDump of fixed array");

	std::vector<u16> w; for (size_t i = 0; i + 1 < v.size(); i += 2) w.push_back((u16)(v[i] | v[i + 1] << 8));
	REQUIRE_EQX(ToString(ShortHexDump(w, limit)), ToString(ShortHexDump(v.data(), w.size() * 2, limit)), "ShortHexDump of words");
	REQUIRE_EQX(ToString(HexDump(w, size, width)), ToString(HexDump(v.data(), std::min(size, w.size()) * 2, width)), "HexDump of words");
}

PROP(uuids, 10000, 100000, 0, "the text was changed before parsing")
{
	std::vector<u8> v(16); for (u8& b : v) b = s.integer<u8>();
	const bool setv = s.chance(1, 4);
	const UUID u(ConstByteData(v), setv);
	if (setv) { v[6] = (v[6] & 0x0f) | 0x40; v[8] = (v[8] & 0x3f) | 0x80; }
	std::string exp;
	for (int i = 0; i < 16; ++i) { char b[4]; snprintf(b, sizeof b, "%02x", v[i]); exp += b; if (i == 3 || i == 5 || i == 7 || i == 9) exp += '-'; }
	TR("uuid " << exp);
	REQUIRE_EQX(u.ToString(), exp, "printed uuid");
	REQUIRE(UUID::FromString(exp) == u, "uuid round trip");
	REQUIRE_EQX(UUID::FromString(exp).ToString(), exp, "printed round trip");
	std::string up = exp; for (char& ch : up) ch = (char)toupper(ch);
	REQUIRE(UUID::FromString(up) == u, "upper case uuid");

	std::vector<u8> v2 = v; if (s.coin()) v2[s.below(16)] ^= (u8)(1 << s.below(8)); else for (u8& b : v2) b = s.integer<u8>();
	const UUID u2{ConstByteData(v2)};
	REQUIRE((u < u2) == (v < v2) && (u == u2) == (v == v2) && (u > u2) == (v > v2) && (u <= u2) == (v <= v2) && (u != u2) == (v != v2), "order of uuids");

	std::vector<u8> bad(s.pick({ 0, 1, 15, 17, 32 }));
	REQUIRE((THROWS(UUID(ConstByteData(bad)))), "uuid of " << bad.size() << " bytes accepted");

	std::string t = exp;
	switch (s.below(4))
	{
	case 0: t.erase(s.below(t.size()), 1); break;
	case 1: t.insert(s.size(t.size()), 1, s.pick({ '0', '-', ' ', '}' })); break;
	case 2: t[s.below(t.size())] = s.pick({ 'g', '-', '0', ' ', 'X', '\0', ':', '@', 'f' }); break;
	default: std::swap(t[s.below(t.size())], t[s.below(t.size())]); break;
	}
	bool ok = t.size() == 36; for (size_t i = 0; ok && i < 36; ++i) ok = i == 8 || i == 13 || i == 18 || i == 23 ? t[i] == '-' : isxdigit((unsigned char)t[i]) != 0;
	c.nontrivial_if(t != exp); c.label(ok ? "well formed" : "malformed");
	bool thrown = false; UUID r; TR("parse \"" << t << "\"");
	try { r = UUID::FromString(t); } catch (const std::exception&) { thrown = true; }
	REQUIRE(thrown == !ok, "\"" << t << "\" " << (ok ? "rejected" : "accepted"));
	if (ok) { for (char& ch : t) ch = (char)tolower(ch); REQUIRE_EQX(r.ToString(), t, "parsed uuid"); }
	const std::string g = UUID::Generate().ToString();
	REQUIRE(g[14] == '4' && strchr("89ab", g[19]), "generated uuid " << g << " is not of version 4");
}

PROP(human_sizes, 20000, 200000, 0, "a value above 1024")
{
	static const std::string suf = "kMGTPE";
	u64 v = s.integer<u64>();
	if (s.coin()) v = ((u64)s.range(1, 1100) << (10 * s.below(6))) + (u64)s.range(-3, 3);
	const float err = s.pick({ 0.0f, 0.01f, 0.01f, 0.05f, 0.19f }); const bool ws = s.chance(1, 4);
	const std::string str = ToHumanReadableSize(v, err, ws);
	TR("size " << v << " error " << err << " printed \"" << str << "\"");
	std::string plain = str; const size_t sp = plain.find(' '); if (sp != std::string::npos) plain.erase(sp, 1);
	REQUIRE((sp != std::string::npos) == ws, "white space in \"" << str << "\"");
	if (v) { REQUIRE_EQX((ToHumanReadableSize(v, err, false)), plain, "white space option"); }
	const u64 back = FromHumanReadableSize(plain);
	const long double diff = back > v ? (long double)(back - v) : (long double)(v - back);
	REQUIRE(diff <= (long double)v * (long double)err * 1.000001L, "\"" << str << "\" is too far from " << v);
	if (err == 0.0f) REQUIRE_EQX(back, v, "exact size");
	c.nontrivial_if(v > 1024);

	// parsing
	std::string t = s.coin() ? dec((i128)s.integer<u64>()) : s.text("0123456789", 22); if (s.coin()) t = t.substr(0, 6);
	if (s.coin()) { t += suf[s.below(6)]; if (s.chance(1, 6)) t += s.pick({ "k", "B", " ", "0" }); }
	else if (s.chance(1, 3)) t.insert(s.size(t.size()), 1, s.pick({ 'K', 'm', ' ', '-', 'k', 'Z', 'b', '.' }));
	u128 r = 0; bool ok = !t.empty(); size_t i = 0;
	for (; i < t.size() && isdigit((unsigned char)t[i]); ++i) if (r < ((u128)1 << 100)) r = r * 10 + (t[i] - '0');
	if (i == 0) ok = false;
	if (i < t.size()) { const size_t k = suf.find(t[i]); if (k == std::string::npos || i + 1 != t.size()) ok = false; else if (r < ((u128)1 << 65)) r <<= 10 * (k + 1); }
	if (r > (u128)std::numeric_limits<u64>::max()) ok = false;
	if (t == "-0") ok = true;
	TR("parse \"" << t << "\"");
	bool thrown = false; u64 got = 0;
	try { got = FromHumanReadableSize(t); } catch (const std::exception&) { thrown = true; }
	if (t.find('-') == 0) return; // "-0" is zero for the integer parser
	c.label(ok ? "accepted" : "rejected");
	REQUIRE(thrown == !ok, "\"" << t << "\" " << (ok ? "rejected" : "accepted") << " as " << got);
	if (ok) REQUIRE_EQX(got, (u64)r, "size of \"" + t + "\"");
}

namespace
{
	std::string join(const std::vector<std::string>& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + v[i]; return r; }
	std::string rf(int v) { return dec(v); }
	std::string rf(const std::string& v) { return v; }
	std::string rf(bool v) { return v ? "true" : "false"; }
	template < typename A, typename B > std::string rf(const std::pair<A, B>& v);
	template < typename K, typename V > std::string rf(const std::map<K, V>& v);
	template < typename T > std::string rf(const optional<T>& v);
	template < typename T > std::string rf(const shared_ptr<T>& v);
	template < typename T > std::string rf(const std::vector<T>& v);
	template < typename T > std::string rf(const std::list<T>& v);
	template < typename T > std::string rf(const std::set<T>& v);
	template < typename C > std::string refc(const C& v) { std::vector<std::string> r; for (const auto& x : v) r.push_back(rf(x)); return "[" + join(r) + "]"; }
	template < typename T > std::string rf(const std::vector<T>& v) { return refc(v); }
	template < typename T > std::string rf(const std::list<T>& v) { return refc(v); }
	template < typename T > std::string rf(const std::set<T>& v) { return refc(v); }
	template < typename A, typename B > std::string rf(const std::pair<A, B>& v) { return "(" + rf(v.first) + ", " + rf(v.second) + ")"; }
	template < typename C > std::string refm(const C& v)
	{ std::vector<std::string> r; for (const auto& x : v) r.push_back(rf(x.first) + ": " + rf(x.second)); return r.empty() ? "{ }" : "{ " + join(r) + " }"; }
	template < typename K, typename V > std::string rf(const std::map<K, V>& v) { return refm(v); }
	template < typename T > std::string rf(const optional<T>& v) { return v ? rf(*v) : "null"; }
	template < typename T > std::string rf(const shared_ptr<T>& v) { return v ? rf(*v) : "null"; }

	std::vector<int> ints(Src& s, size_t max = 5) { std::vector<int> v(s.size(max)); for (int& x : v) x = s.integer<int>(); return v; }
}

PROP(composites, 15000, 150000, 0, "at least two items somewhere")
{
	const std::vector<int> v = ints(s), w = ints(s);
	std::vector<std::string> strs(s.size(4)); for (auto& x : strs) x = s.text("ab,: ]", 5);
	c.nontrivial_if(v.size() + strs.size() > 1);
	TR("ints " << rf(v) << " strings " << rf(strs));
#define SAME(V) REQUIRE_EQX(ToString(V), rf(V), "printed " #V)
	SAME(v); SAME(strs);
	const std::list<int> l(v.begin(), v.end()); SAME(l);
	const std::set<int> st(v.begin(), v.end()); SAME(st);
	REQUIRE_EQX(ToString(std::deque<int>(v.begin(), v.end())), rf(v), "deque");
	REQUIRE_EQX(ToString(std::multiset<int>(v.begin(), v.end())), refc(std::multiset<int>(v.begin(), v.end())), "multiset");
	REQUIRE_EQX(ToString(flat_set<int>(v.begin(), v.end())), rf(st), "flat_set");
	std::map<int, std::vector<int> > m; for (int x : v) m[x] = ints(s, 3); SAME(m);
	std::map<std::string, optional<int> > mo; for (const auto& x : strs) mo[x] = s.coin() ? optional<int>(s.integer<int>()) : optional<int>(); SAME(mo);
	flat_map<int, int> fm; std::map<int, int> fr; for (int x : v) { fm[x] = x / 2; fr[x] = x / 2; }
	REQUIRE_EQX(ToString(fm), rf(fr), "flat_map");
	const std::vector<std::vector<int> > vv{ v, w, ints(s, 2) }; SAME(vv);
	const std::pair<std::vector<int>, std::string> p(v, s.text("ab,: ]", 4)); SAME(p);
	const std::vector<std::pair<int, bool> > vp{ { s.integer<int>(), s.coin() }, { 1, true } }; SAME(vp);
	const optional<std::vector<int> > o = s.coin() ? optional<std::vector<int> >(v) : optional<std::vector<int> >(); SAME(o);
	const shared_ptr<std::vector<std::string> > sp = s.coin() ? make_shared_ptr<std::vector<std::string> >(strs) : shared_ptr<std::vector<std::string> >(); SAME(sp);
	typedef Tuple<TypeList<int, std::string, bool> > T3;
	const T3 t(s.integer<int>(), s.text("ab,: ]", 4), s.coin());
	REQUIRE_EQX(ToString(t), "(" + rf(t.Get<0>()) + ", " + rf(t.Get<1>()) + ", " + rf(t.Get<2>()) + ")", "tuple");
	REQUIRE_EQX(ToString(ToRange(v)), rf(v), "range");
	const shared_ptr<IEnumerable<int> > en = EnumerableFromStlContainer(v);
	REQUIRE_EQX(ToString(*en), rf(v), "enumerable");
	REQUIRE_EQX(ToString(null), "null", "null");
	REQUIRE_EQX(ToString("abc"), "abc", "literal");
#undef SAME

	std::string b = StringBuilder() % v % "-" % s.integer<u8>() % true; // u8 is a number
	const std::string again = StringBuilder() % v % "-";
	REQUIRE(b.compare(0, again.size(), again) == 0 && again == rf(v) + "-", "StringBuilder");

	// joiner: separator only between values, prefix before the first, suffix at the end; explicit Sep / NoSep override
	const bool sep = s.coin();
	StringJoiner j("<>", "(", ")", sep); std::string je = "(";
	REQUIRE_EQX(j.ToString(), "()", "empty joiner");
	for (size_t i = 0; i < strs.size(); ++i)
	{
		const int how = (int)s.below(3);
		if (how == 0) j % strs[i]; else if (how == 1) j % Sep % strs[i]; else j % NoSep % strs[i];
		if (i && (how == 0 ? sep : how == 1)) je += "<>";
		je += strs[i];
	}
	REQUIRE_EQX(j.ToString(), je + ")", "joined");
}
