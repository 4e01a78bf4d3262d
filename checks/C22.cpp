// ENGINE: seq
// Text encodings: UTF-8 iteration, validation and cutting, encoding conversions, locale strings, collation.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/locale/StringCodec.h>
#include <stingraykit/locale/Translit.h>
#include <stingraykit/string/Unicode.h>
#include <stingraykit/string/Utf8StringUtils.h>
#include <iconv.h>
#include <map>
#include <set>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<u32> Points;

	std::string show(const Points& v) { char b[16]; std::string r; for (u32 c : v) { snprintf(b, sizeof b, "U+%X ", c); r += b; } return r; }
	std::string hex(const std::string& v) { char b[8]; std::string r; for (u8 c : v) { snprintf(b, sizeof b, "%02x ", c); r += b; } return r; }

	u32 point(Src& s)
	{
		u32 c;
		switch (s.weighted({ 4, 2, 2, 2, 3 }))
		{
		case 0: c = s.range<u32>(1, 0x7f); break;
		case 1: c = s.range<u32>(0x80, 0x7ff); break;
		case 2: c = s.range<u32>(0x800, 0xffff); break;
		case 3: c = s.range<u32>(0x10000, 0x10ffff); break;
		default: c = s.pick<u32>({ 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x103ff, 0x10400, 0xfffff, 0x100000, 0x10fc00, 0x10ffff, 0, 0xfeff });
		}
		return c >= 0xd800 && c <= 0xdfff ? c - 0x800 : c;
	}
	Points points(Src& s, size_t max) { Points v; for (size_t n = s.size(max); n; --n) v.push_back(point(s)); return v; }

	void put8(std::string& r, u32 c)
	{
		if (c < 0x80) { r += (char)c; return; }
		const int n = c < 0x800 ? 1 : c < 0x10000 ? 2 : 3;
		r += (char)((0xff00 >> (n + 1)) | (c >> 6 * n));
		for (int i = n - 1; i >= 0; --i) r += (char)(0x80 | ((c >> 6 * i) & 63));
	}
	std::string enc8(const Points& v) { std::string r; for (u32 c : v) put8(r, c); return r; }
	void put16(std::string& r, u32 c, bool be) { const char h = (char)(c >> 8), l = (char)c; if (be) { r += h; r += l; } else { r += l; r += h; } }
	std::string enc16(const Points& v, bool be)
	{
		std::string r;
		for (u32 c : v)
			if (c < 0x10000) put16(r, c, be);
			else { put16(r, 0xd800 + ((c - 0x10000) >> 10), be); put16(r, 0xdc00 + ((c - 0x10000) & 0x3ff), be); }
		return r;
	}
	std::string enc32(const Points& v, bool be) { std::string r; for (u32 c : v) for (int i = 0; i < 4; ++i) r += (char)(c >> 8 * (be ? 3 - i : i)); return r; }

	// Well-formedness from table 3-7 of the Unicode standard. Returns the length of the well-formed sequence at p, 0 if there is none.
	size_t wellformed(const std::string& t, size_t p)
	{
		const auto in = [&](size_t i, int lo, int hi) { return i < t.size() && (u8)t[i] >= lo && (u8)t[i] <= hi; };
		const int c = (u8)t[p];
		if (c < 0x80) return 1;
		if (c >= 0xc2 && c <= 0xdf) return in(p + 1, 0x80, 0xbf) ? 2 : 0;
		if (c >= 0xe0 && c <= 0xef) return in(p + 1, c == 0xe0 ? 0xa0 : 0x80, c == 0xed ? 0x9f : 0xbf) && in(p + 2, 0x80, 0xbf) ? 3 : 0;
		if (c >= 0xf0 && c <= 0xf4) return in(p + 1, c == 0xf0 ? 0x90 : 0x80, c == 0xf4 ? 0x8f : 0xbf) && in(p + 2, 0x80, 0xbf) && in(p + 3, 0x80, 0xbf) ? 4 : 0;
		return 0;
	}
	bool wellformed(const std::string& t) { for (size_t p = 0; p < t.size(); ) { const size_t n = wellformed(t, p); if (!n) return false; p += n; } return true; }
	u32 decode1(const std::string& t, size_t p, size_t n) { u32 c = n == 1 ? (u8)t[p] : (u8)t[p] & (0x7f >> n); for (size_t i = 1; i < n; ++i) c = c << 6 | ((u8)t[p + i] & 63); return c; }

	// Mostly sequences at the edges of what is well-formed.
	std::string rough(Src& s, size_t max)
	{
		std::string t;
		for (size_t n = s.size(max); n; --n)
			switch (s.weighted({ 3, 3, 3, 2 }))
			{
			case 0: put8(t, point(s)); break;
			case 1: { std::string one; put8(one, point(s)); one.resize(s.below(one.size()) ); t += one; break; }
			case 2:
			{
				const u8 c = s.pick<u8>({ 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff });
				t += (char)c;
				for (size_t k = s.chance(3, 4) ? (c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3) : s.below(4), i = 0; i < k; ++i)
					t += (char)s.pick<u8>({ 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x7f, 0xc0 });
				break;
			}
			default: t += (char)s.range<int>(0, 255);
			}
		return t;
	}

	template < typename C > C container(const std::string& t) { return C(t.begin(), t.end()); }
	template < > string_view container<string_view>(const std::string& t) { return t; }

	template < typename C >
	void walk(Src& s, const std::string& t, const Points& exp)
	{
		const C c = container<C>(t);
		typedef Utf8IteratorRange<C> R;
		std::vector<size_t> at; for (size_t p = 0; p < t.size(); p += wellformed(t, p)) at.push_back(p);
		at.push_back(t.size());

		R r(c); size_t i = 0;
		for (size_t n = 0, steps = 3 * exp.size() + 4; n < steps; ++n)
		{
			REQUIRE_EQX(r.Valid(), i < exp.size(), "Valid() at character " << i);
			REQUIRE_EQX((size_t)std::distance(c.begin(), r.GetIterator()), at[i], "byte position of character " << i);
			if (r.Valid()) REQUIRE_EQX(r.Get(), exp[i], "character " << i);
			switch (n < exp.size() ? 0 : s.below(6))
			{
			case 0: case 1: if (i < exp.size()) { r.Next(); ++i; } else REQUIRE(THROWS(r.Next()) && THROWS(r.Get()), "stepping or reading past the end is not refused"); break;
			case 2: case 3: if (i) { r.Prev(); --i; } else REQUIRE(THROWS(r.Prev()), "Prev() at the first character is not refused"); break;
			case 4: r.First(); i = 0; break;
			default: r.Last(); i = exp.empty() ? 0 : exp.size() - 1; break;
			}
		}
		const size_t k = s.below(at.size());
		R mid(c, std::next(c.begin(), at[k]));
		REQUIRE_EQX(mid.Valid(), k < exp.size(), "Valid() of a range starting at character " << k);
		if (mid.Valid()) REQUIRE_EQX(mid.Get(), exp[k], "first character of a range starting at " << k);
		REQUIRE_EQX(mid.Equals(r), i == k, "Equals() of two ranges over the same text");
	}
}

PROP(utf8_walk, 40000, 400000, 0, "the text has a multi-byte character")
{
	const Points v = points(s, 12); const std::string t = enc8(v);
	TR("walk " << show(v));
	c.nontrivial_if(t.size() > v.size());
	switch (s.below(3))
	{
	case 0: walk<std::string>(s, t, v); break;
	case 1: walk<string_view>(s, t, v); break;
	default: walk<std::vector<u8>>(s, t, v);
	}
	REQUIRE_EQX(Utf8Strlen(t), v.size(), "Utf8Strlen");
	REQUIRE(Utf8Validate(t), "Utf8Validate refuses well-formed text");
	std::string packed; for (u32 c : v) StringCodec::PackUtf8(packed, c, '?');
	REQUIRE(packed == t, "PackUtf8 gives " << hex(packed) << "instead of " << hex(t));
}

PROP(utf8_malformed, 60000, 600000, 0, "the text is not well-formed")
{
	const std::string t = rough(s, 5);
	TR("text " << hex(t));
	const bool ok = wellformed(t);
	c.nontrivial_if(!ok);
	REQUIRE_EQX(Utf8Validate(t), ok, "Utf8Validate of " << hex(t));

	// forwards: every well-formed prefix is delivered, then the malformed sequence is refused by Get and Next alike
	Utf8IteratorRange<std::string> r(t);
	size_t p = 0;
	while (p < t.size())
	{
		const size_t n = wellformed(t, p);
		if (!n) break;
		REQUIRE_EQX(r.Get(), decode1(t, p, n), "character at byte " << p << " of " << hex(t));
		r.Next(); p += n;
		REQUIRE_EQX((size_t)std::distance(t.begin(), r.GetIterator()), p, "position after Next() in " << hex(t));
	}
	if (p < t.size())
	{
		REQUIRE(THROWS(r.Get()), "Get() accepts the malformed sequence at byte " << p << " of " << hex(t));
		REQUIRE(THROWS(r.Next()), "Next() accepts the malformed sequence at byte " << p << " of " << hex(t));
	}

	// backwards from the end: Prev() lands on the start of a well-formed sequence that ends there, or is refused
	size_t e = t.size();
	Utf8IteratorRange<std::string> b(t, t.end());
	while (e)
	{
		size_t n = 0;
		for (size_t k = 1; k <= 4 && k <= e && !n; ++k) if (wellformed(t.substr(0, e), e - k) == k) n = k;
		if (!n) { REQUIRE(THROWS(b.Prev()), "Prev() from byte " << e << " accepts the malformed sequence before it in " << hex(t)); break; }
		b.Prev(); e -= n;
		REQUIRE_EQX((size_t)std::distance(t.begin(), b.GetIterator()), e, "position after Prev() in " << hex(t));
	}

	// conversion never fails and always gives well-formed text; well-formed sequences survive in order
	const std::string out = StringCodec::ToUtf8(LocaleString(Encoding::ISO_10646, "\xef\xbb\xbf" + t));
	REQUIRE(wellformed(out), "ToUtf8 of " << hex(t) << "gives malformed text " << hex(out));
	if (ok) REQUIRE(out == t, "ToUtf8 of well-formed " << hex(t) << "gives " << hex(out));
	std::string ascii_in, ascii_out;
	for (char c : t) if ((u8)c < 0x80 && c != '?') ascii_in += c;
	for (char c : out) if ((u8)c < 0x80 && c != '?') ascii_out += c;
	REQUIRE(ascii_in == ascii_out, "ASCII characters of " << hex(t) << "are lost in " << hex(out));
}

PROP(utf8_substring, 40000, 400000, 0, "a proper part of a text with multi-byte characters was taken")
{
	const Points v = points(s, 10); const std::string t = enc8(v);
	std::vector<size_t> at; { size_t p = 0; for (u32 c : v) { at.push_back(p); std::string one; put8(one, c); p += one.size(); } at.push_back(p); }
	const bool bySymbols = s.coin();
	const size_t len = bySymbols ? v.size() : t.size();
	const size_t pos = s.below(len + 3), count = s.chance(1, 4) ? string_view::npos : s.below(len + 3);
	TR((bySymbols ? "symbols " : "bytes ") << pos << ", " << count << " of " << hex(t));
	const auto off = [&](size_t i) { return bySymbols ? i : at[i]; };
	size_t b = 0; while (b < v.size() && off(b) < pos) ++b;
	const auto got = [&] { return bySymbols ? Utf8Substring<true>(t, pos, count) : Utf8Substring<false>(t, pos, count); };
	if (off(b) < pos) { REQUIRE(THROWS(got()), "a start past the end is not refused"); return; }
	size_t e = b; while (e < v.size() && (count == string_view::npos || off(e + 1) - off(b) <= count)) ++e;
	const std::string exp = t.substr(at[b], at[e] - at[b]), g = got();
	REQUIRE(g == exp, "Utf8Substring gives " << hex(g) << "instead of " << hex(exp));
	c.nontrivial_if(e > b && e - b < v.size() && t.size() > v.size());
}

PROP(utf16_32, 40000, 400000, 0, "the text has a character outside ASCII")
{
	const Points v = points(s, 10);
	const std::string exp = enc8(v);
	c.nontrivial_if(exp.size() > v.size());
	const size_t kind = s.below(4); const bool be = kind % 2 == 0; const bool wide = kind >= 2;
	const Encoding e = kind == 0 ? Encoding::ISO_10646_utf16BE : kind == 1 ? Encoding::ISO_10646_utf16LE : kind == 2 ? Encoding::ISO_10646_utf32BE : Encoding::ISO_10646_utf32LE;
	const auto enc = [&](const Points& p) { return wide ? enc32(p, be) : enc16(p, be); };
	const std::string t = enc(v);
	TR(e.GetName() << " " << show(v));
	std::string got = LocaleString(e, t).ToString();
	REQUIRE(got == exp, e.GetName() << " " << hex(t) << "is decoded to " << hex(got) << "instead of " << hex(exp));

	// the same behind a byte order mark
	const std::string marked = enc(Points(1, 0xfeff)) + t;
	const bool clash = kind == 1 && t.size() >= 2 && !t[0] && !t[1];   // FF FE 00 00 is the UTF-32 mark
	size_t bom = 77;
	const optional<Encoding> found = StringCodec::GetEncoding(marked, bom);
	if (!clash)
	{
		REQUIRE(found && *found == e, "the byte order mark of " << hex(marked) << "is not recognised as " << e.GetName());
		REQUIRE_EQX(bom, (size_t)(wide ? 4 : 2), "size of the byte order mark");
		got = StringCodec::ToUtf8(LocaleString(Encoding::ISO_10646, marked));
		REQUIRE(got == exp, "marked text " << hex(marked) << "is decoded to " << hex(got) << "instead of " << hex(exp));
	}
	const bool looksMarked = !v.empty() && (v[0] == 0xfeff || v[0] == 0xfffe || ((v[0] >> 8) == 0xef && v.size() > 0) );
	if (kind == 0 && !looksMarked && !(v.size() > 1 && v[0] == 0 && v[1] == 0xfeff))
	{
		got = StringCodec::ToUtf8(LocaleString(Encoding::ISO_10646, t));
		REQUIRE(got == exp, "unmarked ISO_10646 text " << hex(t) << "is decoded to " << hex(got) << "instead of " << hex(exp));
	}

	// cut anywhere: what comes before the cut is intact, the rest is at most one replacement
	const size_t cut = s.below(t.size() + 1);
	std::string whole; size_t used = 0;
	for (u32 c : v) { const size_t n = enc(Points(1, c)).size(); if (used + n > cut) break; used += n; put8(whole, c); }
	if (used < cut) whole += '#';
	got = StringCodec::ToUtf8(LocaleString(e, t.substr(0, cut)), '#');
	REQUIRE(got == whole, "cut text " << hex(t.substr(0, cut)) << "is decoded to " << hex(got) << "instead of " << hex(whole));

	// arbitrary bytes give well-formed text
	const std::string junk = s.coin() ? s.bytes(12) : enc(Points(1, point(s))) + std::string(1, (char)s.pick<u8>({ 0xd8, 0xdb, 0xdc, 0xdf, 0x11, 0 })) + s.bytes(5);
	got = StringCodec::ToUtf8(LocaleString(e, junk));
	REQUIRE(wellformed(got), e.GetName() << " bytes " << hex(junk) << "become malformed UTF-8 " << hex(got));
}

namespace
{
	struct Table { std::map<u8, u32> map; bool ok; };
	const Table& table(const std::string& name)
	{
		static std::map<std::string, Table> all;
		const auto it = all.find(name);
		if (it != all.end()) return it->second;
		Table t; t.ok = false;
		const iconv_t h = iconv_open("UTF-32BE", name.c_str());
		if (h != (iconv_t)-1)
		{
			t.ok = true;
			for (int c = 0; c < 256; ++c)
			{
				char in = (char)c, out[16]; char *pi = &in, *po = out; size_t ni = 1, no = sizeof out;
				iconv(h, 0, 0, 0, 0);
				if (iconv(h, &pi, &ni, &po, &no) == (size_t)-1 || ni || sizeof out - no != 4) continue;
				t.map[(u8)c] = (u32)(u8)out[0] << 24 | (u32)(u8)out[1] << 16 | (u32)(u8)out[2] << 8 | (u8)out[3];
			}
			iconv_close(h);
		}
		return all.insert(std::make_pair(name, t)).first->second;
	}
	const char* const SingleByte[] = { "ISO-8859-1", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-10", "ISO-8859-11", "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "ISO-8859-16", "CP1251" };
	Encoding named(const std::string& n)
	{
		for (int i = 0; i <= (int)Encoding(Encoding::CP1251); ++i) { const Encoding e((Encoding::Enum)i); if (e.GetName() == n) return e; }
		FAIL("no encoding is named " << n); return Encoding();
	}
}

PROP(single_byte, 20000, 200000, 0, "the text has a character above 0x9f")
{
	const std::string name = SingleByte[s.below(sizeof(SingleByte) / sizeof(SingleByte[0]))];
	const Table& t = table(name);
	if (!t.ok) { c.label("no reference table"); return; }
	const Encoding e = named(name);
	std::string text, exp; bool high = false;
	for (size_t n = s.size(12); n; --n)
	{
		const auto it = std::next(t.map.begin(), s.chance(1, 4) ? s.below(t.map.size()) : std::min(t.map.size() - 1, 0xa0 + s.below(0x60)));
		text += (char)it->first; put8(exp, it->second); high |= it->first > 0x9f;
	}
	c.nontrivial_if(high); c.label(name.c_str());
	TR(name << " " << hex(text));
	const std::string got = LocaleString(e, text).ToString();
	REQUIRE(got == exp, name << " " << hex(text) << "is decoded to " << hex(got) << "instead of " << hex(exp));
	const std::string any = s.bytes(10);
	REQUIRE(wellformed(LocaleString(e, any).ToString()), name << " " << hex(any) << "becomes malformed UTF-8");
}

PROP(code_pages, 30000, 300000, 0, "the text has a character outside ASCII")
{
	const unsigned cp = s.pick<unsigned>({ 866, 1251, 0, 437 });
	const Table& t = table(cp == 866 ? "CP866" : cp == 1251 ? "CP1251" : "ASCII");
	if (!t.ok) { c.label("no reference table"); return; }
	// pseudographics of CP866 are documented nowhere: a replacement is as good as the character
	std::string text, exp; bool plain = true;
	for (size_t n = s.size(12); n; --n)
	{
		const u8 x = (u8)s.range<int>(0, 255);
		const auto it = t.map.find(x);
		if (cp == 1251 && it == t.map.end()) continue;
		text += (char)x;
		if (it == t.map.end() || (cp == 866 && x >= 0xb0 && x <= 0xdf)) { put8(exp, '#'); plain = false; } else put8(exp, it->second);
		if (x > 0x7f) c.nontrivial_if(true);
	}
	TR("code page " << cp << " " << hex(text));
	const LocaleString r = StringCodec::FromCodePage(text, cp, '#');
	REQUIRE(r.TextEncoding == Encoding::ISO_10646_utf8, "FromCodePage gives " << r.TextEncoding.GetName());
	if (cp == 866 && !plain) REQUIRE(wellformed(r.Text) && Utf8Strlen(r.Text) == text.size(), "FromCodePage of " << hex(text) << "gives " << hex(r.Text));
	else REQUIRE(r.Text == exp, "FromCodePage(" << cp << ") of " << hex(text) << "gives " << hex(r.Text) << "instead of " << hex(exp));

	if (cp == 866 && plain) { const std::string back = StringCodec::ToCodePage(r, 866); REQUIRE(back == text, "ToCodePage(866) of " << hex(r.Text) << "gives " << hex(back) << "instead of " << hex(text)); }

	const Points v = points(s, 8);
	const std::string out = StringCodec::ToCodePage(LocaleString::FromUtf8(enc8(v)), cp);
	REQUIRE_EQX(out.size(), v.size(), "ToCodePage gives one byte for a character");
	for (size_t i = 0; i < v.size(); ++i)
	{
		if (v[i] < 0x80) REQUIRE_EQX((u32)(u8)out[i], v[i], "ToCodePage of an ASCII character");
		else if (cp == 0 || cp == 437) REQUIRE_EQX(out[i], '?', "ToCodePage of a character the code page has not");
		else if (cp == 866)
		{
			const auto it = t.map.find((u8)out[i]);
			REQUIRE(out[i] == '?' || (it != t.map.end() && it->second == v[i]), "ToCodePage(866) turns " << show(Points(1, v[i])) << "into byte " << (int)(u8)out[i]);
		}
	}
}

PROP(locale_compare, 40000, 400000, 0, "two different encodings were compared")
{
	// characters every encoding below can express
	static const u32 Cyr[] = { 'a', 'b', 'z', 'A', 0x410, 0x42f, 0x430, 0x44f, 0x401, 0x451 };
	const auto gen = [&] { Points v; for (size_t n = s.size(4); n; --n) v.push_back(Cyr[s.below(s.coin() ? 3 : 10)]); return v; };
	const auto make = [&](const Points& v)
	{
		switch (s.below(7))
		{
		case 0: return LocaleString(Encoding::ISO_10646_utf8, enc8(v));
		case 1: return LocaleString(Encoding::ISO_10646_utf16BE, enc16(v, true));
		case 2: return LocaleString(Encoding::ISO_10646_utf16LE, enc16(v, false));
		case 3: return LocaleString(Encoding::ISO_10646_utf32BE, enc32(v, true));
		case 4: return LocaleString(Encoding::ISO_10646_utf32LE, enc32(v, false));
		default:
			const std::string name = s.coin() ? "CP1251" : "ISO-8859-5";
			std::string t; for (u32 c : v) { bool hit = false; for (const auto& p : table(name).map) if (p.second == c) { t += (char)p.first; hit = true; break; } if (!hit) return LocaleString(Encoding::ISO_10646_utf8, enc8(v)); }
			return LocaleString(named(name), t);
		}
	};
	const Points va = gen(), vb = s.chance(1, 3) ? va : gen();
	const LocaleString a = make(va), b = make(vb);
	TR(a.TextEncoding.GetName() << " " << show(va) << " against " << b.TextEncoding.GetName() << " " << show(vb));
	c.nontrivial_if(a.TextEncoding != b.TextEncoding && !va.empty());
	const int exp = va < vb ? -1 : vb < va ? 1 : 0;
	const int got = a.Compare(b);
	REQUIRE_EQX((got > 0) - (got < 0), exp, "Compare");
	REQUIRE_EQX(a < b, exp < 0, "operator <");
	REQUIRE_EQX(a == b, exp == 0, "operator ==");
	REQUIRE_EQX(a != b, exp != 0, "operator !=");
	REQUIRE(a.ToString() == enc8(va), "ToString gives " << hex(a.ToString()));
	const Encoding bad = s.pick<Encoding::Enum>({ Encoding::ISO_8859_12, Encoding::GB_2312_1980, Encoding::KSX1001_2004, Encoding::ISO_10646_big5 });
	REQUIRE(THROWS(LocaleString(bad, "x").ToString()), "an unsupported encoding is not refused");
}

PROP(collation, 6000, 60000, 0, "three different texts were compared")
{
	static const u32 L[] = { 'a', 'b', 'A', 'B', 'z', 0x430, 0x431, 0x410, 0x435, 0x451, 0x401, 0x436, ' ', '1', 0xe9 };
	const auto gen = [&] { Points v; for (size_t n = s.size(4); n; --n) v.push_back(L[s.below(15)]); return enc8(v); };
	const std::string t[3] = { gen(), gen(), gen() };
	TR("collate \"" << t[0] << "\" \"" << t[1] << "\" \"" << t[2] << "\"");
	c.nontrivial_if(t[0] != t[1] && t[1] != t[2] && t[0] != t[2]);
	static const UnicodeCollator cs(true), ci(false);
	for (int k = 0; k < 2; ++k)
	{
		const UnicodeCollator& col = k ? ci : cs;
		int m[3][3];
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = col.Compare(t[i], t[j]);
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		{
			REQUIRE_EQX(m[i][j], -m[j][i], "Compare is antisymmetric for \"" << t[i] << "\" and \"" << t[j] << "\"");
			if (t[i] == t[j]) REQUIRE_EQX(m[i][j], 0, "a text equals itself");
			else if (!k && t[i].find_first_of(" ") == std::string::npos) REQUIRE(m[i][j] != 0, "different texts \"" << t[i] << "\" and \"" << t[j] << "\" compare equal");
			for (int l = 0; l < 3; ++l) if (m[i][j] <= 0 && m[j][l] <= 0) REQUIRE(m[i][l] <= 0, "Compare is transitive for \"" << t[i] << "\", \"" << t[j] << "\", \"" << t[l] << "\"");
		}
	}
	const std::string low = Utf8ToLower(t[0]);
	REQUIRE_EQX(ci.Compare(t[0], low), 0, "\"" << t[0] << "\" differs from its lower case when case is ignored");
	std::string exp; for (size_t p = 0; p < t[0].size(); ) { const size_t n = wellformed(t[0], p); u32 c = decode1(t[0], p, n); p += n; if ((c >= 'A' && c <= 'Z') || (c >= 0x410 && c <= 0x42f)) c += 0x20; if (c == 0x401) c = 0x451; put8(exp, c); }
	REQUIRE(low == exp, "Utf8ToLower of \"" << t[0] << "\" gives \"" << low << "\"");
	// the alphabet's own order
	static const char* const Order[] = { "а", "б", "в", "г", "д", "е", "ё", "ж", "з", "и", "й", "к", "я" };
	const size_t i = s.below(13), j = s.below(13);
	const int o = cs.Compare(Order[i], Order[j]);
	REQUIRE_EQX(o, (i > j) - (i < j), "order of \"" << Order[i] << "\" and \"" << Order[j] << "\"");
	const UnicodeLess<true> less; const UnicodeEquals<true> eq;
	REQUIRE_EQX(less(t[0], t[1]), cs.Compare(t[0], t[1]) < 0, "UnicodeLess");
	REQUIRE_EQX(eq(t[0], t[1]), cs.Compare(t[0], t[1]) == 0, "UnicodeEquals");
}

PROP(translit, 30000, 300000, 0, "a transliterated part of the text was looked up")
{
	static const char* const M[][2] = { { "zh", "ж" }, { "ch", "ч" }, { "sh", "ш" }, { "yu", "ю" }, { "ya", "я" }, { "a", "а" }, { "b", "б" }, { "d", "д" }, { "f", "ф" }, { "g", "г" }, { "i", "и" }, { "l", "л" }, { "m", "м" }, { "n", "н" }, { "o", "о" }, { "p", "п" }, { "r", "р" }, { "t", "т" }, { "u", "у" }, { "v", "в" } };
	std::string text, latin; size_t from = 0, len = s.size(6), k = 0;
	const size_t b = s.below(len + 1), e = b + s.below(len - b + 1);
	for (; k < len; ++k)
	{
		const auto& m = M[s.below(20)];
		text += m[1];
		if (k >= b && k < e) latin += m[0];
	}
	(void)from;
	TR("\"" << latin << "\" in \"" << text << "\"");
	c.nontrivial_if(e > b);
	REQUIRE(TranslitMatchSubstr(latin, text), "\"" << latin << "\" is not found in \"" << text << "\"");
	const std::string junk = latin + s.pick<const char*>({ "9", "!", "Q" });
	REQUIRE(!TranslitMatchSubstr(junk, text), "\"" << junk << "\" is found in \"" << text << "\"");
	const std::string any = s.text("azhs\xd0\xb6\xd1", 6), in = s.text("azhs\xd0\xb6\xd1", 8);
	if (in.find(any) != std::string::npos) REQUIRE(TranslitMatchSubstr(any, in), "a text's own part is not found");
	else TranslitMatchSubstr(any, in);
}
