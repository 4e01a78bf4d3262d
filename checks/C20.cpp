// ENGINE: seq
// String utilities: formatting, pattern parsing, splitting, replacing, multi-pattern search, numeric range patterns.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/AhoCorasick.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/string/RegexUtils.h>
#include <stingraykit/string/StringFormat.h>
#include <stingraykit/string/StringParse.h>
#include <stingraykit/string/StringReader.h>
#include <stingraykit/string/StringUtils.h>
#include <cmath>
#include <map>
#include <regex>
#include <set>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<std::string> Strs;
	std::string show(const Strs& v) { std::string r; for (const auto& x : v) r += "[" + x + "]"; return r; }

	template < typename R >
	Strs items(R r) { Strs v; for (; r.Valid(); r.Next()) { v.push_back(r.Get()); if (v.size() > 500) FAIL("splitting does not end"); } return v; }

	template < typename F >
	Strs ref_split(const std::string& s, F nextDelimiter, size_t limit)
	{
		Strs v; size_t pos = 0;
		for (;;)
		{
			std::pair<size_t, size_t> d(std::string::npos, 0);
			if (limit == 0 || v.size() < limit) d = nextDelimiter(s, pos);
			if (d.first == std::string::npos) { v.push_back(s.substr(pos)); return v; }
			v.push_back(s.substr(pos, d.first - pos));
			pos = d.first + d.second;
		}
	}
	struct ByDelim { std::string d; std::pair<size_t, size_t> operator () (const std::string& s, size_t p) const { for (; p + d.size() <= s.size(); ++p) if (std::equal(d.begin(), d.end(), s.begin() + p)) return std::make_pair(p, d.size()); return std::make_pair(std::string::npos, (size_t)0); } };
	struct ByAny { std::string d; std::pair<size_t, size_t> operator () (const std::string& s, size_t p) const { for (; p < s.size(); ++p) if (d.find(s[p]) != std::string::npos) return std::make_pair(p, (size_t)1); return std::make_pair(std::string::npos, (size_t)0); } };

	template < typename R >
	void restart(Src& s, R r, const Strs& exp)
	{
		for (size_t n = s.below(exp.size() + 2); n && r.Valid(); --n) r.Next();
		r.First();
		const Strs got = items(r);
		REQUIRE(got == exp, "after First(): got " << show(got) << ", expected " << show(exp));
	}
}

PROP(split, 30000, 300000, 0, "the text was split into two or more items")
{
	const std::string str = s.text("ab,;/", 20), delim = s.chance(2, 3) ? std::string(1, ",;/"[s.below(3)]) : s.text("ab,;", 3) + s.pick({ ",", "a", "ab" });
	const std::string list = s.text("a,;/", 3); const size_t limit = s.coin() ? 0 : s.size(6);
	TR("split \"" << str << "\" by \"" << delim << "\" / any of \"" << list << "\" limit " << limit);
	const Strs exp = ref_split(str, ByDelim{ delim }, limit);
	const Strs got = items(Split(str, delim, limit));
	REQUIRE(got == exp, "got " << show(got) << ", expected " << show(exp));
	if (limit) REQUIRE(got.size() <= limit + 1, "limit exceeded");
	restart(s, Split(str, delim, limit), exp);

	const Strs expAny = ref_split(str, ByAny{ list }, limit);
	const Strs gotAny = items(Split(str, IsAnyOf(list), limit));
	REQUIRE(gotAny == expAny, "any of: got " << show(gotAny) << ", expected " << show(expAny));
	const Detail::IsAnyOfSplitStringRange kept = Split(str, IsAnyOf((list + std::string(40, ',')).c_str()), limit); // delimiters were a temporary
	const Strs expKept = ref_split(str, ByAny{ list + "," }, limit); const Strs gotKept = items(kept);
	REQUIRE(gotKept == expKept, "kept any of: got " << show(gotKept) << ", expected " << show(expKept));
	restart(s, kept, expKept);
	c.nontrivial_if(exp.size() > 1);

	// joining the pieces with the delimiter restores the text
	REQUIRE_EQX(Join(delim, Split(str, delim, limit), fn<std::string (const StringRef&)>([](const StringRef& r) { return r.str(); })), str, "join of split");
	REQUIRE_EQX(Join(delim, exp.begin(), exp.end()), str, "join of iterators");
	REQUIRE_EQX(Join(delim, ToRange(exp)), str, "join of range");
	std::vector<int> ints(s.size(5)); for (int& i : ints) i = s.integer<int>();
	std::string ji; for (size_t i = 0; i < ints.size(); ++i) ji += (i ? delim : "") + std::to_string(ints[i]);
	REQUIRE_EQX(Join(delim, ToRange(ints)), ji, "join of integers");
}

PROP(tuple_from_strings, 5000, 50000, 0, "three items were read")
{
	const int a = s.integer<int>(); const u8 b = s.integer<u8>(); const std::string w = s.text("abc", 5);
	const size_t n = s.pick({ 3, 3, 3, 0, 1, 2, 4 });
	std::vector<std::string> parts{ std::to_string(a), w, std::to_string((int)b), "9" }; parts.resize(n);
	const bool bad = n == 3 && s.chance(1, 4); if (bad) parts[s.coin() ? 0 : 2] = s.pick({ "x", "256000000000", "1x", "-" });
	int ra = 0; u8 rb = 0; std::string rw;
	const std::string text = n ? Join(" ", ToRange(parts)) : "";
	TR("tuple from \"" << text << "\"");
	c.nontrivial_if(n == 3);
	bool thrown = false;
	try { TupleFromStrings(ForwardAsTuple(ra, rw, rb), Split(text, " ")); } catch (const std::exception&) { thrown = true; }
	REQUIRE(thrown == (n != 3 || bad), "TupleFromStrings of " << n << " items " << (thrown ? "threw" : "did not throw"));
	if (!thrown) { REQUIRE_EQ(ra, a); REQUIRE_EQ(rw, w); REQUIRE_EQ((int)rb, (int)b); }
}

PROP(edits, 30000, 300000, 0, "a replacement, removal or strip changed the text")
{
	const std::string str = s.text("aabc -", 16), from = s.text("aab", 3), to = s.text("abX", 4), chars = s.text("ab -", 3);
	TR("text \"" << str << "\" from \"" << from << "\" to \"" << to << "\" chars \"" << chars << "\"");
	std::string exp;
	if (from.empty()) exp = str;
	else for (size_t i = 0; i < str.size(); ) if (str.compare(i, from.size(), from) == 0) { exp += to; i += from.size(); } else exp += str[i++];
	REQUIRE_EQX(ReplaceAll(str, from, to), exp, "ReplaceAll");
	c.nontrivial_if(exp != str);
	const char f = "abc "[s.below(4)], t = "Xab"[s.below(3)];
	exp = str; for (char& ch : exp) if (ch == f) ch = t;
	REQUIRE_EQX(ReplaceAll(str, f, t), exp, "ReplaceAll of characters");
	exp.clear(); for (char ch : str) if (chars.find(ch) == std::string::npos) exp += ch;
	REQUIRE_EQX(Filter(str, chars), exp, "Filter");
	exp.clear(); for (char ch : str) if (ch != f) exp += ch;
	REQUIRE_EQX(Remove(str, f), exp, "Remove");

	size_t b = 0, e = str.size();
	while (e > 0 && chars.find(str[e - 1]) != std::string::npos) --e;
	REQUIRE_EQX(RightStrip(str, chars), str.substr(0, e), "RightStrip");
	while (b < str.size() && chars.find(str[b]) != std::string::npos) ++b;
	REQUIRE_EQX(LeftStrip(str, chars), str.substr(b), "LeftStrip");
	REQUIRE_EQX(Strip(str, chars), b < e ? str.substr(b, e - b) : "", "Strip");
	REQUIRE_EQX(Strip(" \t" + str + "\r\n\f\v"), Strip(str), "default Strip");

	const std::string pre = s.coin() ? str.substr(0, s.size(str.size())) : s.text("aabc -", 4), suf = s.coin() ? str.substr(str.size() - s.size(str.size())) : s.text("aabc -", 4);
	bool st = pre.size() <= str.size(), en = suf.size() <= str.size(), co = false;
	for (size_t i = 0; st && i < pre.size(); ++i) st = str[i] == pre[i];
	for (size_t i = 0; en && i < suf.size(); ++i) en = str[str.size() - suf.size() + i] == suf[i];
	for (size_t i = 0; i + pre.size() <= str.size(); ++i) co = co || std::equal(pre.begin(), pre.end(), str.begin() + i);
	REQUIRE_EQX(StartsWith(str, pre), st, "StartsWith"); REQUIRE_EQX(EndsWith(str, suf), en, "EndsWith"); REQUIRE_EQX(Contains(str, pre), co, "Contains");
	REQUIRE_EQX(RemovePrefix(str, pre), st ? str.substr(pre.size()) : str, "RemovePrefix");
	REQUIRE_EQX(RemoveSuffix(str, suf), en ? str.substr(0, str.size() - suf.size()) : str, "RemoveSuffix");
	const size_t n = s.size(20);
	REQUIRE_EQX(ExtractPrefix(str, n), str.substr(0, std::min(n, str.size())), "ExtractPrefix");
	REQUIRE_EQX(ExtractSuffix(str, n), str.substr(str.size() - std::min(n, str.size())), "ExtractSuffix");

	const char fill = " 0x"[s.below(3)]; const std::string pad = str.size() < n ? std::string(n - str.size(), fill) : "";
	const std::string lj = LeftJustify(str, n, fill), rj = RightJustify(str, n, fill);
	REQUIRE_EQX(lj, str + pad, "LeftJustify"); REQUIRE_EQX(rj, pad + str, "RightJustify");

	std::string mixed = s.text("aAbBzZ1_[`@{", 8), lo = mixed, up = mixed;
	for (char& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32;
	for (char& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32;
	REQUIRE_EQX(ToLower(mixed), lo, "ToLower"); REQUIRE_EQX(ToUpper(mixed), up, "ToUpper");
	std::string cap = mixed, unc = mixed; if (!mixed.empty()) { cap[0] = up[0]; unc[0] = lo[0]; }
	REQUIRE_EQX(Capitalize(mixed), cap, "Capitalize"); REQUIRE_EQX(Uncapitalize(mixed), unc, "Uncapitalize");

	std::string other = s.coin() ? mixed : s.text("aAbBzZ1_", 8); for (char& ch : other) if (s.coin() && isalpha((unsigned char)ch)) ch ^= 32;
	std::string lo2 = other; for (char& ch : lo2) if (ch >= 'A' && ch <= 'Z') ch += 32;
	REQUIRE_EQX(CaseInsensitiveLess()(mixed, other), lo < lo2, "CaseInsensitiveLess"); REQUIRE_EQX(CaseInsensitiveEquals()(mixed, other), lo == lo2, "CaseInsensitiveEquals");
	REQUIRE_EQX(CaseInsensitiveLess()(string_view(mixed), string_view(other)), lo < lo2, "CaseInsensitiveLess of views"); REQUIRE_EQX(CaseInsensitiveEquals()(string_view(mixed), string_view(other)), lo == lo2, "CaseInsensitiveEquals of views");
}

PROP(edit_distance, 6000, 60000, 0, "both strings are not empty and differ")
{
	const std::string a = s.text("abc", 8), b = s.text("abc", 8);
	TR("distance \"" << a << "\" \"" << b << "\"");
	std::vector<std::vector<size_t> > d(a.size() + 1, std::vector<size_t>(b.size() + 1));
	for (size_t i = 0; i <= a.size(); ++i)
		for (size_t j = 0; j <= b.size(); ++j)
			d[i][j] = !i ? j : !j ? i : std::min(std::min(d[i - 1][j], d[i][j - 1]) + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]));
	c.nontrivial_if(!a.empty() && !b.empty() && a != b);
	REQUIRE_EQX((size_t)EditDistance(a, b), d[a.size()][b.size()], "EditDistance");
}

PROP(string_ref, 15000, 150000, 0, "the window is a proper part of the string")
{
	const std::string owner = s.text("aab", 14); const size_t b = s.size(owner.size()), e = b + s.size(owner.size() - b);
	StringRef r(owner, b, e); std::string m = owner.substr(b, e - b);
	TR("window " << b << ".." << e << " of \"" << owner << "\"");
	for (int i = 0; i < 3; ++i)
	{
		REQUIRE_EQX(r.size(), m.size(), "size"); REQUIRE_EQX(r.empty(), m.empty(), "empty"); REQUIRE_EQX(r.str(), m, "str"); REQUIRE_EQX(r.view().copy(), m, "view");
		REQUIRE(r == m && !(r != m) && !(r == m + "x"), "comparison");
		for (size_t k = 0; k < m.size(); ++k) REQUIRE_EQX(r[k], m[k], "operator []");
		const std::string p = "a" + s.text("ab", 3); const size_t pos = s.size(m.size()); const char ch = "abc"[s.below(3)];
		TR("find \"" << p << "\" from " << pos);
		REQUIRE_EQX(r.find(p, pos), m.find(p, pos), "find"); REQUIRE_EQX(r.find(ch, pos), m.find(ch, pos), "find char");
		const size_t from = s.size(m.size()), n = s.chance(1, 3) ? std::string::npos : s.size(m.size() + 5);
		TR("substr " << from << " " << n);
		r = r.substr(from, n); m = m.substr(from, n);
	}
	c.nontrivial_if(e - b > 0 && e - b < owner.size());
	REQUIRE_EQX(r.str(), m, "str");
}

PROP(format, 20000, 200000, 0, "an argument was substituted")
{
	const int a = s.integer<int>(); const std::string b = s.text("x%1", 4); const u8 d = s.integer<u8>(); const bool e = s.coin(); const std::vector<int> f(s.size(3), 5);
	const std::string vals[] = { std::to_string(a), b, std::to_string((int)d), e ? "true" : "false", ToString(f) };
	std::string fmt, exp; bool bad = false;
	for (size_t n = s.size(6); n-- && !bad; )
	{
		switch (s.below(6))
		{
		case 0: case 1: { const std::string t = s.text("ab $1", 4); fmt += t; exp += t; break; }
		case 2: fmt += "%%"; exp += "%"; break;
		case 3: { const size_t i = s.below(5); fmt += "%" + std::to_string(i + 1) + "%"; exp += vals[i]; c.nontrivial_if(true); break; }
		case 4:
			{
				const size_t i = s.below(5), w = s.size(14); fmt += "%" + std::to_string(i + 1) + "$" + std::to_string(w) + "%";
				c.nontrivial_if(true); c.label("width");
				if (vals[i].size() < w) exp += std::string(w - vals[i].size(), '0');
				exp += vals[i]; break;
			}
		default: if (s.chance(1, 4)) { fmt += s.pick({ "%0%", "%6%", "%", "%x%", "%$%", "%1$%", "%$3%", "%-1%", "%1x%", "%99999999999999999999%", "%1$x%" }); bad = true; } break;
		}
	}
	TR("format \"" << fmt << "\"");
	bool thrown = false; std::string got;
	try { got = StringFormat(fmt, a, b, d, e, f); } catch (const std::exception&) { thrown = true; }
	c.label(bad ? "malformed" : "good");
	REQUIRE(thrown == bad, "format \"" << fmt << "\" " << (bad ? "accepted" : "rejected"));
	if (!bad) REQUIRE_EQX(got, exp, "formatted");
}

PROP(parse, 30000, 300000, 0, "two or more values were parsed")
{
	// a pattern made of fields and separators which cannot occur in the fields
	const int a = s.integer<int>(); const std::string w = s.text("abc", 4) + "w"; const u16 u = s.integer<u16>(); const char ch = "xyz"[s.below(3)];
	std::vector<int> fields; for (int i = 0; i < 4; ++i) if (s.chance(2, 3)) fields.push_back(i);
	for (size_t i = fields.size(); i > 1; --i) std::swap(fields[i - 1], fields[s.below(i)]);
	std::string fmt, text; bool bad = false;
	static const char* const seps[] = { "; ", ":", " / ", "::", ", " };
	const std::string lead = s.chance(1, 3) ? s.pick({ ";", "(", "* " }) : "", tail = s.chance(1, 3) ? s.pick({ ".", ")", " !" }) : "";
	fmt += lead; text += lead;
	for (size_t i = 0; i < fields.size(); ++i)
	{
		if (i) { const std::string sep = seps[s.below(5)]; fmt += sep; text += sep; }
		const bool skip = s.chance(1, 6);
		fmt += skip ? "%_%" : "%" + std::to_string(fields[i] + 1) + "%";
		switch (fields[i]) { case 0: text += std::to_string(a); break; case 1: text += w; break; case 2: text += std::to_string(u); break; default: text += ch; }
		if (skip) fields[i] = -1;
	}
	fmt += tail; text += tail;
	int ra = 0; std::string rw = "?"; optional<u16> ru; char rc = '?';
	TR("parse \"" << text << "\" by \"" << fmt << "\"");
	REQUIRE((StringParse(text, fmt, ra, rw, ru, rc)), "\"" << text << "\" does not match \"" << fmt << "\"");
	for (int f : fields)
		switch (f)
		{
		case 0: REQUIRE_EQX(ra, a, "int"); break;
		case 1: REQUIRE_EQX(rw, w, "string"); break;
		case 2: REQUIRE(ru && *ru == u, "u16"); break;
		case 3: REQUIRE_EQX(rc, ch, "char"); break;
		}
	c.nontrivial_if(fields.size() > 1);

	// changed text must not match, unless the change only touches a field of a string or an ignored one
	std::string t = text; std::string what;
	switch (s.below(4))
	{
	case 0: if (!lead.empty()) { t = "w" + text; what = "text before"; bad = true; } break;
	case 1: if (!tail.empty()) { t = text + "w"; what = "text after"; bad = true; } break;
	case 2: if (!lead.empty()) { t = text.substr(1); what = "shortened"; bad = true; } break;
	default: if (!tail.empty()) { t.erase(t.size() - 1); what = "cut"; bad = true; } break;
	}
	if (bad)
	{
		TR(what << ": \"" << t << "\"");
		c.label("mismatch");
		REQUIRE((!StringParse(t, fmt, ra, rw, ru, rc)), "\"" << t << "\" matches \"" << fmt << "\"");
	}
	int n = 0; const std::string num = s.text("0123456789-", 11);
	optional<int> ref; try { ref = FromString<int>(num); } catch (const std::exception&) { }
	TR("number \"" << num << "\"");
	const bool ok = StringParse("v=" + num + ";", "v=%1%;", n);
	REQUIRE_EQX(ok, ref.is_initialized(), "number field \"" + num + "\"");
	if (ok) REQUIRE_EQX(n, *ref, "number field");
	int x = 0; REQUIRE((THROWS(StringParse("1 2", "%1% %2%", x))), "index of a missing argument accepted");
	int viaProxy = 0; REQUIRE((StringParse("v=" + std::to_string(u) + ".", "v=%1%.", *MakeParseProxy(viaProxy, fn<int (const std::string&)>([](const std::string& p) { return -FromString<int>(p); })))) && viaProxy == -(int)u, "proxy");
}

PROP(multi_search, 12000, 120000, 0, "two or more occurrences")
{
	AhoCorasick ac; std::set<std::string> used; Strs pats;
	const bool bin = s.chance(1, 4); const char* alpha = bin ? "\x01\xff\x80" : "ab";
	for (size_t n = s.range(0, 6); n--; )
	{
		const std::string p = s.text(alpha, 5) + alpha[s.below(2)];
		if (!used.insert(p).second) continue;
		REQUIRE_EQX(ac.Add(p), pats.size(), "index of a pattern"); pats.push_back(p);
	}
	const std::string text = s.text(alpha, 30);
	TR("patterns " << show(pats) << " text \"" << text << "\"");
	typedef std::multiset<std::pair<size_t, size_t> > Found;
	Found exp, got;
	for (size_t i = 0; i < pats.size(); ++i) for (size_t p = 0; p + pats[i].size() <= text.size(); ++p) if (text.compare(p, pats[i].size(), pats[i]) == 0) exp.insert(std::make_pair(p, i));
	REQUIRE((THROWS(ac.Search(text, [](const std::string&, size_t, size_t) { }))), "search before Build()");
	ac.Build();
	REQUIRE((THROWS(ac.Build())) && (THROWS(ac.Add("x"))), "changed after Build()");
	size_t lastEnd = 0;
	ac.Search(text, [&](const std::string& p, size_t i, size_t pos)
	{
		REQUIRE(i < pats.size() && p == pats[i], "reported pattern " << i << " is \"" << p << "\"");
		REQUIRE(pos + p.size() >= lastEnd, "matches are reported out of order"); lastEnd = pos + p.size();
		got.insert(std::make_pair(pos, i));
	});
	c.nontrivial_if(exp.size() > 1);
	for (const auto& x : exp) REQUIRE(got.count(x) == 1, "\"" << pats[x.second] << "\" at " << x.first << " reported " << got.count(x) << " times");
	REQUIRE_EQX(got.size(), exp.size(), "number of matches");
}

PROP(lines, 10000, 100000, 0, "two or more lines")
{
	const std::string text = s.text("ab\n\r", 14);
	StringReader r(text); Strs exp, got; std::string cur;
	size_t i = 0;
	while (i < text.size())
	{
		if (text[i] == '\n' || text[i] == '\r') { i += text[i] == '\r' && i + 1 < text.size() && text[i + 1] == '\n' ? 2 : 1; exp.push_back(cur); cur.clear(); }
		else cur += text[i++];
	}
	if (!cur.empty()) exp.push_back(cur);
	size_t pos = 0;
	while (!r.IsEndOfString())
	{
		REQUIRE_EQX(r.Peek(), text.at(pos), "Peek");
		got.push_back(r.ReadLine()); REQUIRE(got.size() <= text.size(), "reading does not end");
		pos += got.back().size(); pos += text.compare(pos, 2, "\r\n") == 0 ? 2 : 1;
	}
	c.nontrivial_if(exp.size() > 1);
	REQUIRE(got == exp, "lines " << show(got) << ", expected " << show(exp));
	REQUIRE_EQX(r.ReadLine(), "", "line after the end"); REQUIRE((THROWS(r.Peek())), "Peek at the end");
}

namespace
{
	// own matcher for the language of the generated patterns: alternatives of digits and classes [a-b], [ab]
	// (std::regex recurses and is slow); falls back to std::regex when it meets anything else
	bool parse_alts(const std::string& re, std::vector<std::vector<std::pair<char, char> > >& out)
	{
		std::string r = re;
		if (!r.empty() && r[0] == '(') { if (r.back() != ')') return false; r = r.substr(1, r.size() - 2); if (r.compare(0, 2, "?:") == 0) r.erase(0, 2); }
		out.push_back({});
		for (size_t i = 0; i < r.size(); ++i)
		{
			if (r[i] == '|') out.push_back({});
			else if (r[i] >= '0' && r[i] <= '9') out.back().push_back(std::make_pair(r[i], r[i]));
			else if (r.compare(i, 2, "\\d") == 0) { out.back().push_back(std::make_pair('0', '9')); ++i; }
			else if (r[i] == '[' && i + 4 < r.size() && r[i + 2] == '-' && r[i + 4] == ']') { out.back().push_back(std::make_pair(r[i + 1], r[i + 3])); i += 4; }
			else if (r[i] == '[' && i + 3 < r.size() && r[i + 3] == ']' && r[i + 2] == r[i + 1] + 1) { out.back().push_back(std::make_pair(r[i + 1], r[i + 2])); i += 3; }
			else return false;
		}
		return true;
	}
}

PROP(numeric_range_pattern, 6000, 60000, 0, "the range has two or more values")
{
	const u64 a = s.integer<u64>(); u64 b = s.coin() ? s.integer<u64>() : a + s.below(2000);
	u64 lo = std::min(a, b), hi = std::max(a, b);
	if (s.chance(1, 4)) { const u64 p = (u64)std::pow(10.0, (double)s.below(19)); lo = s.coin() ? p : p - s.below(3); hi = std::max(lo, s.coin() ? p * 10 - 1 : p * (u64)s.range(1, 9) + s.below(3)); }
	const bool match = s.coin();
	TR("pattern of " << lo << ".." << hi);
	const std::string re = GenerateNumericRangeRegex(lo, hi, match);
	TR("is " << re);
	c.nontrivial_if(lo != hi);
	std::vector<std::vector<std::pair<char, char> > > alts;
	const bool own = parse_alts(re, alts);
	const std::regex rx(own ? "0" : re);
	auto probe = [&](u64 v, bool canonical)
	{
		const std::string t = ToString(v) ;
		bool m = false;
		if (own) for (const auto& alt : alts)
		{
			if (alt.size() != t.size()) continue;
			bool all = true; for (size_t i = 0; i < t.size() && all; ++i) all = t[i] >= alt[i].first && t[i] <= alt[i].second;
			m = m || all;
		}
		else m = std::regex_match(t, rx);
		REQUIRE_EQX(m, v >= lo && v <= hi, "match of " + t + " against " + re);
		(void)canonical;
	};
	for (int d = -12; d <= 12; ++d)
	{
		if (d >= 0 || lo >= (u64)-d) probe(lo + d, true);
		if (d <= 0 || hi <= ~(u64)0 - d) probe(hi + d, true);
	}
	u64 p = 1; for (int i = 0; i < 20; ++i, p *= 10) { probe(p, true); probe(p - 1, true); probe(p + 1, true); probe(lo / p * p, true); probe(lo / p * p - 1, true); probe(hi / p * p, true); probe(hi / p * p - 1, true); }
	for (int i = 0; i < 12; ++i) { probe(s.integer<u64>(), true); if (hi > lo) probe(lo + s.draw(0) % (hi - lo), true); }
	if (s.chance(1, 20)) REQUIRE(std::regex_match(ToString(lo), std::regex(re)) && std::regex_match(ToString(hi), std::regex(re)), "std::regex disagrees");
	if (lo < hi) REQUIRE((THROWS(GenerateNumericRangeRegex(hi, lo, match))), "reversed range accepted");
}
