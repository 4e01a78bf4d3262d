// ENGINE: seq
// Language codes and translated strings.
#include "pbt.h"
#include "util.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/locale/LangCode.h>
#include <stingraykit/string/TranslatedStringUtils.h>
#include <map>
#include <sstream>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::map<std::string, std::string> Model;   // upper-case code ("" = any language) -> text

	std::string upper(std::string t) { for (char& c : t) if (c >= 'a' && c <= 'z') c = (char)(c - 32); return t; }
	std::string letters(Src& s) { std::string t; for (int i = 0; i < 3; ++i) t += "abzABZ"[s.below(6)]; return t; }
	LangCode code(const std::string& t) { return t.empty() ? LangCode() : LangCode(t); }

	struct Made { TranslatedString value; Model model; };

	std::string lang(Src& s) { static const char* const L[] = { "eng", "rus", "fra", "deu", "ita", "" }; return upper(L[s.below(6)]); }
	std::string word(Src& s) { return s.text("abc%1 ", 4); }

	Made make(Src& s, size_t max)
	{
		Made r;
		TranslatedString::Builder b;
		for (size_t n = s.size(max); n; --n) { const std::string l = lang(s), w = word(s); b.AddTranslation(code(l), w); r.model[l] = w; }
		r.value = b;
		return r;
	}
	std::string show(const Model& m) { std::string r; for (const auto& p : m) r += "[" + p.first + ":" + p.second + "]"; return r; }

	void same(const TranslatedString& t, const Model& m, const char* what)
	{
		Model got;
		FOR_EACH(const TranslatedString::Dictionary::PairType p IN t.GetTranslations()) REQUIRE(got.insert(std::make_pair(p.Key.ToString(), p.Value)).second, what << ": " << p.Key.ToString() << " is listed twice");
		REQUIRE(got == m, what << " holds " << show(got) << " instead of " << show(m));
		REQUIRE_EQ(t.IsEmpty(), m.empty());
		for (const char* l : { "", "ENG", "RUS", "FRA", "DEU", "ITA", "XXX" })
		{
			const auto it = *l ? m.find(l) : m.begin();
			REQUIRE_EQX(t.HasTranslation(code(l)), it != m.end(), what << ": HasTranslation(" << l << ")");
			const optional<std::string> g = t.TryGetTranslation(code(l));
			REQUIRE_EQX(!!g, it != m.end(), what << ": TryGetTranslation(" << l << ")");
			if (g) { REQUIRE_EQX(*g, it->second, what << ": TryGetTranslation(" << l << ")"); REQUIRE_EQX(t.GetTranslation(code(l)), it->second, what << ": GetTranslation(" << l << ")"); }
			else REQUIRE(THROWS(t.GetTranslation(code(l))), what << ": GetTranslation(" << l << ") of a missing language is not refused");
		}
	}
	std::string select(const Model& m, const std::vector<std::string>& langs)
	{
		for (const std::string& l : langs)
		{
			if (l.empty()) { if (!m.empty()) return m.begin()->second; continue; }
			const auto it = m.find(l);
			if (it != m.end()) return it->second;
		}
		return "";
	}
}

PROP(lang_code, 40000, 400000, 0, "two different codes were compared")
{
	const std::string a = letters(s), b = letters(s);
	TR(a << " and " << b);
	c.nontrivial_if(upper(a) != upper(b));
	const LangCode x(a), y(b);
	REQUIRE_EQX(x.ToString(), upper(a), "ToString of " << a);
	REQUIRE_EQX(LangCode(x.ToString()) == x, true, "code -> text -> code");
	REQUIRE_EQX(LangCode::FromString(a) == x, true, "FromString(" << a << ")"); REQUIRE_EQX(LangCode::From3Letter(a) == x, true, "From3Letter(" << a << ")");
	REQUIRE_EQX(x == y, upper(a) == upper(b), a << " == " << b); REQUIRE_EQX(x != y, upper(a) != upper(b), a << " != " << b);
	REQUIRE_EQX(x < y, upper(a) < upper(b), a << " < " << b); REQUIRE_EQX(x >= y, upper(a) >= upper(b), a << " >= " << b);
	const u32 n = (u32)(u8)a[0] << 16 | (u32)(u8)a[1] << 8 | (u8)a[2];
	REQUIRE_EQX(LangCode(n) == x, true, "the number of " << a << " makes another code");
	std::string two = a.substr(0, 2); for (char& ch : two) ch = (char)tolower(ch);
	REQUIRE_EQX(x.To2LetterString(), two, "To2LetterString of " << a);
	const std::string raw = s.bytes(3);
	if (raw.size() == 3 && raw.find('\0') == std::string::npos)
	{
		const u32 r = (u32)(u8)raw[0] << 16 | (u32)(u8)raw[1] << 8 | (u8)raw[2];
		REQUIRE_EQX(LangCode(r) == LangCode(raw), true, "LangCode(number) and LangCode(text) differ");
		REQUIRE(LangCode(r).ToString() == upper(raw), "LangCode(number) prints " << LangCode(r).ToString());
	}
	REQUIRE(THROWS(LangCode(n | 0x1000000u << s.below(8))), "a number of more than three bytes is accepted");
	std::string wrong = s.text("abc", 6); if (wrong.size() == 3) wrong += 'x';
	REQUIRE(THROWS(LangCode(wrong)), "the code \"" << wrong << "\" is accepted");
	const std::string ru = s.pick<const char*>({ "ru", "RU", "Ru" }), en = s.pick<const char*>({ "en", "EN", "eN" });
	REQUIRE(LangCode::FromString(ru) == LangCode::Rus() && LangCode::FromString(en) == LangCode::Eng(), "two-letter codes");
	REQUIRE(LangCode::FromString("xx") == LangCode(LangCode::Any) && LangCode().ToString().empty(), "an unknown two-letter code is any language");
}

PROP(translated, 30000, 300000, 0, "two or more languages are present and the one selected is not the first asked for")
{
	Made a = make(s, 5);
	same(a.value, a.model, "the built string");
	// changing a copy through a builder leaves the original alone
	Made b = a;
	{
		TranslatedString::Builder builder(b.value);
		for (size_t n = s.size(3); n; --n) { const std::string l = lang(s), w = word(s); builder.AddTranslation(code(l), w); b.model[l] = w; }
		b.value = s.coin() ? builder.Get() : TranslatedString(builder);
	}
	same(a.value, a.model, "the original");
	same(b.value, b.model, "the changed copy");
	TR(show(a.model) << " and " << show(b.model));

	std::vector<std::string> want; for (size_t n = 1 + s.below(3); n; --n) want.push_back(lang(s));
	std::vector<LangCode> codes; for (const auto& w : want) codes.push_back(code(w));
	const std::string exp = select(b.model, want);
	c.nontrivial_if(b.model.size() > 1 && !b.model.count(want[0]) && !exp.empty());
	REQUIRE_EQX(b.value.SelectTranslation(codes), exp, "SelectTranslation(list)");
	std::vector<std::string> any = want; any.push_back("");
	const std::string expAny = select(b.model, any);
	switch (want.size())
	{
	case 1: REQUIRE_EQX(b.value.SelectTranslation(codes[0]), expAny, "SelectTranslation(1)"); break;
	case 2: REQUIRE_EQX(b.value.SelectTranslation(codes[0], codes[1]), expAny, "SelectTranslation(2)"); break;
	default: REQUIRE_EQX(b.value.SelectTranslation(codes[0], codes[1], codes[2]), expAny, "SelectTranslation(3)");
	}
	REQUIRE_EQX(b.value.SelectTranslation(std::vector<LangCode>()), std::string(), "SelectTranslation of no language");
	const int cmp = a.value.Compare(b.value);
	REQUIRE_EQX(cmp == 0, a.model == b.model, "Compare"); REQUIRE_EQX(a.value == b.value, a.model == b.model, "operator ==");
	REQUIRE_EQX((cmp > 0) - (cmp < 0), (a.model > b.model) - (a.model < b.model), "order of " << show(a.model) << " and " << show(b.model));
	const std::string l = lang(s), w = word(s);
	Model one; one[l] = w;
	same(TranslatedString(code(l), w), one, "TranslatedString(lang, text)");
}

PROP(translated_format, 20000, 200000, 0, "the format and an argument are translated into different sets of languages")
{
	Made f; { TranslatedString::Builder b; for (size_t n = s.size(3); n; --n) { const std::string l = lang(s), w = word(s) + "%1%" + s.text("ab", 2) + (s.coin() ? "%2%" : ""); b.AddTranslation(code(l), w); f.model[l] = w; } f.value = b; }
	const Made a = make(s, 3); const int n = s.range<int>(0, 99);
	TR(show(f.model) << " with " << show(a.model) << " and " << n);
	Model exp;
	bool skip = false;
	for (const auto& p : f.model)
	{
		std::string r; const std::string& t = p.second;
		for (size_t i = 0; i < t.size(); )
			if (t.compare(i, 3, "%1%") == 0) { r += select(a.model, { p.first, "" }); i += 3; }
			else if (t.compare(i, 3, "%2%") == 0) { r += ToString(n); i += 3; }
			else { if (t[i] == '%') skip = true; r += t[i++]; }
		exp[p.first] = r;
	}
	if (!skip) { c.nontrivial_if(!f.model.empty() && a.model.size() && a.model.begin()->first != f.model.begin()->first); same(TranslatedStringFormat(f.value, a.value, n), exp, "TranslatedStringFormat"); }

	std::vector<LangCode> langs; Model built;
	for (size_t k = s.size(3); k; --k) { const std::string l = lang(s); langs.push_back(code(l)); built[l]; }
	TranslatedStringBuilder tb(langs);
	for (size_t k = s.size(4); k; --k)
		if (s.coin()) { const Made m = make(s, 2); tb % m.value; for (auto& p : built) p.second += select(m.model, { p.first, "" }); }
		else { const int v = s.range<int>(-9, 99); tb % v % "/"; for (auto& p : built) p.second += ToString(v) + "/"; }
	same(tb.Get(), built, "TranslatedStringBuilder");

	std::vector<TranslatedString> items; Model joined; for (const auto& p : built) joined[p.first];
	for (size_t k = s.size(3), i = 0; i < k; ++i) { const Made m = make(s, 2); items.push_back(m.value); for (auto& p : joined) p.second += (i ? ", " : "") + select(m.model, { p.first, "" }); }
	same(Join(langs, ", ", items), joined, "Join");
}
