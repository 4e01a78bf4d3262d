// ENGINE: seq
// Comparers: every comparer against the order of a reference key; order axioms over triples.
#include "pbt.h"
#include <stingraykit/string/ToString.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/Comparable.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/compare/MemberToValueComparer.h>
#include <stingraykit/unique_ptr.h>
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	int sgn(int v) { return v < 0 ? -1 : v > 0; }
	template < typename K > int kcmp(const K& a, const K& b) { return a < b ? -1 : b < a ? 1 : 0; }

	// a value with its own Compare, where equality is coarser than identity
	struct Mod
	{
		int V;
		Mod(int v = 0) : V(v) { }
		int Compare(const Mod& o) const { return V % 10 - o.V % 10; } // any magnitude
	};

	struct Rec
	{
		int A; std::string B; Mod C; shared_ptr<int> D; int Tag;
		Rec() : A(), Tag() { }
		int GetA() const { return A; }
		std::string GetB() const { return B; }
		const std::string& RefB() const { return B; }
	};
	typedef std::tuple<int, std::string, int, int> Key; // D: -1 is null
	Key key(const Rec& r) { return Key(r.A, r.B, r.C.V % 10, r.D ? *r.D : -1); }

	int smallint(Src& s) { return s.chance(1, 12) ? s.pick({ std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), -1 }) : (int)s.below(4); }
	std::string smalltext(Src& s) { std::string r; for (size_t i = s.below(3); i--; ) r += (char)s.pick({ 'a', 'b', '\xff' }); return r; }
	Rec rec(Src& s) { Rec r; r.A = smallint(s); r.B = smalltext(s); r.C = Mod((int)s.below(25)); if (s.chance(3, 4)) r.D = make_shared_ptr<int>((int)s.below(3)); r.Tag = (int)s.below(1000); return r; }
	std::string show(const Rec& r) { return pbt::cat("{", r.A, ",", pbt::quote(r.B), ",", r.C.V, ",", r.D ? *r.D : -1, "}"); }

	// comparer objects made from one Cmp, all four relations, all pairs of three values, plus the axioms
	template < typename T, typename CmpF, typename LessF, typename EqF, typename GrF, typename RefF >
	void family(const std::vector<T>& v, const CmpF& cmp, const LessF& less, const EqF& eq, const GrF& gr, const RefF& ref, const char* what)
	{
		for (size_t i = 0; i < v.size(); ++i)
			for (size_t j = 0; j < v.size(); ++j)
			{
				const int r = ref(v[i], v[j]);
				REQUIRE_EQX(sgn(cmp(v[i], v[j])), r, pbt::cat(what, " cmp ", i, " ", j));
				REQUIRE_EQX((bool)less(v[i], v[j]), r < 0, pbt::cat(what, " less ", i, " ", j));
				REQUIRE_EQX((bool)eq(v[i], v[j]), r == 0, pbt::cat(what, " equals ", i, " ", j));
				REQUIRE_EQX((bool)gr(v[i], v[j]), r > 0, pbt::cat(what, " greater ", i, " ", j));
				REQUIRE_EQX(sgn(cmp(v[i], v[j])), -sgn(cmp(v[j], v[i])), pbt::cat(what, " antisymmetry"));
			}
	}
}

PROP(members, 15000, 400000, 0, "two records agree on the first member")
{
	std::vector<Rec> v; for (int i = 0; i < 3; ++i) v.push_back(i && s.chance(1, 3) ? v[s.below((size_t)i)] : rec(s));
	for (size_t i = 1; i < v.size(); ++i) { if (s.coin()) v[i].A = v[0].A; if (s.coin()) v[i].B = v[0].B; if (s.coin()) v[i].C = v[0].C; }
	for (const Rec& r : v) TR(show(r));
	c.nontrivial_if(v[0].A == v[1].A);
	const auto ref = [](const Rec& a, const Rec& b) { return kcmp(key(a), key(b)); };
	family(v, CompareMembersCmp(&Rec::A, &Rec::B, &Rec::C, &Rec::D), CompareMembersLess(&Rec::A, &Rec::B, &Rec::C, &Rec::D), CompareMembersEquals(&Rec::A, &Rec::B, &Rec::C, &Rec::D), CompareMembersGreater(&Rec::A, &Rec::B, &Rec::C, &Rec::D), ref, "fields");
	family(v, CompareMembersCmp(&Rec::GetA, &Rec::GetB, &Rec::C, &Rec::D), CompareMembersLess(&Rec::GetA, &Rec::GetB, &Rec::C, &Rec::D), CompareMembersEquals(&Rec::GetA, &Rec::RefB, &Rec::C, &Rec::D), CompareMembersGreater(&Rec::GetA, &Rec::GetB, &Rec::C, &Rec::D), ref, "getters");
	const auto swapped = [](const Rec& a, const Rec& b) { return kcmp(std::tie(a.B, a.A), std::tie(b.B, b.A)); };
	family(v, CompareMembersCmp(&Rec::B, &Rec::A), CompareMembersLess(&Rec::B, &Rec::A), CompareMembersEquals(&Rec::B, &Rec::A), CompareMembersGreater(&Rec::B, &Rec::A), swapped, "other order");
	// a custom comparer for one member
	struct ByLength : public comparers::CmpComparerInfo { int operator () (const std::string& a, const std::string& b) const { return (int)a.size() - (int)b.size(); } };
	const auto bylen = [](const Rec& a, const Rec& b) { return kcmp(std::make_pair(a.B.size(), a.A), std::make_pair(b.B.size(), b.A)); };
	family(v, CompareMembersCmp(CustomMemberComparer(&Rec::B, ByLength()), &Rec::A), CompareMembersLess(CustomMemberComparer(&Rec::B, ByLength()), &Rec::A), CompareMembersEquals(CustomMemberComparer(&Rec::B, ByLength()), &Rec::A), CompareMembersGreater(CustomMemberComparer(&Rec::B, ByLength()), &Rec::A), bylen, "custom member");
	// shared pointers to records: nulls first
	std::vector<shared_ptr<Rec>> p; for (const Rec& r : v) p.push_back(s.chance(1, 5) ? shared_ptr<Rec>() : make_shared_ptr<Rec>(r));
	const auto pref = [&](const shared_ptr<Rec>& a, const shared_ptr<Rec>& b) { return a && b ? ref(*a, *b) : a ? 1 : b ? -1 : 0; };
	const auto mc = CompareMembersCmp(&Rec::A, &Rec::B, &Rec::C, &Rec::D);
	family(p, mc, CompareMembersLess(&Rec::A, &Rec::B, &Rec::C, &Rec::D), CompareMembersEquals(&Rec::A, &Rec::B, &Rec::C, &Rec::D), CompareMembersGreater(&Rec::A, &Rec::B, &Rec::C, &Rec::D), pref, "pointers");
	// sorting by the comparer agrees with sorting by the key
	std::vector<Rec> x(v); std::stable_sort(x.begin(), x.end(), CompareMembersLess(&Rec::A, &Rec::B, &Rec::C, &Rec::D));
	std::vector<Rec> y(v); std::stable_sort(y.begin(), y.end(), [&](const Rec& a, const Rec& b) { return key(a) < key(b); });
	for (size_t i = 0; i < x.size(); ++i) REQUIRE_EQX(x[i].Tag, y[i].Tag, "stable sort");
}

PROP(plain, 15000, 400000, 0, "the values are equal or pointers")
{
	std::vector<Mod> m; std::vector<std::string> t; std::vector<int> n; std::vector<shared_ptr<Mod>> p; std::vector<shared_ptr<int>> q;
	for (int i = 0; i < 3; ++i)
	{
		m.push_back(Mod((int)s.below(25))); t.push_back(smalltext(s)); n.push_back(smallint(s));
		p.push_back(s.chance(1, 4) ? shared_ptr<Mod>() : i && s.chance(1, 4) ? p[0] : make_shared_ptr<Mod>((int)s.below(25)));
		q.push_back(s.chance(1, 4) ? shared_ptr<int>() : make_shared_ptr<int>(smallint(s)));
	}
	c.nontrivial_if(m[0].V % 10 == m[1].V % 10 || !p[0]);
	const comparers::Cmp cmp{}; const comparers::Less less{}; const comparers::Equals eq{}; const comparers::Greater gr{};
	family(m, cmp, less, eq, gr, [](const Mod& a, const Mod& b) { return kcmp(a.V % 10, b.V % 10); }, "Compare()");
	family(t, cmp, less, eq, gr, [](const std::string& a, const std::string& b) { return kcmp(a, b); }, "strings");
	family(n, cmp, less, eq, gr, [](int a, int b) { return kcmp(a, b); }, "ints");
	family(p, cmp, less, eq, gr, [](const shared_ptr<Mod>& a, const shared_ptr<Mod>& b) { return a && b ? kcmp(a->V % 10, b->V % 10) : a ? 1 : b ? -1 : 0; }, "pointers with Compare()");
	family(q, cmp, less, eq, gr, [](const shared_ptr<int>& a, const shared_ptr<int>& b) { return a && b ? kcmp(*a, *b) : a ? 1 : b ? -1 : 0; }, "pointers");
	typedef comparers::CmpToLess<comparers::Cmp> CL; typedef comparers::LessToCmp<comparers::Less> LC;
	family(t, LC(), CL(), comparers::LessToEquals<comparers::Less>(), comparers::CmpToGreater<comparers::Cmp>(), [](const std::string& a, const std::string& b) { return kcmp(a, b); }, "converted");
	family(n, comparers::LessToCmp<CL>(CL()), CL(comparers::Cmp()), comparers::CmpToEquals<comparers::Cmp>(), comparers::CmpToGreater<LC>(LC()), [](int a, int b) { return kcmp(a, b); }, "converted twice");
	family(p, PointerCmp(), PointerLess(), PointerEquals(), PointerGreater(), [](const shared_ptr<Mod>& a, const shared_ptr<Mod>& b) { return std::less<const Mod*>()(a.get(), b.get()) ? -1 : a.get() == b.get() ? 0 : 1; }, "addresses");
	// owners: same owner is equal whatever the type or the address
	std::vector<weak_ptr<Mod>> w(p.begin(), p.end());
	for (size_t i = 0; i < 3; ++i)
		for (size_t j = 0; j < 3; ++j)
		{
			const bool same = p[i].get() == p[j].get();
			REQUIRE_EQX(OwnerEquals()(p[i], p[j]), same, "OwnerEquals"); REQUIRE_EQX(OwnerEquals()(w[i], p[j]), same, "OwnerEquals weak");
			REQUIRE_EQX(sgn(OwnerCmp()(p[i], p[j])), -sgn(OwnerCmp()(p[j], p[i])), "OwnerCmp antisymmetry");
			REQUIRE_EQX(sgn(OwnerCmp()(w[i], p[j])), sgn(OwnerCmp()(p[i], w[j])), "OwnerCmp weak and shared");
			REQUIRE_EQX((bool)OwnerLess()(p[i], p[j]), OwnerCmp()(p[i], p[j]) < 0, "OwnerLess");
			REQUIRE_EQX((bool)OwnerGreater()(p[i], p[j]), OwnerCmp()(p[i], p[j]) > 0, "OwnerGreater");
			for (size_t k = 0; k < 3; ++k) if (OwnerCmp()(p[i], p[j]) < 0 && OwnerCmp()(p[j], p[k]) < 0) REQUIRE(OwnerCmp()(p[i], p[k]) < 0, "OwnerCmp transitivity");
		}
}

PROP(collections, 15000, 400000, 0, "one collection is a prefix of another or both share a prefix")
{
	std::vector<std::vector<int>> v;
	for (int i = 0; i < 3; ++i)
	{
		std::vector<int> x; if (i && s.coin()) { x = v[s.below((size_t)i)]; x.resize(s.range(0, x.size())); }
		for (size_t n = s.below(4); n--; ) x.push_back(smallint(s));
		v.push_back(x);
	}
	for (const auto& x : v) TR(pbt::show(x));
	c.nontrivial_if(!v[0].empty() && !v[1].empty() && v[0][0] == v[1][0]);
	const auto ref = [](const std::vector<int>& a, const std::vector<int>& b) { return kcmp(a, b); };
	family(v, CollectionCmp(), CollectionLess(), CollectionEquals(), CollectionGreater(), ref, "vectors");
	for (size_t i = 0; i < 3; ++i)
		for (size_t j = 0; j < 3; ++j)
		{
			const std::list<int> l(v[i].begin(), v[i].end());
			REQUIRE_EQX(sgn(CollectionCmp()(l, v[j])), ref(v[i], v[j]), "list against vector"); REQUIRE_EQX(sgn(CollectionCmp()(v[j], l)), ref(v[j], v[i]), "vector against list");
			REQUIRE_EQX((bool)CollectionEquals()(l, v[j]), v[i] == v[j], "list equals vector");
		}
	std::vector<shared_ptr<std::vector<int>>> p; for (const auto& x : v) p.push_back(s.chance(1, 5) ? null : make_shared_ptr<std::vector<int>>(x));
	family(p, CollectionCmp(), CollectionLess(), CollectionEquals(), CollectionGreater(), [&](const shared_ptr<std::vector<int>>& a, const shared_ptr<std::vector<int>>& b) { return a && b ? ref(*a, *b) : a ? 1 : b ? -1 : 0; }, "pointers to vectors");
	// nested collections and custom item order
	std::vector<std::vector<std::vector<int>>> nn; for (int i = 0; i < 3; ++i) { std::vector<std::vector<int>> x; for (size_t n = s.below(3); n--; ) x.push_back(v[s.below(3)]); nn.push_back(x); }
	typedef CollectionComparer<CollectionCmp> NC;
	family(nn, NC(), comparers::CmpToLess<NC>(), comparers::CmpToEquals<NC>(), comparers::CmpToGreater<NC>(), [](const std::vector<std::vector<int>>& a, const std::vector<std::vector<int>>& b) { return kcmp(a, b); }, "nested");
	struct Desc : public comparers::CmpComparerInfo { int operator () (int a, int b) const { return a > b ? -5 : a < b ? 5 : 0; } };
	typedef CollectionComparer<Desc> DC;
	family(v, DC(), comparers::CmpToLess<DC>(), comparers::CmpToEquals<DC>(), comparers::CmpToGreater<DC>(), [](const std::vector<int>& a, const std::vector<int>& b) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1; return kcmp(a.size(), b.size()); }, "descending items");
}

PROP(tuples, 10000, 200000, 0, "the tuples share their first item")
{
	typedef Tuple<TypeList<int, std::string, int>> T;
	std::vector<std::tuple<int, std::string, int>> k; std::vector<T> v;
	for (int i = 0; i < 3; ++i) { const int a = i && s.coin() ? std::get<0>(k[0]) : smallint(s); const std::string b = i && s.coin() ? std::get<1>(k[0]) : smalltext(s); const int d = smallint(s); k.emplace_back(a, b, d); v.push_back(T(a, b, d)); }
	c.nontrivial_if(std::get<0>(k[0]) == std::get<0>(k[1]));
	typedef TupleCmp<comparers::Cmp> TC;
	for (size_t i = 0; i < 3; ++i)
		for (size_t j = 0; j < 3; ++j)
		{
			const int r = kcmp(k[i], k[j]);
			REQUIRE_EQX(sgn(TC()(v[i], v[j])), r, "TupleCmp"); REQUIRE_EQX((bool)TupleLess<comparers::Cmp>()(v[i], v[j]), r < 0, "TupleLess");
			REQUIRE_EQX((bool)TupleGreater<comparers::Cmp>()(v[i], v[j]), r > 0, "TupleGreater"); REQUIRE_EQX((bool)TupleEquals()(v[i], v[j]), r == 0, "TupleEquals");
		}
}

PROP(member_values, 10000, 200000, 0, "the sorted sequence has several records")
{
	std::vector<Rec> v; for (size_t n = s.below(8); n--; ) v.push_back(rec(s));
	std::stable_sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.A < b.A; });
	std::vector<shared_ptr<Rec>> p; for (const Rec& r : v) p.push_back(make_shared_ptr<Rec>(r));
	std::vector<const Rec*> raw; for (const Rec& r : v) raw.push_back(&r);
	c.nontrivial_if(v.size() > 1);
	const int x = smallint(s);
	size_t lo = 0, hi = 0, eq = 0; for (const Rec& r : v) { lo += r.A < x; hi += r.A <= x; eq += r.A == x; }
	REQUIRE_EQX((size_t)(std::lower_bound(v.begin(), v.end(), x, CompareMemberLess(&Rec::A)) - v.begin()), lo, "lower_bound");
	REQUIRE_EQX((size_t)(std::upper_bound(v.begin(), v.end(), x, CompareMemberLess(&Rec::GetA)) - v.begin()), hi, "upper_bound");
	REQUIRE_EQX((size_t)(std::lower_bound(p.begin(), p.end(), x, CompareMemberLess(&Rec::GetA)) - p.begin()), lo, "lower_bound of pointers");
	REQUIRE_EQX((size_t)(std::upper_bound(raw.begin(), raw.end(), x, CompareMemberLess(&Rec::A)) - raw.begin()), hi, "upper_bound of raw pointers");
	REQUIRE_EQX((size_t)(std::lower_bound(v.rbegin(), v.rend(), x, CompareMemberGreater(&Rec::A)) - v.rbegin()), v.size() - hi, "lower_bound descending");
	REQUIRE_EQX((size_t)std::count_if(v.begin(), v.end(), CompareMemberToValue<comparers::Equals>(&Rec::A, x)), eq, "count of equal members");
	REQUIRE_EQX((size_t)std::count_if(p.begin(), p.end(), CompareMemberToValue<comparers::Less>(&Rec::GetA, x)), lo, "count of lesser members");
	REQUIRE_EQX((size_t)std::count_if(p.begin(), p.end(), CompareMemberToValue<comparers::Greater>(&Rec::A, x)), v.size() - hi, "count of greater members");
	REQUIRE_EQX((size_t)std::count_if(v.begin(), v.end(), CompareMemberToValue<std::equal_to>(&Rec::A, x)), eq, "count by std::equal_to");
	const auto ce = CompareMemberEquals(&Rec::A);
	for (const Rec& r : v) { REQUIRE_EQX((bool)ce(r, x), r.A == x, "CompareMemberEquals"); REQUIRE_EQX((bool)ce(x, r), r.A == x, "CompareMemberEquals swapped"); }
}

namespace
{
	struct Pad { virtual ~Pad() { } long pad = 7; };
	struct Ka : public Comparable<Ka> { int V; explicit Ka(int v) : V(v) { } int DoCompare(const Ka& o) const override { return V < o.V ? -3 : V > o.V ? 3 : 0; } };
	struct Kb : public Pad, public Comparable<Kb> { int V; explicit Kb(int v) : V(v) { } int DoCompare(const Kb& o) const override { return V < o.V ? -1 : V > o.V; } };
	struct Kc : public Kb { explicit Kc(int v) : Kb(v) { } };
	struct Kd : public virtual Pad, public IndifferentlyComparable<Kd> { };
}
PROP(comparables, 10000, 200000, 0, "two objects of the same type, or three of different types")
{
	std::vector<shared_ptr<IComparable>> v; std::vector<std::pair<int, int>> k;
	for (int i = 0; i < 4; ++i)
	{
		const int t = (int)s.below(4), x = (int)s.below(3);
		switch (t)
		{
		case 0: v.push_back(make_shared_ptr<Ka>(x)); break;
		case 1: v.push_back(make_shared_ptr<Kb>(x)); break;
		case 2: v.push_back(make_shared_ptr<Kc>(x)); break;
		default: v.push_back(make_shared_ptr<Kd>()); break;
		}
		k.emplace_back(t, t == 3 ? 0 : x);
	}
	c.nontrivial_if(k[0].first == k[1].first || (k[0].first != k[2].first && k[1].first != k[2].first));
	for (size_t i = 0; i < v.size(); ++i)
		for (size_t j = 0; j < v.size(); ++j)
		{
			const int r = sgn(v[i]->Compare(*v[j]));
			REQUIRE_EQX(r, -sgn(v[j]->Compare(*v[i])), "antisymmetry");
			REQUIRE_EQX(r == 0, k[i] == k[j], "equality");
			if (k[i].first == k[j].first) REQUIRE_EQX(r, kcmp(k[i].second, k[j].second), "order within a type");
			REQUIRE_EQX(sgn(comparers::Cmp()(v[i], v[j])), r, "Cmp of pointers"); REQUIRE_EQX((bool)comparers::Less()(*v[i], *v[j]), r < 0, "Less of references");
			for (size_t l = 0; l < v.size(); ++l) if (r < 0 && v[j]->Compare(*v[l]) < 0) REQUIRE(v[i]->Compare(*v[l]) < 0, "transitivity");
		}
}
