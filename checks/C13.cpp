// ENGINE: seq
// FLAGS: -fno-sanitize=pointer-overflow
// ByteArray / ByteData / BytesOwner: every view is modelled as (shared buffer, window).
#include "pbt.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/BytesOwner.h>
#include <map>
#include <memory>
#include <vector>

using namespace stingray;
typedef pbt::Src Src;
typedef pbt::Ctx Ctx;

namespace
{
	typedef std::vector<u8> Bytes;
	const size_t Unlimited = (size_t)-1;
	struct MView
	{
		std::shared_ptr<Bytes>	buf; size_t offset, limit;
		size_t avail() const { return buf->size() >= offset ? std::min(buf->size() - offset, limit) : 0; }
		Bytes bytes() const { return avail() ? Bytes(buf->begin() + offset, buf->begin() + offset + avail()) : Bytes(); }
	};

	Bytes randomBytes(Src& s, size_t max) { const std::string b = s.bytes(max); return Bytes(b.begin(), b.end()); }
	// in range, at the border, just over it, or huge so that sums overflow
	size_t someIndex(Src& s, size_t n)
	{
		switch (s.weighted({ 8, 2, 2, 1, 1, 1 }))
		{
		case 0: return s.below(n + 1);
		case 1: return n;
		case 2: return n + 1 + s.below(4);
		case 3: return (size_t)0 - 1 - s.below(n + 8);
		case 4: return (size_t)0 - n;
		default: return s.integer<size_t>();
		}
	}

	template < typename V, typename It >
	Bytes walk(const V&, It b, It e) { Bytes r; for (; b != e; ++b) r.push_back(*b); return r; }

	template < typename A >
	void checkArray(const A& cv, const MView& m, Src& s)
	{
		const Bytes e = m.bytes();
		REQUIRE_EQ(cv.size(), e.size()); REQUIRE_EQ(cv.empty(), e.empty());
		A v(cv);
		REQUIRE_EQ(walk(v, v.begin(), v.end()), e); REQUIRE_EQ(walk(cv, cv.begin(), cv.end()), e);
		const Bytes re(e.rbegin(), e.rend());
		REQUIRE_EQ(walk(v, v.rbegin(), v.rend()), re); REQUIRE_EQ(walk(cv, cv.rbegin(), cv.rend()), re);
		for (size_t i = 0; i < e.size(); ++i) REQUIRE_EQ(cv[i], e[i]);
		REQUIRE_EQ(cv.data() == NULL, e.empty());
		if (!e.empty()) REQUIRE_EQ(Bytes(cv.data(), cv.data() + cv.size()), e);
		if (s.chance(1, 30)) { REQUIRE(THROWS(cv[e.size()]), "reading past the end"); REQUIRE(THROWS(cv[(size_t)-1]), ""); REQUIRE(THROWS(*cv.end()), "dereferencing the end"); REQUIRE(THROWS(*(cv.begin() - 1)), "dereferencing before the begin"); REQUIRE(THROWS(*(v.end() + 2)), ""); }
		if (e.size() > 1) { const size_t i = s.below(e.size()), j = s.below(e.size()); REQUIRE_EQ(*(v.begin() + i), e[i]); REQUIRE_EQ((v.begin() + j) - (v.begin() + i), (ptrdiff_t)j - (ptrdiff_t)i); REQUIRE_EQ(cv.begin()[j], e[j]); REQUIRE_EQ(v.begin() + i < v.begin() + j, i < j); }
	}

	template < typename D >
	void checkData(const D& d, const Bytes& e, Src& s)
	{
		REQUIRE_EQ(d.size(), e.size()); REQUIRE_EQ(d.empty(), e.empty());
		REQUIRE_EQ(walk(d, d.begin(), d.end()), e);
		REQUIRE_EQ(walk(d, d.rbegin(), d.rend()), Bytes(e.rbegin(), e.rend()));
		for (size_t i = 0; i < e.size(); ++i) REQUIRE_EQ(d[i], e[i]);
		if (s.chance(1, 30)) { REQUIRE(THROWS(d[e.size()]), "reading past the end"); REQUIRE(THROWS(d[e.size() + s.below(5)]), ""); REQUIRE(THROWS(*d.end()), ""); }
	}
}

PROP(arrays, 20000, 600000, pbt::LeakCheck, "a slice of a size-limited slice was taken and a write through one view was seen in another")
{
	struct Slot { bool isConst; ByteArray a; ConstByteArray ca; MView m; };
	std::vector<Slot> v;
	bool nested = false, shared = false, rejected = false, grew = false;
	auto addNew = [&](const ByteArray& a, const Bytes& b) { v.push_back(Slot{ false, a, a, MView{ std::make_shared<Bytes>(b), 0, Unlimited } }); };
	addNew(ByteArray(), Bytes());
	while (s.more(40))
	{
		const size_t i = s.below(v.size());
		const size_t op = s.weighted({ 3, 8, 8, 4, 2, 2, 2, 2, 2, 2, 1, 1, 2 });
		if (v.size() > 12) v.erase(v.begin() + s.below(v.size()));
		if (i >= v.size()) continue;
		Slot x = v[i];	// shares everything with v[i]
		const size_t avail = x.m.avail();
		c.tr("op ", op, " view ", i, " window ", x.m.offset, "+", (long long)x.m.limit, " of ", x.m.buf->size(), x.isConst ? " const" : "");
		switch (op)
		{
		case 0:
			{
				const Bytes b = randomBytes(s, 40);
				switch (s.below(4))
				{
				case 0: addNew(ByteArray(b), b); break;
				case 1: addNew(ByteArray(b.data(), b.size()), b); break;
				case 2: addNew(ByteArray(b.begin(), b.end()), b); break;
				default: addNew(ByteArray(b.size()), Bytes(b.size())); break;
				}
			}
			break;
		case 1: case 2: case 3:
			{
				const size_t off = someIndex(s, avail);
				size_t lim = off <= avail ? someIndex(s, avail - off) : someIndex(s, avail);
				const bool withLimit = op != 1;
				c.tr("  slice ", (long long)off, " ", withLimit ? (long long)lim : -100);
				bool expectOk = off <= avail && (!withLimit || lim <= avail - off || (lim == Unlimited && x.m.limit == Unlimited));
				const bool toConst = x.isConst || s.coin();
				const bool mv = s.chance(1, 4);
				bool ok = true;
				Slot n; n.isConst = toConst;
				try
				{
					if (!x.isConst) { ByteArray from(x.a); if (!mv) n.a = withLimit ? ByteArray(from, off, lim) : ByteArray(from, off); else n.a = withLimit ? ByteArray(std::move(from), off, lim) : ByteArray(std::move(from), off); n.ca = n.a; if (toConst) { ByteArray f2(x.a); n.ca = withLimit ? ConstByteArray(f2, off, lim) : ConstByteArray(f2, off); } }
					else { ConstByteArray from(x.ca); if (!mv) n.ca = withLimit ? ConstByteArray(from, off, lim) : ConstByteArray(from, off); else n.ca = withLimit ? ConstByteArray(std::move(from), off, lim) : ConstByteArray(std::move(from), off); }
				}
				catch (const std::exception&) { ok = false; }
				if (x.m.buf->size() < x.m.offset && !ok) break;	// the data shrank below the view: rejecting is fine
				REQUIRE_EQX(ok, expectOk, "slice at " + std::to_string(off) + " size " + (withLimit ? std::to_string(lim) : std::string("rest")) + " of a view of " + std::to_string(avail));
				rejected |= !ok;
				if (!ok) break;
				n.m = x.m; n.m.offset += off;
				if (withLimit) n.m.limit = lim; else if (x.m.limit != Unlimited) n.m.limit = x.m.limit - off;
				nested |= x.m.limit != Unlimited && x.m.avail() > 0;
				v.push_back(n);
			}
			break;
		case 4: if (!x.isConst && avail) { const size_t k = s.below(avail); const u8 b = (u8)s.draw(256); x.a[k] = b; (*x.m.buf)[x.m.offset + k] = b; for (size_t j = 0; j < v.size(); ++j) shared |= j != i && v[j].m.buf == x.m.buf; } break;
		case 5: if (!x.isConst && avail) { ByteData d(x.a); const size_t k = s.below(avail); const u8 b = (u8)s.draw(256); if (s.coin()) *(d.begin() + k) = b; else *(x.a.begin() + k) = b; (*x.m.buf)[x.m.offset + k] = b; } break;
		case 6:
			if (!x.isConst)
			{
				const size_t n = s.below(2 * avail + 20);
				if (x.m.limit == Unlimited) { x.a.RequireSize(n); if (x.m.buf->size() < n + x.m.offset) { x.m.buf->resize(n + x.m.offset); grew = true; } }
				else if (s.chance(1, 6)) REQUIRE(THROWS(x.a.RequireSize(n)), "a limited view does not grow");
			}
			break;
		case 7:
			if (!x.isConst && x.m.limit == Unlimited)
			{
				const Bytes b = randomBytes(s, 20);
				switch (s.below(3))
				{
				case 0: x.a.append(b.begin(), b.end()); break;
				case 1: x.a.append(b); break;
				default: { const ByteArray o(b); if (s.coin()) x.a.append(o); else x.a.append(ConstByteArray(o)); } break;
				}
				x.m.buf->insert(x.m.buf->end(), b.begin(), b.end()); grew |= !b.empty();
			}
			break;
		case 8: if (!x.isConst && x.m.limit == Unlimited) x.a.reserve(s.below(200)); break;
		case 9: { const size_t j = s.below(v.size()); if (v[i].isConst == v[j].isConst) { if (v[i].isConst) v[i].ca.swap(v[j].ca); else { v[i].a.swap(v[j].a); v[i].ca.swap(v[j].ca); } std::swap(v[i].m, v[j].m); } } break;
		case 10: if (!x.isConst && s.chance(1, 3)) { x.a.clear(); x.m.buf->clear(); } break;
		case 11: { const size_t j = s.below(v.size()); const Slot t(v[j]); v[i] = t; } break;
		default:
			{	// comparisons
				const Slot& y = v[s.below(v.size())];
				const Bytes p = x.m.bytes(), q = y.m.bytes();
				REQUIRE_EQ(x.ca == y.ca, p == q); REQUIRE_EQ(x.ca != y.ca, p != q); REQUIRE_EQ(x.ca < y.ca, p < q); REQUIRE_EQ(x.ca >= y.ca, p >= q); REQUIRE_EQ(x.ca > y.ca, p > q); REQUIRE_EQ(x.ca <= y.ca, p <= q);
				const ConstByteData dp(x.ca), dq(y.ca);
				REQUIRE_EQ(dp == dq, p == q); REQUIRE_EQ(dp != dq, p != q); REQUIRE_EQ(dp < dq, p < q); REQUIRE_EQ(dp > dq, p > q); REQUIRE_EQ(dp <= dq, p <= q); REQUIRE_EQ(dp >= dq, p >= q);
				if (!x.isConst && !y.isConst) { REQUIRE_EQ(x.a == y.a, p == q); REQUIRE_EQ(x.a < y.a, p < q); REQUIRE_EQ(x.a == y.ca, p == q); }
			}
		}
		if (s.chance(1, 3) || v.size() <= 3)
			for (size_t j = 0; j < v.size(); ++j) { checkArray(v[j].ca, v[j].m, s); if (!v[j].isConst) checkArray(v[j].a, v[j].m, s); }
		else if (i < v.size()) { checkArray(v[i].ca, v[i].m, s); checkArray(v.back().ca, v.back().m, s); }
	}
	for (size_t j = 0; j < v.size(); ++j) { checkArray(v[j].ca, v[j].m, s); if (!v[j].isConst) checkArray(v[j].a, v[j].m, s); }
	c.nontrivial_if(nested && shared); c.label_if(rejected, "request rejected"); c.label_if(grew, "data grew");
}

PROP(data_views, 20000, 600000, pbt::LeakCheck, "a chain of two or more slices was taken and a request leaving the window was rejected")
{
	// non-owning views over a vector, a std array, a C array or a byte array
	Bytes store = randomBytes(s, 40);
	stingray::array<u8, 5> arr; for (size_t i = 0; i < 5; ++i) arr[i] = (u8)(i * 7);
	u8 carr[3] = { 1, 2, 3 };
	const ByteArray owner(store);
	const ByteArray ownerSlice = store.size() > 2 ? ByteArray(owner, 1, store.size() - 2) : owner;
	std::vector<std::pair<ByteData, std::pair<size_t, size_t>>> v;	// view, window into base
	ByteData base; Bytes content;
	switch (s.below(6))
	{
	case 0: base = ByteData(store); content = store; break;
	case 1: base = ByteData(arr); content = Bytes(arr.begin(), arr.end()); break;
	case 2: base = ByteData(carr); content = Bytes(carr, carr + 3); break;
	case 3: base = ByteData(owner); content = store; break;
	case 4: base = ByteData(ownerSlice); content = Bytes(ownerSlice.begin(), ownerSlice.end()); break;
	default: base = ByteData(store.data(), store.size()); content = store; break;
	}
	// slices of an owning array
	{
		const size_t n = ownerSlice.size(), off = someIndex(s, n), len = someIndex(s, off <= n ? n - off : n);
		const Bytes all(ownerSlice.begin(), ownerSlice.end());
		bool ok = true; ConstByteData d; try { d = ConstByteData(ownerSlice, off); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, off <= n, "view at " + std::to_string(off) + " of " + std::to_string(n));
		if (ok) checkData(d, Bytes(all.begin() + off, all.end()), s);
		ok = true; try { d = ConstByteData(ownerSlice, off, len); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, off <= n && len <= n - off, "view at " + std::to_string(off) + " size " + std::to_string(len) + " of " + std::to_string(n));
		if (ok) checkData(d, Bytes(all.begin() + off, all.begin() + off + len), s);
	}
	v.push_back(std::make_pair(base, std::make_pair((size_t)0, content.size())));
	size_t depth = 0; bool rejected = false;
	while (s.more(20))
	{
		const size_t i = s.below(v.size());
		const ByteData d = v[i].first; const size_t b = v[i].second.first, n = v[i].second.second;
		const size_t op = s.below(4);
		if (op < 2)
		{
			const size_t off = someIndex(s, n), len = someIndex(s, off <= n ? n - off : n);
			c.tr("slice ", (long long)off, " ", op ? (long long)len : -100, " of ", n);
			bool ok = true; ByteData r;
			try { r = op == 0 ? ByteData(d, off) : ByteData(d, off, len); } catch (const std::exception&) { ok = false; }
			REQUIRE_EQX(ok, off <= n && (op == 0 || len <= n - off), "view at " + std::to_string(off) + " size " + (op ? std::to_string(len) : std::string("rest")) + " of " + std::to_string(n));
			if (!ok) { rejected = true; continue; }
			v.push_back(std::make_pair(r, std::make_pair(b + off, op == 0 ? n - off : len)));
			depth += i != 0;
		}
		else if (op == 2 && n) { const size_t k = s.below(n); const u8 x = (u8)s.draw(256); if (s.coin()) d[k] = x; else *(d.begin() + k) = x; content[b + k] = x; }
		else { const ConstByteData cd(d); checkData(cd, Bytes(content.begin() + b, content.begin() + b + n), s); const ConstByteData cs(cd, n / 2); checkData(cs, Bytes(content.begin() + b + n / 2, content.begin() + b + n), s); }
	}
	for (const auto& e : v) checkData(e.first, Bytes(content.begin() + e.second.first, content.begin() + e.second.first + e.second.second), s);
	c.nontrivial_if(depth >= 1 && rejected);
}

PROP(owners, 20000, 600000, pbt::LeakCheck, "an owning slice outlived the owner it was taken from")
{
	struct Slot { bool isConst; BytesOwner a; ConstBytesOwner ca; MView m; };
	std::vector<Slot> v; std::map<Bytes*, int> released;
	struct Guard : public virtual IToken { std::shared_ptr<Bytes> keep; int* flag; Guard(const std::shared_ptr<Bytes>& k, int* f) : keep(k), flag(f) { } ~Guard() { ++*flag; for (size_t i = 0; i < keep->size(); ++i) (*keep)[i] = 0xdd; } };
	std::vector<std::pair<std::unique_ptr<int>, MView>> guards;
	bool outlived = false, rejected = false;
	while (s.more(30))
	{
		const size_t op = v.empty() ? 0 : s.weighted({ 3, 6, 6, 3, 5, 2 });
		c.tr("op ", op, " views ", v.size());
		if (op == 0)
		{
			Bytes b = randomBytes(s, 24); Slot n; n.isConst = false;
			n.m = MView{ std::make_shared<Bytes>(b), 0, Unlimited };
			switch (s.below(3))
			{
			case 0: n.a = BytesOwner::Create(ConstByteData(b)); break;
			case 1: n.a = BytesOwner::Create(b.size()); std::copy(b.begin(), b.end(), n.a.begin()); break;
			default:
				{
					// data kept alive by a foreign token
					std::shared_ptr<Bytes> store = std::make_shared<Bytes>(b);
					guards.push_back(std::make_pair(std::unique_ptr<int>(new int(0)), n.m));
					const Token t = MakeToken<Guard>(store, guards.back().first.get());
					n.a = BytesOwner(ByteData(*store), t);
				}
			}
			n.ca = n.a; v.push_back(n);
		}
		else if (op == 1 || op == 2)
		{
			const size_t i = s.below(v.size()); const Slot x = v[i];
			const size_t n = x.m.avail(), off = someIndex(s, n), len = someIndex(s, off <= n ? n - off : n);
			const bool sized = op == 2, mv = s.chance(1, 4);
			Slot r; r.isConst = x.isConst || s.coin(); bool ok = true;
			try
			{
				if (x.isConst) { ConstBytesOwner f(x.ca); r.ca = mv ? (sized ? ConstBytesOwner(std::move(f), off, len) : ConstBytesOwner(std::move(f), off)) : (sized ? ConstBytesOwner(f, off, len) : ConstBytesOwner(f, off)); }
				else if (r.isConst) { BytesOwner f(x.a); r.ca = mv ? (sized ? ConstBytesOwner(std::move(f), off, len) : ConstBytesOwner(std::move(f), off)) : (sized ? ConstBytesOwner(f, off, len) : ConstBytesOwner(f, off)); }
				else { BytesOwner f(x.a); r.a = mv ? (sized ? BytesOwner(std::move(f), off, len) : BytesOwner(std::move(f), off)) : (sized ? BytesOwner(f, off, len) : BytesOwner(f, off)); r.ca = r.a; }
			}
			catch (const std::exception&) { ok = false; }
			REQUIRE_EQX(ok, off <= n && (!sized || len <= n - off), "slice at " + std::to_string(off) + " of " + std::to_string(n));
			rejected |= !ok;
			if (!ok) continue;
			r.m = x.m; r.m.offset += off; r.m.limit = sized ? len : n - off;
			v.push_back(r);
		}
		else if (op == 3) { Slot& x = v[s.below(v.size())]; if (!x.isConst && x.m.avail()) { const size_t k = s.below(x.m.avail()); const u8 b = (u8)s.draw(256); x.a[k] = b; (*x.m.buf)[x.m.offset + k] = b; } }
		else if (op == 4) { const size_t i = s.below(v.size()); const std::shared_ptr<Bytes> b = v[i].m.buf; v.erase(v.begin() + i); for (const auto& x : v) outlived |= x.m.buf == b && x.m.avail() > 0; }
		else { const Slot t = v[s.below(v.size())]; v[s.below(v.size())] = t; const Bytes p = t.m.bytes(), q = v[0].m.bytes(); REQUIRE_EQ(t.ca == v[0].ca, p == q); REQUIRE_EQ(t.ca < v[0].ca, p < q); REQUIRE_EQ(t.ca != v[0].ca, p != q); REQUIRE_EQ(t.ca >= v[0].ca, p >= q); }
		for (const auto& x : v)
		{
			checkData(x.ca, x.m.bytes(), s);
			const ConstByteData d(x.ca); checkData(d, x.m.bytes(), s);
			REQUIRE_EQ(Bytes(x.ca.data(), x.ca.data() + x.ca.size()), x.m.bytes());
			if (!x.isConst) { checkData(x.a, x.m.bytes(), s); const ByteData w(x.a); checkData(w, x.m.bytes(), s); }
		}
		for (const auto& g : guards)
		{
			bool used = false; for (const auto& x : v) used |= x.m.buf == g.second.buf;
			REQUIRE_EQX(*g.first, used ? 0 : 1, "the life assurance of the data is released exactly with its last view");
		}
	}
	v.clear();
	for (const auto& g : guards) REQUIRE_EQ(*g.first, 1);
	c.nontrivial_if(outlived); c.label_if(rejected, "request rejected");
}
