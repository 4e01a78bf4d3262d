// ENGINE: seq
// C28: serialized data survives a round trip; mistyped, truncated or altered trees are rejected with an exception.
#define STINGRAY_LIB_SOURCE
#include <stingraykit/string/ToString.h>

#include <stingraykit/any.h>
#include <stingraykit/collection/BytesOwner.h>
#include <stingraykit/collection/CollectionOpVariant.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/OrderedSet.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/serialization/Composite.h>
#include <stingraykit/serialization/InjectionSerializer.h>
#include <stingraykit/serialization/IntegerDeserializer.h>
#include <stingraykit/serialization/Serialization.h>
#include <stingraykit/serialization/SerializationHelper.h>
#include <stingraykit/serialization/SettingsValue.h>
#include <stingraykit/serialization/StringProxySerialization.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/locale/LocaleString.h>
#include <stingraykit/string/TranslatedString.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/NumericRange.h>

#include "pbt.h"
#include "util.h"

#include <cmath>
#include <cstring>
#include <deque>
#include <list>

using namespace stingray;

struct AnyPoint
{
	int X; std::string Y;
	AnyPoint(int x = 0, const std::string& y = "") : X(x), Y(y) { }
	bool operator == (const AnyPoint& o) const { return X == o.X && Y == o.Y; }
	std::string ToString() const { return Y; }
	void Serialize(ObjectOStream& ar) const { ar.Serialize("x", X).Serialize("y", Y); }
	void Deserialize(ObjectIStream& ar) { ar.Deserialize("x", X).Deserialize("y", Y); }
};
STINGRAYKIT_DECLARE_SERIALIZABLE_ANY_OBJECTHOLDER(AnyPoint)
STINGRAYKIT_DEFINE_SERIALIZABLE_ANY_OBJECTHOLDER(AnyPoint)

struct Shape : public virtual ISerializable, public virtual IFactoryObject
{ virtual std::string Describe() const = 0; };
STINGRAYKIT_DECLARE_PTR(Shape);

struct Circle : public Shape
{
	int R = 0;
	std::string Describe() const override { return StringBuilder() % "circle " % R; }
	void Serialize(ObjectOStream& ar) const override { ar.Serialize("r", R); }
	void Deserialize(ObjectIStream& ar) override { ar.Deserialize("r", R); }
	STINGRAYKIT_REGISTER_CLASS(Circle);
};
struct Group : public Shape
{
	std::vector<ShapePtr> Items;
	std::string Describe() const override
	{ std::string r = "group("; for (auto& i : Items) r += (i ? i->Describe() : std::string("null")) + ","; return r + ")"; }
	void Serialize(ObjectOStream& ar) const override { ar.Serialize("items", Items); }
	void Deserialize(ObjectIStream& ar) override { ar.Deserialize("items", Items); }
	STINGRAYKIT_REGISTER_CLASS(Group);
};
struct NotAShape : public virtual ISerializable, public virtual IFactoryObject
{
	void Serialize(ObjectOStream& ar) const override { }
	void Deserialize(ObjectIStream& ar) override { }
	STINGRAYKIT_REGISTER_CLASS(NotAShape);
};

namespace stingray
{
	void Factory::RegisterTypes(const FactoryContextPtr& context)
	{
		context->Register<Detail::any::ObjectHolder<AnyPoint>>("Detail::any::ObjectHolder<AnyPoint>");
		context->Register<Detail::any::ObjectHolder<ISerializablePtr>>("Detail::any::ObjectHolder<ISerializablePtr>");
	}
}

namespace
{
	// ---- the stream under test writes here: a settings value tree -------------------------------------------------------------
	class TreeOStream : public ObjectOStream
	{
		struct Frame { SettingsValueSelfCountPtr Value; optional<std::string> Name; };

		std::vector<Frame>	_stack;
		bool				_hexBinary;

	public:
		SettingsValueSelfCountPtr	Result;
		std::string					Broken;

		explicit TreeOStream(bool hexBinary = false, IObjectSerializator* collection = NULL, const FactoryContextConstPtr& context = null, bool topLevel = false)
			: ObjectOStream(null, collection, context, topLevel), _hexBinary(hexBinary)
		{ }

	protected:
		void WriteNull() override						{ Put(make_self_count_ptr<SettingsValue>(EmptyType())); }
		void Write(bool value) override					{ Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(const FloatString& value) override	{ Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(s64 value) override					{ Put(make_self_count_ptr<SettingsValue>(value)); }
		void Write(const std::string& value) override	{ Put(make_self_count_ptr<SettingsValue>(value)); }

		void Write(ConstByteData value) override
		{
			if (!_hexBinary)
				return Put(make_self_count_ptr<SettingsValue>(ConstByteArray(value)));

			std::string r = "hex=";
			for (size_t i = 0; i < value.size(); ++i)
			{
				char b[3];
				snprintf(b, sizeof(b), i % 2 ? "%02x" : "%02X", value[i]);
				r += b;
			}
			Put(make_self_count_ptr<SettingsValue>(r));
		}

		void WritePropertyName(const std::string& name) override
		{
			if (_stack.empty() || !_stack.back().Value->contains<SettingsValueMap>())
				Broken = "property name outside of an object";
			else if (_stack.back().Name)
				Broken = "two property names in a row";
			else
				_stack.back().Name = name;
		}

		void BeginList() override	{ Push(make_self_count_ptr<SettingsValue>(SettingsValueList())); }
		void BeginObject() override	{ Push(make_self_count_ptr<SettingsValue>(SettingsValueMap())); }
		void EndList() override		{ Pop(true); }
		void EndObject() override	{ Pop(false); }

	private:
		void Put(const SettingsValueSelfCountPtr& v)
		{
			if (_stack.empty())
			{
				if (Result)
					Broken = "two top level values";
				Result = v;
				return;
			}
			Frame& f = _stack.back();
			if (f.Value->contains<SettingsValueList>())
				f.Value->get<SettingsValueList>().push_back(v);
			else if (!f.Name)
				Broken = "a value without a name in an object";
			else
			{
				if (!f.Value->get<SettingsValueMap>().insert(std::make_pair(*f.Name, v)).second)
					Broken = "property '" + *f.Name + "' is written twice";
				f.Name.reset();
			}
		}

		void Push(const SettingsValueSelfCountPtr& v)
		{
			Put(v);
			_stack.push_back(Frame());
			_stack.back().Value = v;
		}

		void Pop(bool list)
		{
			if (_stack.empty() || _stack.back().Value->contains<SettingsValueList>() != list || _stack.back().Name)
				Broken = "unbalanced begin and end";
			else
				_stack.pop_back();
		}
	};

	std::string Show(const SettingsValue& v)
	{
		if (v.contains<EmptyType>())		return "null";
		if (v.contains<bool>())				return v.get<bool>() ? "true" : "false";
		if (v.contains<s64>())				return ToString(v.get<s64>());
		if (v.contains<FloatString>())		return "f:" + v.get<FloatString>().ToString();
		if (v.contains<std::string>())		return "\"" + v.get<std::string>() + "\"";
		if (v.contains<ConstByteArray>())
		{
			std::string r = "bytes:";
			for (u8 b : v.get<ConstByteArray>()) r += ToString((int)b) + ".";
			return r;
		}
		std::string r;
		if (v.contains<SettingsValueList>())
		{
			for (const auto& i : v.get<SettingsValueList>()) r += Show(*i) + ",";
			return "[" + r + "]";
		}
		for (const auto& i : v.get<SettingsValueMap>()) r += i.first + ":" + Show(*i.second) + ",";
		return "{" + r + "}";
	}

	void CollectNodes(SettingsValue& v, std::vector<SettingsValue*>& out)
	{
		out.push_back(&v);
		if (v.contains<SettingsValueList>())
			for (auto& i : v.get<SettingsValueList>()) CollectNodes(*i, out);
		else if (v.contains<SettingsValueMap>())
			for (auto& i : v.get<SettingsValueMap>()) CollectNodes(*i.second, out);
	}

	SettingsValueSelfCountPtr DeepClone(const SettingsValue& v)
	{
		SettingsValueSelfCountPtr r = v.Clone();
		if (r->contains<SettingsValueList>())
			for (auto& i : r->get<SettingsValueList>()) i = DeepClone(*i);
		else if (r->contains<SettingsValueMap>())
			for (auto& i : r->get<SettingsValueMap>()) i.second = DeepClone(*i.second);
		return r;
	}

	std::string GenText(pbt::Src& s)
	{
		if (s.chance(1, 5))
			return s.pick<std::string>({"", "hex=", "hex=0", "hex=zz", ".class", "null", "0", "index", "\0\xff", "\xd1\x82"});
		return s.text("ab:\"\\{}[] ,\n\x01", 6);
	}

	double GenDouble(pbt::Src& s)
	{
		switch (s.weighted({3, 3, 3, 2, 1}))
		{
		case 0: return (double)s.range<int>(-1000, 1000);
		case 1: return s.range<int>(-1000000, 1000000) / (double)s.pick<int>({3, 7, 10, 100, 1000, 1024});
		case 2:
			{
				u64 bits = ((u64)s.integer<u32>() << 32) | s.integer<u32>();
				double d;
				memcpy(&d, &bits, sizeof(d));
				return std::isnan(d) ? 0.1 : d;
			}
		case 3: return s.integer<int>() * std::pow(10.0, s.range<int>(-300, 290));
		default: return s.pick<double>({0.1, 1.0 / 3, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, INFINITY, -INFINITY, -0.0, 123456789.0, 1e15, 9007199254740993.0, 0.30000000000000004});
		}
	}

	SettingsValueSelfCountPtr GenTree(pbt::Src& s, int depth)
	{
		switch (s.weighted({1, 1, 2, 1, 2, 1, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u}))
		{
		case 0: return make_self_count_ptr<SettingsValue>();
		case 1: return make_self_count_ptr<SettingsValue>(s.coin());
		case 2: return make_self_count_ptr<SettingsValue>(s.integer<s64>());
		case 3: return make_self_count_ptr<SettingsValue>(s.chance(1, 3) ? FloatString(s.pick<std::string>({"", "1x", "--1", "1e5", "0x10", " 7"})) : FloatString(GenDouble(s)));
		case 4: return make_self_count_ptr<SettingsValue>(GenText(s));
		case 5: { const auto b = u8s(s, 6); return make_self_count_ptr<SettingsValue>(ConstByteArray(b.data(), b.size())); }
		case 6:
			{
				SettingsValueList l;
				const int n = s.range<int>(0, 4);
				for (int i = 0; i < n; ++i) l.push_back(GenTree(s, depth - 1));
				return make_self_count_ptr<SettingsValue>(l);
			}
		default:
			{
				SettingsValueMap m;
				const int n = s.range<int>(0, 4);
				for (int i = 0; i < n; ++i)
				{
					const std::string k = s.pick<std::string>({"a", "b", "index", "obj", "data", "type", "val", ".class", ".pk", "items", "r"});
					m[k] = GenTree(s, depth - 1);
				}
				return make_self_count_ptr<SettingsValue>(m);
			}
		}
	}

	// Makes one change somewhere in the tree. Returns false if nothing changed.
	bool Mutate(pbt::Src& s, SettingsValue& root)
	{
		std::vector<SettingsValue*> nodes;
		CollectNodes(root, nodes);
		SettingsValue& v = *nodes[s.below(nodes.size())];
		const std::string before = Show(v);

		if (v.contains<SettingsValueList>() && s.chance(2, 3))
		{
			SettingsValueList& l = v.get<SettingsValueList>();
			if (s.coin() && !l.empty())
				l.erase(l.begin() + s.below(l.size()));
			else
				l.insert(l.begin() + s.below(l.size() + 1), GenTree(s, 1));
		}
		else if (v.contains<SettingsValueMap>() && s.chance(2, 3))
		{
			SettingsValueMap& m = v.get<SettingsValueMap>();
			if (m.empty())
				m["a"] = GenTree(s, 1);
			else
				m.erase(std::next(m.begin(), s.below(m.size())));
		}
		else if (v.contains<std::string>() && s.coin())
		{
			std::string& str = v.get<std::string>();
			if (!str.empty() && s.coin())
				str.resize(s.below(str.size()));
			else
				str.insert(s.below(str.size() + 1), 1, (char)s.pick<int>({'0', 'g', 'x', ' ', 0, 255}));
		}
		else if (v.contains<s64>() && s.coin())
			v.get<s64>() = s.pick<s64>({-1, 0, 1, 2, 3, 4, 127, 128, 255, 256, 32768, 65536, 2147483648LL, -2147483649LL, 4294967296LL, s64(1) << 62, std::numeric_limits<s64>::min()});
		else
		{
			SettingsValueSelfCountPtr o = GenTree(s, 1);
			static_cast<variant<SettingsValueTypes>&>(v) = static_cast<const variant<SettingsValueTypes>&>(*o);
		}
		return Show(v) != before;
	}

	template < typename T >
	SettingsValueSelfCountPtr WriteTree(const T& value, bool hex, const FactoryContextConstPtr& context = null, IObjectSerializator* collection = NULL, bool topLevel = false)
	{
		TreeOStream os(hex, collection, context, topLevel);
		os.Serialize(value);
		REQUIRE(os.Broken.empty(), "the stream of calls is malformed: " << os.Broken);
		REQUIRE(os.Result, "nothing was written");
		return os.Result;
	}

	// ---- equality which sees everything --------------------------------------------------------------------------------------
	template < typename T >
	bool Same(const T& a, const T& b)						{ return a == b; }
	inline bool Same(double a, double b)					{ return memcmp(&a, &b, sizeof(a)) == 0; }
	inline bool Same(float a, float b)						{ return memcmp(&a, &b, sizeof(a)) == 0; }
	// the text covers the kind, the tree covers the value
	inline bool Same(const any& a, const any& b)
	{
		const double* x = any_cast<double>(&a); const double* y = any_cast<double>(&b);
		if (x && y) return Same(*x, *y);
		return a.ToString() == b.ToString() && Show(*WriteTree(a, false)) == Show(*WriteTree(b, false));
	}
	template < typename T >
	bool Same(const std::vector<T>& a, const std::vector<T>& b)
	{
		if (a.size() != b.size()) return false;
		for (size_t i = 0; i < a.size(); ++i) if (!Same(static_cast<const T&>(a[i]), static_cast<const T&>(b[i]))) return false;
		return true;
	}

	// Round trip; then the tree with one mutation: either rejected with an exception, or accepted - in which case writing the result again and
	// reading it back must give the same thing (so that what was accepted is a value of the type, not a half of one).
	template < typename T >
	void RoundTrip(pbt::Src& s, pbt::Ctx& c, const T& value, const char* what, const FactoryContextConstPtr& context = null)
	{
		c.label(what);
		const bool hex = s.coin();
		const SettingsValueSelfCountPtr tree = WriteTree(value, hex, context);
		const std::string shown = Show(*tree);
		TR(what << " " << shown);

		T back = T();
		{ ObjectIStream is(tree.get(), NULL, context); is.Deserialize(back); }
		REQUIRE(Same(value, back), what << " changed after a round trip through " << shown << ", now " << Show(*WriteTree(back, hex, context)));
		REQUIRE_EQX(Show(*tree), shown, "reading changed the tree");
		REQUIRE_EQX(Show(*WriteTree(back, hex, context)), shown, "writing the value again gives another tree");

		// reading over an existing value gives the same
		{ ObjectIStream is(tree.get(), NULL, context); is.Deserialize(back); }
		REQUIRE(Same(value, back), what << " is different after reading over an existing value, from " << shown);

		// nested under a name, optional and a list
		{
			const optional<T> opt = value;
			const SettingsValueSelfCountPtr l = WriteTree(std::vector<optional<T>>{opt, null, opt}, hex, context);
			std::vector<optional<T>> lb;
			ObjectIStream is(l.get(), NULL, context);
			is.Deserialize(lb);
			REQUIRE(lb.size() == 3 && lb[0] && !lb[1] && lb[2], "a list of optional values lost its shape: " << Show(*l));
			REQUIRE(Same(*lb[0], value) && Same(*lb[2], value), what << " changed in a list of optionals " << Show(*l));
		}

		SettingsValueSelfCountPtr bad = DeepClone(*tree);
		if (!Mutate(s, *bad))
			return;
		c.label("mutated");
		TR("mutated " << Show(*bad));
		T read = T();
		try
		{ ObjectIStream is(bad.get(), NULL, context); is.Deserialize(read); }
		catch (const std::exception& ex)
		{
			c.label("rejected");
			REQUIRE(*ex.what() || dynamic_cast<const stingray::Exception*>(&ex), "an exception without a message");
			return;
		}
		c.label("mutation accepted");
		const SettingsValueSelfCountPtr again = WriteTree(read, hex, context);
		T read2 = T();
		{ ObjectIStream is(again.get(), NULL, context); is.Deserialize(read2); }
		REQUIRE(Same(read, read2), what << " accepted from " << Show(*bad) << " does not survive a round trip through " << Show(*again));

		// whatever was in the target before, reading gives the value which was written
		{ ObjectIStream is(tree.get(), NULL, context); is.Deserialize(read); }
		REQUIRE(Same(value, read), what << " is different after reading over another value, from " << shown << " over " << Show(*again));
	}

	struct ColorEnum
	{
		STINGRAYKIT_ENUM_VALUES(Red, Green, Blue);
		STINGRAYKIT_DECLARE_ENUM_CLASS(ColorEnum);
	};

	struct Celsius
	{
		int V;
		explicit Celsius(int v = 0) : V(v) { }
		bool operator == (const Celsius& o) const { return V == o.V; }
		std::string ToString() const { return StringBuilder() % V % "C"; }
		static Celsius FromString(const std::string& s)
		{
			STINGRAYKIT_CHECK(!s.empty() && s[s.size() - 1] == 'C', FormatException(s));
			return Celsius(stingray::FromString<int>(s.substr(0, s.size() - 1)));
		}
	};

	STINGRAYKIT_DECLARE_COMPOSITE(Leaf,
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(int, Number, n),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(std::string, Text, text),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<s64>, Extra, extra),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(Celsius, Temperature, temp, StringProxySerializationTag),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<int>, Proxied, proxied, StringProxySerializationTag)
	);

	STINGRAYKIT_DECLARE_COMPOSITE(Branch,
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(std::vector<LeafPtr>, Leaves, leaves),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(LeafPtr, Main, main),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<Leaf>, Maybe, maybe),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(ColorEnum, Color, color),
		STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(bool, Flag, flag)
	);

	bool operator == (const Leaf& a, const Leaf& b)
	{
		return a.GetNumber() == b.GetNumber() && a.GetText() == b.GetText() && a.GetExtra() == b.GetExtra()
				&& a.GetTemperature() == b.GetTemperature() && a.GetProxied() == b.GetProxied();
	}

	bool SameLeaf(const LeafPtr& a, const LeafPtr& b)
	{ return (!a && !b) || (a && b && *a == *b); }

	bool operator == (const Branch& a, const Branch& b)
	{
		if (a.GetLeaves().size() != b.GetLeaves().size())
			return false;
		for (size_t i = 0; i < a.GetLeaves().size(); ++i)
			if (!SameLeaf(a.GetLeaves()[i], b.GetLeaves()[i]))
				return false;
		if (a.GetMaybe().is_initialized() != b.GetMaybe().is_initialized() || (a.GetMaybe() && !(*a.GetMaybe() == *b.GetMaybe())))
			return false;
		return SameLeaf(a.GetMain(), b.GetMain()) && a.GetColor() == b.GetColor() && a.GetFlag() == b.GetFlag();
	}

	Leaf GenLeaf(pbt::Src& s)
	{
		return Leaf(s.integer<int>(), GenText(s), s.coin() ? optional<s64>(s.integer<s64>()) : null, Celsius(s.range<int>(-300, 300)),
				s.coin() ? optional<int>(s.range<int>(-9, 9)) : null);
	}

	Branch GenBranch(pbt::Src& s)
	{
		std::vector<LeafPtr> leaves;
		const int n = s.range<int>(0, 3);
		for (int i = 0; i < n; ++i)
			leaves.push_back(s.chance(1, 4) ? LeafPtr() : make_shared_ptr<Leaf>(GenLeaf(s)));
		return Branch(leaves, s.chance(1, 3) ? LeafPtr() : make_shared_ptr<Leaf>(GenLeaf(s)), s.coin() ? optional<Leaf>(GenLeaf(s)) : null,
				s.pick<ColorEnum::Enum>({ColorEnum::Red, ColorEnum::Green, ColorEnum::Blue}), s.coin());
	}

	// Holders: a collection behind its interface as a member of a serializable class
	template < typename Dict, typename K, typename V, typename As = Dict >
	struct DictHolder
	{
		shared_ptr<Dict>	D;
		DictHolder() : D(make_shared_ptr<Dict>()) { }
		std::vector<std::pair<K, V>> Items() const
		{
			std::vector<std::pair<K, V>> r;
			FOR_EACH(const typename Dict::PairType p IN D->GetEnumerator())
				r.push_back(std::make_pair(p.Key, p.Value));
			std::sort(r.begin(), r.end());
			return r;
		}
		bool operator == (const DictHolder& o) const	{ return Items() == o.Items(); }
		void Serialize(ObjectOStream& ar) const			{ ar.Serialize("d", *D); }
		void Deserialize(ObjectIStream& ar)				{ ar.Deserialize("d", static_cast<As&>(*D)); }
	};

	template < typename List, typename T, typename As = List >
	struct ListHolder
	{
		shared_ptr<List>	D;
		ListHolder() : D(make_shared_ptr<List>()) { }
		std::vector<T> Items() const
		{
			std::vector<T> r;
			FOR_EACH(const T p IN D->GetEnumerator())
				r.push_back(p);
			return r;
		}
		bool operator == (const ListHolder& o) const	{ return Items() == o.Items(); }
		void Serialize(ObjectOStream& ar) const			{ ar.Serialize("d", *D); }
		void Deserialize(ObjectIStream& ar)				{ ar.Deserialize("d", static_cast<As&>(*D)); }
	};

	template < typename Int >
	std::vector<Int> GenInts(pbt::Src& s)
	{
		std::vector<Int> r;
		const int n = s.range<int>(0, 4);
		for (int i = 0; i < n; ++i) r.push_back(s.integer<Int>());
		return r;
	}
}

PROP(scalars, 16000, 400000, 0, "every case: a value of a random type is written, read and one mutation of the tree is tried")
{
	c.nontrivial_if(true);
	switch (s.below(20))
	{
	case 0:	return RoundTrip(s, c, s.coin(), "bool");
	case 1:	return RoundTrip(s, c, s.integer<s8>(), "s8");
	case 2:	return RoundTrip(s, c, s.integer<u8>(), "u8");
	case 3:	return RoundTrip(s, c, s.integer<s16>(), "s16");
	case 4:	return RoundTrip(s, c, s.integer<u16>(), "u16");
	case 5:	return RoundTrip(s, c, s.integer<int>(), "int");
	case 6:	return RoundTrip(s, c, s.integer<u32>(), "u32");
	case 7:	return RoundTrip(s, c, s.integer<s64>(), "s64");
	case 8:	return RoundTrip(s, c, s.integer<u64>(), "u64");
	case 9:	return RoundTrip(s, c, (char)s.integer<s8>(), "char");
	case 10: return RoundTrip(s, c, GenDouble(s), "double");
	case 11: return RoundTrip(s, c, (float)std::max(-3e38, std::min(3e38, GenDouble(s))), "float");
	case 12: return RoundTrip(s, c, GenText(s), "string");
	case 13: return RoundTrip(s, c, ColorEnum(s.pick<ColorEnum::Enum>({ColorEnum::Red, ColorEnum::Green, ColorEnum::Blue})), "enum");
	case 14: { const auto u = u8s(s, 9); return RoundTrip(s, c, std::vector<u8>(u.begin(), u.end()), "binary vector"); }
	case 15:
		{
			const auto u = u8s(s, 9);
			const ByteArray whole(u.data(), u.size());
			const size_t off = s.size(u.size());
			return RoundTrip(s, c, ByteArray(whole, off, s.size(u.size() - off)), "ByteArray");
		}
	case 16:
		{
			const auto u = u8s(s, 9);
			return RoundTrip(s, c, ConstBytesOwner::Create(std::vector<u8>(u.begin(), u.end())), "ConstBytesOwner");
		}
	case 17: return RoundTrip(s, c, Celsius(s.integer<int>()), "string representable");
	case 18: return RoundTrip(s, c, BasicByteArray<u16>(GenInts<u16>(s)), "ByteArray of u16");
	default: return RoundTrip(s, c, std::vector<bool>{s.coin(), s.coin(), s.coin()}, "vector of bool");
	}
}

PROP(containers, 16000, 300000, 0, "the container holds at least two elements")
{
	const int n = s.range<int>(0, 5);
	c.nontrivial_if(n >= 2);
	switch (s.below(16))
	{
	case 0: { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(GenText(s)); return RoundTrip(s, c, v, "vector of strings"); }
	case 1: { std::list<s16> v; for (int i = 0; i < n; ++i) v.push_back(s.integer<s16>()); return RoundTrip(s, c, v, "list of s16"); }
	case 2: { std::deque<double> v; for (int i = 0; i < n; ++i) v.push_back(s.range<int>(-99, 99) / 7.0); return RoundTrip(s, c, v, "deque of doubles"); }
	case 3: { std::set<int> v; for (int i = 0; i < n; ++i) v.insert(s.range<int>(-9, 9)); return RoundTrip(s, c, v, "set of ints"); }
	case 4: { std::multiset<std::string> v; for (int i = 0; i < n; ++i) v.insert(s.text("ab", 2)); return RoundTrip(s, c, v, "multiset of strings"); }
	case 5: { std::map<int, std::string> v; for (int i = 0; i < n; ++i) v[s.range<int>(-9, 9)] = GenText(s); return RoundTrip(s, c, v, "map of int"); }
	case 6: { std::map<std::string, u64> v; for (int i = 0; i < n; ++i) v[GenText(s)] = s.integer<u64>(); return RoundTrip(s, c, v, "map of string"); }
	case 7: { std::map<std::string, std::vector<int>> v; for (int i = 0; i < n; ++i) v[GenText(s)] = GenInts<int>(s); return RoundTrip(s, c, v, "map of string to vectors"); }
	case 8:
		{
			std::vector<std::pair<int, optional<std::string>>> v;
			for (int i = 0; i < n; ++i) v.push_back(std::make_pair(s.integer<int>(), s.coin() ? optional<std::string>(GenText(s)) : null));
			return RoundTrip(s, c, v, "pairs with an optional");
		}
	case 9:
		{
			DictHolder<MapDictionary<int, std::string>, int, std::string> d;
			for (int i = 0; i < n; ++i) d.D->Set(s.range<int>(-9, 9), GenText(s));
			return RoundTrip(s, c, d, "MapDictionary");
		}
	case 10:
		{
			DictHolder<MapObservableDictionary<std::string, int>, std::string, int> d;
			for (int i = 0; i < n; ++i) d.D->Set(GenText(s), s.integer<int>());
			return RoundTrip(s, c, d, "ObservableDictionary");
		}
	case 11:
		{
			DictHolder<TransactionalDictionary<std::string, int>, std::string, int, ITransactionalDictionary<std::string, int>> d;
			{ auto t = d.D->StartTransaction(); for (int i = 0; i < n; ++i) t->Set(GenText(s), s.integer<int>()); t->Commit(); }
			return RoundTrip(s, c, d, "TransactionalDictionary");
		}
	case 12:
		{
			DictHolder<MultiMapDictionary<int, std::string>, int, std::string> d;
			for (int i = 0; i < n; ++i) d.D->Add(s.range<int>(0, 2), s.text("ab", 2));
			return RoundTrip(s, c, d, "MultiMapDictionary");
		}
	case 13:
		{
			if (s.coin())
			{
				ListHolder<ArrayList<std::string>, std::string> d;
				for (int i = 0; i < n; ++i) d.D->Add(GenText(s));
				return RoundTrip(s, c, d, "ArrayList");
			}
			ListHolder<ArrayObservableList<int>, int> d;
			for (int i = 0; i < n; ++i) d.D->Add(s.integer<int>());
			return RoundTrip(s, c, d, "ObservableList");
		}
	case 14:
		{
			if (s.coin())
			{
				ListHolder<OrderedSet<int>, int> d;
				for (int i = 0; i < n; ++i) d.D->Add(s.range<int>(-5, 5));
				return RoundTrip(s, c, d, "OrderedSet");
			}
			ListHolder<SortedObservableSet<int>, int> d;
			for (int i = 0; i < n; ++i) d.D->Add(s.range<int>(-5, 5));
			return RoundTrip(s, c, d, "ObservableSet");
		}
	default:
		{
			ListHolder<TransactionalList<int, comparers::Equals>, int, ITransactionalList<int>> d;
			{ auto t = d.D->StartTransaction(); for (int i = 0; i < n; ++i) t->Add(s.integer<int>()); t->Commit(); }
			return RoundTrip(s, c, d, "TransactionalList");
		}
	}
}

TranslatedString GenTranslated(pbt::Src& s)
{
	TranslatedString::Builder b;
	const int n = s.range<int>(0, 3);
	for (int i = 0; i < n; ++i)
	{
		const int l = s.range<int>(0, 2);
		b.AddTranslation(l == 0 ? LangCode::Rus() : l == 1 ? LangCode::Eng() : LangCode(LangCode::Any), GenText(s));
	}
	return b.Get();
}

PROP(library_values, 16000, 300000, 0, "every case: a random value of a serializable library class, then one mutation of the tree")
{
	c.nontrivial_if(true);
	switch (s.below(14))
	{
	case 0: return RoundTrip(s, c, Time(s.integer<s64>()), "Time");
	case 1: return RoundTrip(s, c, TimeDuration::FromMicroseconds(s.integer<s64>()), "TimeDuration");
	case 2: return RoundTrip(s, c, TimeZone(s.range<int>(-720, 720)), "TimeZone");
	case 3: return RoundTrip(s, c, Size(s.integer<int>(), s.integer<int>()), "Size");
	case 4: return RoundTrip(s, c, Position(s.integer<int>(), s.integer<int>()), "Position");
	case 5: { const int x = s.range<int>(-99, 99), y = s.range<int>(-99, 99); return RoundTrip(s, c, Rect(x, y, x + s.range<int>(0, 99), y + s.range<int>(0, 99)), "Rect"); }
	case 6:
		{
			// printed sizes are compared member by member below: SizeScale has no equality over its own
			const int x = s.range<int>(-99, 99);
			return RoundTrip(s, c, SimpleNumericRange<int>(x, x + s.range<int>(0, 99)), "SimpleNumericRange");
		}
	case 7:
		{
			typedef variant<TypeList<EmptyType, int, std::string, std::vector<int>, Size>> V;
			V v;
			switch (s.below(5))
			{
			case 0: break;
			case 1: v = s.integer<int>(); break;
			case 2: v = GenText(s); break;
			case 3: v = GenInts<int>(s); break;
			default: v = Size(s.range<int>(0, 9), s.range<int>(0, 9)); break;
			}
			const auto tree = WriteTree(v, false);
			V back;
			{ ObjectIStream is(tree.get(), NULL, null); is.Deserialize(back); }
			REQUIRE(v.which() == back.which(), "another alternative was read: " << Show(*tree));
			return RoundTrip(s, c, v, "variant");
		}
	case 8:
		{
			typedef CollectionOpVariant<std::string> V;
			V v;
			switch (s.below(4))
			{
			case 0: break;
			case 1: v = V::Added(GenText(s)); break;
			case 2: v = V::Removed(GenText(s)); break;
			default: v = V::Modified(GenText(s), GenText(s)); break;
			}
			const auto tree = WriteTree(v, false);
			V back;
			{ ObjectIStream is(tree.get(), NULL, null); is.Deserialize(back); }
			REQUIRE(v.GetVariant() == back.GetVariant(), "CollectionOpVariant changed: " << Show(*tree));
			return;
		}
	case 9:
		{
			any a;
			switch (s.below(15))
			{
			case 0: break;
			case 1: a = s.coin(); break;
			case 2: a = (char)s.integer<s8>(); break;
			case 3: a = (unsigned char)s.integer<u8>(); break;
			case 4: a = s.integer<short>(); break;
			case 5: a = s.integer<unsigned short>(); break;
			case 6: a = s.integer<int>(); break;
			case 7: a = s.integer<unsigned>(); break;
			case 8: a = (long)s.integer<s64>(); break;
			case 9: a = (unsigned long)s.integer<u64>(); break;
			case 10: a = (long long)s.integer<s64>(); break;
			case 11: a = (unsigned long long)s.integer<u64>(); break;
			case 12: a = (float)s.range<int>(-99999999, 99999999) / 3; break;
			case 13: a = GenDouble(s); break;
			default: a = GenText(s); break;
			}
			return RoundTrip(s, c, a, "any");
		}
	case 10:
		{
			const AnyPoint p(s.integer<int>(), GenText(s));
			any a(p);
			const auto tree = WriteTree(a, s.coin());
			TR("any of an object " << Show(*tree));
			any back(std::string("old"));
			{ ObjectIStream is(tree.get(), NULL, null); is.Deserialize(back); }
			const AnyPoint* r = any_cast<AnyPoint>(&back);
			REQUIRE(r && *r == p, "an object in any changed after a round trip through " << Show(*tree));
			auto bad = DeepClone(*tree);
			if (Mutate(s, *bad))
			{
				any b;
				try { ObjectIStream is(bad.get(), NULL, null); is.Deserialize(b); }
				catch (const std::exception&) { c.label("rejected"); REQUIRE(b.empty(), "any is not empty after a failure to read it"); }
				any copy(b);
				(void)copy.ToString();
			}
			return;
		}
	case 11:
		{
			const LocaleString l(s.pick<Encoding::Enum>({Encoding::ISO_8859_1, Encoding::ISO_10646_utf8, Encoding::ISO_8859_5}), GenText(s));
			const auto tree = WriteTree(l, false);
			LocaleString back;
			{ ObjectIStream is(tree.get(), NULL, null); is.Deserialize(back); }
			REQUIRE(back.TextEncoding == l.TextEncoding && back.Text == l.Text, "LocaleString changed: " << Show(*tree));
			return;
		}
	case 12:
		{
			return RoundTrip(s, c, GenTranslated(s), "TranslatedString");
		}
	default:
		return RoundTrip(s, c, SizeScale(s.integer<int>(), s.integer<int>()), "SizeScale");
	}
}

PROP(composites, 12000, 200000, 0, "the composite has at least one leaf inside")
{
	if (s.coin())
	{
		const Leaf l = GenLeaf(s);
		c.nontrivial_if(true);
		RoundTrip(s, c, l, "leaf");
		// omitted optional members are not in the tree
		const auto tree = WriteTree(l, false);
		const SettingsValueMap& m = tree->get<SettingsValueMap>();
		REQUIRE_EQX(m.size(), (size_t)(3 + (l.GetExtra() ? 1 : 0) + (l.GetProxied() ? 1 : 0)), Show(*tree));
		REQUIRE_EQ(l.ToString(), (std::string)(StringBuilder() % "{ Number: " % l.GetNumber() % ", Text: " % l.GetText() % ", Extra: " % l.GetExtra()
				% ", Temperature: " % l.GetTemperature() % ", Proxied: " % l.GetProxied() % " }"));
		return;
	}
	const Branch b = GenBranch(s);
	c.nontrivial_if(!b.GetLeaves().empty() || b.GetMain() || b.GetMaybe());
	RoundTrip(s, c, b, "branch");
}

PROP(missing_members, 8000, 120000, 0, "a member is removed from or nulled in a valid tree")
{
	// removing a required member is always an error naming it; removing an optional one gives null; a default is used only when the member is absent
	const Leaf l = GenLeaf(s);
	const auto tree = WriteTree(l, s.coin());
	SettingsValueMap& m = tree->get<SettingsValueMap>();
	auto it = std::next(m.begin(), s.below(m.size()));
	const std::string name = it->first;
	const bool optionalMember = name == "extra" || name == "proxied";
	const bool null_ = s.coin();
	if (null_)
		it->second = make_self_count_ptr<SettingsValue>();
	else
		m.erase(it);
	TR(name << (null_ ? " nulled " : " removed ") << Show(*tree));
	c.nontrivial_if(true);
	Leaf back = s.coin() ? Leaf() : GenLeaf(s);
	bool failed = false;
	std::string message;
	try { ObjectIStream is(tree.get(), NULL, null); is.Deserialize(back); }
	catch (const std::exception& ex) { failed = true; message = ex.what(); }
	if (optionalMember)
	{
		REQUIRE(!failed, "an optional member is required: " << message);
		REQUIRE(name == "extra" ? !back.GetExtra() : !back.GetProxied(), "an absent optional member has a value");
		REQUIRE(name == "extra" ? back.GetProxied() == l.GetProxied() : back.GetExtra() == l.GetExtra(), "another optional member changed");
		REQUIRE(back.GetNumber() == l.GetNumber() && back.GetText() == l.GetText() && back.GetTemperature() == l.GetTemperature(), "another member changed");
	}
	else
	{
		REQUIRE(failed, "no error although " << name << (null_ ? " is null" : " is missing"));
		if (!null_)
			REQUIRE(message.find(name) != std::string::npos, "the error does not name the missing member " << name << ": " << message);
	}

	// defaults
	SettingsValueMap dm;
	const bool present = s.coin();
	const int stored = s.integer<int>(), def = s.integer<int>();
	const bool mistyped = present && s.chance(1, 3);
	if (present)
		dm["v"] = mistyped ? make_self_count_ptr<SettingsValue>(GenText(s)) : make_self_count_ptr<SettingsValue>((s64)stored);
	SettingsValue dv(dm);
	ObjectIStream is(&dv, NULL, null);
	int value = 77;
	bool thrown = false;
	try { is.Deserialize("v", value, def); } catch (const std::exception&) { thrown = true; }
	REQUIRE_EQX(thrown, mistyped, "a member with a default");
	if (!thrown)
		REQUIRE_EQX(value, present ? stored : def, "a member with a default");
}

PROP(polymorphic, 12000, 200000, 0, "the tree of objects has a group with members")
{
	const FactoryContextPtr base = make_shared_ptr<FactoryContext>();
	base->Register<Circle>("Circle");
	const FactoryContextPtr context = make_shared_ptr<FactoryContext>(base);
	context->Register<Group>("Group");
	context->Register<NotAShape>("NotAShape");

	std::function<ShapePtr (int)> gen = [&](int depth) -> ShapePtr
	{
		switch (s.weighted({1, 3, depth > 0 ? 3u : 0u}))
		{
		case 0: return ShapePtr();
		case 1: { auto p = make_shared_ptr<Circle>(); p->R = s.integer<int>(); return p; }
		default:
			auto p = make_shared_ptr<Group>();
			const int n = s.range<int>(0, 3);
			for (int i = 0; i < n; ++i) p->Items.push_back(gen(depth - 1));
			return p;
		}
	};
	const ShapePtr shape = gen(3);
	const std::string described = shape ? shape->Describe() : "null";
	c.nontrivial_if(described.find("group(c") != std::string::npos || described.find("group(g") != std::string::npos);

	if (s.coin())
	{
		c.label("by value");
		const auto tree = WriteTree(shape, false, context);
		TR(Show(*tree));
		ShapePtr back = gen(1);
		{ ObjectIStream is(tree.get(), NULL, context); is.Deserialize(back); }
		REQUIRE_EQ(back ? back->Describe() : "null", described);

		auto bad = DeepClone(*tree);
		std::vector<SettingsValue*> nodes;
		CollectNodes(*bad, nodes);
		if (s.coin())
		{
			// a class name which is not registered or is no shape
			SettingsValue* victim = NULL;
			for (auto n : nodes)
				if (n->contains<std::string>() && (!victim || s.coin()))
					victim = n;
			if (!victim)
				return;
			victim->get<std::string>() = s.pick<std::string>({"", "Unknown", "NotAShape", "circle"});
			ShapePtr r;
			bool failed = false;
			try { ObjectIStream is(bad.get(), NULL, context); is.Deserialize(r); } catch (const std::exception&) { failed = true; }
			REQUIRE(failed, "an object of a wrong class was accepted: " << Show(*bad));
		}
		else if (Mutate(s, *bad))
		{
			ShapePtr r;
			try { ObjectIStream is(bad.get(), NULL, context); is.Deserialize(r); if (r) (void)r->Describe(); } catch (const std::exception&) { c.label("rejected"); }
		}
		return;
	}

	// by key: members of the top level object are stored in a separate collection
	c.label("by key");
	struct Collection : public IObjectSerializator
	{
		mutable std::vector<std::pair<std::string, ISerializablePtr>> Objects;
		PrimaryKeyType GetKey(const std::string& cls, const ISerializablePtr& v) const override
		{
			for (size_t i = 0; i < Objects.size(); ++i)
				if (Objects[i].second == v) return 100 + i;
			Objects.push_back(std::make_pair(cls, v));
			return 100 + Objects.size() - 1;
		}
		ISerializablePtr GetObject(const std::string& cls, PrimaryKeyType key) const override
		{
			if (key < 100 || key - 100 >= (int)Objects.size() || Objects[key - 100].first != cls) return null;
			return Objects[key - 100].second;
		}
		void ReleaseRef(const std::string& cls, PrimaryKeyType key) const override { }
	} collection;

	const bool topLevel = s.coin();
	const auto tree = WriteTree(shape, false, context, &collection, topLevel);
	TR(Show(*tree) << (topLevel ? " top level" : ""));
	ShapePtr back;
	{ ObjectIStream is(tree.get(), &collection, context, topLevel); is.Deserialize(back); }
	REQUIRE_EQ(back ? back->Describe() : "null", described);
	if (shape && !topLevel)
		REQUIRE(back == shape, "an object read by its key is another object");
	if (shape && topLevel)
	{
		REQUIRE(back != shape, "the top level object must be stored by value");
		if (const shared_ptr<Group> g = dynamic_caster(shape))
		{
			const shared_ptr<Group> bg = dynamic_caster(back);
			REQUIRE(bg && bg->Items == g->Items, "members read by their keys are other objects");
		}
	}
	if (shape && s.coin())
	{
		std::vector<SettingsValue*> nodes;
		CollectNodes(*tree, nodes);
		for (auto n : nodes)
			if (n->contains<SettingsValueMap>() && n->get<SettingsValueMap>().count(".pk"))
			{
				n->get<SettingsValueMap>()[".pk"] = make_self_count_ptr<SettingsValue>(s.pick<s64>({-1, 0, 99, 100000, s64(1) << 32, (s64(1) << 32) + 100}));
				ShapePtr r;
				bool failed = false;
				try { ObjectIStream is(tree.get(), &collection, context, topLevel); is.Deserialize(r); } catch (const std::exception&) { failed = true; }
				REQUIRE(failed, "an object with an unknown key was accepted: " << Show(*tree));
				break;
			}
	}
}

PROP(injection, 8000, 200000, 0, "the injected tree has at least one list or object")
{
	const auto tree = GenTree(s, 3);
	const std::string shown = Show(*tree);
	TR(shown);
	c.nontrivial_if(shown.find('[') != std::string::npos || shown.find('{') != std::string::npos);
	const auto byValue = WriteTree(InjectionSerializer(tree), false);
	REQUIRE_EQX(Show(*byValue), shown, "an injected tree changed");
	const auto byStream = WriteTree(InjectionSerializer(make_unique_ptr<ObjectIStream>(tree.get(), (IObjectSerializator*)NULL, FactoryContextConstPtr())), false);
	REQUIRE_EQX(Show(*byStream), shown, "a tree injected from a stream changed");

	// as a member
	TreeOStream os;
	os.Serialize(MakeSerializationHelper(std::make_pair(std::string("a"), 5), std::make_pair(std::string("b"), std::string("x"))));
	REQUIRE_EQ(Show(*os.Result), "{a:5,b:\"x\",}");

	const auto clone = tree->Clone();
	REQUIRE_EQX(Show(*clone), shown, "a clone differs");
	const auto deep = DeepClone(*tree);
	if (Mutate(s, *deep))
		REQUIRE_EQX(Show(*tree), shown, "changing a clone changed the original");
}

PROP(garbage, 16000, 600000, 0, "the tree is read as a type it can partly match")
{
	// an arbitrary tree, an arbitrary type: either an exception or a value which survives a round trip
	const auto tree = GenTree(s, 4);
	const std::string shown = Show(*tree);
	TR(shown);
	c.nontrivial_if(tree->contains<SettingsValueMap>() || tree->contains<SettingsValueList>());
#define TRY_TYPE(...) \
	{ \
		typedef __VA_ARGS__ T; \
		T v = T(); \
		bool ok = true; \
		try { ObjectIStream is(tree.get(), NULL, null); is.Deserialize(v); } catch (const std::exception&) { ok = false; } \
		if (ok) \
		{ \
			c.label("accepted"); \
			const auto again = WriteTree(v, s.coin()); \
			T v2 = T(); \
			{ ObjectIStream is(again.get(), NULL, null); is.Deserialize(v2); } \
			REQUIRE(Same(v, v2), "accepted from " << shown << " but " << Show(*again) << " is read differently"); \
		} \
		REQUIRE_EQX(Show(*tree), shown, "reading changed the tree"); \
		return; \
	}
	switch (s.below(15))
	{
	case 0: TRY_TYPE(std::vector<std::string>)
	case 1: TRY_TYPE(std::map<std::string, optional<int>>)
	case 2: TRY_TYPE(std::map<int, std::vector<u8>>)
	case 3: TRY_TYPE(std::vector<std::pair<std::string, double>>)
	case 4: TRY_TYPE(any)
	case 5: TRY_TYPE(variant<TypeList<EmptyType, int, std::string>>)
	case 6: TRY_TYPE(Leaf)
	case 7: TRY_TYPE(Branch)
	case 8: TRY_TYPE(ByteArray)
	case 9: TRY_TYPE(u8)
	case 10: TRY_TYPE(double)
	case 11: TRY_TYPE(ColorEnum)
	case 12: TRY_TYPE(std::vector<optional<bool>>)
	case 13: TRY_TYPE(DictHolder<MapDictionary<std::string, int>, std::string, int>)
	default: TRY_TYPE(TimeDuration)
	}
}

PROP(exact_trees, 8000, 120000, 0, "every case: the tree written for a value is compared with the expected one; integers at and around the limits of their types")
{
	c.nontrivial_if(true);
	// integers are rejected exactly when they do not fit
	const s64 v = s.pick<s64>({-129, -128, -1, 0, 127, 128, 255, 256, -32769, -32768, 32767, 32768, 65535, 65536, -2147483649LL, -2147483648LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL,
			std::numeric_limits<s64>::max(), std::numeric_limits<s64>::min(), s.integer<s64>()});
	SettingsValue sv(v);
	TR(v);
#define FITS(T) \
	{ \
		T t = 0; bool ok = true; \
		try { ObjectIStream is(&sv, NULL, null); is.Deserialize(t); } catch (const std::exception&) { ok = false; } \
		const bool expected = sizeof(T) == 8 || (v >= (s64)std::numeric_limits<T>::min() && v <= (s64)std::numeric_limits<T>::max()); \
		REQUIRE_EQX(ok, expected, #T << " from " << v); \
		if (ok) REQUIRE_EQX((u64)t, (u64)v, #T << " from " << v); \
		T t2 = 0; ok = true; \
		try { ObjectIStream is(&sv, NULL, null); auto d = MakeIntegerDeserializer(t2); is.Deserialize(d); } catch (const std::exception&) { ok = false; } \
		REQUIRE_EQX(ok, expected, "MakeIntegerDeserializer of " #T << " from " << v); \
		if (ok) REQUIRE_EQX((u64)t2, (u64)v, "MakeIntegerDeserializer of " #T << " from " << v); \
	}
	FITS(s8) FITS(u8) FITS(s16) FITS(u16) FITS(s32) FITS(u32) FITS(s64) FITS(u64)

	// shapes
	const int a = s.integer<int>();
	const std::string t = GenText(s);
	REQUIRE_EQ(Show(*WriteTree(std::make_pair(a, t), false)), "[" + ToString(a) + ",\"" + t + "\",]");
	std::map<std::string, int> m; m[t] = a;
	REQUIRE_EQ(Show(*WriteTree(m, false)), "[[\"" + t + "\"," + ToString(a) + ",],]");
	// maps with string keys are also read from an object
	SettingsValueMap sm; sm[t] = make_self_count_ptr<SettingsValue>((s64)a); sm["zz"] = make_self_count_ptr<SettingsValue>((s64)1);
	SettingsValue smv(sm);
	std::map<std::string, int> back; back["old"] = 1;
	{ ObjectIStream is(&smv, NULL, null); is.Deserialize(back); }
	std::map<std::string, int> expected; expected[t] = a; expected["zz"] = 1;
	REQUIRE(back == expected, "a map read from an object");
	// hex text of binary data
	{
		const std::string text = s.text("0123456789abcdefABCDEFgx= ", 8);
		bool valid = text.size() % 2 == 0;
		for (char ch : text) valid = valid && isxdigit((unsigned char)ch);
		const std::string full = s.pick<std::string>({"hex=", "hex=", "hex=", "hex", "HEX=", ""}) + text;
		valid = valid && full.compare(0, 4, "hex=") == 0 && full.size() == text.size() + 4;
		SettingsValue hv(full);
		std::vector<u8> data(3, 1);
		bool ok = true;
		try { ObjectIStream is(&hv, NULL, null); is.Deserialize(data); } catch (const std::exception&) { ok = false; }
		if (!(full.size() >= 4 && full.compare(0, 4, "hex=") == 0 && full.size() != text.size() + 4))
			REQUIRE_EQX(ok, valid, "binary from '" << full << "'");
		if (ok && valid)
		{
			REQUIRE_EQ(data.size(), text.size() / 2);
			for (size_t i = 0; i < data.size(); ++i)
				REQUIRE_EQ((int)data[i], (int)strtol(text.substr(i * 2, 2).c_str(), NULL, 16));
		}
	}
	// floating point text
	{
		const std::string text = s.pick<std::string>({"", "1x", "1 ", " 1", "1.5.5", "e5", "--1", "1,5", "1e5", "-2.5", "12345678.9"});
		const bool valid = text == "1e5" || text == "-2.5" || text == "12345678.9";
		const bool unspecified = text == " 1";
		SettingsValue fv((FloatString(text)));
		double d = 0;
		bool ok = true;
		try { ObjectIStream is(&fv, NULL, null); is.Deserialize(d); } catch (const std::exception&) { ok = false; }
		if (!unspecified)
			REQUIRE_EQX(ok, valid, "a number from '" << text << "'");
		if (ok && valid)
			REQUIRE_EQ(d, strtod(text.c_str(), NULL));
	}
	// a pair is a list of two elements, in every container; a variant has a known index
	{
		SettingsValueList l;
		const int n = s.range<int>(0, 4);
		for (int i = 0; i < n; ++i) l.push_back(make_self_count_ptr<SettingsValue>((s64)i));
		SettingsValueSelfCountPtr pair = make_self_count_ptr<SettingsValue>(l);
		bool ok = true;
		std::pair<int, int> p(-1, -1);
		try { ObjectIStream is(pair.get(), NULL, null); is.Deserialize(p); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, n == 2, "a pair from " << n << " elements");
		if (ok) REQUIRE(p.first == 0 && p.second == 1, "a pair from two elements");
		SettingsValueList ol; ol.push_back(pair);
		SettingsValue outer(ol);
		std::map<int, int> mm; ok = true;
		try { ObjectIStream is(&outer, NULL, null); is.Deserialize(mm); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, n == 2, "a map item from " << n << " elements");

		const s64 index = s.range<int>(-1, 5);
		SettingsValueMap vm;
		vm["index"] = make_self_count_ptr<SettingsValue>(index);
		vm["obj"] = make_self_count_ptr<SettingsValue>((s64)7);
		SettingsValue vv(vm);
		typedef variant<TypeList<EmptyType, int, std::string>> V;
		V var;
		if (s.coin()) var = std::string("old");
		ok = true;
		try { ObjectIStream is(&vv, NULL, null); is.Deserialize(var); } catch (const std::exception&) { ok = false; }
		REQUIRE_EQX(ok, index == 0 || index == 1, "a variant with index " << index);
		if (ok) REQUIRE_EQ((s64)var.which(), index);
	}
	// a helper with names written by hand
	{
		auto h = MakeSerializationHelper(std::make_pair(std::string("n"), a), std::make_pair(std::string("t"), t));
		const auto tree = WriteTree(h, false);
		SerializationHelper<int, std::string> r("n", "t");
		ObjectIStream is(tree.get(), NULL, null);
		is.Deserialize(*r);
		REQUIRE(r.GetValue<0>() == a && r.GetValue<1>() == t, "SerializationHelper lost its values: " << Show(*tree));
	}
}

PROP(translated_copies, 4000, 60000, 0, "a value is read into a copy of another one")
{
	const TranslatedString a = GenTranslated(s);
	const TranslatedString b = GenTranslated(s);
	const std::string shownA = Show(*WriteTree(a, false)), shownB = Show(*WriteTree(b, false));
	c.nontrivial_if(shownA != shownB);
	TranslatedString copy(b);
	const auto held = b.GetTranslations();
	const auto tree = WriteTree(a, false);
	ObjectIStream is(tree.get(), NULL, null);
	is.Deserialize(copy);
	REQUIRE_EQ(Show(*WriteTree(copy, false)), shownA);
	REQUIRE_EQX(Show(*WriteTree(b, false)), shownB, "reading into a copy changed the source");
}
