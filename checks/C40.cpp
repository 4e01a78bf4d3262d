// ENGINE: conc
// FLAGS: -fno-sanitize=enum
// Command lines: commands are parsed by an independent reader; completions are computed from lists of words and values.
#include <stingraykit/CmdLine.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/toolkit.h>
#include "dsched.h"
#include "util.h"
#include <functional>
#include <map>
#include <memory>
#include <set>

using namespace stingray;
using namespace pbt;

namespace
{
	struct Color
	{
		STINGRAYKIT_ENUM_VALUES(Red, Green, Grey, Blue, Black);
		STINGRAYKIT_DECLARE_ENUM_CLASS(Color);
	};
	const char* const ColorNames[] = { "Red", "Green", "Grey", "Blue", "Black" };

	enum Type { Int, Str, Bool, Enum, OptInt, OptStr, VecInt, VecStr, VecEnum };

	// what the handlers received
	std::string repr(int v) { return std::to_string(v); }
	std::string repr(const std::string& v) { return "'" + v + "'"; }
	std::string repr(bool v) { return v ? "yes" : "no"; }
	// numbers are read as well, whatever the declared values are
	std::string repr(const Color& v) { return "color " + std::to_string((int)v.val()); }
	template < typename T > std::string repr(const optional<T>& v) { return v ? "some " + repr(*v) : std::string("none"); }
	template < typename T > std::string repr(const std::vector<T>& v)
	{
		std::string r = "[";
		for (const T& x : v) r += repr(x) + ";";
		return r + "]";
	}

	// an independent reader: the value is given as text, the position moves behind it
	struct Reader
	{
		const std::string& s; size_t pos;

		// a word ends at a space, a comma or a bracket, unless it is escaped
		std::string word()
		{
			std::string r;
			for (; pos < s.size(); ++pos)
			{
				const char ch = s[pos];
				if (ch == '\\') { if (++pos == s.size()) break; r += s[pos]; continue; }
				if (ch == ' ' || ch == ',' || ch == ']') break;
				r += ch;
			}
			return r;
		}
		void spaces() { while (pos < s.size() && s[pos] == ' ') ++pos; }

		bool value(Type t, std::string& out)
		{
			const size_t from = pos;
			switch (t)
			{
			case Str: out = repr(word()); return pos > from;
			case Int: case OptInt:
			{
				const std::string w = word();
				if (pos == from) return false;
				if (t == OptInt && w == "none") { out = "none"; return true; }
				try { out = repr(FromString<int>(w)); } catch (const std::exception&) { return false; }
				if (t == OptInt) out = "some " + out;
				return true;
			}
			case OptStr:
			{
				const std::string w = word();
				if (pos == from) return false;
				out = w == "none" ? "none" : "some " + repr(w);
				return true;
			}
			case Bool:
			{
				const std::string w = word();
				if (w != "on" && w != "true" && w != "off" && w != "false") return false;
				out = repr(w == "on" || w == "true");
				return true;
			}
			case Enum:
			{
				const std::string w = word();
				if (pos == from) return false;
				for (int i = 0; i < 5; ++i) if (w == ColorNames[i]) { out = "color " + std::to_string(i); return true; }
				try { out = repr(FromString<Color>(w)); } catch (const std::exception&) { return false; }
				return true;
			}
			case VecInt: case VecStr: case VecEnum:
			{
				if (pos == s.size() || s[pos] != '[') return false;
				++pos;
				out = "[";
				while (pos < s.size() && s[pos] != ']')
				{
					spaces();
					std::string v;
					if (!value(t == VecInt ? Int : t == VecStr ? Str : Enum, v)) return false;
					out += v + ";";
					spaces();
					if (pos == s.size() || s[pos] == ']') break;
					if (s[pos] != ',') return false;
					++pos;
					spaces();
				}
				if (pos == s.size()) return false;
				++pos;
				out += "]";
				return true;
			}
			}
			return false;
		}
	};

	struct HandlerModel
	{
		std::vector<std::string> words; std::vector<Type> types; int id; bool throws = false;
		std::map<size_t, std::set<std::string> > custom;
		Token token;
		std::weak_ptr<int> captured;	// by the handler

		void remove()
		{
			token.Reset();
			REQUIRE(captured.expired(), "the handler " << id << " is kept after its removal");
		}

		bool match(const std::string& cmd, std::string& args) const
		{
			size_t pos = 0;
			const auto separator = [&] { if (pos == cmd.size()) return true; if (cmd[pos] != ' ') return false; ++pos; return true; };
			for (const std::string& w : words)
			{
				if (cmd.compare(pos, w.size(), w) != 0) return false;
				pos += w.size();
				if (!separator()) return false;
			}
			args = std::to_string(id) + ":";
			for (Type t : types)
			{
				Reader r{cmd, pos};
				std::string v;
				if (!r.value(t, v)) return false;
				pos = r.pos;
				if (!separator()) return false;
				args += " " + v;
			}
			return pos == cmd.size();
		}
	};

	struct Failure : public std::runtime_error { Failure() : std::runtime_error("handler") { } };

	std::string escaped(Src& s, const std::string& w)
	{
		std::string r;
		for (char ch : w)
		{
			if (ch == ' ' || ch == ',' || ch == ']' || ch == '\\' || s.chance(1, 8)) r += '\\';
			r += ch;
		}
		return r;
	}
	std::string some_word(Src& s)
	{ return s.pick<std::string>({"a", "b", "ab", "a b", "none", "x,y", "[z]", "on", "\\", "1", "Red", "-"}); }

	std::string some_value(Src& s, Type t)
	{
		switch (t)
		{
		case Str: return escaped(s, some_word(s));
		case OptStr: return s.chance(1, 4) ? std::string("none") : escaped(s, some_word(s));
		case OptInt: if (s.chance(1, 4)) return "none"; // fall through
		case Int: return std::to_string(s.integer<int>());
		case Bool: return s.pick<std::string>({"on", "off", "true", "false"});
		case Enum: return ColorNames[s.below(5)];
		case VecInt: case VecStr: case VecEnum:
		{
			std::string r = "[";
			for (size_t n = s.below(4), i = 0; i < n; ++i)
				r += (i ? s.pick<std::string>({",", ", ", " ,", "  ,  "}) : std::string(s.chance(1, 5) ? " " : "")) + some_value(s, t == VecInt ? Int : t == VecStr ? Str : Enum);
			if (r.size() > 1 && s.chance(1, 5)) r += " ";
			return r + "]";
		}
		}
		return "";
	}

	struct Machine
	{
		Src& s; Ctx& c;
		CmdLine line;
		std::vector<std::unique_ptr<HandlerModel> > handlers; // in the order of registration
		std::vector<std::string> log;
		int ids = 0;
		size_t executed = 0, refused = 0, completed = 0;
		std::function<void ()> inside;	// what the next handler called does

		Machine(Src& s_, Ctx& c_) : s(s_), c(c_) { }

		template < typename... Ts >
		function<void (Ts...)> handler(HandlerModel& h, Type const* types, size_t n)
		{
			h.types.assign(types, types + n);
			const int id = h.id; const bool throws = h.throws;
			std::shared_ptr<int> guard(new int(id));
			h.captured = guard;
			return fn<void (Ts...)>([this, id, throws, guard](Ts... args) {
				std::string r = std::to_string(id) + ":";
				int dummy[] = { 0, ((void)(r += " " + repr(args)), 0)... };
				(void)dummy;
				log.push_back(r);
				std::function<void ()> f;
				f.swap(inside);
				if (f) f();
				REQUIRE_EQ(*guard, id);
				if (throws) throw Failure();
			});
		}

		template < typename F >
		void insert(HandlerModel& h, const F& f)
		{
			const auto set = [&](CmdLine::CustomCompleteFuncSetter setter) {
				for (auto& k : h.custom)
				{
					const std::set<std::string> values = k.second;
					setter % CustomComplete(k.first, fn<std::set<std::string> ()>([values] { return values; }));
				}
				h.token = setter;
				if (!h.custom.empty() && s.chance(1, 4))
					REQUIRE(THROWS(setter % CustomComplete(h.custom.begin()->first, fn<std::set<std::string> ()>([] { return std::set<std::string>(); }))), "the completion of an argument was replaced");
			};
			switch (h.words.size())
			{
			case 1: set(line.Handler(h.words[0]) = f); break;
			case 2: set(line.Handler(h.words[0], h.words[1]) = f); break;
			case 3: set(line.Handler(h.words[0], h.words[1], h.words[2]) = f); break;
			}
		}

#define SHAPE(Params, ...) { const Type t[] = { __VA_ARGS__ }; customs(*h, t, sizeof(t) / sizeof(*t)); insert(*h, handler<STINGRAYKIT_REMOVE_PARENTHESES Params>(*h, t, sizeof(t) / sizeof(*t))); break; }
#define STINGRAYKIT_REMOVE_PARENTHESES(...) __VA_ARGS__

		void customs(HandlerModel& h, const Type* t, size_t n)
		{
			for (size_t i = 0; i < n; ++i)
				if ((t[i] == Str || t[i] == Int || t[i] == Bool || t[i] == Enum) && s.chance(1, 3))
					for (size_t k = 1 + s.below(4); k--; ) h.custom[i].insert(s.pick<std::string>({"a", "ab", "abc", "b c", "b,d", "12", "123", "b]"}));
		}

		void add()
		{
			std::unique_ptr<HandlerModel> h(new HandlerModel);
			h->id = ids++;
			h->throws = s.chance(1, 10);
			for (size_t n = 1 + s.weighted({3, 3, 1}); n--; ) h->words.push_back(s.pick<std::string>({"set", "se", "s", "on", "color", "set on", "1"}));
			switch (s.below(13))
			{
			case 0: insert(*h, handler<>(*h, nullptr, 0)); break;
			case 1: SHAPE((int), Int)
			case 2: SHAPE((std::string), Str)
			case 3: SHAPE((bool), Bool)
			case 4: SHAPE((Color), Enum)
			case 5: SHAPE((int, std::string), Int, Str)
			case 6: SHAPE((std::string, std::string), Str, Str)
			case 7: SHAPE((std::vector<int>), VecInt)
			case 8: SHAPE((std::vector<std::string>, bool), VecStr, Bool)
			case 9: SHAPE((optional<int>, Color), OptInt, Enum)
			case 10: SHAPE((bool, Color, std::string), Bool, Enum, Str)
			case 11: SHAPE((optional<std::string>, int), OptStr, Int)
			case 12: SHAPE((std::vector<Color>, std::string), VecEnum, Str)
			}
			std::string w;
			for (auto& x : h->words) w += x + " ";
			TR("handler " << h->id << " " << w << ", " << h->types.size() << " arguments of " << (h->types.empty() ? -1 : (int)h->types[0]) << (h->throws ? ", throws" : ""));
			handlers.push_back(std::move(h));
		}

		std::string render(const HandlerModel& h)
		{
			std::string r;
			for (auto& w : h.words) r += (r.empty() ? "" : " ") + w;
			for (Type t : h.types) r += " " + some_value(s, t);
			return r;
		}

		void execute()
		{
			std::string cmd = handlers.empty() ? "set" : render(*handlers[s.below(handlers.size())]);
			if (s.chance(1, 8)) cmd += " ";
			for (size_t n = s.weighted({4, 2, 1}); n--; )
			{
				const size_t at = s.below(cmd.size() + 1);
				switch (s.below(3))
				{
				case 0: cmd.insert(at, s.pick<std::string>({" ", "a", ",", "]", "[", "\\", "1", "on", "#"})); break;
				case 1: cmd.erase(at, 1 + s.below(3)); break;
				case 2: cmd.resize(at); break;
				}
			}
			// what an escape at the end of a word means is nobody's business
			if (!cmd.empty() && cmd.back() == '\\') cmd += "\\";
			HandlerModel* expected = nullptr;
			std::string args;
			const bool comment = !cmd.empty() && cmd[0] == '#';
			for (auto& h : handlers)
				if (!comment && !expected && h->match(cmd, args)) expected = h.get();
			TR("execute " << quote(cmd) << (expected ? " -> " + args : std::string()));

			std::vector<std::string> want;
			if (expected) want.push_back(args);
			int gone = -1;
			if (expected && s.chance(1, 6))
			{
				if (s.coin())
				{	// a handler which executes another command
					std::string other = "#", otherArgs;
					HandlerModel& o = *handlers[s.below(handlers.size())];
					other = render(o);
					HandlerModel* first = nullptr;
					for (auto& h : handlers) if (!first && h->match(other, otherArgs)) first = h.get();
					if (first && !first->throws)
					{
						TR("which executes " << quote(other));
						want.push_back(otherArgs);
						inside = [this, other] { REQUIRE(line.Execute(other), quote(other)); };
					}
				}
				else
				{	// a handler which removes another one, or itself
					const size_t i = s.below(handlers.size());
					TR("which removes " << handlers[i]->id);
					gone = i;
					inside = [this, i] { handlers[i]->token.Reset(); };
				}
			}
			bool result = false, thrown = false;
			try { result = line.Execute(cmd); } catch (const Failure&) { thrown = true; }
			REQUIRE_EQ(thrown, expected && expected->throws);
			if (!thrown) REQUIRE_EQ(result, expected || comment);
			REQUIRE(log == want, (log.empty() ? std::string("nothing was called") : "called with " + log[0] + (log.size() > 1 ? " and " + log[1] : "")) << ", expected " << (want.empty() ? "nothing" : want[0] + (want.size() > 1 ? " and " + want[1] : "")));
			log.clear();
			if (gone >= 0)
			{
				handlers[gone]->remove();
				handlers.erase(handlers.begin() + gone);
			}
			++(expected ? executed : refused);
		}

		std::string quoted_for_completion(const std::string& v) const
		{
			std::string r;
			for (char ch : v) { if (ch == ' ' || ch == ']' || ch == ',') r += '\\'; r += ch; }
			return r;
		}

		// the values an argument can be completed to, or nothing known about it
		bool candidates(const HandlerModel& h, size_t i, std::set<std::string>& r) const
		{
			r.clear();
			if (h.custom.count(i)) { r = h.custom.find(i)->second; return true; }
			if (h.types[i] == Bool) { r = { "on", "off", "true", "false" }; return true; }
			if (h.types[i] == Enum) { r.insert(ColorNames, ColorNames + 5); return true; }
			return false;
		}

		void complete()
		{
			if (handlers.empty()) return;
			// whole words and values of a handler, and a part of the next one
			const HandlerModel& h = *handlers[s.below(handlers.size())];
			std::vector<std::string> parts;
			const size_t upto = s.below(h.words.size() + h.types.size());
			for (size_t i = 0; i <= upto; ++i)
			{
				std::string v;
				if (i < h.words.size()) v = h.words[i];
				else
				{
					std::set<std::string> known;
					if (candidates(h, i - h.words.size(), known)) { auto it = known.begin(); std::advance(it, s.below(known.size())); v = *it; }
					else v = h.types[i - h.words.size()] == Int ? "12" : "xyz";
					if (i < upto) v = quoted_for_completion(v);
				}
				if (i == upto) v = quoted_for_completion(v.substr(0, s.below(v.size() + 1)));
				parts.push_back(v);
			}
			std::string cmd;
			for (size_t i = 0; i < parts.size(); ++i) cmd += (i ? " " : "") + parts[i];

			std::set<std::string> want;
			bool vague = false;
			for (auto& k : handlers)
			{
				size_t pos = 0; bool done = false;
				for (const std::string& w : k->words)
				{
					const size_t n = std::min(w.size(), cmd.size() - pos);
					if (cmd.compare(pos, n, w, 0, n) != 0) { done = true; break; }
					if (w.size() >= cmd.size() - pos) { want.insert(w.substr(n) + " "); done = true; break; }
					if (cmd[pos + n] != ' ') { done = true; break; }
					pos += n + 1;
				}
				for (size_t i = 0; !done && i < k->types.size(); ++i)
				{
					Reader r{cmd, pos};
					const std::string part = r.word();
					const bool last = r.pos == cmd.size();
					std::set<std::string> known;
					const bool have = candidates(*k, i, known);
					if (last)
					{
						if (have && known.count(part)) vague = true;	// complete already, or not
						if (have) for (auto& v : known) if (v.compare(0, part.size(), part) == 0) want.insert(quoted_for_completion(v.substr(part.size())) + " ");
						break;
					}
					// values which are not known, and lists, are not looked into
					if ((have && !known.count(part)) || cmd[r.pos] != ' ') vague = true;
					pos = r.pos + 1;
				}
			}
			std::set<std::string> got;
			const bool kept = s.chance(1, 4);
			if (kept) got.insert("kept");
			line.Complete(cmd, got);
			TR("complete " << quote(cmd) << ": " << got.size() << (vague ? ", vague" : ""));
			if (vague) return;
			if (kept) want.insert("kept");
			std::string a, b;
			for (auto& x : got) a += quote(x) + " ";
			for (auto& x : want) b += quote(x) + " ";
			REQUIRE(got == want, "completions of " << quote(cmd) << ": " << a << ", expected " << b);
			if (!want.empty()) ++completed;
		}

		void run()
		{
			add();
			while (s.more(25))
				switch (s.weighted({12, 4, 2, 8}))
				{
				case 0: execute(); break;
				case 1: if (handlers.size() < 6) add(); break;
				case 2:
					if (!handlers.empty())
					{
						const size_t i = s.below(handlers.size());
						TR("remove " << handlers[i]->id);
						handlers[i]->remove();
						handlers.erase(handlers.begin() + i);
					}
					break;
				case 3: complete(); break;
				}
			c.nontrivial_if(executed > 0 && refused > 0 && handlers.size() > 1);
			if (completed) c.label("completions");
		}
	};
}

PROP(commands, 150000, 3000000, 0, "commands were executed and refused with several handlers")
{
	Machine m(s, c);
	m.run();
}

// handlers are added, executed and removed by several threads
PROP(concurrent_removal, 30000, 600000, 0, "a handler was removed while commands were executed")
{
	struct Registered { Token token; bool added = false, removing = false, removed = false; int executing = 0, running = 0; };
	const size_t n = s.range<size_t>(1, 4);
	std::vector<Registered> regs(n);
	std::vector<int> owner(n), steps(n);
	const int changers = s.range<int>(1, 2), executors = s.range<int>(1, 2);
	for (size_t i = 0; i < n; ++i) { owner[i] = s.below(changers); steps[i] = s.range<int>(0, 3); }
	std::vector<std::vector<size_t> > cmds(executors);
	for (auto& e : cmds) for (size_t k = s.range<size_t>(1, 5); k--; ) e.push_back(s.below(n));
	std::vector<bool> before(n);
	for (size_t i = 0; i < n; ++i) before[i] = s.coin();
	std::vector<bool> asks(executors);
	for (int i = 0; i < executors; ++i) asks[i] = s.coin();
	CmdLine line;
	size_t during = 0;
	const auto add = [&](size_t i) {
		regs[i].token = (line.Handler("cmd", std::to_string(i)) = fn<void (std::string)>([&regs, i](std::string text) {
			{ sched::NoPreempt x; REQUIRE(!regs[i].removed, "the handler " << i << " was called after its removal"); ++regs[i].running; }
			REQUIRE(text == "x", "wrong argument " << quote(text));
			for (int p = 0; p < 3; ++p) sched::point();
			{ sched::NoPreempt x; --regs[i].running; REQUIRE(!regs[i].removed, "the removal of the handler " << i << " did not wait for it"); }
		})) % CustomComplete(0, fn<std::set<std::string> ()>([] { return std::set<std::string>{"value"}; }));
		sched::NoPreempt x; regs[i].added = true;
	};
	for (size_t i = 0; i < n; ++i) if (before[i]) add(i);
	for (size_t i = 0; i < n; ++i) TR("handler " << i << " of " << owner[i] << (before[i] ? ", there from the start" : "") << ", lives for " << steps[i]);

	sched::start(s, sched::Mode(false, false));
	{
		std::vector<sched::Thread> t;
		for (int k = 0; k < changers; ++k)
			t.emplace_back([&, k] {
				for (size_t i = 0; i < n; ++i)
				{
					if (owner[i] != k) continue;
					if (!before[i]) add(i);
					for (int p = 0; p < steps[i]; ++p) sched::point();
					{ sched::NoPreempt x; regs[i].removing = true; if (regs[i].executing) ++during; }
					regs[i].token.Reset();
					sched::NoPreempt x;
					REQUIRE_EQ(regs[i].running, 0);
					regs[i].removed = true;
				}
			});
		for (int k = 0; k < executors; ++k)
			t.emplace_back([&, k] {
				for (size_t i : cmds[k])
				{
					bool added, gone;
					{ sched::NoPreempt x; added = regs[i].added; gone = regs[i].removed; }
					if (asks[k])
					{
						std::set<std::string> r;
						line.Complete("cmd " + std::to_string(i) + " v", r);
						sched::NoPreempt x;
						if (added && !regs[i].removing) REQUIRE(r.size() == 1 && *r.begin() == "alue ", "a handler did not complete");
						if (gone) REQUIRE(r.empty(), "a removed handler completed");
					}
					{ sched::NoPreempt x; ++regs[i].executing; }
					const bool done = line.Execute("cmd " + std::to_string(i) + " x");
					sched::NoPreempt x;
					--regs[i].executing;
					if (added && !regs[i].removing) REQUIRE(done, "the command " << i << " was not executed");
					if (gone) REQUIRE(!done, "the command " << i << " was executed by nobody");
				}
			});
	}
	sched::stop();
	c.nontrivial_if(during > 0);
}
