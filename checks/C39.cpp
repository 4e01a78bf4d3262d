// ENGINE: conc
// Logging: loggers, levels, sinks and the filter of repeated messages against a model; then loggers used by several
// threads while sinks come and go.
#include <stingraykit/log/Logger.h>
#include <stingraykit/string/ToString.h>
#include "dsched.h"
#include "util.h"
#include <map>
#include <memory>
#include <set>

using namespace stingray;
using namespace pbt;

namespace
{
	struct Got
	{
		bool named; std::string name; int level; std::string text; bool highlight;
		bool operator == (const Got& o) const { return named == o.named && name == o.name && level == o.level && text == o.text && highlight == o.highlight; }
	};
	std::string show(const Got& g)
	{ return (g.named ? "[" + g.name + "] " : std::string()) + std::to_string(g.level) + (g.highlight ? " ! " : " ") + quote(g.text); }

	// what loggers say about their own settings
	bool noise(const std::string& text)
	{ return text.compare(0, 13, "Log level is ") == 0 || text.compare(0, 10, "Backtrace ") == 0; }

	struct Sink : public virtual ILoggerSink
	{
		std::vector<Got> got;
		bool throwing = false, echoes = false;
		std::function<void ()> hook;
		std::function<void (const LoggerMessage&)> seen;

		void Log(const LoggerMessage& m) override
		{
			sched::point("sink");
			{
				sched::NoPreempt n;
				if (noise(m.GetMessage()))
					return;
				if (seen)
					seen(m);
				const std::string line = m.ToString();
				Got g;
				g.named = (bool)m.GetLoggerName();
				if (g.named) g.name = *m.GetLoggerName();
				g.level = m.GetLogLevel().val(); g.text = m.GetMessage(); g.highlight = m.Highlight();
				const std::string tail = (g.named ? "} [" + g.name + "] " : std::string("} ")) + g.text;
				REQUIRE(line.size() >= tail.size() && line.compare(line.size() - tail.size(), tail.size(), tail) == 0, quote(line));
				REQUIRE(line.find("] [" + ToString(m.GetLogLevel()) + "] {" + m.GetThreadName() + "}") != std::string::npos, quote(line));
				got.push_back(g);
			}
			if (hook)
			{
				std::function<void ()> h;
				h.swap(hook);
				h();
			}
			if (echoes && m.GetMessage().compare(0, 4, "echo") != 0)
				Logger::Error() << "echo of " << m.GetMessage();
			if (throwing)
				throw std::runtime_error("sink");
		}
	};
	typedef shared_ptr<Sink> SinkPtr;

	typedef int OptLevel; // -1: none
	const int Levels = 6;
	optional<LogLevel> to_level(OptLevel l)
	{ return l < 0 ? optional<LogLevel>() : optional<LogLevel>(LogLevel((LogLevel::Enum)l)); }

	struct Settings
	{
		OptLevel level = -1; bool backtrace = false, highlight = false;
		bool empty() const { return level < 0 && !backtrace && !highlight; }
	};

	struct FilterModel
	{
		struct Counter { bool started = false; std::string text; unsigned count = 0; uint64_t since = 0; };
		std::map<int, Counter> counters;

		// the messages shown for a message logged at one place
		std::vector<std::string> pass(int place, const std::string& text, unsigned limit, uint64_t interval_ns, uint64_t now)
		{
			std::vector<std::string> r;
			Counter& k = counters[place];
			if (!k.started)
				r.push_back(text);
			else
			{
				const bool fresh = k.text != text;
				if (!fresh && k.count < limit && !(interval_ns && now - k.since >= interval_ns))
				{
					++k.count;
					return r;
				}
				if (k.count) r.push_back(k.text + " (" + std::to_string(k.count) + " times)");
				if (fresh) r.push_back(text);
			}
			k.started = true; k.text = text; k.count = 0; k.since = now;
			return r;
		}
	};

	struct LoggerModel
	{
		std::string name; OptLevel level; bool backtrace = false, highlight = false; FilterModel filter;
		std::unique_ptr<NamedLogger> logger;
	};

	struct Machine
	{
		Src& s; Ctx& c;
		int global = LogLevel::Info;
		std::map<std::string, Settings> settings;
		std::vector<std::unique_ptr<LoggerModel> > loggers;
		struct Connection { SinkPtr sink; Token token; };
		std::vector<Connection> connections;
		std::vector<SinkPtr> sinks;
		std::map<Sink*, std::vector<Got> > expected;
		size_t delivered = 0, hidden = 0, folded = 0;

		struct Stream { std::unique_ptr<LoggerStream> stream; LoggerModel* logger; int threshold, level; std::string text; bool any; };
		std::vector<Stream> streams;

		DuplicatingLogsFilter shared; FilterModel sharedModel;

		Machine(Src& s_, Ctx& c_) : s(s_), c(c_)
		{ Logger::SetLogLevel(LogLevel((LogLevel::Enum)global)); }

		~Machine()
		{
			streams.clear();
			for (auto& k : connections) { try { k.token.Reset(); } catch (...) { } }
			connections.clear();
			for (auto& p : settings)
			{
				Logger::SetLogLevel(p.first, null);
				Logger::EnableBacktrace(p.first, false);
				Logger::EnableHighlight(p.first, false);
			}
			loggers.clear();
			Logger::SetLogLevel(LogLevel::Info);
		}

		std::string name() { return "L" + std::to_string(s.below(3)); }
		int level() { return s.below(5); }
		std::string text() { return s.pick<std::string>({"a", "b", "ab", "", "a (1 times)", "x\ny"}); }
		int effective(const LoggerModel* l) const { return l && l->level >= 0 ? l->level : global; }

		// the sinks as they are; a message given to all of them
		void deliver(const LoggerModel* l, int lev, const std::string& t)
		{
			Got g;
			g.named = l != nullptr; g.level = lev; g.text = t;
			g.highlight = l && l->highlight;
			if (l) g.name = l->name;
			std::vector<Got> echoes;
			std::vector<SinkPtr> now;
			for (auto& k : connections) now.push_back(k.sink);
			for (auto& k : now)
			{
				expected[k.get()].push_back(g);
				++delivered;
				if (k->echoes && global <= LogLevel::Error)
				{
					Got e;
					e.named = false; e.level = LogLevel::Error; e.text = "echo of " + t; e.highlight = false;
					for (auto& m : now) expected[m.get()].push_back(e);
				}
			}
		}

		void check()
		{
			for (auto& k : sinks)
			{
				const auto& e = expected[k.get()];
				for (size_t i = 0; i < e.size() && i < k->got.size(); ++i)
				{
					Got g = k->got[i];
					// what follows a message of a logger with backtraces is not ours
					if (g.text.size() > e[i].text.size() && e[i].text.size() && e[i].text.back() == '\n' && g.text.compare(0, e[i].text.size(), e[i].text) == 0)
						g.text = e[i].text;
					REQUIRE(g == e[i], "message " << i << " of a sink: " << show(g) << ", expected " << show(e[i]));
				}
				REQUIRE(k->got.size() == e.size(), "a sink got " << k->got.size() << " messages, expected " << e.size()
						<< (k->got.size() > e.size() ? ", first extra: " + show(k->got[e.size()]) : ", first missing: " + show(e[k->got.size()])));
				k->got.clear();
				expected[k.get()].clear();
			}
			for (auto& l : loggers)
			{
				REQUIRE_EQ((int)l->logger->GetLogLevel().val(), effective(l.get()));
				REQUIRE_EQ(l->logger->BacktraceEnabled(), l->backtrace);
				REQUIRE_EQ(l->logger->HighlightEnabled(), l->highlight);
				REQUIRE_EQ(l->logger->GetName(), l->name);
			}
			REQUIRE_EQ((int)Logger::GetLogLevel().val(), global);
			std::set<std::string> names;
			for (auto& l : loggers) names.insert(l->name);
			const std::set<std::string> known = Logger::GetLoggerNames();
			for (int i = 0; i < 3; ++i)
			{
				const std::string n = "L" + std::to_string(i);
				REQUIRE_EQ(known.count(n), names.count(n));
				const optional<LogLevel> lev = Logger::GetLogLevel(n);
				REQUIRE_EQ(lev ? (int)lev->val() : -1, settings.count(n) ? settings[n].level : -1);
			}
		}

		LoggerModel* some_logger()
		{ return loggers.empty() || s.chance(1, 4) ? nullptr : loggers[s.below(loggers.size())].get(); }

		std::string shown(const LoggerModel* l, const std::string& t) const { return l && l->backtrace ? t + "\n" : t; }

		void log()
		{
			LoggerModel* l = some_logger();
			const int lev = level();
			const std::string t = text();
			int place = s.below(3);
			const unsigned hide = s.weighted({4, 2, 1, 1});
			if (hide == 2) place += 3;	// one place does it in one way
			const unsigned limit = s.range<unsigned>(1, 3);
			const uint64_t interval = s.range<uint64_t>(1, 3) * 10;
			const int number = s.integer<int>();
			const bool pass = lev >= effective(l);
			TR("log " << (l ? l->name : "-") << " level " << lev << " " << quote(t) << (hide == 1 ? " count " : hide == 2 ? " interval " : hide == 3 ? " shared filter " : "") << limit << "/" << interval << " at " << place << (pass ? "" : ": hidden"));
			{
				static const LogLevel::Enum levels[] = { LogLevel::Trace, LogLevel::Debug, LogLevel::Info, LogLevel::Warning, LogLevel::Error };
				LoggerStream stream = l ? l->logger->Stream(levels[lev]) : Logger::Stream(levels[lev]);
				const char* file = "some file.cpp";
				if (hide == 1) stream << Detail::HideDuplicatingLogs(limit, file, place);
				if (hide == 2) stream << Detail::HideDuplicatingLogs(TimeDuration(interval), file, place);
				if (hide == 3) stream << Detail::HideDuplicatingLogs(limit, file, place, shared);
				stream << t;
				if (hide == 0) stream << number << std::string("|") << true;
			}
			if (!pass)
			{
				++hidden;
				return;
			}
			if (hide == 0)
				return deliver(l, lev, shown(l, t + std::to_string(number) + "|true"));
			FilterModel* f = hide == 3 ? &sharedModel : l ? &l->filter : nullptr;
			if (!f)
				return deliver(l, lev, shown(l, t));
			const auto out = f->pass(place, t, hide == 2 ? ~0u : limit, hide == 2 ? interval * 1000000 : 0, sched::clock_ns());
			if (out.size() != 1) ++folded;
			for (auto& o : out)
				deliver(l, lev, shown(l, o));
		}

		void step()
		{
			switch (s.weighted({30, 5, 3, 5, 4, 4, 3, 3, 3, 3, 3, 3, 2, 2, 2, 1}))
			{
			case 0: log(); break;
			case 1: // a new logger
				if (loggers.size() < 5)
				{
					std::unique_ptr<LoggerModel> l(new LoggerModel);
					l->name = name();
					l->level = s.chance(1, 2) ? -1 : (int)s.below(Levels);
					l->logger.reset(new NamedLogger(l->name, to_level(l->level)));
					const auto it = settings.find(l->name);
					TR("logger " << l->name << " level " << l->level << (it != settings.end() ? ", known" : ""));
					if (it != settings.end())
					{
						if (it->second.level >= 0) l->level = it->second.level;
						l->backtrace = it->second.backtrace;
						l->highlight = it->second.highlight;
					}
					loggers.push_back(std::move(l));
				}
				break;
			case 2:
				if (!loggers.empty())
				{
					const size_t i = s.below(loggers.size());
					bool used = false;
					for (auto& k : streams) used = used || k.logger == loggers[i].get();
					if (used) break;
					TR("logger " << loggers[i]->name << " destroyed");
					loggers.erase(loggers.begin() + i);
				}
				break;
			case 3: // a sink, possibly one that is there already
			{
				SinkPtr k;
				if (!sinks.empty() && s.chance(1, 4))
					k = sinks[s.below(sinks.size())];
				else
				{
					k = make_shared_ptr<Sink>();
					k->throwing = s.chance(1, 5);
					bool echo = false;
					for (auto& o : sinks) echo = echo || o->echoes;
					k->echoes = !echo && s.chance(1, 8);
					sinks.push_back(k);
				}
				bool connected = false;
				for (auto& o : connections) connected = connected || o.sink == k;
				if (k->echoes && connected)
					break;
				const size_t n = s.chance(1, 12) ? 20 : 1;
				TR("sink " << (connected ? "again" : k->throwing ? "which throws" : k->echoes ? "which logs" : "") << (n > 1 ? " many times" : ""));
				for (size_t i = 0; i < (k->echoes ? 1 : n); ++i)
					connections.push_back(Connection{k, Logger::AddSink(k)});
				break;
			}
			case 4:
				if (!connections.empty())
				{
					const size_t i = s.below(connections.size());
					TR("sink removed");
					connections[i].token.Reset();
					// of equal sinks the first one goes
					for (size_t j = 0; j <= i; ++j)
						if (connections[j].sink == connections[i].sink)
						{
							std::swap(connections[j].token, connections[i].token);
							connections.erase(connections.begin() + j);
							break;
						}
				}
				break;
			case 5:
				global = s.below(Levels);
				TR("level " << global);
				Logger::SetLogLevel(LogLevel((LogLevel::Enum)global));
				break;
			case 6:
			{
				const std::string n = name(); const OptLevel l = (int)s.below(Levels + 1) - 1;
				TR("level of " << n << ": " << l);
				Logger::SetLogLevel(n, to_level(l));
				settings[n].level = l;
				for (auto& k : loggers) if (k->name == n) k->level = l;
				break;
			}
			case 7:
			{
				const std::string n = name(); const bool on = s.coin();
				TR("highlight of " << n << ": " << on);
				Logger::EnableHighlight(n, on);
				settings[n].highlight = on;
				for (auto& k : loggers) if (k->name == n) k->highlight = on;
				break;
			}
			case 8:
			{
				const std::string n = name(); const bool on = s.chance(1, 3);
				TR("backtrace of " << n << ": " << on);
				Logger::EnableBacktrace(n, on);
				settings[n].backtrace = on;
				for (auto& k : loggers) if (k->name == n) k->backtrace = on;
				break;
			}
			case 9:
				if (!loggers.empty())
				{
					LoggerModel& l = *loggers[s.below(loggers.size())];
					l.level = (int)s.below(Levels + 1) - 1;
					TR("own level of " << l.name << ": " << l.level);
					l.logger->SetLogLevel(to_level(l.level));
				}
				break;
			case 10:
				if (!loggers.empty())
				{
					LoggerModel& l = *loggers[s.below(loggers.size())];
					if (s.coin()) l.logger->EnableHighlight(l.highlight = s.coin());
					else l.logger->EnableBacktrace(l.backtrace = s.chance(1, 3));
				}
				break;
			case 11: // a message written in pieces, while levels and sinks change
			{
				LoggerModel* l = some_logger();
				const int lev = level();
				streams.push_back(Stream{std::unique_ptr<LoggerStream>(new LoggerStream(l ? l->logger->Stream(LogLevel((LogLevel::Enum)lev)) : Logger::Stream(LogLevel((LogLevel::Enum)lev)))), l, effective(l), lev, "", false});
				TR("stream " << (l ? l->name : "-") << " level " << lev);
				break;
			}
			case 12:
				if (!streams.empty())
				{
					Stream& k = streams[s.below(streams.size())];
					const std::string t = text();
					TR("stream << " << quote(t));
					*k.stream << t;
					k.text += t; k.any = true;
				}
				break;
			case 13:
				if (!streams.empty())
				{
					const size_t i = s.below(streams.size());
					Stream k = std::move(streams[i]);
					streams.erase(streams.begin() + i);
					TR("stream closed");
					if (s.coin()) { LoggerStream other(std::move(*k.stream)); }
					k.stream.reset();
					if (k.any && k.level >= k.threshold)
						deliver(k.logger, k.level, shown(k.logger, k.text));
				}
				break;
			case 14: // helpers
			{
				LoggerModel* l = some_logger();
				const int lev = level();
				const bool ex = s.chance(1, 3);
				TR("action logger " << (l ? l->name : "-") << " level " << lev << (ex ? ", exception" : ""));
				std::vector<SinkPtr> now;
				for (auto& k : connections) now.push_back(k.sink);
				const bool pass = lev >= effective(l);
				for (auto& k : sinks) if (k->echoes) return;
				try
				{
					if (l) { ActionLogger a(*l->logger, LogLevel((LogLevel::Enum)lev), "work"); if (ex) throw 1; }
					else { ActionLogger a(LogLevel((LogLevel::Enum)lev), "work"); if (ex) throw 1; }
				}
				catch (int) { }
				if (pass)
					deliver(l, lev, shown(l, "work..."));
				for (auto& k : sinks)
				{
					const size_t n = std::count(now.begin(), now.end(), k);
					auto& got = k->got;
					if (!pass || !n) continue;
					REQUIRE_EQ(got.size(), 2 * n);
					const std::string want = std::string("work completed") + (ex ? " with exception in " : " in ");
					for (size_t i = n; i < 2 * n; ++i)
						REQUIRE(got[i].level == lev && got[i].text.compare(0, want.size(), want) == 0 && got[i].text.find(" ms") != std::string::npos, show(got[i]));
					got.resize(n);
				}
				break;
			}
			case 15:
			{
				TR("exceptions");
				REQUIRE(THROWS(Detail::HideDuplicatingLogs(0u, "f", 1)), "a count of zero");
				for (auto& k : sinks) if (k->echoes) return;
				STINGRAYKIT_TRY("failed to work", throw std::runtime_error("because"));
				for (auto& k : sinks)
				{
					size_t n = 0;
					for (auto& o : connections) n += o.sink == k;
					if (LogLevel::Warning < global) n = 0;
					REQUIRE_EQ(k->got.size(), n);
					for (auto& g : k->got)
						REQUIRE(!g.named && g.level == LogLevel::Warning && g.text.compare(0, 16, "failed to work:\n") == 0 && g.text.find("because") != std::string::npos, show(g));
					k->got.clear();
				}
				break;
			}
			}
		}

		void run()
		{
			// with no sinks messages go to the standard error stream
			sinks.push_back(make_shared_ptr<Sink>());
			connections.push_back(Connection{sinks[0], Logger::AddSink(sinks[0])});
			while (s.more(30))
			{
				if (connections.empty())
				{
					TR("a sink again");
					connections.push_back(Connection{sinks[0], Logger::AddSink(sinks[0])});
				}
				if (s.chance(1, 4)) sched::sleep_ms(s.range<uint64_t>(1, 25));
				step();
				check();
			}
			c.nontrivial_if(delivered > 3 && hidden > 0);
			if (folded) c.label("repeated messages");
			if (connections.size() > 16) c.label("many sinks");
		}
	};
}

PROP(histories, 40000, 1000000, 0, "messages were delivered and others hidden by the level")
{
	Machine m(s, c);
	m.run();
	m.streams.clear();
}


// several threads log while sinks come and go and levels change
PROP(concurrent_use, 60000, 1500000, 0, "threads alternated and a sink was added or removed meanwhile")
{
	struct Sent { int begin, end; };
	struct Shared
	{
		int clock = 0;
		std::map<std::string, Sent> sent;
	} sh;
	struct Watched { SinkPtr sink; Token token; int added = 0, removing = 1 << 30, removed = 1 << 30; };

	const size_t writers = s.range<size_t>(1, 3), messages = s.range<size_t>(1, 3);
	const bool own = s.coin();			// each writer has a logger of its own
	std::vector<int> ways(writers);
	for (auto& w : ways) w = s.below(3);
	const size_t changers = s.range<size_t>(0, 2);
	std::vector<std::vector<int> > ops(changers);
	for (auto& o : ops) for (size_t i = s.range<size_t>(1, 3); i--; ) o.push_back(s.below(7));
	std::vector<std::unique_ptr<Watched> > sinks;
	for (size_t i = s.range<size_t>(1, 2); i--; )
	{
		sinks.emplace_back(new Watched);
		sinks.back()->sink = make_shared_ptr<Sink>();
		sinks.back()->sink->throwing = s.chance(1, 5);
		sinks.back()->token = Logger::AddSink(sinks.back()->sink);
	}
	for (auto& o : ops) for (auto& x : o) TR("change " << x);
	TR(writers << " writers of " << messages << ", " << sinks.size() << " sinks");
	Logger::SetLogLevel(LogLevel::Info);
	NamedLogger common("common");
	size_t changes = 0;

	sched::start(s, sched::Mode(true, false));
	{
		std::vector<sched::Thread> t;
		for (size_t w = 0; w < writers; ++w)
			t.emplace_back([&, w] {
				std::unique_ptr<NamedLogger> mine;
				if (own) mine.reset(new NamedLogger("own " + std::to_string(w)));
				const NamedLogger& l = own ? *mine : common;
				for (size_t i = 0; i < messages; ++i)
				{
					const std::string text = std::to_string(w) + "." + std::to_string(i);
					{ sched::NoPreempt n; sh.sent[text].begin = ++sh.clock; }
					if (ways[w] == 2) Logger::Error() << text;
					else if (ways[w] == 1) l.Error() << std::to_string(w) << "." << i;
					else STINGRAYKIT_TRY_EX(Error, text, l.Error() << text);
					{ sched::NoPreempt n; sh.sent[text].end = ++sh.clock; }
				}
			});
		for (size_t k = 0; k < changers; ++k)
			t.emplace_back([&, k] {
				for (int op : ops[k])
				{
					switch (op)
					{
					case 0: case 1:
					{
						Watched* w = new Watched;
						w->sink = make_shared_ptr<Sink>();
						w->token = Logger::AddSink(w->sink);
						sched::NoPreempt n;
						w->added = ++sh.clock;
						sinks.emplace_back(w);
						++changes;
						break;
					}
					case 2: case 3:
					{
						Watched* w = nullptr;
						{
							sched::NoPreempt n;
							for (auto& x : sinks) if (x->removing == 1 << 30) { w = x.get(); break; }
							if (sinks.size() < 2 || !w || w == sinks.back().get()) break;
							w->removing = ++sh.clock;
						}
						w->token.Reset();
						sched::NoPreempt n;
						w->removed = ++sh.clock;
						++changes;
						break;
					}
					case 4: Logger::SetLogLevel(LogLevel::Trace); sched::point(); Logger::SetLogLevel(LogLevel::Warning); break;
					case 5:
					{
						Logger::SetLogLevel("common", LogLevel(LogLevel::Error));
						Logger::SetLogLevel("own 0", LogLevel(LogLevel::Warning));
						break;
					}
					case 6:
					{
						NamedLogger other("other");
						other.Error() << "other";
						sched::point();
						const std::set<std::string> names = Logger::GetLoggerNames();
						REQUIRE(names.count("common") && names.count("other"), "a living logger is unknown");
						break;
					}
					}
					sched::point();
				}
			});
	}
	sched::stop();

	for (auto& k : sinks)
	{
		std::map<std::string, int> count;
		std::map<char, int> last;
		for (auto& g : k->sink->got)
		{
			if (g.text == "other") continue;
			REQUIRE(sh.sent.count(g.text), "nobody logged " << show(g));
			REQUIRE_EQ(g.level, (int)LogLevel::Error);
			REQUIRE(++count[g.text] == 1, show(g) << " delivered twice");
			const Sent& m = sh.sent[g.text];
			REQUIRE(m.begin < k->removed, show(g) << " delivered to a sink removed before");
			const int n = atoi(g.text.c_str() + 2);
			if (last.count(g.text[0])) REQUIRE(last[g.text[0]] < n, "the messages of a thread delivered out of order");
			last[g.text[0]] = n;
		}
		for (auto& m : sh.sent)
			if (m.second.begin > k->added && m.second.end < k->removing)
				REQUIRE(count.count(m.first), quote(m.first) << " was not delivered to a sink");
	}
	for (auto& k : sinks) k->token.Reset();
	Logger::SetLogLevel("common", null);
	Logger::SetLogLevel("own 0", null);
	Logger::SetLogLevel(LogLevel::Info);
	c.nontrivial_if(changes > 0 && writers > 0 && sched::switches() > 2);
}
