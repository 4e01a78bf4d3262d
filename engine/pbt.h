// Choice-sequence property-based testing engine.
//
// A case is a finite sequence of bounded integers ("choices") drawn from a Src. Every random decision of a harness goes
// through Src, so a case can be replayed and shrunk by editing its choice sequence. Choice 0 is always the simplest one.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <initializer_list>
#include <type_traits>

namespace pbt
{

	struct Failure
	{
		std::string tag;	// where (file:line), used to keep shrinking on the same failure
		std::string msg;
	};

	// Shared-memory log of the choices of the running case; survives a crash of the worker.
	struct ChoiceLog
	{
		static const size_t Max = 1u << 18;
		uint32_t count;
		uint64_t values[Max];
	};

	class Src
	{
		ChoiceLog&			_log;
		uint64_t			_state;
		const uint64_t*		_replay;
		size_t				_replaySize;
		bool				_replaying;
		size_t				_limit;

		uint64_t next()
		{
			uint64_t z = (_state += 0x9e3779b97f4a7c15ull);
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}

	public:
		Src(ChoiceLog& log, uint64_t seed) : _log(log), _state(seed), _replay(NULL), _replaySize(0), _replaying(false), _limit(ChoiceLog::Max) { _log.count = 0; }
		Src(ChoiceLog& log, const uint64_t* replay, size_t n) : _log(log), _state(0), _replay(replay), _replaySize(n), _replaying(true), _limit(ChoiceLog::Max) { _log.count = 0; }

		size_t count() const { return _log.count; }
		bool exhausted() const { return _log.count >= _limit; }
		bool replaying() const { return _replaying; }
		bool replay_done() const { return _replaying && _log.count >= _replaySize; }

		// uniform in [0, n), n == 0 means the whole 64-bit range
		uint64_t draw(uint64_t n)
		{
			uint64_t v;
			if (_replaying)
				v = _log.count < _replaySize ? _replay[_log.count] : 0;
			else if (exhausted())
				v = 0;
			else
				v = next();
			if (n)
				v = _replaying ? (v < n ? v : n - 1) : (uint64_t)(((unsigned __int128)v * n) >> 64);
			if (_log.count < ChoiceLog::Max)
				_log.values[_log.count++] = v;
			return v;
		}

		// inclusive range, shrinks towards lo
		template < typename T >
		T range(T lo, T hi)
		{
			const uint64_t span = (uint64_t)hi - (uint64_t)lo;
			return (T)((uint64_t)lo + draw(span == ~0ull ? 0 : span + 1));
		}

		template < typename A, typename B, typename = typename std::enable_if<!std::is_same<A, B>::value>::type >
		typename std::common_type<A, B>::type range(A lo, B hi)
		{ typedef typename std::common_type<A, B>::type T; return range<T>((T)lo, (T)hi); }

		size_t below(size_t n) { return n ? (size_t)draw(n) : 0; }

		// true with probability num/den; shrinks to false
		bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
		bool coin() { return draw(2) != 0; }

		// loop control: average number of iterations is avg; shrinks to stopping
		bool more(unsigned avg) { return !exhausted() && draw(avg + 1) != 0; }

		// weighted choice of an alternative; shrinks to the first one
		size_t weighted(std::initializer_list<unsigned> w)
		{
			unsigned sum = 0;
			for (unsigned x : w) sum += x;
			uint64_t v = draw(sum);
			size_t i = 0;
			for (unsigned x : w)
			{
				if (v < x) return i;
				v -= x;
				++i;
			}
			return w.size() - 1;
		}

		template < typename T >
		T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }

		template < typename C >
		auto& pick_from(C& c) { return c[draw(c.size())]; }

		// integers: small values, powers of two and their neighbours, extremes, uniform
		template < typename T >
		T integer()
		{
			typedef typename std::make_unsigned<T>::type U;
			const unsigned bits = sizeof(T) * 8;
			switch (weighted({6, 3, 3, 2, 2}))
			{
			case 0: return (T)draw(11);
			case 1: return std::is_signed<T>::value ? (T)-(long long)draw(11) : (T)~(U)draw(11);
			case 2:
				{
					U v = (U)((U)1 << draw(bits));
					v = (U)(v + (U)draw(5) - 2);
					return coin() ? (T)(U)(0 - v) : (T)v;
				}
			case 3:
				{
					U lim = coin() ? (U)~(U)0 : (U)((U)~(U)0 >> 1);
					return (T)(U)(lim - (U)draw(4) + (U)draw(3));
				}
			default:
				{
					unsigned b = 1 + (unsigned)draw(bits);
					U v = (U)draw(0);
					if (b < bits) v &= (U)(((U)1 << b) - 1);
					return coin() ? (T)(U)(0 - v) : (T)v;
				}
			}
		}

		// size in [0, max], biased to small ones, with full-size tail
		size_t size(size_t max)
		{
			if (!max) return 0;
			switch (weighted({4, 3, 1}))
			{
			case 0: return below((max < 4 ? max : 4) + 1);
			case 1: return below((max < 24 ? max : 24) + 1);
			default: return below(max + 1);
			}
		}

		std::string bytes(size_t max)
		{
			std::string r;
			const size_t n = size(max);
			for (size_t i = 0; i < n; ++i)
				r += (char)draw(256);
			return r;
		}

		std::string text(const char* alphabet, size_t max)
		{
			std::string r;
			const size_t n = size(max), m = strlen(alphabet);
			for (size_t i = 0; i < n; ++i)
				r += alphabet[draw(m)];
			return r;
		}
	};

	struct Ctx
	{
		static const size_t MaxLabels = 64;
		bool			verbose;
		bool			echo;				// print the trace as it goes (for crashes)
		bool			nontrivial_;
		std::string		trace;
		const char*		labels[MaxLabels];	// string literals only
		uint64_t		label_counts[MaxLabels];
		uint64_t		label_mask;
		uint64_t		shape;				// optional case fingerprint

		Ctx() : verbose(false), echo(false), nontrivial_(false), label_mask(0), shape(0)
		{
			memset(labels, 0, sizeof(labels));
			memset(label_counts, 0, sizeof(label_counts));
		}

		void begin() { nontrivial_ = false; label_mask = 0; shape = 0; if (verbose) trace.clear(); }

		void nontrivial() { nontrivial_ = true; }
		void nontrivial_if(bool c) { if (c) nontrivial_ = true; }

		void label(const char* l)
		{
			for (size_t i = 0; i < MaxLabels; ++i)
			{
				if (!labels[i])
					labels[i] = l;
				if (labels[i] == l || !strcmp(labels[i], l))
				{
					if (!(label_mask & (1ull << i)))
					{
						label_mask |= 1ull << i;
						++label_counts[i];
					}
					return;
				}
			}
		}
		void label_if(bool c, const char* l) { if (c) label(l); }

		template < typename... Ts >
		void tr(const Ts&... ts)
		{
			if (!verbose)
				return;
			std::ostringstream o;
			int dummy[] = { 0, ((void)(o << ts), 0)... };
			(void)dummy;
			trace += o.str();
			trace += '\n';
			if (echo)
				fprintf(stderr, "  %s\n", o.str().c_str());
		}
	};

	std::string quote(const std::string& s);

	struct Unit
	{
		const char*		name;
		void			(*fn)(Src&, Ctx&);
		uint64_t		quick, thorough;
		unsigned		flags;
		const char*		rule;
	};
	enum { LeakCheck = 1, Known = 2, NoShard = 4 };

	struct Registrar { Registrar(const Unit& u); };

#ifdef PBT_CONC
	[[noreturn]] void report_and_exit(const std::string& tag, const std::string& msg);
#endif
	[[noreturn]] inline void fail_(const char* file, int line, const std::string& msg)
	{
		const char* b = strrchr(file, '/');
		std::ostringstream t;
		t << (b ? b + 1 : file) << ":" << line;
#ifdef PBT_CONC
		report_and_exit(t.str(), msg);	// the failing thread may be any
#else
		throw Failure{ t.str(), msg };
#endif
	}

	template < typename T >
	struct Show { static void put(std::ostream& o, const T& v) { o << v; } };
	template < > struct Show<std::string> { static void put(std::ostream& o, const std::string& v) { o << quote(v); } };
	template < > struct Show<bool> { static void put(std::ostream& o, bool v) { o << (v ? "true" : "false"); } };
	template < > struct Show<uint8_t> { static void put(std::ostream& o, uint8_t v) { o << (unsigned)v; } };
	template < > struct Show<int8_t> { static void put(std::ostream& o, int8_t v) { o << (int)v; } };
	template < typename T > struct Show<std::vector<T>>
	{
		static void put(std::ostream& o, const std::vector<T>& v)
		{
			o << "[";
			for (size_t i = 0; i < v.size(); ++i) { if (i) o << ", "; T x = v[i]; Show<T>::put(o, x); }
			o << "]";
		}
	};
	template < typename A, typename B > struct Show<std::pair<A, B>>
	{
		static void put(std::ostream& o, const std::pair<A, B>& v)
		{
			o << "(";
			Show<typename std::decay<A>::type>::put(o, v.first);
			o << ", ";
			Show<typename std::decay<B>::type>::put(o, v.second);
			o << ")";
		}
	};
	template < typename T >
	std::string show(const T& v) { std::ostringstream o; Show<T>::put(o, v); return o.str(); }

	template < typename... Ts >
	std::string cat(const Ts&... vs) { std::ostringstream o; int x[] = { 0, ((o << vs), 0)... }; (void)x; return o.str(); }

	struct NoExtra { std::string operator () () const { return std::string(); } };

	template < typename A, typename B, typename Extra = NoExtra >
	void require_eq(const char* file, int line, const char* ea, const char* eb, const A& a, const B& b, const Extra& extraFunc = Extra())
	{
		if (a == b)
			return;
		std::ostringstream o;
		const std::string extra = extraFunc();
		o << ea << " == " << eb << " does not hold: got ";
		Show<A>::put(o, a);
		o << ", expected ";
		Show<B>::put(o, b);
		if (!extra.empty()) o << " (" << extra << ")";
		fail_(file, line, o.str());
	}

}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

// PROP(name, quick cases, thorough cases, flags, "what makes a case non-trivial")
#define PROP(Name, Quick, Thorough, Flags, Rule) \
	static void Name(pbt::Src& s, pbt::Ctx& c); \
	static pbt::Registrar PBT_CAT(reg_, Name)(pbt::Unit{ #Name, &Name, Quick, Thorough, Flags, Rule }); \
	static void Name(pbt::Src& s, pbt::Ctx& c)

// Reproducer of a finding listed in KNOWN_FINDINGS: fails exactly as long as the defect is present
#define KNOWN(Name, What) \
	static void Name(pbt::Src& s, pbt::Ctx& c); \
	static pbt::Registrar PBT_CAT(reg_, Name)(pbt::Unit{ #Name, &Name, 1, 1, pbt::Known, What }); \
	static void Name(pbt::Src& s, pbt::Ctx& c)

// trace of the case, streamed; kept only for a failing case
#define TR(...) do { if (c.verbose) { std::ostringstream o_; o_ << __VA_ARGS__; c.tr(o_.str()); } } while (false)

#define FAIL(...) do { std::ostringstream o_; o_ << __VA_ARGS__; pbt::fail_(__FILE__, __LINE__, o_.str()); } while (false)
#define REQUIRE(Cond, ...) do { if (!(Cond)) { std::ostringstream o_; o_ << #Cond << " does not hold: " << __VA_ARGS__; pbt::fail_(__FILE__, __LINE__, o_.str()); } } while (false)
#define REQUIRE_EQ(A, B) pbt::require_eq(__FILE__, __LINE__, #A, #B, (A), (B))
#define REQUIRE_EQX(A, B, Extra) pbt::require_eq(__FILE__, __LINE__, #A, #B, (A), (B), [&]() -> std::string { std::ostringstream extra_os; extra_os << Extra; return extra_os.str(); })

// did the expression throw (std::exception)? Anything else propagates.
#define THROWS(...) ([&]() -> bool { try { (void)(__VA_ARGS__); return false; } catch (const std::exception&) { return true; } }())
