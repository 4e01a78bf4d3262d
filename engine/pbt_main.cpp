// Runner of the property-based testing engine: forks workers, survives their crashes, shrinks, replays, writes evidence.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#ifdef PBT_CONC
#include <sys/personality.h>
#endif
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#	define PBT_ASAN 1
#elif defined(__has_feature)
#	if __has_feature(address_sanitizer)
#		define PBT_ASAN 1
#	endif
#endif

#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
extern "C" __attribute__((visibility("default"))) const char* __asan_default_options()
{ return "detect_leaks=0:exitcode=86:allocator_may_return_null=0:max_allocation_size_mb=1024:hard_rss_limit_mb=3000:quarantine_size_mb=8:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=4:alloc_dealloc_mismatch=1:detect_odr_violation=0"
#ifdef PBT_CONC
	":hard_rss_limit_mb=0"	// needs a thread of its own
#endif
	; }
extern "C" __attribute__((visibility("default"))) const char* __ubsan_default_options()
{ return "print_stacktrace=1:halt_on_error=1:exitcode=86"; }

using namespace pbt;

namespace pbt
{
#ifdef PBT_CONC
	[[noreturn]] void report_and_exit(const std::string& tag, const std::string& msg);
#endif
	static std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
	Registrar::Registrar(const Unit& u) { units().push_back(u); }

	std::string quote(const std::string& s)
	{
		std::string r = "\"";
		char b[8];
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
			else if (ch == '\n') r += "\\n";
			else if (ch >= 32 && ch < 127) r += ch;
			else { snprintf(b, sizeof(b), "\\x%02x", ch); r += b; }
		}
		return r + "\"";
	}

	// hooks a harness environment may install (the concurrency engine does)
	void (*case_setup)() = NULL;
	void (*case_teardown)() = NULL;
	void (*case_services)() = NULL;

#ifdef PBT_CONC
	Src* current_src = NULL;
	Ctx* current_ctx = NULL;
#endif
}

namespace
{
	double now()
	{
		struct timespec t;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);	// clock_gettime may be virtual
		return t.tv_sec + t.tv_nsec / 1e9;
	}

	void nap_us(uint64_t us)
	{
		const struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
		syscall(SYS_nanosleep, &t, NULL);	// usleep may be virtual
	}

	struct Shared
	{
		std::atomic<uint64_t>	beat;
		std::atomic<int>		state;	// 0 running, 1 done, 2 failed
		char					tag[128];
		char					msg[6000];
		uint64_t				evaluations;
		char					trace[24000];
		ChoiceLog				log;
	};

	Shared* make_shared_mem()
	{
		void* p = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
		return (Shared*)p;
	}

	void copy_str(char* dst, size_t n, const std::string& s)
	{
		const size_t k = s.size() < n - 1 ? s.size() : n - 1;
		memcpy(dst, s.data(), k);
		dst[k] = 0;
	}

	uint64_t mix(uint64_t a, uint64_t b)
	{
		uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x1234567;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	Shared* g_shared = NULL;	// of the running case

	bool run_case(const Unit& u, Src& s, Ctx& c, Failure& f)
	{
		c.begin();
#ifdef PBT_CONC
		current_src = &s;
		current_ctx = &c;
#endif
		if (case_setup) case_setup();
		bool ok = true;
		try
		{ u.fn(s, c); }
		catch (const Failure& f_)
		{ f = f_; ok = false; }
		catch (const std::exception& ex)
		{
			f.tag = "exception"; f.msg = std::string("unexpected exception escaped: ") + ex.what(); ok = false;
#ifdef PBT_CONC
			report_and_exit(f.tag, f.msg);
#endif
		}
		if (case_teardown) case_teardown();
		return ok;
	}

#ifdef PBT_CONC
	// statics and caches of the library are set up before the cases, so that no case depends on the ones before it
	void warm_up(const Unit& u, ChoiceLog& log, Ctx& c)
	{
		const bool v = c.verbose, e = c.echo;
		c.verbose = c.echo = false;
		if (case_services) case_services();
		for (int i = 0; i < 3; ++i)
		{
			Failure f;
			if (i == 0)
			{
				Src s(log, (const uint64_t*)NULL, 0);
				run_case(u, s, c, f);
			}
			else
			{
				Src s(log, mix(77, i));
				run_case(u, s, c, f);
			}
		}
		memset(c.label_counts, 0, sizeof(c.label_counts));
		c.verbose = v;
		c.echo = e;
	}
#endif

	size_t allocated()
	{
#ifdef PBT_ASAN
		return __sanitizer_get_current_allocated_bytes();
#else
		return 0;
#endif
	}

	// a case that leaves more memory allocated each of several times it is run leaks
	bool leaks(const Unit& u, Shared* sh, Ctx& c, Failure& f)
	{
		static uint64_t choices[ChoiceLog::Max];
		const size_t n = sh->log.count;
		memcpy(choices, sh->log.values, n * sizeof(uint64_t));
		long long total = 0;
		for (int i = 0; i < 5; ++i)
		{
			Failure f2;
			const size_t before = allocated();
			{
				Src s(sh->log, choices, n);
				run_case(u, s, c, f2);
			}
			const long long d = (long long)allocated() - (long long)before;
			if (i == 0)
				continue;
			if (d <= 0)
				return false;
			total += d;
		}
		f.tag = "leak";
		f.msg = "memory leaked by the case: " + std::to_string(total / 4) + " bytes per run";
		return true;
	}

	uint64_t hash_log(const ChoiceLog& l, uint64_t shape)
	{
		uint64_t h = 1469598103934665603ull ^ shape;
		for (uint32_t i = 0; i < l.count; ++i)
		{
			h ^= l.values[i];
			h *= 1099511628211ull;
			h ^= h >> 29;
		}
		return h;
	}

	struct Result
	{
		uint64_t evaluations = 0;
		std::unordered_set<uint64_t> hashes;
		std::map<std::string, uint64_t> labels;
		std::vector<std::string> samples;
	};

	struct JobSpec
	{
		const Unit* unit;
		int shard;
		uint64_t seed;
		uint64_t cases;
	};

	uint64_t hash_str(const char* s)
	{
		uint64_t h = 1469598103934665603ull;
		for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
		return h;
	}

	void redirect(const std::string& file)
	{
		const int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
		if (fd >= 0)
		{
			dup2(fd, 1);
			dup2(fd, 2);
			close(fd);
		}
	}

	void child_limits()
	{
		struct rlimit r;
		r.rlim_cur = r.rlim_max = 0;
		setrlimit(RLIMIT_CORE, &r);
	}

	[[noreturn]] void worker(const JobSpec& job, Shared* sh, const std::string& base, double deadline)
	{
		child_limits();
		redirect(base + ".log");
		g_shared = sh;
		Ctx c;
#ifdef PBT_CONC
		sh->beat.store(1);
		warm_up(*job.unit, sh->log, c);
#endif
		std::unordered_set<uint64_t> hashes;
		std::vector<std::string> samples;
		hashes.reserve(1 << 16);
		uint64_t i = 0;
		Failure f;
		f.tag.reserve(256);
		f.msg.reserve(8192);
		static uint64_t choices[ChoiceLog::Max];
		for (; i < job.cases; ++i)
		{
			sh->beat.store(i + 1);
			const size_t before = allocated();
			bool ok;
			{
				Src s(sh->log, mix(job.seed, i));
				ok = run_case(*job.unit, s, c, f);
			}
			++sh->evaluations;
			if (ok && (job.unit->flags & LeakCheck) && allocated() > before)
			{
				const bool nt = c.nontrivial_;
				if (leaks(*job.unit, sh, c, f))
					ok = false;
				c.nontrivial_ = nt;
			}
			if (!ok)
			{
				copy_str(sh->tag, sizeof(sh->tag), f.tag);
				copy_str(sh->msg, sizeof(sh->msg), f.msg);
				sh->state.store(2);
				_exit(77);
			}
			if (c.nontrivial_)
			{
				const bool fresh = hashes.insert(hash_log(sh->log, c.shape)).second;
				if (fresh && samples.size() < 2 && (samples.empty() ? i >= job.cases / 50 : i >= job.cases / 2))
				{
					const size_t n = sh->log.count;
					memcpy(choices, sh->log.values, n * sizeof(uint64_t));
					uint64_t counts[Ctx::MaxLabels];
					memcpy(counts, c.label_counts, sizeof(counts));
					c.verbose = true;
					Failure f2;
					Src s(sh->log, choices, n);
					run_case(*job.unit, s, c, f2);
					if (c.trace.empty())
					{
						c.trace = "choices:";
						for (size_t k = 0; k < n && k < 80; ++k) c.trace += " " + std::to_string(choices[k]);
					}
					samples.push_back(c.trace.substr(0, 900));
					c.verbose = false;
					memcpy(c.label_counts, counts, sizeof(counts));
				}
			}
			if ((i & 15) == 0 && now() > deadline)
			{ ++i; break; }
		}
		std::ofstream o((base + ".res").c_str());
		o << i << "\n" << hashes.size() << "\n";
		for (uint64_t h : hashes) o << h << "\n";
		size_t nl = 0;
		while (nl < Ctx::MaxLabels && c.labels[nl]) ++nl;
		o << nl << "\n";
		for (size_t l = 0; l < nl; ++l) o << c.label_counts[l] << " " << c.labels[l] << "\n";
		o << samples.size() << "\n";
		for (const std::string& s : samples) o << s.size() << "\n" << s << "\n";
		o.close();
		sh->state.store(1);
		_exit(0);
	}

	void read_result(const std::string& base, Result& r)
	{
		std::ifstream f((base + ".res").c_str());
		uint64_t n = 0, h = 0;
		if (!(f >> n)) return;
		r.evaluations += n;
		f >> n;
		for (uint64_t i = 0; i < n; ++i) { f >> h; r.hashes.insert(h); }
		f >> n;
		for (uint64_t i = 0; i < n; ++i)
		{
			uint64_t cnt;
			std::string l;
			f >> cnt;
			f.get();
			std::getline(f, l);
			r.labels[l] += cnt;
		}
		f >> n;
		for (uint64_t i = 0; i < n; ++i)
		{
			size_t sz = 0;
			f >> sz;
			f.get();
			std::string s(sz, 0);
			f.read(&s[0], sz);
			f.get();
			r.samples.push_back(s);
		}
	}

	std::string slurp(const std::string& file, size_t max = 5000)
	{
		std::ifstream f(file.c_str());
		std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		return s.size() > max ? s.substr(0, max) : s;
	}

	struct Outcome
	{
		enum Kind { Pass, Fail, Crash, Hang } kind;
		std::string tag, msg, trace, out;
		std::vector<uint64_t> log;
		bool failed() const { return kind != Pass; }
		std::string key() const { return kind == Fail ? tag : kind == Crash ? "crash" : kind == Hang ? "hang" : ""; }
	};

	double g_case_timeout = 40;

	std::string describe_crash(int status, const std::string& out)
	{
		std::string m;
		if (WIFSIGNALED(status)) m = "process killed by signal " + std::to_string(WTERMSIG(status));
		else m = "process exited with code " + std::to_string(WEXITSTATUS(status));
		size_t p = out.find("ERROR: AddressSanitizer");
		if (p == std::string::npos) p = out.find("runtime error:");
		if (p == std::string::npos) p = out.find("terminate called");
		if (p != std::string::npos)
		{
			size_t b = out.rfind('\n', p);
			b = b == std::string::npos ? 0 : b + 1;
			m += ": " + out.substr(b, out.find('\n', p) - b);
		}
		return m;
	}

	// runs one case given by its choices in a forked child
	Outcome run_isolated(const Unit& u, const std::vector<uint64_t>& choices, const std::string& base, bool verbose, double timeout)
	{
		static Shared* sh = make_shared_mem();
		sh->state.store(0);
		sh->tag[0] = sh->msg[0] = sh->trace[0] = 0;
		sh->log.count = 0;
		fflush(stdout);
		const pid_t pid = fork();
		if (pid == 0)
		{
			child_limits();
			setpgid(0, 0);
			redirect(base + ".iso");
			Ctx c;
			c.verbose = c.echo = verbose;
			g_shared = sh;
#ifdef PBT_CONC
			warm_up(u, sh->log, c);
#endif
			Failure f;
			bool ok;
			{
				Src s(sh->log, choices.data(), choices.size());
				const size_t before = allocated();
				ok = run_case(u, s, c, f);
				if (ok && (u.flags & LeakCheck) && !verbose && allocated() > before && leaks(u, sh, c, f))
					ok = false;
			}
			if (!ok)
			{
				copy_str(sh->tag, sizeof(sh->tag), f.tag);
				copy_str(sh->msg, sizeof(sh->msg), f.msg);
			}
			copy_str(sh->trace, sizeof(sh->trace), c.trace);
			sh->state.store(ok ? 1 : 2);
			_exit(ok ? 0 : 77);
		}
		Outcome o;
		int status = 0;
		const double t0 = now();
		bool hung = false;
		useconds_t nap = 200;
		while (true)
		{
			const pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) break;
			if (now() - t0 > timeout)
			{
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL);
				waitpid(pid, &status, 0);
				hung = true;
				break;
			}
			nap_us(nap);
			if (nap < 5000) nap += 200;
		}
		o.log.assign(sh->log.values, sh->log.values + sh->log.count);
		o.trace = sh->trace;
		const int st = sh->state.load();
		if (hung) { o.kind = Outcome::Hang; o.tag = "hang"; o.msg = "no progress for " + std::to_string((int)timeout) + " s"; }
		else if (st == 2) { o.kind = Outcome::Fail; o.tag = sh->tag; o.msg = sh->msg; }
		else if (st == 1) o.kind = Outcome::Pass;
		else
		{
			o.kind = Outcome::Crash;
			o.tag = "crash";
			o.out = slurp(base + ".iso", 20000);
			o.msg = describe_crash(status, o.out);
		}
		return o;
	}

	std::vector<uint64_t> shrink(const Unit& u, std::vector<uint64_t> best, const std::string& key, const std::string& base, double budget, size_t& tried)
	{
		const double end = now() + budget;
		const double timeout = key == "hang" ? g_case_timeout : 10;
		const size_t maxTries = key == "hang" ? 6 : 4000;
		std::set<std::vector<uint64_t>> seen;
		auto attempt = [&](const std::vector<uint64_t>& cand) -> bool
		{
			if (now() > end || tried >= maxTries) return false;
			if (!seen.insert(cand).second) return false;
			++tried;
			Outcome o = run_isolated(u, cand, base, false, timeout);
			if (o.key() != key) return false;
			std::vector<uint64_t> log = o.kind == Outcome::Crash || o.kind == Outcome::Hang ? cand : o.log;
			if (o.log.size() < log.size()) log = o.log;
			while (!log.empty() && log.back() == 0 && o.kind != Outcome::Crash) log.pop_back();
			auto less = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
			{ return a.size() != b.size() ? a.size() < b.size() : a < b; };
			if (!less(log, best)) { if (!less(cand, best)) return false; log = cand; }
			best = log;
			return true;
		};
		bool progress = true;
		while (progress && now() < end && tried < maxTries)
		{
			progress = false;
			for (size_t k = best.size() / 2 ? best.size() / 2 : 1; ; k /= 2)
			{
				for (size_t i = best.size(); i > 0; )
				{
					const size_t b = i > k ? i - k : 0;
					if (b < best.size() && i <= best.size())
					{
						std::vector<uint64_t> c(best);
						c.erase(c.begin() + b, c.begin() + i);
						if (attempt(c)) progress = true;
					}
					i = b;
					if (i > best.size()) i = best.size();
				}
				if (k <= 1) break;
			}
			if (best.size() <= 400)
				for (size_t k = 14; k >= 2; --k)	// whole operations are runs of a few choices at any offset
					for (size_t i = best.size(); i-- > 0; )
					{
						if (i + k > best.size()) continue;
						std::vector<uint64_t> c(best);
						c.erase(c.begin() + i, c.begin() + i + k);
						if (attempt(c)) progress = true;
					}
			for (size_t i = 0; i < best.size(); ++i)
			{
				if (!best[i]) continue;
				std::vector<uint64_t> c(best);
				c[i] = 0;
				if (attempt(c)) { progress = true; continue; }
				for (int step = 0; step < 70 && i < best.size() && best[i] > 1; ++step)
				{
					c = best;
					c[i] = best[i] / 2;
					if (attempt(c)) { progress = true; continue; }
					c = best;
					c[i] = best[i] - 1;
					if (!attempt(c)) break;
					progress = true;
				}
			}
		}
		return best;
	}

	std::string json(const std::string& s)
	{
		std::string r = "\"";
		char b[8];
		for (unsigned char ch : s)
		{
			if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
			else if (ch == '\n') r += "\\n";
			else if (ch == '\t') r += "\\t";
			else if (ch < 32 || ch >= 127) { snprintf(b, sizeof(b), "\\u%04x", ch); r += b; }
			else r += ch;
		}
		return r + "\"";
	}

	struct Found
	{
		const Unit* unit;
		std::vector<uint64_t> choices;
		std::string kind, tag, msg;
		JobSpec job;
		uint64_t index;
	};
}

#ifdef PBT_CONC
namespace pbt
{
	std::string schedule_trace();

	void report_and_exit(const std::string& tag, const std::string& msg)
	{
		if (g_shared)
		{
			copy_str(g_shared->tag, sizeof(g_shared->tag), tag);
			copy_str(g_shared->msg, sizeof(g_shared->msg), msg);
			if (current_ctx)
				copy_str(g_shared->trace, sizeof(g_shared->trace), current_ctx->trace + "\n--- schedule\n" + schedule_trace());
			g_shared->state.store(2);
		}
		_exit(77);
	}
}
#endif

int main(int argc, char** argv)
{
#ifdef PBT_CONC
	// the same addresses in every run
	const int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1)
		execv("/proc/self/exe", argv);
#endif
	std::string tier = "quick", property = "C00", evidence, replayDir = "/tmp", known, replay, only, tmp = "/tmp";
	uint64_t seed = 1, casesOverride = 0;
	unsigned jobs = 8;
	double maxWall = 300, scale = 1;
	bool listOnly = false;
	for (int i = 1; i < argc; ++i)
	{
		const std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--tier") tier = next();
		else if (a == "--seed") seed = strtoull(next().c_str(), NULL, 10);
		else if (a == "--property") property = next();
		else if (a == "--evidence") evidence = next();
		else if (a == "--replay-dir") replayDir = next();
		else if (a == "--known") known = next();
		else if (a == "--replay") replay = next();
		else if (a == "--unit") only = next();
		else if (a == "--cases") casesOverride = strtoull(next().c_str(), NULL, 10);
		else if (a == "--jobs") jobs = atoi(next().c_str());
		else if (a == "--max-wall") maxWall = atof(next().c_str());
		else if (a == "--scale") scale = atof(next().c_str());
		else if (a == "--tmp") tmp = next();
		else if (a == "--list") listOnly = true;
		else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
	}
	std::sort(units().begin(), units().end(), [](const Unit& a, const Unit& b) { return strcmp(a.name, b.name) < 0; });
	if (listOnly)
	{
		for (const Unit& u : units()) printf("%s %llu %llu%s\n", u.name, (unsigned long long)u.quick, (unsigned long long)u.thorough, u.flags & Known ? " known" : "");
		return 0;
	}
	const std::string base = tmp + "/" + property + "." + std::to_string(getpid());

	if (!replay.empty())
	{
		std::ifstream f(replay.c_str());
		std::string line, unit;
		std::vector<uint64_t> choices;
		while (std::getline(f, line))
		{
			if (line.compare(0, 6, "unit: ") == 0) unit = line.substr(6);
			if (line.compare(0, 9, "choices: ") == 0)
			{
				std::istringstream is(line.substr(9));
				uint64_t v;
				while (is >> v) choices.push_back(v);
			}
		}
		for (const Unit& u : units())
			if (unit == u.name)
			{
				Outcome o = run_isolated(u, choices, base, true, g_case_timeout);
				printf("%s\n%s%s\n%s\n", o.trace.c_str(), o.failed() ? "FAILS: " : "passes", o.msg.c_str(), o.out.c_str());
				unlink((base + ".iso").c_str());
				return o.failed() ? 1 : 0;
			}
		fprintf(stderr, "no such unit\n");
		return 2;
	}

	const double t0 = now();
	const double deadline = t0 + maxWall;
	int exitCode = 0;
	uint64_t violations = 0;
	std::vector<std::string> lines, notes;

	// known findings
	std::map<std::string, std::string> listed;
	if (!known.empty())
	{
		std::ifstream f(known.c_str());
		std::string line;
		while (std::getline(f, line))
		{
			// known: property=C05 id=name text
			std::istringstream is(line);
			std::string k, p, id, text;
			if (is >> k >> p >> id && k == "known:" && p == "property=" + property && id.compare(0, 3, "id=") == 0)
			{
				std::getline(is, text);
				listed[id.substr(3)] = text;
			}
		}
	}
	uint64_t knownSeen = 0;
	for (const Unit& u : units())
	{
		if (!(u.flags & Known) || (!only.empty() && only != u.name)) continue;
		Outcome o = run_isolated(u, std::vector<uint64_t>(), base, false, g_case_timeout);
		if (!o.failed()) continue;
		auto it = listed.find(u.name);
		if (it != listed.end())
		{
			++knownSeen;
			lines.push_back("KNOWN-FINDING: property=" + property + " id=" + u.name + it->second);
			continue;
		}
		Outcome v = run_isolated(u, std::vector<uint64_t>(), base, true, g_case_timeout);
		const std::string rp = replayDir + "/" + property + "-" + u.name + ".txt";
		std::ofstream f(rp.c_str());
		f << "property: " << property << "\nunit: " << u.name << "\nchoices: \nmessage: " << o.msg << "\n" << v.trace << "\n" << v.out << "\n";
		lines.push_back("VIOLATION property=" + property + " replay=" + rp);
		exitCode = 1;
		++violations;
	}

	// jobs
	std::vector<JobSpec> todo;
	for (const Unit& u : units())
	{
		if ((u.flags & Known) || (!only.empty() && only != u.name)) continue;
		uint64_t n = casesOverride ? casesOverride : (uint64_t)((tier == "thorough" ? u.thorough : u.quick) * scale);
		if (!n) continue;
		const unsigned shards = (u.flags & NoShard) ? 1 : 8;
		for (unsigned k = 0; k < shards; ++k)
		{
			const uint64_t cnt = n / shards + (k < n % shards ? 1 : 0);
			if (cnt)
				todo.push_back(JobSpec{ &u, (int)k, mix(mix(seed, hash_str(u.name)), k), cnt });
		}
	}
	// interleave units so that a failing one does not starve the rest
	std::stable_sort(todo.begin(), todo.end(), [](const JobSpec& a, const JobSpec& b) { return a.shard < b.shard; });

	struct Running { pid_t pid; JobSpec job; Shared* sh; std::string base; uint64_t beat; double beatTime; };
	std::vector<Running> running;
	std::vector<Shared*> freeMem;
	std::map<std::string, Result> results;
	std::map<std::string, Found> found;
	size_t nextJob = 0;
	bool wallHit = false;
	while (nextJob < todo.size() || !running.empty())
	{
		while (running.size() < jobs && nextJob < todo.size())
		{
			const JobSpec job = todo[nextJob++];
			if (found.count(job.unit->name)) continue;
			if (now() > deadline) { wallHit = true; continue; }
			Shared* sh;
			if (freeMem.empty()) sh = make_shared_mem();
			else { sh = freeMem.back(); freeMem.pop_back(); }
			sh->beat.store(0);
			sh->state.store(0);
			sh->evaluations = 0;
			sh->log.count = 0;
			const std::string b = base + "." + job.unit->name + "." + std::to_string(job.shard);
			fflush(stdout);
			const pid_t pid = fork();
			if (pid == 0)
			{
				setpgid(0, 0);
				worker(job, sh, b, deadline);
			}
			if (pid < 0) { perror("fork"); return 2; }
			running.push_back(Running{ pid, job, sh, b, 0, now() });
		}
		for (size_t i = 0; i < running.size(); )
		{
			Running& r = running[i];
			int status = 0;
			const pid_t p = waitpid(r.pid, &status, WNOHANG);
			bool finished = p == r.pid;
			bool hung = false;
			if (!finished)
			{
				const uint64_t beat = r.sh->beat.load();
				if (beat != r.beat) { r.beat = beat; r.beatTime = now(); }
				else if (now() - r.beatTime > g_case_timeout)
				{
					kill(-r.pid, SIGKILL);
					kill(r.pid, SIGKILL);
					waitpid(r.pid, &status, 0);
					finished = hung = true;
				}
			}
			if (!finished) { ++i; continue; }
			const int st = r.sh->state.load();
			if (st == 1) read_result(r.base, results[r.job.unit->name]);
			else
			{
				results[r.job.unit->name].evaluations += r.sh->evaluations;
				if (!found.count(r.job.unit->name) && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && !hung))
				{
					Found f;
					f.unit = r.job.unit;
					f.choices.assign(r.sh->log.values, r.sh->log.values + r.sh->log.count);
					f.job = r.job;
					f.index = r.sh->beat.load() - 1;
					if (hung) { f.kind = "hang"; f.msg = "no progress"; }
					else if (st == 2) { f.kind = r.sh->tag; f.msg = r.sh->msg; }
					else { f.kind = "crash"; f.msg = describe_crash(status, slurp(r.base + ".log", 200000)); }
					f.tag = f.kind;
					found[r.job.unit->name] = f;
					for (Running& o : running)
						if (o.job.unit == r.job.unit && o.pid != r.pid)
							kill(-o.pid, SIGKILL);
				}
				else if (!found.count(r.job.unit->name))
					notes.push_back(std::string("worker of ") + r.job.unit->name + " was killed (out of memory?); its cases are not counted");
			}
			unlink((r.base + ".log").c_str());
			unlink((r.base + ".res").c_str());
			freeMem.push_back(r.sh);
			running.erase(running.begin() + i);
		}
		nap_us(3000);
	}

	// shrink and confirm
	double shrinking = tier == "thorough" ? 600 : 100;	// for all
	for (auto& kv : found)
	{
		Found& f = kv.second;
		const Unit& u = *f.unit;
		Outcome first = run_isolated(u, f.choices, base, false, g_case_timeout);
		std::vector<uint64_t> best = f.choices;
		size_t tried = 0;
		std::string how;
		bool confirmed = false;
		if (first.failed())
		{
			const double began = now();
			best = shrink(u, f.choices, first.key(), base, std::max(5.0, std::min(shrinking, tier == "thorough" ? 90.0 : 40.0)), tried);
			shrinking -= now() - began;
			int again = 0;
			for (int i = 0; i < 3; ++i)
				if (run_isolated(u, best, base, false, g_case_timeout).failed()) ++again;
			if (again < 3)
			{
				best = f.choices;
				again = 0;
				for (int i = 0; i < 3; ++i)
					if (run_isolated(u, best, base, false, g_case_timeout).failed()) ++again;
			}
			confirmed = again == 3;
			how = "choices";
		}
		if (!confirmed)
		{
			// the failure may need the state left by earlier cases: rerun the whole job twice
			int again = 0;
			for (int k = 0; k < 2; ++k)
			{
				Shared* sh = make_shared_mem();
				const std::string b = base + ".rerun";
				const pid_t pid = fork();
				JobSpec job = f.job;
				job.cases = f.index + 1;
				if (pid == 0) { setpgid(0, 0); worker(job, sh, b, now() + 200); }
				int status = 0;
				waitpid(pid, &status, 0);
				if (sh->state.load() != 1 && sh->beat.load() == f.index + 1) ++again;
				unlink((b + ".log").c_str());
				unlink((b + ".res").c_str());
				munmap(sh, sizeof(Shared));
			}
			confirmed = again == 2;
			how = "job seed=" + std::to_string(f.job.seed) + " cases=" + std::to_string(f.index + 1);
		}
		if (!confirmed)
		{
			notes.push_back(std::string("a failure of ") + u.name + " did not reproduce and is not reported: " + f.msg);
			printf("note: %s\n", notes.back().c_str());
			continue;
		}
		Outcome v = run_isolated(u, best, base, true, g_case_timeout);
		const std::string msg = v.failed() ? v.msg : f.msg;
		const std::string rp = replayDir + "/" + property + "-" + u.name + "-" + std::to_string(seed) + ".txt";
		{
			std::ofstream o(rp.c_str());
			o << "property: " << property << "\nunit: " << u.name << "\nkind: " << (v.failed() ? v.key() : f.kind) << "\nreproduce: " << how << "\nchoices: ";
			for (uint64_t x : best) o << x << " ";
			o << "\nmessage: " << msg << "\nshrink attempts: " << tried << "\n--- history\n" << v.trace << "\n" << v.out.substr(0, 6000) << "\n";
		}
		printf("%s: %s\n%s\n", u.name, msg.c_str(), v.trace.substr(0, 3000).c_str());
		lines.push_back("VIOLATION property=" + property + " replay=" + rp);
		exitCode = 1;
		++violations;
	}
	unlink((base + ".iso").c_str());

	// evidence
	uint64_t evals = 0, distinct = 0;
	std::string rules;
	std::ostringstream unitsJson, samplesJson;
	bool fu = true, fs = true;
	for (const Unit& u : units())
	{
		if (u.flags & Known) continue;
		auto it = results.find(u.name);
		if (it == results.end()) continue;
		Result& r = it->second;
		evals += r.evaluations;
		distinct += r.hashes.size();
		rules += std::string(rules.empty() ? "" : " | ") + u.name + ": " + u.rule;
		unitsJson << (fu ? "" : ", ") << json(u.name) << ": {\"evaluations\": " << r.evaluations << ", \"distinct_nontrivial\": " << r.hashes.size() << ", \"labels\": {";
		fu = false;
		bool fl = true;
		for (auto& l : r.labels)
		{
			unitsJson << (fl ? "" : ", ") << json(l.first) << ": " << l.second;
			fl = false;
		}
		unitsJson << "}}";
		size_t k = 0;
		for (const std::string& s : r.samples)
		{
			if (k++ >= 2) break;
			samplesJson << (fs ? "" : ", ") << json(std::string(u.name) + ":\n" + s);
			fs = false;
		}
	}
	if (wallHit || now() > deadline) notes.push_back("the wall-clock budget ended the exploration early");
	const double wall = now() - t0;
	if (!evidence.empty())
	{
		std::ofstream o(evidence.c_str());
		o << "{\"property\": " << json(property) << ", \"tier\": " << json(tier) << ", \"seed\": " << seed << ", \"level\": \"exploration\", \"coverage\": {\"evaluations\": " << evals
			<< ", \"distinct_nontrivial\": " << distinct << ", \"rule\": " << json(rules) << ", \"samples\": [" << samplesJson.str() << "], \"units\": {" << unitsJson.str() << "}, \"known_findings_seen\": " << knownSeen;
		if (!notes.empty())
		{
			o << ", \"notes\": [";
			for (size_t i = 0; i < notes.size(); ++i) o << (i ? ", " : "") << json(notes[i]);
			o << "]";
		}
		o << "}, \"wall_s\": " << wall << ", \"violations\": " << violations << "}\n";
	}
	printf("%s: %llu cases, %llu distinct non-trivial, %.1f s, %llu violation(s)\n", property.c_str(), (unsigned long long)evals, (unsigned long long)distinct, wall, (unsigned long long)violations);
	for (const std::string& n : notes) printf("note: %s\n", n.c_str());
	if (!only.empty() || casesOverride)
		for (auto& kv : results)
		{
			printf("  %s: %llu cases, %llu nontrivial;", kv.first.c_str(), (unsigned long long)kv.second.evaluations, (unsigned long long)kv.second.hashes.size());
			for (auto& l : kv.second.labels) printf(" %s=%llu", l.first.c_str(), (unsigned long long)l.second);
			printf("\n");
		}
	for (const std::string& l : lines) printf("%s\n", l.c_str());
	fflush(stdout);
	return exitCode;
}
