// Deterministic scheduler for concurrency harnesses (ENGINE: conc).
//
// All threads of the process run one at a time; the thread to run next and the places where a running thread is
// preempted are choices of the case, like every other generated value, so a schedule is generated, replayed and shrunk
// with the rest of the case. pthread primitives, clocks and sleeps are replaced by ones which block in the scheduler;
// time is virtual. A state in which nobody can run is reported as a deadlock.
#pragma once
#include "pbt.h"
#include <functional>
#include <memory>

namespace sched
{
	// starts generating preemptions (blocking and time work without it, too)
	struct Mode
	{
		bool	spurious;	// condition waits may return without a signal
		bool	jumps;		// time may pass while threads are ready to run
		uint64_t grain;		// clocks show multiples of it
		Mode(bool s, bool j, uint64_t g = 1) : spurious(s), jumps(j), grain(g) { }
	};
	void start(pbt::Src& s, const Mode& mode = Mode(true, true));
	void stop();								// no more preemptions in this case

	void point(const char* what = "point");		// a place for preemption
	void wait_until(const std::function<bool ()>& pred);
	void settle();								// runs the others until none can run without time passing
	void sleep_ns(uint64_t ns);
	inline void sleep_ms(uint64_t ms) { sleep_ns(ms * 1000000); }
	uint64_t now_ns();							// virtual monotonic time
	uint64_t clock_ns();						// what the monotonic clock shows
	uint64_t ticks_ns();						// the part of the time of the case which passed while somebody was running
	int self();									// 0 is the thread of the case
	size_t live();								// threads which have not finished
	void event(const std::string& s);			// for the trace of a failing schedule
	size_t switches();							// preemptions and blockings followed by another thread so far
	size_t preemptions();

	// threads of the library which live as long as the process are started by a function given here; a case is over when
	// they have nothing to do
	struct Services { explicit Services(void (*f)()); };

	// no preemption inside; blocking is a mistake of the harness
	struct NoPreempt
	{
		NoPreempt();
		~NoPreempt();
	};

	// a thread of the harness
	class Thread
	{
		struct Impl;
		std::shared_ptr<Impl> _impl;
	public:
		Thread() { }
		explicit Thread(const std::function<void ()>& f);
		void join();
		~Thread() { if (_impl) join(); }
		Thread(Thread&& o) : _impl(std::move(o._impl)) { }
		Thread& operator = (Thread&& o) { if (_impl) join(); _impl = std::move(o._impl); return *this; }
		Thread(const Thread&) = delete;
		Thread& operator = (const Thread&) = delete;
	};
}
