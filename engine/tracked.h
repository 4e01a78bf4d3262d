// A payload whose every construction, copy, move and destruction is accounted for.
#pragma once
#include "pbt.h"
#include <stdexcept>
#ifdef PBT_CONC
#include <atomic>
#endif
#include <functional>
#include <ostream>
#include <utility>

struct ThrowPlan
{
	static int& left() { static int v = -1; return v; }		// -1: never throw
	static void hit()
	{
		int& l = left();
		if (l < 0) return;
		if (l-- == 0) { l = -1; throw std::runtime_error("planned"); }
	}
	explicit ThrowPlan(int n) { left() = n; }
	~ThrowPlan() { left() = -1; }
};

template < bool Nothrow >
struct BasicTracked
{
	static const uint32_t Alive = 0xA11FE0A5u, Dead = 0xDEADBEEFu;
#ifdef PBT_CONC
	struct Counter
	{
		std::atomic<long> v;
		operator long () const { return v.load(); }
		void operator ++ () { v.fetch_add(1); }
		void operator -- () { v.fetch_sub(1); }
	};
	static Counter& live() { static Counter v; return v; }
#else
	static long& live() { static long v = 0; return v; }
#endif

	int			value;
	uint32_t	canary;
	BasicTracked* self;

	BasicTracked() : value(0), canary(Alive), self(this) { ++live(); }
	BasicTracked(int v) : value(v), canary(Alive), self(this) { ThrowPlan::hit(); ++live(); }
	BasicTracked(const BasicTracked& o) : value(o.value), canary(Alive), self(this) { o.check(); ThrowPlan::hit(); ++live(); }
	BasicTracked(BasicTracked&& o) noexcept(Nothrow) : value(o.value), canary(Alive), self(this) { o.check(); if (!Nothrow) ThrowPlan::hit(); o.value = -777; ++live(); }
	~BasicTracked() { check(); canary = Dead; --live(); }

	BasicTracked& operator = (const BasicTracked& o) { check(); o.check(); ThrowPlan::hit(); value = o.value; return *this; }
	BasicTracked& operator = (BasicTracked&& o) noexcept(Nothrow)
	{
		check(); o.check();
		if (!Nothrow) ThrowPlan::hit();
		if (this != &o) { value = o.value; o.value = -777; }
		return *this;
	}

	void check() const
	{
		if (canary != Alive || self != this)
		{
			fprintf(stderr, "FATAL: access to an object that is not alive (canary %x)\n", canary);
			abort();
		}
	}

	int get() const { check(); return value; }

	friend bool operator == (const BasicTracked& a, const BasicTracked& b) { return a.get() == b.get(); }
	friend bool operator != (const BasicTracked& a, const BasicTracked& b) { return a.get() != b.get(); }
	friend bool operator < (const BasicTracked& a, const BasicTracked& b) { return a.get() < b.get(); }
	friend bool operator > (const BasicTracked& a, const BasicTracked& b) { return a.get() > b.get(); }
	friend bool operator <= (const BasicTracked& a, const BasicTracked& b) { return a.get() <= b.get(); }
	friend bool operator >= (const BasicTracked& a, const BasicTracked& b) { return a.get() >= b.get(); }
	friend std::ostream& operator << (std::ostream& o, const BasicTracked& a) { return o << "T" << a.value; }
	std::string ToString() const { return "T" + std::to_string(get()); }
};

typedef BasicTracked<false>	Tracked;
typedef BasicTracked<true>	NTracked;	// nothrow-movable

// checks on scope exit that no Tracked was leaked or destroyed twice
#define LIVE_BASE(T) const long liveBase_##T = T::live()
#ifdef PBT_CONC
#define LIVE_CHECK(T) REQUIRE_EQX(long(T::live()), liveBase_##T, "live " #T " objects")
#else
#define LIVE_CHECK(T) REQUIRE_EQX(T::live(), liveBase_##T, "live " #T " objects")
#endif
