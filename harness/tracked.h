// An element type that knows which of its instances are alive: every constructor, destructor and assignment
// is checked against the registry, so double construction, double destruction and use of dead elements show.
#pragma once
#include "common.h"
#include <unordered_set>
namespace vf {
struct TrackedBoom {};
struct Tracked {
	uint64_t v;
	uint64_t check;
	static std::unordered_set<const void *> & live() { static thread_local std::unordered_set<const void *> s; return s; }
	static std::string & error() { static thread_local std::string e; return e; }
	static long & throwAt() { static thread_local long t = 0; return t; }
	static long & made() { static thread_local long t = 0; return t; }
	static void tick() { if (throwAt() > 0 && --throwAt() == 0) throw TrackedBoom(); }
	static void reset() { live().clear(); error().clear(); throwAt() = 0; made() = 0; }
	void born() { ++made(); if (!live().insert(this).second && error().empty()) error() = "element constructed over a live element"; check = ~v; }
	void need(const char * what) const { if (!live().count(this) && error().empty()) error() = std::string(what) + " an element that is not alive"; }
	Tracked() : v(0) { tick(); born(); }
	Tracked(uint64_t x) : v(x) { born(); }
	Tracked(const Tracked & o) : v(o.v) { o.need("copied from"); tick(); born(); }
	Tracked(Tracked && o) noexcept : v(o.v) { o.need("moved from"); born(); }
	Tracked & operator=(const Tracked & o) { need("assigned to"); o.need("assigned from"); tick(); v = o.v; check = ~v; return *this; }
	Tracked & operator=(Tracked && o) noexcept { need("assigned to"); o.need("assigned from"); v = o.v; check = ~v; return *this; }
	~Tracked() { if (!live().erase(this) && error().empty()) error() = "an element that is not alive was destroyed"; }
	uint64_t value() const { need("read"); if (check != ~v && error().empty()) error() = "element overwritten"; return v; }
	operator uint64_t() const { return value(); }
	friend bool operator==(const Tracked & a, const Tracked & b) { return a.value() == b.value(); }
	friend bool operator!=(const Tracked & a, const Tracked & b) { return a.value() != b.value(); }
	friend bool operator<(const Tracked & a, const Tracked & b) { return a.value() < b.value(); }
	friend bool operator>(const Tracked & a, const Tracked & b) { return a.value() > b.value(); }
};
} // namespace vf
