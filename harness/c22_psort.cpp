// C22: the parallel internal sort sorts, terminates, races with nobody and stays inside its range.
#include "common.h"
#include "cond_shim.h"
#include "tracked.h"
#include <tpie/parallel_sort.h>
#include <tpie/progress_indicator_base.h>
#include <tpie/array.h>
#include <tpie/job.h>
#include <deque>
#include <thread>
using namespace vf;

struct Ind : tpie::progress_indicator_base {
	Ctx & c; std::thread::id me; int inits = 0, dones = 0; uint64_t last = 0;
	Ind(Ctx & c) : progress_indicator_base(1), c(c), me(std::this_thread::get_id()) {}
	void init(tpie::stream_size_type range) override { ++inits; last = 0; progress_indicator_base::init(range); }
	void done() override { ++dones; progress_indicator_base::done(); }
	void refresh() override {
		VF_CHECK(c, std::this_thread::get_id() == me, "progress_thread", "progress was reported by another thread than the caller's");
		uint64_t v = get_current();
		VF_CHECK(c, v >= last && v <= get_range(), "progress", "progress went from %llu to %llu of %llu", (unsigned long long)last, (unsigned long long)v, (unsigned long long)get_range());
		last = v; count("progress_seen");
	}
};
template <size_t N> struct Item { uint64_t key; uint32_t id; bool guard; char pad[N]; };
template <> struct Item<0> { uint64_t key; uint32_t id; bool guard; };
// Knows every order it is asked to use, and refuses what lies outside the range.
struct Shared { std::atomic<uint64_t> calls{0}, outside{0}; int delayPermille = 0; };
template <typename T> struct Comp {
	Shared * s; int how;
	static uint64_t rank(const T & a, int how) { return how == 0 ? a.key : how == 1 ? ~a.key : how == 2 ? a.key % 3 : how == 3 ? 0 : a.key ^ (a.key >> 7); }
	bool operator()(const T & a, const T & b) const {
		if (a.guard || b.guard) s->outside.fetch_add(1, std::memory_order_relaxed);
		uint64_t n = s->calls.fetch_add(1, std::memory_order_relaxed);
		if (s->delayPermille && (n * 2654435761u >> 7) % 1000 < (uint64_t)s->delayPermille) std::this_thread::yield();
		return rank(a, how) < rank(b, how);
	}
};
static uint64_t key_at(Rng & r, int shape, size_t i, size_t n) {
	switch (shape) {
	case 0: return r.next();
	case 1: return 5;
	case 2: return i;
	case 3: return n - i;
	case 4: return r.below(4);
	case 5: return i < n / 2 ? i : n - i;           // organ pipe
	case 6: return i % 2 ? i : n - i;
	case 7: return i * 2654435761u % (n ? n : 1);
	case 8: return r.chance(95) ? i : r.next();      // nearly sorted
	default: return i % 16 == 0 ? 0 : 1;
	}
}
template <typename T, size_t MIN, bool P, typename Cont>
static void sort_in(Ctx & c, size_t n, size_t lead, size_t tail) {
	Rng & r = c.rng; int shape = (int)r.below(10), how = (int)r.below(5);
	Cont v(lead + n + tail); std::vector<uint64_t> keyOf(n);
	for (size_t i = 0; i < v.size(); ++i) {
		v[i].guard = i < lead || i >= lead + n;
		if (v[i].guard) { v[i].key = r.next(); v[i].id = (uint32_t)(1000000000u + i); }
		else { v[i].key = key_at(r, shape, i - lead, n); v[i].id = (uint32_t)(i - lead); keyOf[i - lead] = v[i].key; }
	}
	std::vector<uint64_t> around; for (size_t i = 0; i < v.size(); ++i) if (v[i].guard) around.push_back(v[i].key);
	Shared sh; sh.delayPermille = (int)r.pick({0, 0, 10, 200}); Comp<T> comp{&sh, how};
	c.op("%zu items of %zu bytes, min %zu, shape %d, order %d%s", n, sizeof(T), MIN, shape, how, P ? ", progress" : "");
	auto first = v.begin() + lead, last = v.begin() + lead + n;
	typedef decltype(first) It;
	std::unique_ptr<Ind> pi;
	if (P) pi.reset(new Ind(c));
	if (MIN == 0) {
		if constexpr (P) tpie::parallel_sort<true>(first, last, *pi, comp); else tpie::parallel_sort(first, last, comp);
		count("default_threshold");
	} else {
		auto go = [&](auto & s) { s(first, last, comp); if (r.chance(5)) { s(first, last, comp); count("sorted_again"); } };
		if constexpr (P) { tpie::parallel_sort_impl<It, Comp<T>, true, MIN ? MIN : 1> s(pi.get()); go(s); }
		else { tpie::parallel_sort_impl<It, Comp<T>, false, MIN ? MIN : 1> s(nullptr); go(s); }
	}
	VF_CHECK(c, sh.outside == 0, "outside_read", "an item outside the range was compared");
	size_t g = 0;
	for (size_t i = 0; i < v.size(); ++i) if (i < lead || i >= lead + n) VF_CHECK(c, v[i].guard && v[i].key == around[g++] && v[i].id == 1000000000u + i, "outside", "an item outside the range was changed");
	std::vector<char> seen(n, 0);
	for (size_t i = 0; i < n; ++i) {
		auto & x = v[lead + i];
		VF_CHECK(c, !x.guard && x.id < n && !seen[x.id] && x.key == keyOf[x.id], "multiset", "item %zu of %zu is not one of the input, or is there twice", i, n);
		seen[x.id] = 1;
		if (i) VF_CHECK(c, Comp<T>::rank(v[lead + i - 1], how) <= Comp<T>::rank(x, how), "order", "items %zu and %zu of %zu are out of order", i - 1, i, n);
	}
	if (P) {
		VF_CHECK(c, pi->inits >= 1 && pi->dones == pi->inits, "progress_done", "progress was started %d times and completed %d times", pi->inits, pi->dones);
		count("with_progress");
	}
	count("items", n); count("sorts"); if (n >= 2 * MIN && MIN) count("split"); if (n == 0) count("empty"); count_max("items_in_a_sort", n);
	if (how == 3 || shape == 1) count("all_equal");
}
template <typename T, size_t MIN, bool P> static void in_container(Ctx & c, size_t n) {
	Rng & r = c.rng; size_t a = r.below(20), b = r.below(20);
	switch (r.below(3)) {
	case 0: sort_in<T, MIN, P, std::vector<T>>(c, n, a, b); break;
	case 1: sort_in<T, MIN, P, tpie::array<T>>(c, n, a, b); break;
	default: sort_in<T, MIN, P, std::deque<T>>(c, n, a, b);
	}
}
template <bool P> static void some(Ctx & c) {
	Rng & r = c.rng;
	size_t n = r.chance(10) ? r.below(4) : r.chance(50) ? r.below(200) : r.below(c.tracing ? 3000 : 6000);
	switch (r.below(6)) {
	case 0: in_container<Item<0>, 1, P>(c, std::min<size_t>(n, 400)); break;
	case 1: in_container<Item<0>, 2, P>(c, std::min<size_t>(n, 1500)); break;
	case 2: in_container<Item<0>, 16, P>(c, n); break;
	case 3: in_container<Item<40>, 100, P>(c, n); break;
	case 4: in_container<Item<5000>, 0, P>(c, n % 4000); break;
	default: in_container<Item<0>, 1000, P>(c, n);
	}
}
static void huge(Ctx & c) { // items so large that the default threshold is a handful
	typedef Item<400000> H; in_container<H, 0, false>(c, c.rng.below(60)); count("huge_items");
}
static void one(Ctx & c) { if (c.rng.chance(50)) some<true>(c); else some<false>(c); }

void vf_case(Ctx & c) {
	Rng & r = c.rng; c.nontrivial = true; Spurious spurious(r);
	if (r.chance(30)) { size_t w = (size_t)r.pick({1, 2, 3, 4, 8, 16}); tpie::set_worker_count(w); c.op("%zu workers", w); count("worker_counts"); }
	if (r.below(150) == 0) { huge(c); return; }
	if (r.chance(25)) {
		std::vector<std::function<void(Ctx &)>> v;
		for (int t = 2 + (int)r.below(3); t; --t) v.push_back(one);
		run_threads(c, v); count("concurrent_sorts"); return;
	}
	one(c);
}
