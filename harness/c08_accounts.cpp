// C08: memory and open-file accounts equal what is held, and limits are enforced.
#define VF_IO_SHIM_IMPL
#define VF_CUSTOM_SETUP
#include "stream_model.h"
#include <new>
#include <tpie/array.h>
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
#include <tpie/serialization_sorter.h>
#include <tpie/sort.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/priority_queue.h>
#include <tpie/pipelining.h>
#include <tpie/btree.h>
using namespace vf;

// Allocation failures: the n-th operator new of this thread fails while armed.
static thread_local long failNewAt = 0;
static thread_local size_t failNewOver = 0; // requests over this many bytes fail, as if memory were fragmented
static thread_local bool newFailed = false;
extern "C" void * __real__Znwm(size_t n);
extern "C" void * __real__Znam(size_t n);
static inline void mayFail() { if (failNewAt > 0 && !vf::in_shim && --failNewAt == 0) { newFailed = true; throw std::bad_alloc(); } }
extern "C" void * __wrap__Znwm(size_t n) { mayFail(); return __real__Znwm(n); }
extern "C" void * __wrap__Znam(size_t n) { if (failNewOver && n > failNewOver && !vf::in_shim) throw std::bad_alloc(); mayFail(); return __real__Znam(n); }

struct FailNew {
	FailNew(long n) { newFailed = false; failNewAt = n; }
	~FailNew() { failNewAt = 0; }
};

struct Boom {};
struct Plain { char b[24]; explicit Plain(int x) { if (x == 13) throw Boom(); b[0] = (char)x; } };
static std::atomic<int> alive(0);
struct Counted { int v; Counted() { ++alive; v = 1; } Counted(const Counted & o) : v(o.v) { ++alive; } ~Counted() { --alive; } Counted & operator=(const Counted & o) = default; };
static thread_local int throwAt = 0;
struct Thrower { std::unique_ptr<int> p; Thrower() { if (throwAt > 0 && --throwAt == 0) throw Boom(); p.reset(new int(3)); } Thrower(const Thrower & o) : p(new int(*o.p)) { if (throwAt > 0 && --throwAt == 0) throw Boom(); } Thrower & operator=(const Thrower & o) { *p = *o.p; return *this; } };
struct Pad { Pad(int x) { if (x == 14) throw Boom(); } virtual ~Pad() {} int q[3]; };
struct Base { virtual ~Base() {} int a; };
struct Derived : public Base { std::string s; char more[100]; explicit Derived(int x) : s(50, 'x') { if (x == 13) throw Boom(); } };
struct Multi : public Pad, public Base { int z[9]; explicit Multi(int x) : Pad(x) { if (x == 13) throw Boom(); } };
struct Arg { operator int() const { throw Boom(); } };

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
static size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap_bytes() { return 0; }
#endif

static size_t used() { return tpie::get_memory_manager().used(); }

struct Mem {
	Ctx & c; Rng & r;
	bool solo; // accounts can be compared after every operation
	size_t base;
	std::atomic<size_t> * granted; size_t limit; // enforced limit on what this test holds
	struct Obj { size_t bytes; std::function<void()> drop; };
	std::vector<Obj> objs;
	size_t held = 0;
	tpie::memory_bucket bucket; size_t bucketHeld = 0;
	tpie::memory_bucket bucket2; size_t bucket2Held = 0;
	Mem(Ctx & c, bool solo, size_t base, std::atomic<size_t> * g, size_t limit) : c(c), r(c.rng), solo(solo), base(base), granted(g), limit(limit) {}

	void add(size_t bytes, std::function<void()> drop) {
		objs.push_back(Obj{bytes, drop}); held += bytes;
		size_t now = granted->fetch_add(bytes, std::memory_order_relaxed) + bytes;
		if (limit) VF_CHECK(c, now <= limit, "over_limit", "%zu bytes handed out, the limit allows %zu", now, limit);
	}
	// resources are given back before the grant counter is lowered, or the counter could lag behind
	void drop(size_t i) {
		size_t b = objs[i].bytes;
		granted->fetch_sub(b, std::memory_order_relaxed); held -= b;
		objs[i].drop();
		objs.erase(objs.begin() + i);
	}
	void check(const char * what) {
		if (bucketHeld != bucket.count) c.fail("bucket", "%s: the bucket counts %zu bytes, %zu are held", what, (size_t)bucket.count, bucketHeld);
		if (bucket2Held != bucket2.count) c.fail("bucket", "%s: the second bucket counts %zu bytes, %zu are held", what, (size_t)bucket2.count, bucket2Held);
		if (!solo) return;
		size_t u = used();
		VF_CHECK(c, u == base + held, "memory", "after %s: used() grew by %lld, but %zu bytes are held", what, (long long)(u - base), held);
		auto & mm = tpie::get_memory_manager();
		size_t a = mm.available(), l = mm.limit();
		if (l) VF_CHECK(c, a == (l > u ? l - u : 0), "available", "after %s: available() is %zu with a limit of %zu and %zu used", what, a, l, u);
		count("accounts_compared");
	}
	template <typename F> bool attempt(size_t bytes, const char * what, bool mayThrow, F f) {
		// may: the operation may fail for a reason other than the limit
		try { f(); failNewAt = 0; throwAt = 0; }
		catch (tpie::out_of_memory_error &) {
			failNewAt = 0; throwAt = 0;
			VF_CHECK(c, limit, "refused", "%s refused though no limit is enforced", what);
			if (solo) VF_CHECK(c, held + bytes > limit, "refused_early", "%s of %zu bytes refused while %zu of %zu are held", what, bytes, held, limit);
			count("limit_refusals");
			return false;
		}
		catch (std::bad_alloc &) { failNewAt = 0; throwAt = 0; VF_CHECK(c, mayThrow && newFailed, "bad_alloc", "%s: bad_alloc", what); count("failed_allocations"); return false; }
		catch (Boom &) { failNewAt = 0; throwAt = 0; VF_CHECK(c, mayThrow, "boom", "%s", what); count("constructors_threw"); return false; }
		return true;
	}
	size_t n() { return r.pick({0, 1, 2, 7, 30, 100, 1000, 5000}) + r.below(3); }

	template <typename T> void arrayOps(const char * name) {
		typedef tpie::array<T> A;
		c.op("array<%s>", name);
		std::shared_ptr<A> a;
		size_t cur = 0;
		bool fail = r.chance(15), boom = std::is_same<T, Thrower>::value && r.chance(30);
		bool bk = r.chance(30);
		size_t z = n();
		auto may = [&] { if (fail) failNewAt = 1 + r.below(3); if (boom) throwAt = 1 + r.below(z + 2); newFailed = false; };
		auto off = [&] { failNewAt = 0; throwAt = 0; };
		T value;
		// hand the memory to us in steps: first construct, then resize
		may();
		bool ok = attempt(z * sizeof(T), "array", fail || boom, [&] {
			switch (r.below(3)) {
			case 0: a.reset(new A(z, value, bk ? tpie::allocator<T>(tpie::memory_bucket_ref(&bucket)) : tpie::allocator<T>())); break;
			case 1: a.reset(new A(z, bk ? tpie::allocator<T>(tpie::memory_bucket_ref(&bucket)) : tpie::allocator<T>())); break;
			default: if (bk) a.reset(new A(z, tpie::memory_bucket_ref(&bucket))); else a.reset(new A(z));
			}
		});
		off();
		if (ok) { cur = z; VF_CHECK(c, a->size() == z, "size", "array has %zu items, not %zu", a->size(), z); }
		if (bk) bucketHeld += ok ? z * sizeof(T) : 0;
		if (!ok) { a.reset(); check("failed array"); return; }
		add(cur * sizeof(T), [] {});
		size_t slot = objs.size() - 1;
		for (int i = r.below(3); i > 0; --i) {
			size_t z2 = n(); z = z2;
			size_t before = held;
			int how = r.below(4);
			// the array gives its memory back before it asks for the new
			granted->fetch_sub(objs[slot].bytes, std::memory_order_relaxed); held -= objs[slot].bytes; objs[slot].bytes = 0;
			if (bk) bucketHeld -= cur * sizeof(T);
			may();
			size_t want = z2 * sizeof(T);
			bool ok2;
			if (how == 0) ok2 = attempt(want, "array::resize", fail || boom, [&] { a->resize(z2); });
			else if (how == 1) ok2 = attempt(want, "array::resize(fill)", fail || boom, [&] { a->resize(z2, value); });
			else {
				off();
				// copy into another array, assign back
				ok2 = true; z2 = cur; want = cur * sizeof(T);
			}
			off();
			(void)before;
			if (!ok2) {
				c.op("array operation failed: %zu", z2);
				// whatever it holds now, it must be accounted and usable
				size_t s = a->size();
				VF_CHECK(c, s == 0 || s == cur || s == z2, "size_after_failure", "size is %zu after failing to go from %zu to %zu", s, cur, z2);
				for (size_t k = 0; k < s; ++k) (void)*(volatile char *)(a->get() + k);
				z2 = s; want = s * sizeof(T);
			} else VF_CHECK(c, a->size() == z2, "size", "array has %zu items, not %zu", a->size(), z2);
			cur = z2;
			objs[slot].bytes = want; held += want; granted->fetch_add(want, std::memory_order_relaxed);
			if (bk) bucketHeld += want;
			check("array::resize");
		}
		if (r.chance(40)) { // copies and moves
			std::shared_ptr<A> b;
			size_t bytes = cur * sizeof(T);
			z = cur;
			may();
			bool ok3 = attempt(bytes, "array copy", fail || boom, [&] { if (r.chance(50)) b.reset(new A(*a)); else { std::shared_ptr<A> t(new A(0, a->get_allocator())); *t = *a; b = t; } });
			off();
			if (ok3) {
				if (bk) bucketHeld += bytes;
				add(bytes, [] {});
				if (r.chance(30)) { A m(std::move(*b)); *b = std::move(m); }
				if (r.chance(30)) a->swap(*b);
				check("array copy");
				bool bk2 = bk;
				std::shared_ptr<A> keep = b;
				objs.back().drop = [this, keep, bytes, bk2]() mutable { keep.reset(); if (bk2) bucketHeld -= bytes; };
			}
			b.reset();
			check("array copy, after");
		}
		size_t bytes = objs[slot].bytes;
		objs[slot].drop = [this, a, bytes, bk]() mutable { a.reset(); if (bk) bucketHeld -= bytes; };
		a.reset();
	}

	// Arrays on different buckets trade places: what each bucket counts follows the memory.
	void traded() {
		typedef tpie::array<uint32_t> A;
		auto al = [&](int w) { return w == 0 ? tpie::allocator<uint32_t>() : tpie::allocator<uint32_t>(tpie::memory_bucket_ref(w == 1 ? &bucket : &bucket2)); };
		size_t n0 = r.below(200), n1 = r.below(200);
		int w0 = r.below(3), w1 = r.below(3);
		c.op("trade arrays of %zu on bucket %d and %zu on bucket %d", n0, w0, n1, w1);
		std::shared_ptr<A> a, b;
		bool ok = attempt((n0 + n1) * 4, "arrays", true, [&] { try { a.reset(new A(n0, al(w0))); b.reset(new A(n1, al(w1))); } catch (tpie::out_of_memory_error &) { a.reset(); b.reset(); throw; } });
		auto count2 = [&](int w, long long d) { if (w == 1) bucketHeld += d; if (w == 2) bucket2Held += d; };
		if (!ok) { check("arrays that did not fit"); return; }
		add((n0 + n1) * 4, [] {});
		size_t slot = objs.size() - 1;
		count2(w0, n0 * 4); count2(w1, n1 * 4);
		for (size_t i = 0; i < n0; ++i) (*a)[i] = 1000 + i;
		for (size_t i = 0; i < n1; ++i) (*b)[i] = 5000 + i;
		check("array on a bucket");
		for (int i = r.below(3) + 1; i > 0; --i) {
			switch (r.below(3)) {
			case 0: a->swap(*b); std::swap(n0, n1); std::swap(w0, w1); break;
			case 1: { // the moved-from array gives back what it had
				count2(w0, -(long long)(n0 * 4)); held -= n0 * 4; granted->fetch_sub(n0 * 4, std::memory_order_relaxed); objs[slot].bytes -= n0 * 4;
				size_t first = n1 ? (*b)[0] : 0;
				*a = std::move(*b);
				n0 = n1; w0 = w1; n1 = b->size();
				VF_CHECK(c, a->size() == n0 && n1 == 0 && (!n0 || (*a)[0] == first), "moved", "a moved array has %zu items of %zu, the other %zu", a->size(), n0, n1);
				w1 = 3; // its allocator is unspecified
				break;
			}
			default: { A t(std::move(*a)); check("array moved out"); VF_CHECK(c, t.size() == n0 && a->size() == 0, "moved", "a moved array has %zu items of %zu", t.size(), n0); *a = std::move(t); break; }
			}
			check("array traded");
		}
		count("arrays_traded");
		a.reset(); count2(w0, -(long long)(n0 * 4)); b.reset(); count2(w1, -(long long)(n1 * 4));
		drop(slot);
		check("traded arrays gone");
	}
	// The largest block that can be had is found by trying; nothing stays behind of the attempts.
	void consecutive() {
		size_t gran = r.pick({1, 64, 1000, 4096}), frag = r.pick({0, 100, 5000, 77777, 200000});
		auto & mm = tpie::get_memory_manager();
		size_t avail = mm.available();
		if (avail > (64 << 20)) return;
		c.op("consecutive_memory_available(%zu) with %zu available, blocks up to %zu", gran, avail, frag);
		size_t heap = heap_bytes();
		struct G { ~G() { failNewOver = 0; } } g;
		failNewOver = frag;
		size_t got = tpie::consecutive_memory_available(gran);
		failNewOver = 0;
		size_t heap2 = heap_bytes();
		size_t want = avail / gran * gran;
		if (frag && frag < want) want = frag / gran * gran;
		VF_CHECK(c, got == want, "consecutive", "the largest block of %zu-byte units is %zu bytes, not %zu (available %zu, blocks up to %zu)", gran, want, got, avail, frag);
		VF_CHECK(c, heap2 <= heap + 20000, "consecutive_leak", "%lld bytes of the heap were lost in finding the largest block", (long long)(heap2 - heap));
		count("largest_blocks_found");
	}
	// What is held of one type, by the digest of the types of which much is held.
	struct Tagged { char b[1000]; };
	void digest() {
		size_t a = r.below(1200), b = r.below(1200);
		c.op("digest of %zu and %zu", a, b);
		Tagged * p = tpie::tpie_new_array<Tagged>(a), * q = tpie::tpie_new_array<Tagged>(b);
		for (int k = 0; k < 3; ++k) {
			size_t bytes = ((p ? a : 0) + (q ? b : 0)) * sizeof(Tagged), cnt = (p != 0) + (q != 0);
			auto d = tpie::get_memory_manager().memory_digest();
			auto it = d.find(std::type_index(typeid(Tagged)));
			if (bytes < 512 * 1024) VF_CHECK(c, it == d.end(), "digest", "the digest has %zu bytes of a type of which %zu are held", it->second.bytes, bytes);
			else {
				VF_CHECK(c, it != d.end(), "digest", "the digest lacks a type of which %zu bytes are held", bytes);
				VF_CHECK(c, it->second.bytes == bytes && it->second.count == cnt, "digest", "the digest has %zu bytes in %zu allocations, not %zu in %zu", it->second.bytes, it->second.count, bytes, cnt);
				count("digests_compared");
			}
			if (k == 0) { tpie::tpie_delete_array(p, a); p = 0; }
			if (k == 1) { tpie::tpie_delete_array(q, b); q = 0; }
		}
	}

	void step() {
		if (solo && r.chance(8)) { consecutive(); check("consecutive"); return; }
#ifndef TPIE_NDEBUG
		if (solo && !limit && r.chance(2)) { digest(); check("digest"); return; }
#endif
		if (solo && r.chance(8)) { traded(); return; }
		if (!objs.empty() && (objs.size() > 12 || r.chance(35))) {
			c.op("drop");
			drop(r.below(objs.size()));
			check("release");
			return;
		}
		long f = r.chance(15) ? 1 : 0;
		int x = r.chance(15) ? (int)r.pick({13, 14}) : 1;
		switch (r.below(10)) {
		case 0: {
			c.op("tpie_new<Plain> %d", x);
			Plain * p = 0;
			bool ok = false;
			{ FailNew g(f); ok = attempt(sizeof(Plain), "tpie_new", true, [&] { p = tpie::tpie_new<Plain>(x); }); }
			if (ok) add(sizeof(Plain), [p] { tpie::tpie_delete(p); });
			break;
		}
		case 1: {
			c.op("tpie_new<Derived> %d", x);
			Base * p = 0;
			bool ok;
			{ FailNew g(f ? 1 + r.below(2) : 0); ok = attempt(sizeof(Derived), "tpie_new<Derived>", true, [&] { if (x == 14) p = tpie::tpie_new<Derived>(Arg()); else p = tpie::tpie_new<Derived>(x); }); }
			if (ok) add(sizeof(Derived), [p] { tpie::tpie_delete(p); });
			break;
		}
		case 2: {
			c.op("tpie_new<Multi> %d", x);
			Base * p = 0;
			bool ok;
			{ FailNew g(f); ok = attempt(sizeof(Multi), "tpie_new<Multi>", true, [&] { p = tpie::tpie_new<Multi>(x); }); }
			if (ok) add(sizeof(Multi), [p] { tpie::tpie_delete(p); });
			break;
		}
		case 3: {
			size_t k = n();
			c.op("tpie_new_array<Counted> %zu", k);
			Counted * p = 0; bool ok;
			{ FailNew g(f); ok = attempt(k * sizeof(Counted), "tpie_new_array", true, [&] { p = tpie::tpie_new_array<Counted>(k); }); }
			if (ok) add(k * sizeof(Counted), [p, k] { tpie::tpie_delete_array(p, k); });
			break;
		}
		case 4: {
			size_t k = n();
			c.op("tpie_new_array<Thrower> %zu", k);
			Thrower * p = 0; bool ok;
			if (r.chance(30)) throwAt = 1 + r.below(k + 2);
			{ FailNew g(f); ok = attempt(k * sizeof(Thrower), "tpie_new_array", true, [&] { p = tpie::tpie_new_array<Thrower>(k); }); }
			throwAt = 0;
			if (ok) add(k * sizeof(Thrower), [p, k] { tpie::tpie_delete_array(p, k); });
			break;
		}
		case 5: {
			c.op("unique_ptr %d", x);
			std::shared_ptr<tpie::unique_ptr<Derived>> p(new tpie::unique_ptr<Derived>()); bool ok;
			{ FailNew g(f); ok = attempt(sizeof(Derived), "make_unique", true, [&] { *p = tpie::make_unique<Derived>(x == 14 ? 1 : x); }); }
			if (ok) add(sizeof(Derived), [p]() mutable { p->reset(); });
			break;
		}
		case 6: { // STL containers on the library's allocator
			size_t k = n();
			bool bk = r.chance(50);
			c.op("vector with allocator %zu bucket %d", k, bk);
			typedef std::vector<uint64_t, tpie::allocator<uint64_t>> V;
			std::shared_ptr<V> v(new V(bk ? tpie::allocator<uint64_t>(tpie::memory_bucket_ref(&bucket)) : tpie::allocator<uint64_t>()));
			bool ok;
			{ FailNew g(f); ok = attempt(k * 8, "vector::reserve", true, [&] { v->reserve(k); }); }
			size_t cap = v->capacity() * 8;
			if (!ok) VF_CHECK(c, cap == 0, "capacity", "failed vector has a capacity");
			if (bk) bucketHeld += cap;
			add(cap, [this, v, bk, cap]() mutable { V().swap(*v); v.reset(); if (bk) bucketHeld -= cap; });
			break;
		}
		case 7: arrayOps<char>("char"); break;
		case 8: arrayOps<Counted>("Counted"); break;
		default: arrayOps<Thrower>("Thrower"); break;
		}
		check("operation");
	}
	void finish() { while (!objs.empty()) drop(objs.size() - 1); check("releasing everything"); }
};

static void mem_case(Ctx & c) {
	Rng & r = c.rng;
	auto & mm = tpie::get_memory_manager();
	size_t base = used();
	alive.store(0);
	bool threads = r.chance(35), enforce = r.chance(50);
	size_t limit = enforce ? r.pick({100, 1000, 5000, 40000, 200000}) : 0;
	std::atomic<size_t> granted(0);
	int mode = enforce ? 0 : (int)r.below(5);
	if (enforce) { mm.set_limit(base + limit); mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); }
	else switch (mode) {
	case 0: mm.set_limit(0); mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); break; // no limit at all
	case 1: mm.set_limit(base + r.pick({100, 5000, 200000})); mm.set_enforcement(tpie::memory_manager::ENFORCE_WARN); break;
	case 2: mm.set_limit(base + r.pick({100, 5000, 200000})); mm.set_enforcement(tpie::memory_manager::ENFORCE_DEBUG); break;
	case 3: mm.set_limit(base + r.pick({100, 5000, 200000})); mm.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); break;
	default: mm.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
	}
	if (!enforce && mode < 4) count("limits_not_enforced");
	c.describe("memory %s limit %zu mode %d", threads ? "threads" : "one thread", limit, mode);
	struct Restore { ~Restore() { auto & m = tpie::get_memory_manager(); m.set_limit(512 << 20); m.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); } } restore;
	int ops = r.pick({20, 60, 150});
	if (!threads) {
		Mem m(c, true, base, &granted, limit);
		for (int i = 0; i < ops; ++i) m.step();
		m.finish();
	} else {
		std::vector<std::function<void(Ctx &)>> b;
		for (int i = 2 + r.below(4); i > 0; --i) b.push_back([&](Ctx & t) {
			Mem m(t, false, base, &granted, limit);
			for (int k = 0; k < ops; ++k) m.step();
			m.finish();
			t.nontrivial = true;
		});
		run_threads(c, b);
		count("memory_thread_cases");
	}
	VF_CHECK(c, used() == base, "memory_end", "used() is %lld off after everything was released", (long long)(used() - base));
	VF_CHECK(c, alive.load() == 0, "objects", "%d objects were never destroyed", alive.load());
	c.nontrivial = true;
}

// ---------------------------------------------------------------------------
struct Files {
	Ctx & c; Rng & r; bool solo;
	std::string dir; int serial = 0;
	struct Open { std::function<void()> drop; };
	std::vector<Open> os;
	std::vector<std::string> closedFS, closedUS, closedSW; // valid files of each format
	size_t base, fdBase, memBase, limit; // limit 0: none
	Files(Ctx & c, bool solo, const std::string & dir, size_t limit) : c(c), r(c.rng), solo(solo), dir(dir), limit(limit) {
		base = tpie::get_file_manager().used(); fdBase = io().open_count(); memBase = used();
	}
	bool anyFault = false;
	// The pool keeps up to two buffers at rest, fewer after an allocation failed.
	static void warm() {
		tpie::file_stream<Item<8>> a, b; a.open(); b.open(); a.write(make_item<8>(1, 1)); b.write(make_item<8>(1, 1));
		std::vector<Item<8>> v(1000, make_item<8>(2, 2)); a.write(v.begin(), v.end()); b.write(v.begin(), v.end());
	}
	typedef tpie::file_stream<Item<8>> FS; typedef tpie::uncompressed_stream<Item<8>> US; typedef tpie::file<Item<8>> FF;
	std::string fresh() { return dir + fmt("/f%d", serial++); }
	void check(const char * what) {
		if (!solo) return;
		size_t u = tpie::get_file_manager().used() - base, f = io().open_count() - fdBase;
		VF_CHECK(c, u == os.size() && f == os.size(), "files", "after %s: the manager counts %zu files, the process has %zu open, %zu streams are open", what, u, f, os.size());
		if (os.empty() && used() < memBase) warm();
		if (os.empty()) VF_CHECK(c, used() == memBase, "stream_memory", "after %s: no stream is open, but %lld bytes are accounted", what, (long long)(used() - memBase));
		count("file_accounts_compared");
	}
	// A write in the background that was made to fail is reported by a later close.
	void shut(std::function<void()> & d) {
		try { d(); } catch (tpie::exception &) { if (!anyFault) throw; count("late_errors"); d(); }
	}
	void step() {
		if (!os.empty() && (os.size() > 9 || r.chance(30))) {
			size_t k = r.below(os.size());
			c.op("close");
			auto d = os[k].drop; os.erase(os.begin() + k); shut(d); d = nullptr;
			check("close");
			return;
		}
		bool expectLimit = limit && solo && os.size() >= limit;
		bool expectOk = true, injected = false;
		std::function<void()> drop, open;
		std::string what;
		int scenario = r.below(12);
		auto okp = std::make_shared<bool>(true);
		bool existing = false;
		switch (r.below(5)) {
		case 0: {
			what = "file_stream";
			auto s = std::make_shared<FS>(r.pick({1.0, 1.0, 0.1}));
			std::string p = fresh();
			if (!closedFS.empty() && r.chance(40)) { existing = true; p = closedFS.back(); closedFS.pop_back(); }
			if (scenario == 0) { p = dir; expectOk = false; }
			if (scenario == 1) { p = dir + "/none/x"; expectOk = false; }
			if (scenario == 2) { p = fresh(); spit(p, std::string(r.below(6000), 'q')); expectOk = false; existing = fs_size(p) == 0; }
			bool comp = r.chance(50);
			open = [=] { if (existing) s->open(p); else s->open(p, comp ? tpie::open::compression_normal : tpie::open::defaults); for (int i = r.below(300); i > 0; --i) { s->seek(0, FS::end); s->write(make_item<8>(i, 1)); } };
			drop = [=]() mutable { if (!s) return; s->close(); s.reset(); if (*okp) closedFS.push_back(p); };
			break;
		}
		case 1: {
			what = "uncompressed_stream";
			auto s = std::make_shared<US>(r.pick({1.0, 1.0, 0.1}));
			std::string p = fresh();
			if (!closedUS.empty() && r.chance(40)) { existing = true; p = closedUS.back(); closedUS.pop_back(); }
			if (scenario == 0) { p = dir; expectOk = false; }
			if (scenario == 1) { p = dir + "/none/x"; expectOk = false; }
			if (scenario == 2) { p = fresh(); spit(p, std::string(5000, 'q')); expectOk = false; existing = false; }
			open = [=] { s->open(p); for (int i = r.below(300); i > 0; --i) { s->seek(0, US::end); s->write(make_item<8>(i, 1)); } };
			drop = [=]() mutable { if (!s) return; s->close(); s.reset(); if (*okp) closedUS.push_back(p); };
			break;
		}
		case 2: {
			what = "file";
			auto s = std::make_shared<FF>();
			std::string p = fresh();
			if (scenario == 0) { p = dir; expectOk = false; }
			if (scenario == 2) { spit(p, std::string(5000, 'q')); expectOk = false; }
			open = [=] { s->open(p, tpie::access_read_write); FF::stream a(*s), b(*s); for (int i = r.below(300); i > 0; --i) a.write(make_item<8>(i, 1)); if (b.can_read()) b.read(); try { a.detach(); b.detach(); } catch (...) { io().failWriteAt = io().failReadAt = 0; throw; } };
			drop = [=]() mutable { if (!s) return; s->close(); s.reset(); };
			break;
		}
		case 3: {
			what = "serialization_writer";
			auto s = std::make_shared<tpie::serialization_writer>();
			std::string p = fresh();
			if (scenario <= 1) { p = dir + "/none/x"; expectOk = false; }
			open = [=] { s->open(p); for (int i = r.below(300); i > 0; --i) s->serialize(i); };
			drop = [=]() mutable { if (!s) return; s->close(); s.reset(); if (*okp) closedSW.push_back(p); };
			break;
		}
		default: {
			what = "serialization_reader";
			auto s = std::make_shared<tpie::serialization_reader>();
			std::string p = fresh();
			if (!closedSW.empty()) p = closedSW[r.below(closedSW.size())]; else expectOk = false;
			if (scenario == 0) { p = dir; expectOk = false; }
			if (scenario == 2) { p = fresh(); spit(p, std::string(r.below(300), 'q')); expectOk = false; }
			open = [=] { s->open(p); int x; while (s->can_read()) s->unserialize(x); };
			drop = [=]() mutable { if (!s) return; s->close(); s.reset(); };
		}
		}
		if (r.chance(15) && solo) { // the system refuses
			injected = anyFault = true;
			switch (r.below(3)) { case 0: io().failOpenAt = 1; break; case 1: io().failReadAt = 1 + r.below(3); break; default: io().failWriteAt = 1 + r.below(3); }
			io().failErrno = EIO; io().failSticky = false;
			what += "+fault";
		}
		bool badAlloc = !injected && r.chance(15);
		c.op("open %s scenario %d existing %d", what.c_str(), scenario, existing);
		bool ok = true, refused = false;
		std::string err;
		try {
			newFailed = false;
			if (badAlloc) failNewAt = 1 + r.below(12);
			open();
		}
		catch (tpie::out_of_files_error & e) { ok = false; refused = true; err = e.what(); }
		catch (std::bad_alloc & e) { failNewAt = 0; ok = false; err = e.what(); VF_CHECK(c, newFailed || !solo, "bad_alloc", "%s: bad_alloc", what.c_str()); }
		catch (std::exception & e) { failNewAt = 0; ok = false; err = e.what(); }
		failNewAt = 0;
		if (injected) { io().failOpenAt = io().failReadAt = io().failWriteAt = 0; }
		if (refused) { VF_CHECK(c, limit, "refused", "%s refused without a limit", what.c_str()); if (solo) VF_CHECK(c, expectLimit, "refused_early", "%s refused with %zu of %zu files open", what.c_str(), os.size(), limit); count("file_limit_refusals"); }
		if (ok && expectLimit) c.fail("limit", "%s opened although %zu of %zu files were open", what.c_str(), os.size(), limit);
		*okp = ok;
		if (!ok) {
			count("failed_opens");
			c.op("failed: %s%s", err.c_str(), newFailed ? " (allocation)" : "");
			VF_CHECK(c, !expectOk || injected || refused || newFailed || existing, "open", "%s: %s", what.c_str(), err.c_str());
			// a stream whose use failed is closed by its owner
			try { drop(); } catch (std::exception &) { try { drop(); } catch (std::exception &) {} }
			open = nullptr; drop = nullptr;
		} else {
			if (!injected && !newFailed) VF_CHECK(c, expectOk || existing, "opened", "%s opened something it should not", what.c_str());
			os.push_back(Open{drop});
			count("files_opened");
		}
		drop = nullptr; open = nullptr;
		check(what.c_str());
	}
	static size_t fs_size(const std::string & p) { return boost::filesystem::file_size(p); }
	void finish() { while (!os.empty()) { auto d = os.back().drop; os.pop_back(); shut(d); } check("closing everything"); }
};

static void file_case(Ctx & c) {
	Rng & r = c.rng;
	set_scheme(r.chance(50) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	auto & fm = tpie::get_file_manager();
	Files::warm();
	size_t base = fm.used(), memBase = used(), fds = io().open_count();
	bool threads = r.chance(35), enforce = r.chance(50);
	size_t limit = enforce ? r.pick({1, 2, 5}) : 0;
	size_t oldLimit = fm.limit();
	if (enforce) { fm.set_limit(base + limit); fm.set_enforcement(tpie::file_manager::ENFORCE_THROW); }
	struct Restore { size_t l; ~Restore() { auto & m = tpie::get_file_manager(); m.set_limit(l); m.set_enforcement(tpie::file_manager::ENFORCE_IGNORE); } } restore{oldLimit};
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 100});
	c.describe("files %s limit %zu", threads ? "threads" : "one thread", limit);
	std::string dir = scratch("files"); wipe(dir); mkdir(dir.c_str(), 0700);
	int ops = r.pick({15, 40, 80});
	if (!threads) { Files f(c, true, dir, limit); for (int i = 0; i < ops; ++i) f.step(); f.finish(); }
	else {
		std::vector<std::function<void(Ctx &)>> b;
		for (int i = 2 + r.below(3); i > 0; --i) b.push_back([&, i](Ctx & t) {
			std::string d = dir + fmt("/t%d", i); mkdir(d.c_str(), 0700);
			Files f(t, false, d, limit);
			for (int k = 0; k < ops / 2; ++k) { f.step(); if (limit) VF_CHECK(t, f.os.size() <= limit, "limit", "%zu files open, limit is %zu", f.os.size(), limit); }
			f.finish();
			t.nontrivial = true;
		});
		run_threads(c, b);
		count("file_thread_cases");
	}
	VF_CHECK(c, fm.used() == base, "files_end", "used files is %lld off after everything was closed", (long long)(fm.used() - base));
	VF_CHECK(c, io().open_count() == fds, "fds_end", "%lld descriptors leaked", (long long)(io().open_count() - fds));
	if (used() < memBase) { struct L { size_t l; ~L() { tpie::get_file_manager().set_limit(l); } } l{fm.limit()}; fm.set_limit(oldLimit); Files::warm(); }
	VF_CHECK(c, used() == memBase, "stream_memory_end", "used() is %lld off after everything was closed", (long long)(used() - memBase));
	wipe(dir);
	c.nontrivial = true;
}

// ---------------------------------------------------------------------------
// Composite structures, abandoned at a random point.
struct Stop {};
template <typename dest_t> class Bomb : public tpie::pipelining::node {
	dest_t dest; int at;
public:
	typedef uint64_t item_type;
	Bomb(dest_t d, int at) : dest(std::move(d)), at(at) { add_push_destination(dest); }
	void push(uint64_t x) { if (at >= 0 && at-- == 0) throw Stop(); dest.push(x); }
};
static void composite(Ctx & c) {
	Rng & r = c.rng;
	set_scheme(r.chance(50) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	io().reset(r.next());
	auto & mm = tpie::get_memory_manager();
	Files::warm();
	size_t base = used(), fbase = tpie::get_file_manager().used(), fds = io().open_count();
	uint64_t tbase = tpie::get_temp_file_usage();
	size_t n = r.size(20000);
	int kind = r.below(12);
	bool tight = (kind == 3 || kind == 5 || kind == 8) && r.chance(40), alloc = !tight && kind != 11 && r.chance(25);
	c.describe("composite kind %d items %zu tight %d", kind, n, tight);
	mm.set_limit(512 << 20); mm.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
	struct Restore { ~Restore() { auto & m = tpie::get_memory_manager(); m.set_limit(512 << 20); m.set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); failNewAt = 0; } } restore;
	if (tight) { mm.set_limit(base + r.pick({5000, 100000, 1000000})); mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); }
	bool stopped = false, inserting = false;
	std::string err;
	auto maybeArm = [&] { newFailed = false; if (alloc) failNewAt = 1 + r.below(r.pick({10, 60, 400})); };
	auto stop = [&](size_t i) { if (r.below(4 * n + 50) == 0) { (void)i; throw Stop(); } };
	c.op("kind %d n %zu alloc %d", kind, n, alloc);
	struct Disarm { ~Disarm() { failNewAt = 0; } };
	try {
		switch (kind) {
		case 0: { tpie::merge_sorter<uint64_t, false> s; Disarm d; maybeArm(); s.set_available_memory(r.pick({200000, 4000000})); s.begin(); for (size_t i = 0; i < n; ++i) { s.push(r.next()); stop(i); } s.end(); tpie::dummy_progress_indicator pi; s.calc(pi); while (s.can_pull()) { s.pull(); stop(0); } break; }
		case 1: { tpie::queue<uint64_t> q; Disarm d; maybeArm(); for (size_t i = 0; i < n; ++i) { q.push(i); if (r.chance(30)) q.pop(); stop(i); } break; }
		case 2: { tpie::stack<uint64_t> q; Disarm d; maybeArm(); for (size_t i = 0; i < n; ++i) { q.push(i); if (r.chance(30)) q.pop(); stop(i); } break; }
		case 3: { tpie::priority_queue<uint64_t> q(std::min<tpie::memory_size_type>(r.pick({200000, 3000000}), mm.limit()), 10.f); Disarm d; maybeArm(); for (size_t i = 0; i < n; ++i) { q.push(r.next()); if (r.chance(20)) q.pop(); stop(i); } break; }
		case 4: { tpie::serialization_sorter<std::string> s(sizeof(std::string)); Disarm d; maybeArm(); s.set_available_memory(r.pick({5000000, 9000000})); s.begin(); for (size_t i = 0; i < n / 4; ++i) { s.push(std::string(r.below(60), 'y')); stop(i); } s.end(); s.merge_runs(); while (s.can_pull()) { s.pull(); stop(0); } break; }
		case 5: { tpie::internal_vector<uint64_t> v(n); tpie::packed_array<bool, 1> p(n); tpie::bit_array b(n); tpie::internal_priority_queue<int> q(n); tpie::internal_queue<int> iq(n); tpie::disjoint_sets<size_t> ds(n); for (size_t i = 0; i < n; ++i) { q.push((int)i); iq.push((int)i); ds.make_set(i); v.push_back(i); stop(i); } break; }
		case 6: case 7: {
			tpie::file_stream<uint64_t> in; in.open(); for (size_t i = 0; i < n; ++i) in.write(r.next());
			in.seek(0);
			Disarm d; maybeArm();
			if (kind == 6) tpie::sort(in, in);
			else {
				tpie::file_stream<uint64_t> out; out.open();
				int at = r.chance(50) ? (int)r.below(n + 1) : -1;
				tpie::pipelining::pipeline p;
				if (r.chance(50)) p = tpie::pipelining::input(in) | tpie::pipelining::pipe_middle<tpie::pipelining::factory<Bomb, int>>(at) | tpie::pipelining::sort() | tpie::pipelining::output(out);
				else p = tpie::pipelining::input(in) | tpie::pipelining::sort() | tpie::pipelining::pipe_middle<tpie::pipelining::factory<Bomb, int>>(at) | tpie::pipelining::reverser() | tpie::pipelining::buffer() | tpie::pipelining::output(out);
				p();
			}
			break;
		}
		case 8: { tpie::btree<int, tpie::btree_internal> t; Disarm d; maybeArm(); for (size_t i = 0; i < n / 4; ++i) { inserting = true; t.insert((int)r.below(5000)); inserting = false; if (r.chance(20)) t.erase((int)r.below(5000)); stop(i); } break; }
		case 9: { std::string p = scratch("bt"); wipe(p); tpie::btree<int, tpie::btree_external> t(p); Disarm d; for (size_t i = 0; i < n / 40; ++i) { t.insert((int)r.below(5000)); if (r.chance(20)) t.erase((int)r.below(5000)); stop(i); } break; }
		case 10: { tpie::pipelining::passive_sorter<uint64_t> ps; tpie::file_stream<uint64_t> out; out.open(); Disarm d; maybeArm(); int at = r.chance(50) ? (int)r.below(n + 1) : -1; tpie::file_stream<uint64_t> in; in.open(); for (size_t i = 0; i < n; ++i) in.write(r.next()); in.seek(0); tpie::pipelining::pipeline p = tpie::pipelining::input(in) | tpie::pipelining::pipe_middle<tpie::pipelining::factory<Bomb, int>>(at) | ps.input(); tpie::pipelining::pipeline p2 = ps.output() | tpie::pipelining::pull_peek() | tpie::pipelining::pull_output(out); if (r.chance(80)) p(); break; }
		default: { tpie::file_stream<uint64_t> in; in.open(); for (size_t i = 0; i < n; ++i) in.write(r.next()); in.seek(0); tpie::pipelining::pipeline p = tpie::pipelining::input(in) | tpie::pipelining::parallel(tpie::pipelining::pipe_middle<tpie::pipelining::factory<Bomb, int>>(-1)) | tpie::pipelining::sort() | tpie::pipelining::null_sink<uint64_t>(); p(); break; }
		}
		count("composites_completed");
	}
	catch (Stop &) { failNewAt = 0; stopped = true; count("composites_stopped"); }
	catch (Violation &) { throw; }
	catch (std::exception & e) { failNewAt = 0; stopped = true; err = e.what(); VF_CHECK(c, tight || newFailed || kind == 3 || kind == 4, "composite", "kind %d: %s", kind, e.what()); count("composites_failed"); }
	failNewAt = 0;
	c.nontrivial = true;
	std::string state = stopped ? (err.empty() ? "stopped" : err) : "completed";
	mm.set_limit(512 << 20); if (used() < base) Files::warm();
	std::string memKey = fmt("composite_memory_%d", kind);
	if (kind == 8 && inserting) memKey = "btree_insert_refused"; // an insertion that was refused memory half way
	VF_CHECK(c, used() == base, memKey, "kind %d (%s): used() is %lld off after it is gone", kind, state.c_str(), (long long)(used() - base));
	VF_CHECK(c, tpie::get_file_manager().used() == fbase && io().open_count() == fds, fmt("composite_files_%d", kind), "kind %d (%s): %lld files accounted, %lld descriptors open after it is gone", kind, state.c_str(), (long long)(tpie::get_file_manager().used() - fbase), (long long)(io().open_count() - fds));
	VF_CHECK(c, tpie::get_temp_file_usage() == tbase, fmt("composite_temp_%d", kind), "kind %d (%s): temporary space is %lld off", kind, state.c_str(), (long long)(tpie::get_temp_file_usage() - tbase));
	count("composites_checked");
}

void vf_case(Ctx & c) {
	int k = c.rng.below(10);
	if (k < 4) mem_case(c);
	else if (k < 8) file_case(c);
	else composite(c);
}

// The library keeps two stream buffers at rest; with one block size they are always alike.
void vf_setup() {
	tpie::set_block_size(4096);
	tpie::tpie_init();
	tpie::get_memory_manager().set_limit(512 << 20);
	tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
	tpie::log_debug() << "open the log" << std::endl;
}
void vf_teardown() { tpie::tpie_finish(); }
