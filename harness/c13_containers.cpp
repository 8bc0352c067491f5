// C13: in-memory containers against ordinary sequences, queues and multisets, with elements that know whether they are alive.
#include "tracked.h"
#include "fail_new.h"
#include <tpie/tpie.h>
#include <tpie/array.h>
#include <tpie/bit_array.h>
#include <tpie/packed_array.h>
#include <tpie/array_view.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/maybe.h>
#include <boost/optional.hpp>
#include <deque>
#include <set>
#include <numeric>
using namespace vf;

typedef boost::optional<uint64_t> Val; // none: value not determined
struct Odd { char b[3]; Odd() {} Odd(uint64_t v) { b[0] = (char)v; b[1] = (char)(v >> 8); b[2] = (char)(v >> 16); }
	operator uint64_t() const { return (uint8_t)b[0] | (uint64_t)(uint8_t)b[1] << 8 | (uint64_t)(uint8_t)b[2] << 16; } };
static bool operator==(const Odd & a, const Odd & b) { return (uint64_t)a == (uint64_t)b; }
static bool operator!=(const Odd & a, const Odd & b) { return (uint64_t)a != (uint64_t)b; }
static bool operator<(const Odd & a, const Odd & b) { return (uint64_t)a < (uint64_t)b; }
struct Zeroed { std::unique_ptr<uint64_t> p; Zeroed() : p(new uint64_t(0)) {} Zeroed(uint64_t v) : p(new uint64_t(v)) {}
	Zeroed(const Zeroed & o) : p(new uint64_t(*o.p)) {} Zeroed & operator=(const Zeroed & o) { *p = *o.p; return *this; } operator uint64_t() const { return *p; } };
static bool operator==(const Zeroed & a, const Zeroed & b) { return *a.p == *b.p; }
static bool operator!=(const Zeroed & a, const Zeroed & b) { return *a.p != *b.p; }
static bool operator<(const Zeroed & a, const Zeroed & b) { return *a.p < *b.p; }

template <typename T> struct Default { static Val get() { return 0; } };
template <> struct Default<uint64_t> { static Val get() { return boost::none; } };
template <> struct Default<Odd> { static Val get() { return boost::none; } };

static size_t draw_size(Rng & r) { return r.chance(15) ? 0 : r.chance(20) ? r.below(3) : r.size(r.pick({4, 20, 140})); }

static void tracked_ok(Ctx & c) { VF_CHECK(c, Tracked::error().empty(), "lifetime", "%s", Tracked::error().c_str()); }

// Runs body with a failure armed in operator new or in an element's constructor; true if it finished.
template <typename F> static bool attempt(Ctx & c, F && body) {
	int how = c.rng.below(8);
	bool ok = false;
	try {
		if (how == 0) { FailNew f(1 + c.rng.size(12)); body(); }
		else if (how == 1) { Tracked::throwAt() = 1 + c.rng.size(12); body(); }
		else body();
		ok = true;
	} catch (const std::bad_alloc &) { if (how != 0) throw; count("failed_allocations"); }
	catch (const TrackedBoom &) { count("failed_elements"); }
	Tracked::throwAt() = 0;
	return ok;
}

template <typename T, typename A> struct ArrayCase {
	typedef tpie::array<T, A> arr;
	static const bool tpieAlloc = std::is_same<A, tpie::allocator<T>>::value;
	struct Pair { std::unique_ptr<arr> a; std::vector<Val> m; };
	tpie::memory_bucket bucket; // outlives the arrays
	Ctx & c; Rng & r; std::vector<Pair> p; uint64_t ids;
	ArrayCase(Ctx & c) : c(c), r(c.rng), p(3), ids(r.next() >> 44) {}
	uint64_t id() { return r.chance(40) ? r.below(3) : ids++ & 0xffffff; }
	void failed(Pair & x) { // whatever a failed operation left must be a usable array
		x.m.assign(x.a->size(), boost::none);
		if (r.chance(50)) for (size_t i = 0; i < x.m.size(); ++i) { uint64_t v = id(); (*x.a)[i] = T(v); x.m[i] = v; }
		count("used_after_failure");
	}
	void check(Pair & x) {
		tracked_ok(c);
		arr & a = *x.a; const arr & ca = a; size_t n = x.m.size();
		VF_CHECK(c, a.size() == n, "size", "size()=%zu, expected %zu", (size_t)a.size(), n);
		VF_CHECK(c, a.empty() == (n == 0), "empty", "empty()=%d with %zu elements", (int)a.empty(), n);
		int how = r.below(6);
		size_t i = 0;
		auto eq = [&](const T & v, size_t k, const char * via) { if (x.m[k]) { uint64_t g = v; VF_CHECK(c, g == *x.m[k], "element", "element %zu of %zu is %llu through %s, expected %llu", k, n, (unsigned long long)g, via, (unsigned long long)*x.m[k]); } };
		switch (how) {
		case 0: for (; i < n; ++i) { eq(a[i], i, "[]"); eq(ca.at(i), i, "at"); } break;
		case 1: for (auto it = a.begin(); it != a.end(); ++it, ++i) { VF_CHECK(c, i < n, "iteration", "iteration passes the end"); eq(*it, i, "iterator"); } break;
		case 2: for (auto it = ca.rbegin(); it != ca.rend(); ++it, ++i) { VF_CHECK(c, i < n, "iteration", "reverse iteration passes the end"); eq(*it, n - 1 - i, "reverse iterator"); } break;
		case 3: for (auto it = a.end(); it != a.begin(); ++i) { --it; VF_CHECK(c, i < n, "iteration", "iteration passes the beginning"); eq(*it, n - 1 - i, "iterator backwards"); } break;
		case 4: for (auto it = a.rend(); it != a.rbegin(); ++i) { --it; eq(*it, i, "reverse iterator backwards"); } break;
		default: for (; i < n; ++i) { size_t k = r.below(n); eq(*(ca.begin() + k), k, "begin()+k"); eq(*ca.find(k), k, "find"); eq(a.rbegin()[n - 1 - k], k, "rbegin()[]"); eq((a.find(i))[(ptrdiff_t)k - (ptrdiff_t)i], k, "find()[]"); eq(*(a.end() - (n - k)), k, "end()-k"); }
			VF_CHECK(c, (size_t)(ca.end() - ca.begin()) == n && (size_t)(a.rend() - a.rbegin()) == n, "iteration", "distance of the iterators differs from the size");
			if (n > 1) VF_CHECK(c, a.begin() < a.end() && a.rbegin() < a.rend() && a.begin() + n == a.end(), "iteration", "order of the iterators");
			i = n;
		}
		VF_CHECK(c, i == n, "iteration", "iteration gave %zu of %zu elements", i, n);
		if (n) { eq(a.front(), 0, "front"); eq(ca.back(), n - 1, "back"); VF_CHECK(c, a.get() == &a[0], "get", "get() is not the address of the first element"); }
		count("elements_compared", n);
	}
	bool known(const Pair & x) { for (auto & v : x.m) if (!v) return false; return true; }
	template <typename AA> void viewOps(std::true_type, AA &, Pair & x, Pair & y) {
		size_t n = x.m.size();
		tpie::array_view<T> v(*x.a); tpie::array_view<const T> cv(*x.a);
		size_t b = r.below(n + 1), e = b + r.below(n - b + 1);
		tpie::array_view<T> sub = r.chance(50) ? tpie::array_view<T>(*x.a, b, e) : tpie::make_array_view(*x.a, b, e);
		tpie::array_view<const T> csub = r.chance(50) ? tpie::array_view<const T>(sub) : tpie::array_view<const T>((const arr &)*x.a, b, e);
		c.op("view [%zu,%zu) of %zu", b, e, n);
		VF_CHECK(c, v.size() == n && cv.size() == n && sub.size() == e - b && csub.size() == e - b && sub.empty() == (b == e), "view", "sizes of views %zu %zu %zu of [%zu,%zu) of %zu", v.size(), cv.size(), sub.size(), b, e, n);
		for (size_t i = 0; i < e - b; ++i) {
			if (r.chance(30)) { uint64_t w = id(); sub[i] = T(w); x.m[b + i] = w; }
			if (x.m[b + i]) VF_CHECK(c, (uint64_t)csub[i] == *x.m[b + i] && (uint64_t)*(sub.begin() + i) == *x.m[b + i] && (uint64_t)cv.at(b + i) == *x.m[b + i] && (uint64_t)*sub.find(i) == *x.m[b + i], "view", "element %zu of the view differs", i);
		}
		VF_CHECK(c, (size_t)(sub.end() - sub.begin()) == e - b, "view", "view iterators span %td of %zu", sub.end() - sub.begin(), e - b);
		if (e > b && x.m[e - 1] && x.m[b]) VF_CHECK(c, (uint64_t)sub.back() == *x.m[e - 1] && (uint64_t)csub.front() == *x.m[b], "view", "front or back of a view");
		if (r.chance(50)) { // a container made of a view
			std::unique_ptr<arr> t;
			if (r.chance(50)) t.reset(new arr((const tpie::array_view_base<T> &)sub)); else t.reset(new arr((const tpie::array_view_base<const T> &)csub));
			std::vector<Val> tm(x.m.begin() + b, x.m.begin() + e);
			Pair & dst = &x == &y ? p[(&x - &p[0] + 1) % p.size()] : y;
			dst.a = std::move(t); dst.m = tm;
			if (known(dst)) { bool same = sub == tpie::array_view<T>(*dst.a); VF_CHECK(c, same && !(sub != tpie::array_view<T>(*dst.a)), "view", "views of equal contents compare unequal"); }
		}
		count("views");
	}
	template <typename AA> void viewOps(std::false_type, AA &, Pair &, Pair &) {}
	arr * make(tpie::memory_bucket & b, std::true_type) { return r.chance(50) ? new arr(tpie::memory_bucket_ref(&b)) : new arr(0, A(tpie::memory_bucket_ref(&b))); }
	arr * make(tpie::memory_bucket &, std::false_type) { return new arr(); }
	size_t inBucket(const arr & a, tpie::memory_bucket & b, std::true_type) { A al = a.get_allocator(); return al.bucket && &*al.bucket == &b ? a.size() * sizeof(T) : 0; }
	size_t inBucket(const arr &, tpie::memory_bucket &, std::false_type) { return 0; }

	void run() {
		std::integral_constant<bool, tpieAlloc> ta;
		for (auto & x : p) x.a.reset(r.chance(30) ? make(bucket, ta) : new arr());
		int ops = r.pick({6, 25, 80});
		c.describe("array element=%zu tpie_allocator=%d ops=%d", sizeof(T), (int)tpieAlloc, ops);
		for (int i = 0; i < ops; ++i) {
			size_t xi = r.below(p.size()), yi = r.below(p.size());
			Pair & x = p[xi]; Pair & y = p[yi];
			size_t s = draw_size(r); uint64_t v = id();
			switch (r.below(18)) {
			case 0: c.op("a%zu.resize(%zu)", xi, s); if (attempt(c, [&] { x.a->resize(s); })) x.m.assign(s, Default<T>::get()); else failed(x); break;
			case 1: { c.op("a%zu.resize(%zu,v)", xi, s); T t(v); if (r.chance(15)) s = x.m.size(); if (attempt(c, [&] { x.a->resize(s, t); })) x.m.assign(s, v); else failed(x); break; }
			case 2: {
				c.op("a%zu constructed with %zu", xi, s); T t(v); arr * a = 0; bool fill = r.chance(50);
				if (attempt(c, [&] { a = fill ? new arr(s, t) : new arr(s); })) { x.a.reset(a); x.m.assign(s, fill ? Val(v) : Default<T>::get()); }
				break;
			}
			case 3: case 4: {
				c.op("a%zu = a%zu", xi, yi); arr & src = *y.a;
				if (attempt(c, [&] { *x.a = src; })) x.m = y.m; else failed(x);
				if (xi == yi) count("self_assignments");
				break;
			}
			case 5: if (xi != yi) { c.op("a%zu = move(a%zu)", xi, yi); *x.a = std::move(*y.a); x.m = y.m; failed(y); } break;
			case 6: { c.op("a%zu copy constructed from a%zu", xi, yi); arr * a = 0; if (attempt(c, [&] { a = new arr(*y.a); })) { if (xi == yi) { x.a.reset(a); } else { x.a.reset(a); x.m = y.m; } } break; }
			case 7: if (xi != yi) { c.op("a%zu move constructed from a%zu", xi, yi); x.a.reset(new arr(std::move(*y.a))); x.m = y.m; failed(y); } break;
			case 8: c.op("swap a%zu a%zu", xi, yi); if (r.chance(50)) x.a->swap(*y.a); else { using std::swap; swap(*x.a, *y.a); } std::swap(x.m, y.m); break;
			case 9: if (known(x) && known(y)) { c.op("compare a%zu a%zu", xi, yi); bool e = x.m == y.m; VF_CHECK(c, (*x.a == *y.a) == e && (*x.a != *y.a) == !e, "compare", "comparison gives %d, expected %d", (int)(*x.a == *y.a), (int)e); } break;
			case 10: { size_t n = x.m.size(); if (!n) break; c.op("write a%zu", xi); for (int k = 0; k < 5; ++k) { size_t j = r.below(n); uint64_t w = id(); if (r.chance(30)) *x.a->find(j) = T(w); else if (r.chance(30)) x.a->rbegin()[n - 1 - j] = T(w); else x.a->at(j) = T(w); x.m[j] = w; } break; }
			case 11: { // copies through the library's overloads of std::copy
				size_t n = x.m.size(), k = y.m.size(); if (xi == yi) break;
				size_t len = std::min(n, k) ? r.below(std::min(n, k) + 1) : 0, b = n > len ? r.below(n - len + 1) : 0, d = k > len ? r.below(k - len + 1) : 0;
				int how = r.below(6);
				c.op("copy %d of %zu from a%zu[%zu] to a%zu[%zu]", how, len, xi, b, yi, d);
				const arr & cx = *x.a;
				std::vector<T> mid(len);
				switch (how) {
				case 0: { auto e = std::copy(cx.begin() + b, cx.begin() + (b + len), y.a->begin() + d); VF_CHECK(c, e == y.a->begin() + (d + len), "copy", "end of the copied range"); break; }
				case 1: { auto e = std::copy(x.a->find(b), x.a->find(b + len), mid.begin()); VF_CHECK(c, e == mid.end(), "copy", "end of the copied range"); std::copy(mid.begin(), mid.end(), y.a->find(d)); break; }
				case 2: { std::copy(cx.rbegin() + (n - b - len), cx.rbegin() + (n - b), y.a->begin() + d); break; }
				case 3: { std::copy(cx.begin() + b, cx.begin() + (b + len), y.a->rbegin() + (k - d - len)); break; }
				case 4: { std::copy(cx.rbegin() + (n - b - len), cx.rbegin() + (n - b), mid.begin()); std::reverse(mid.begin(), mid.end()); std::copy(mid.begin(), mid.end(), y.a->rbegin() + (k - d - len)); std::reverse(y.a->begin() + d, y.a->begin() + (d + len)); std::copy(mid.begin(), mid.end(), y.a->find(d)); break; }
				default: { std::copy(cx.rbegin() + (n - b - len), cx.rbegin() + (n - b), y.a->rbegin() + (k - d - len)); break; }
				}
				std::vector<Val> part(x.m.begin() + b, x.m.begin() + b + len);
				if (how == 2 || how == 3) std::reverse(part.begin(), part.end());
				std::copy(part.begin(), part.end(), y.m.begin() + d);
				count("range_copies");
				break;
			}
			case 12: if (known(x)) {
				c.op("sort a%zu", xi); int how = r.below(4);
				auto lt = [](const Val & a, const Val & b) { return *a < *b; };
				if (how == 0) { std::sort(x.a->begin(), x.a->end()); std::sort(x.m.begin(), x.m.end(), lt); }
				else if (how == 1) { std::sort(x.a->rbegin(), x.a->rend()); std::sort(x.m.begin(), x.m.end(), lt); std::reverse(x.m.begin(), x.m.end()); }
				else if (how == 2) { std::reverse(x.a->begin(), x.a->end()); std::reverse(x.m.begin(), x.m.end()); }
				else if (x.m.size()) { size_t k = r.below(x.m.size()); std::rotate(x.a->begin(), x.a->begin() + k, x.a->end()); std::rotate(x.m.begin(), x.m.begin() + k, x.m.end()); }
				break;
			} break;
			case 13: viewOps(ta, *x.a, x, y); break;
			case 14: c.op("fill a%zu", xi); { T t(v); std::fill(x.a->begin(), x.a->end(), t); } x.m.assign(x.m.size(), v); break;
			case 15: c.op("new a%zu", xi); x.a.reset(r.chance(50) ? make(bucket, ta) : new arr()); x.m.clear(); break;
			default: check(x);
			}
			tracked_ok(c);
			if (xi != yi && r.chance(30)) { check(x); check(y); }
			size_t inb = 0; for (auto & q : p) inb += inBucket(*q.a, bucket, ta);
			VF_CHECK(c, bucket.count == inb, "bucket", "bucket counts %zu, its arrays hold %zu bytes", (size_t)bucket.count, inb);
		}
		for (auto & x : p) check(x);
		c.nontrivial = ops > 6;
		count(tpieAlloc ? "kind_array" : "kind_array_allocator");
	}
};

template <typename T, int B> struct PackedCase {
	typedef tpie::packed_array<T, B> arr;
	struct Pair { std::unique_ptr<arr> a; std::vector<boost::optional<T>> m; };
	Ctx & c; Rng & r; std::vector<Pair> p;
	PackedCase(Ctx & c) : c(c), r(c.rng), p(3) { for (auto & x : p) x.a.reset(new arr()); }
	T val() { uint64_t m = B >= 64 ? ~0ull : (1ull << B) - 1; uint64_t v = (r.chance(30) ? (r.chance(50) ? m : 0) : r.next()) & m; return (T)v; }
	void check(Pair & x) {
		arr & a = *x.a; const arr & ca = a; size_t n = x.m.size(), i = 0;
		VF_CHECK(c, a.size() == n && a.empty() == (n == 0), "packed_size", "size()=%zu, expected %zu", a.size(), n);
		auto eq = [&](T v, size_t k, const char * via) { if (x.m[k]) VF_CHECK(c, v == *x.m[k], "packed_element", "element %zu of %zu with %d bits is %lld through %s, expected %lld", k, n, B, (long long)v, via, (long long)*x.m[k]); };
		switch (r.below(6)) {
		case 0: for (; i < n; ++i) { eq(ca[i], i, "[] const"); eq(a[i], i, "[]"); } break;
		case 1: for (auto it = a.begin(); it != a.end(); ++it, ++i) eq(*it, i, "iterator"); break;
		case 2: for (auto it = ca.begin(); it != ca.end(); it++, ++i) eq(*it, i, "const iterator"); break;
		case 3: for (auto it = a.rbegin(); it != a.rend(); ++it, ++i) eq(*it, n - 1 - i, "reverse iterator"); break;
		case 4: for (auto it = ca.rend(); it != ca.rbegin(); ++i) { --it; eq(*it, i, "reverse iterator backwards"); } break;
		default: for (; i < n; ++i) { size_t k = r.below(n); eq(*ca.find(k), k, "find"); eq(*(a.begin() + k), k, "begin()+k"); eq(*(a.end() - (n - k)), k, "end()-k"); eq(*(ca.rbegin() + (n - 1 - k)), k, "rbegin()+k"); auto it = ca.find(i); it += (ptrdiff_t)k - (ptrdiff_t)i; eq(*it, k, "+="); }
			VF_CHECK(c, (size_t)(ca.end() - ca.begin()) == n && (size_t)(ca.rend() - ca.rbegin()) == n, "packed_iteration", "iterator distances differ from the size");
			VF_CHECK(c, (ca.begin() < ca.end()) == (n > 0) && (ca.rbegin() < ca.rend()) == (n > 0) && ca.begin() <= ca.end(), "packed_iteration", "iterator order");
			i = n;
		}
		VF_CHECK(c, i == n, "packed_iteration", "iteration gave %zu of %zu", i, n);
		count("elements_compared", n);
	}
	void failed(Pair & x) { x.m.assign(x.a->size(), boost::none); for (size_t i = 0; i < x.m.size(); ++i) { T v = val(); (*x.a)[i] = v; x.m[i] = v; } count("used_after_failure"); }
	void run() {
		int ops = r.pick({6, 25, 80});
		c.describe("packed bits=%d ops=%d", B, ops);
		for (int i = 0; i < ops; ++i) {
			size_t xi = r.below(p.size()), yi = r.below(p.size());
			Pair & x = p[xi]; Pair & y = p[yi];
			size_t s = r.chance(15) ? 0 : r.chance(40) ? (64 / B) * r.below(4) + r.range(0, 2) : r.size(300); T v = val();
			switch (r.below(13)) {
			case 0: c.op("p%zu.resize(%zu)", xi, s); if (attempt(c, [&] { x.a->resize(s); })) { if (s != x.m.size()) x.m.assign(s, boost::none); } else failed(x); break;
			case 1: c.op("p%zu.resize(%zu,%lld)", xi, s, (long long)v); if (attempt(c, [&] { x.a->resize(s, v); })) x.m.assign(s, v); else failed(x); break;
			case 2: { c.op("p%zu constructed %zu", xi, s); arr * a = 0; bool fill = r.chance(60); if (attempt(c, [&] { a = fill ? new arr(s, v) : new arr(s); })) { x.a.reset(a); x.m.assign(s, fill ? boost::optional<T>(v) : boost::none); } break; }
			case 3: { c.op("p%zu = p%zu", xi, yi); arr & src = *y.a; if (attempt(c, [&] { *x.a = src; })) x.m = y.m; else failed(x); break; }
			case 4: { c.op("p%zu copy of p%zu", xi, yi); arr * a = 0; if (attempt(c, [&] { a = new arr(*y.a); })) { auto m = y.m; x.a.reset(a); x.m = m; } break; }
			case 5: if (xi != yi) { c.op("p%zu moved from p%zu", xi, yi); if (r.chance(50)) *x.a = std::move(*y.a); else x.a.reset(new arr(std::move(*y.a))); x.m = y.m; failed(y); } break;
			case 6: c.op("swap p%zu p%zu", xi, yi); if (r.chance(50)) x.a->swap(*y.a); else { using std::swap; swap(*x.a, *y.a); } std::swap(x.m, y.m); break;
			case 7: c.op("fill p%zu", xi); x.a->fill(v); x.m.assign(x.m.size(), v); break;
			case 8: case 9: {
				size_t n = x.m.size(); if (!n) break;
				c.op("write p%zu", xi);
				for (int k = 0; k < 12; ++k) {
					size_t j = r.below(n), o = r.below(n); T w = val();
					switch (r.below(5)) {
					case 0: (*x.a)[j] = w; x.m[j] = w; break;
					case 1: *x.a->find(j) = w; x.m[j] = w; break;
					case 2: *(x.a->rbegin() + (n - 1 - j)) = w; x.m[j] = w; break;
					case 3: if (x.m[o]) { (*x.a)[j] = (*x.a)[o]; x.m[j] = x.m[o]; } break;
					default: if (x.m[o]) { *x.a->find(j) = *x.a->find(o); x.m[j] = x.m[o]; count("element_to_element"); }
					}
				}
				break;
			}
			case 10: if (xi != yi) {
				size_t n = std::min(x.m.size(), y.m.size());
				for (size_t k = 0; k < n; ++k) if (!x.m[k]) n = k;
				int how = r.below(3);
				c.op("copy %zu of p%zu to p%zu", n, xi, yi);
				const arr & cx = *x.a;
				if (how == 0) std::copy(cx.begin(), cx.begin() + n, y.a->begin());
				else if (how == 1) std::copy(x.a->begin(), x.a->begin() + n, y.a->begin());
				else std::copy(cx.rbegin() + (x.m.size() - n), cx.rend(), y.a->rbegin() + (y.m.size() - n));
				std::copy(x.m.begin(), x.m.begin() + n, y.m.begin());
				count("range_copies");
				break;
			} break;
			case 11: if (!x.m.empty() && !y.m.empty()) { // iterators are assigned, also across arrays
				size_t j = r.below(x.m.size()), o = r.below(y.m.size());
				const arr & cx = *x.a; const arr & cy = *y.a;
				auto eq = [&](T v, const char * via) { if (y.m[o]) VF_CHECK(c, v == *y.m[o], "packed_iterator_assignment", "element %zu is %lld through an assigned %s, expected %lld", o, (long long)v, via, (long long)*y.m[o]); };
				auto i1 = x.a->find(j); i1 = y.a->find(o); eq(*i1, "iterator");
				auto i2 = cx.find(j); i2 = cy.find(o); eq(*i2, "const iterator");
				auto i3 = x.a->rbegin(); i3 = y.a->rbegin() + (y.m.size() - 1 - o); eq(*i3, "reverse iterator");
				auto i4 = cx.rbegin(); i4 = cy.rbegin() + (y.m.size() - 1 - o); eq(*i4, "const reverse iterator");
				typename arr::const_iterator i5(i1); eq(*i5, "iterator converted to const"); i2 = cx.begin(); i2 = i1; eq(*i2, "iterator converted to const");
				VF_CHECK(c, i2 == cy.find(o) && i2 - cy.begin() == (ptrdiff_t)o, "packed_iterator_assignment", "an assigned iterator is at %td of %zu", i2 - cy.begin(), o);
				count("iterator_assignments");
			} break;
			default: check(x);
			}
			if (r.chance(30)) { check(x); check(y); }
		}
		for (auto & x : p) check(x);
		c.nontrivial = ops > 6;
		count("kind_packed");
	}
};

// internal_vector, internal_stack, internal_queue
template <typename T> struct SeqCase {
	Ctx & c; Rng & r; uint64_t ids;
	SeqCase(Ctx & c) : c(c), r(c.rng), ids(1000) {}
	template <typename F> bool guarded(F && f) { return attempt(c, f); }

	void vectors() {
		typedef tpie::internal_vector<T> V;
		struct P { std::unique_ptr<V> v; std::vector<uint64_t> m; size_t cap; };
		std::vector<P> p(2);
		for (auto & x : p) { x.cap = draw_size(r); x.v.reset(new V(x.cap)); }
		int ops = r.pick({10, 60, 200});
		c.describe("internal_vector element=%zu ops=%d", sizeof(T), ops);
		for (int i = 0; i < ops; ++i) {
			size_t xi = r.below(2); P & x = p[xi]; P & y = p[1 - xi];
			switch (r.below(11)) {
			case 0: case 1: case 2: { size_t n = r.size(x.cap + 1); c.op("v%zu push %zu", xi, n); for (; n && x.m.size() < x.cap; --n) { uint64_t v = ids++ & 0xffffff; if (r.chance(20)) { x.v->push_back() = T(v); } else { T & t = x.v->push_back(T(v)); VF_CHECK(c, (uint64_t)t == v, "vector", "push_back returned another element"); } x.m.push_back(v); } break; }
			case 3: { size_t n = r.size(x.m.size() + 1); c.op("v%zu pop %zu", xi, n); for (; n && x.m.size(); --n) { x.v->pop_back(); x.m.pop_back(); } break; }
			case 4: { size_t s = draw_size(r); c.op("v%zu resize %zu", xi, s); if (guarded([&] { x.v->resize(s); })) x.cap = s; else { x.cap = 0; count("used_after_failure"); } x.m.clear(); break; }
			case 5: c.op("v%zu clear", xi); x.v->clear(); x.m.clear(); break;
			case 6: { c.op("v%zu = v%zu", xi, 1 - xi); *x.v = *y.v; x.m = y.m; x.cap = y.cap; break; }
			case 7: { c.op("swap"); std::swap(*x.v, *y.v); std::swap(x.m, y.m); std::swap(x.cap, y.cap); break; }
			case 8: { c.op("v%zu copied", xi); V t(*x.v); VF_CHECK(c, t.size() == x.m.size() && std::equal(x.m.begin(), x.m.end(), t.begin(), [](uint64_t a, const T & b) { return a == (uint64_t)b; }), "vector", "copy differs"); if (t.size()) t[0] = T(77777); V u(std::move(t)); VF_CHECK(c, u.size() == x.m.size(), "vector", "moved copy differs"); break; }
			case 9: if (x.m.size()) { size_t j = r.below(x.m.size()); uint64_t v = ids++ & 0xffffff; c.op("v%zu[%zu]=", xi, j); (*x.v)[j] = T(v); x.m[j] = v; } break;
			default: {
				const V & cv = *x.v; size_t n = x.m.size();
				tpie::array_view<T> av(*x.v); tpie::array_view<const T> cav(cv);
				VF_CHECK(c, av.size() == n && cav.size() == n && tpie::make_array_view(*x.v).size() == n, "vector", "view of %zu elements has %zu", n, av.size());
				if (n) VF_CHECK(c, (uint64_t)x.v->front() == x.m.front() && (uint64_t)cv.back() == x.m.back() && (uint64_t)cv.front() == x.m.front() && (uint64_t)av.back() == x.m.back(), "vector", "front or back");
				if (r.chance(20)) { std::sort(x.v->begin(), x.v->end()); std::sort(x.m.begin(), x.m.end()); }
			}
			}
			const V & cv = *x.v; size_t n = x.m.size(), k = 0;
			VF_CHECK(c, cv.size() == n && cv.empty() == (n == 0), "vector", "size()=%zu, expected %zu", cv.size(), n);
			for (auto it = cv.begin(); it != cv.end(); ++it, ++k) { VF_CHECK(c, k < n, "vector", "iterates past the end"); VF_CHECK(c, (uint64_t)*it == x.m[k] && (uint64_t)cv[k] == x.m[k], "vector", "element %zu is %llu, expected %llu", k, (unsigned long long)(uint64_t)*it, (unsigned long long)x.m[k]); }
			VF_CHECK(c, k == n, "vector", "iterated over %zu of %zu", k, n);
			tracked_ok(c);
		}
		count("kind_vector"); c.nontrivial = ops > 10;
	}
	void stacks() {
		size_t cap = draw_size(r); tpie::internal_stack<T> s(cap); std::vector<uint64_t> m;
		int ops = r.pick({10, 60, 200});
		c.describe("internal_stack element=%zu cap=%zu ops=%d", sizeof(T), cap, ops);
		for (int i = 0; i < ops; ++i) {
			switch (r.below(7)) {
			case 0: case 1: case 2: { size_t n = r.size(cap + 1); c.op("push %zu", n); for (; n && m.size() < cap; --n) { uint64_t v = ids++ & 0xffffff; s.push(T(v)); m.push_back(v); } break; }
			case 3: case 4: { size_t n = r.size(m.size() + 1); c.op("pop %zu", n); for (; n && m.size(); --n) { VF_CHECK(c, (uint64_t)s.top() == m.back(), "stack", "top is %llu, expected %llu", (unsigned long long)(uint64_t)s.top(), (unsigned long long)m.back()); s.pop(); m.pop_back(); } break; }
			case 5: c.op("clear"); s.clear(); m.clear(); break;
			default: { size_t k = draw_size(r); c.op("resize %zu", k); if (guarded([&] { s.resize(k); })) cap = k; else { cap = 0; count("used_after_failure"); } m.clear(); }
			}
			VF_CHECK(c, s.size() == m.size() && s.empty() == m.empty(), "stack", "size()=%zu, expected %zu", s.size(), m.size());
			if (m.size()) VF_CHECK(c, (uint64_t)s.top() == m.back(), "stack", "top is %llu, expected %llu", (unsigned long long)(uint64_t)s.top(), (unsigned long long)m.back());
			tracked_ok(c);
		}
		count("kind_stack"); c.nontrivial = ops > 10;
	}
	void queues() {
		size_t cap = draw_size(r); tpie::internal_queue<T> q(cap); std::deque<uint64_t> m;
		int ops = r.pick({10, 60, 200});
		c.describe("internal_queue element=%zu cap=%zu ops=%d", sizeof(T), cap, ops);
		for (int i = 0; i < ops; ++i) {
			switch (r.below(8)) {
			case 0: case 1: case 2: { size_t n = r.size(cap + 1); c.op("push %zu", n); for (; n && !q.full(); --n) { VF_CHECK(c, m.size() < cap, "queue", "not full with %zu of %zu", m.size(), cap); uint64_t v = ids++ & 0xffffff; q.push(T(v)); m.push_back(v); } break; }
			case 3: case 4: { size_t n = r.size(m.size() + 1); c.op("pop %zu", n); for (; n && m.size(); --n) { VF_CHECK(c, (uint64_t)q.front() == m.front(), "queue", "front is %llu, expected %llu", (unsigned long long)(uint64_t)q.front(), (unsigned long long)m.front()); q.pop(); m.pop_front(); } break; }
			case 5: c.op("clear"); q.clear(); m.clear(); break;
			case 6: { tpie::internal_queue<T> t(q); std::swap(t, q); c.op("copy and swap"); break; }
			default: { size_t k = draw_size(r); c.op("resize %zu", k); if (guarded([&] { q.resize(k); })) cap = k; else { cap = 0; count("used_after_failure"); } m.clear(); }
			}
			VF_CHECK(c, q.size() == m.size() && q.empty() == m.empty() && q.full() == (m.size() == cap), "queue", "size()=%zu empty()=%d full()=%d, expected %zu of %zu", q.size(), (int)q.empty(), (int)q.full(), m.size(), cap);
			if (m.size()) VF_CHECK(c, (uint64_t)q.front() == m.front() && (uint64_t)q.back() == m.back(), "queue", "front %llu back %llu, expected %llu %llu", (unsigned long long)(uint64_t)q.front(), (unsigned long long)(uint64_t)q.back(), (unsigned long long)m.front(), (unsigned long long)m.back());
			tracked_ok(c);
		}
		count("kind_queue"); c.nontrivial = ops > 10;
	}
	struct Mod { uint64_t k; bool rev; bool operator()(const T & a, const T & b) const { uint64_t x = (uint64_t)a % k, y = (uint64_t)b % k; return rev ? y < x : x < y; } };
	void pqs() {
		Mod cmp{r.chance(50) ? 1ull << 40 : r.below(5) + 1, r.chance(50)};
		size_t cap = draw_size(r);
		typedef tpie::internal_priority_queue<T, Mod> Q;
		std::multiset<uint64_t> m;
		std::vector<T> init; for (size_t i = r.chance(50) ? r.below(cap + 1) : 0; i; --i) { uint64_t v = r.below(50); init.push_back(T(v)); m.insert(v); }
		std::unique_ptr<Q> q(init.empty() ? new Q(cap, cmp) : new Q(cap, init.begin(), init.end(), cmp));
		int ops = r.pick({10, 60, 200});
		c.describe("internal_priority_queue element=%zu cap=%zu ops=%d order=%llu/%d", sizeof(T), cap, ops, (unsigned long long)cmp.k, (int)cmp.rev);
		auto least = [&](uint64_t v) { for (uint64_t o : m) if (cmp(T(o), T(v))) return false; return true; };
		auto draw = [&] { return r.chance(50) ? r.below(40) : ids++ & 0xffffff; };
		auto take = [&] { uint64_t v = ((const Q &)*q).top(); auto it = m.find(v); VF_CHECK(c, it != m.end(), "pq", "top %llu is not in the queue", (unsigned long long)v); VF_CHECK(c, least(v), "pq", "top %llu is not least", (unsigned long long)v); m.erase(it); };
		for (int i = 0; i < ops; ++i) {
			switch (r.below(10)) {
			case 0: case 1: { size_t n = r.size(cap + 1); c.op("push %zu", n); for (; n && m.size() < cap; --n) { uint64_t v = draw(); T t(v); if (r.chance(50)) q->push(t); else q->push(std::move(t)); m.insert(v); } break; }
			case 2: case 3: { size_t n = r.size(m.size() + 1); c.op("pop %zu", n); for (; n && m.size(); --n) { take(); q->pop(); } break; }
			case 4: { size_t n = r.size(m.size() + 1); c.op("pop and push %zu", n); for (; n && m.size(); --n) { take(); uint64_t v = draw(); T t(v); if (r.chance(50)) q->pop_and_push(t); else q->pop_and_push(std::move(t)); m.insert(v); } break; }
			case 5: { size_t n = r.below(cap - m.size() + 1); c.op("unsafe push %zu", n); for (; n; --n) { uint64_t v = draw(); T t(v); if (r.chance(50)) q->unsafe_push(t); else q->unsafe_push(std::move(t)); m.insert(v); } q->make_safe(); break; }
			case 6: { size_t n = r.below(cap - m.size() + 1); c.op("insert %zu", n); std::vector<T> w; for (; n; --n) { uint64_t v = draw(); w.push_back(T(v)); m.insert(v); } q->insert(w.begin(), w.end()); break; }
			case 7: c.op("clear"); q->clear(); m.clear(); break;
			case 8: { size_t k = draw_size(r); c.op("resize %zu", k); if (guarded([&] { q->resize(k); })) cap = k; else { cap = q->get_array().size(); count("used_after_failure"); } m.clear(); break; }
			default: { c.op("copy"); std::unique_ptr<Q> t(new Q(*q)); if (m.size() > 1) { q->pop(); } q = std::move(t); }
			}
			VF_CHECK(c, q->size() == m.size() && q->empty() == m.empty(), "pq", "size()=%zu, expected %zu", (size_t)q->size(), m.size());
			if (m.size()) VF_CHECK(c, least(q->top()), "pq", "top %llu is not least of %zu", (unsigned long long)(uint64_t)q->top(), m.size());
			tracked_ok(c);
		}
		c.op("drain");
		while (m.size()) { take(); q->pop(); }
		VF_CHECK(c, q->empty(), "pq", "elements left over");
		count("kind_pq"); c.nontrivial = ops > 10;
	}
	void maybes() {
		struct Two { T a; std::string s; Two(uint64_t x, std::string s) : a(x), s(s) {} };
		tpie::maybe<Tracked> m; tpie::maybe<Two> w; bool on = false, won = false; uint64_t v = 0; std::string s;
		int ops = r.pick({10, 40});
		c.describe("maybe ops=%d", ops);
		for (int i = 0; i < ops; ++i) {
			uint64_t x = ids++;
			int how = r.below(7);
			c.op("maybe %d", how);
			bool threw = false;
			switch (how) {
			case 0: try { m.construct(x); VF_CHECK(c, !on, "maybe", "constructed twice"); on = true; v = x; } catch (tpie::maybe_exception &) { VF_CHECK(c, on, "maybe", "refused to construct"); } break;
			case 1: { Tracked t(x); Tracked::throwAt() = r.chance(50) ? 1 : 0; try { m.construct(t); VF_CHECK(c, !on, "maybe", "constructed twice"); on = true; v = x; } catch (tpie::maybe_exception &) { VF_CHECK(c, on, "maybe", "refused to construct"); } catch (TrackedBoom &) { count("failed_elements"); } Tracked::throwAt() = 0; break; }
			case 2: m.destruct(); on = false; break;
			case 3: try { tpie::maybe<Tracked> o(m); VF_CHECK(c, !o.is_constructed(), "maybe", "copy holds an object"); } catch (tpie::maybe_exception &) { threw = true; } VF_CHECK(c, threw == on, "maybe", "copying gives threw=%d with constructed=%d", (int)threw, (int)on); break;
			case 4: try { tpie::maybe<Tracked> o; if (r.chance(50)) m = o; else o = m; } catch (tpie::maybe_exception &) { threw = true; } VF_CHECK(c, threw == on, "maybe", "assigning gives threw=%d with constructed=%d", (int)threw, (int)on); break;
			case 5: if (!won) { s = std::string(r.below(60), 'q'); w.construct(x, s); won = true; } else { VF_CHECK(c, w->s == s, "maybe", "second argument lost"); w.destruct(); won = false; } break;
			default: if (on) { (*m).v = x; m->check = ~x; v = x; }
			}
			VF_CHECK(c, m.is_constructed() == on && w.is_constructed() == won, "maybe", "is_constructed()=%d, expected %d", (int)m.is_constructed(), (int)on);
			if (on) VF_CHECK(c, (*m).value() == v && ((const tpie::maybe<Tracked> &)m)->value() == v, "maybe", "value %llu, expected %llu", (unsigned long long)m->v, (unsigned long long)v);
			VF_CHECK(c, !(std::is_same<T, uint64_t>::value) || Tracked::live().size() == (on ? 1u : 0u), "maybe", "%zu objects alive, expected %d", Tracked::live().size(), (int)on);
			tracked_ok(c);
		}
		count("kind_maybe"); c.nontrivial = true;
	}
	void stdviews() {
		std::vector<T> v; for (size_t n = draw_size(r); n; --n) v.push_back(T(r.below(4)));
		std::vector<T> w = v; if (w.size() && r.chance(50)) w[r.below(w.size())] = T(9);
		const std::vector<T> & cv = v; size_t n = v.size(), b = r.below(n + 1), e = b + r.below(n - b + 1);
		c.describe("views of a vector of %zu, [%zu,%zu)", n, b, e);
		tpie::array_view<T> a(v), s(v, b, e), q(w); tpie::array_view<const T> ca(cv), cs(cv, b, e), x(a);
		auto ms = tpie::make_array_view(v, b, e); auto mc = tpie::make_array_view(cv); auto mi = tpie::make_array_view(v.begin() + b, v.begin() + e);
		tpie::array_view<T> pp(v.data() + b, e - b); tpie::array_view<const T> pc(cv.data() + b, cv.data() + e);
		VF_CHECK(c, a.size() == n && s.size() == e - b && ca.size() == n && cs.size() == e - b && x.size() == n && ms.size() == e - b && mc.size() == n && mi.size() == e - b && pp.size() == e - b && pc.size() == e - b, "view", "sizes of views");
		for (size_t i = 0; i < e - b; ++i) { const T * t = &v[b + i]; VF_CHECK(c, &s[i] == t && &cs[i] == t && &ms[i] == t && &mi.at(i) == t && &pp[i] == t && &pc[i] == t && &a[b + i] == t && &*x.find(b + i) == t && &*(mc.begin() + (b + i)) == t, "view", "element %zu of a view is elsewhere", i); }
		bool same = v == w;
		VF_CHECK(c, (a == q) == same && (a != q) == !same, "view", "comparison of views");
		if (e > b) { s[0] = T(5); VF_CHECK(c, (uint64_t)v[b] == 5 && (uint64_t)s.front() == 5 && &s.back() == &v[e - 1], "view", "write through a view"); }
		tracked_ok(c);
		count("kind_std_view"); c.nontrivial = true;
	}
	void run() { switch (r.below(9)) { case 0: case 1: vectors(); break; case 2: stacks(); break; case 3: case 4: queues(); break; case 5: case 6: pqs(); break; case 7: maybes(); break; default: stdviews(); } }
};

void vf_case(Ctx & c) {
	Tracked::reset();
	size_t used = tpie::get_memory_manager().used();
	Rng & r = c.rng;
	switch (r.below(20)) {
	case 0: case 1: { ArrayCase<uint64_t, tpie::allocator<uint64_t>> f(c); f.run(); break; }
	case 2: { ArrayCase<Odd, tpie::allocator<Odd>> f(c); f.run(); break; }
	case 3: case 4: { ArrayCase<Tracked, tpie::allocator<Tracked>> f(c); f.run(); break; }
	case 5: { ArrayCase<Zeroed, tpie::allocator<Zeroed>> f(c); f.run(); break; }
	case 6: { ArrayCase<Tracked, std::allocator<Tracked>> f(c); f.run(); break; }
	case 7: { ArrayCase<uint64_t, std::allocator<uint64_t>> f(c); f.run(); break; }
	case 8: case 9: { PackedCase<bool, 1> f(c); f.run(); break; }
	case 10: { PackedCase<int, 2> f(c); f.run(); break; }
	case 11: { PackedCase<int, 4> f(c); f.run(); break; }
	case 12: { PackedCase<int, 8> f(c); f.run(); break; }
	case 13: { if (r.chance(50)) { PackedCase<int, 16> f(c); f.run(); } else { PackedCase<int, 32> f(c); f.run(); } break; }
	case 14: { PackedCase<int, 1> f(c); f.run(); break; }
	case 15: case 16: { SeqCase<uint64_t> f(c); f.run(); break; }
	case 17: { SeqCase<Odd> f(c); f.run(); break; }
	default: { SeqCase<Tracked> f(c); f.run(); }
	}
	tracked_ok(c);
	VF_CHECK(c, Tracked::live().empty(), "lifetime", "%zu elements were never destroyed", Tracked::live().size());
	VF_CHECK(c, tpie::get_memory_manager().used() == used, "memory", "memory account off by %lld", (long long)(tpie::get_memory_manager().used() - used));
	count_max("max_elements_made", Tracked::made());
}
