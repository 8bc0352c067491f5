// C15: tiny::set, multiset, map and multimap against the standard containers.
#include "common.h"
#include <tpie/tpie.h>
#include <vector>
#include <stdexcept>
#include <tpie/tiny.h>
#include <set>
#include <map>
using namespace vf;

// Order on keys drawn per case; the same functor serves both containers.
struct Cmp {
	int how; uint64_t mod;
	Cmp(int h = 0, uint64_t m = 1) : how(h), mod(m) {}
	uint64_t k(uint64_t x) const { return how >= 2 ? x % mod : x; }
	bool operator()(uint64_t a, uint64_t b) const { return how & 1 ? k(b) < k(a) : k(a) < k(b); }
	bool operator()(const std::string & a, const std::string & b) const { if (how >= 2) { auto x = a.substr(0, mod % 3), y = b.substr(0, mod % 3); return how & 1 ? y < x : x < y; } return how & 1 ? b < a : a < b; }
};
static void draw(Rng & r, uint64_t range, uint64_t & k) { k = r.below(range); }
static void draw(Rng & r, uint64_t range, uint8_t & k) { k = (uint8_t)r.below(std::min<uint64_t>(range, 256)); }
static void draw(Rng & r, uint64_t range, std::string & k) { k.clear(); for (uint64_t n = r.below(4); n; --n) k += (char)('a' + r.below(std::min<uint64_t>(range, 20))); }
static std::string str(uint64_t v) { return std::to_string(v); }
static std::string str(const std::string & v) { return "\"" + v + "\""; }
template <typename A, typename B> std::string str(const std::pair<A, B> & p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
template <typename A, typename B, typename C, typename D> bool same(const std::pair<A, B> & a, const std::pair<C, D> & b) { return a.first == b.first && a.second == b.second; }
template <typename A> bool same(const A & a, const A & b) { return a == b; }
template <typename K, typename V> const K & key(const std::pair<const K, V> & p) { return p.first; }
template <typename K> const K & key(const K & k) { return k; }

template <typename S, typename M, typename K, bool map, bool multi> struct TinyBase {
	Ctx & c; Rng & r; Cmp cmp; uint64_t range; uint64_t ids = 0;
	struct P { S s; M m; P(Cmp c) : s(c), m(c) {} };
	std::vector<std::unique_ptr<P>> p;
	TinyBase(Ctx & c) : c(c), r(c.rng), cmp(r.chance(40) ? 0 : r.below(4), 1 + r.below(6)), range(r.pick({3, 10, 60, 300})) { for (int i = 0; i < 2; ++i) p.emplace_back(new P(cmp)); }
	typedef typename S::value_type TV;
	typedef typename M::value_type MV;
	K k() { K x; draw(r, range, x); return x; }

	template <typename Si, typename Mi> void pos(P & x, const Si & a, const Mi & b, const char * what, const K & q) {
		ptrdiff_t pa = a - x.s.begin(), pb = std::distance(x.m.begin(), b);
		VF_CHECK(c, pa == pb, what, "%s(%s) is at %td, expected %td of %zu", what, str(q).c_str(), pa, pb, x.m.size());
	}
	void full(P & x) {
		const S & cs = x.s;
		VF_CHECK(c, cs.size() == x.m.size() && cs.empty() == x.m.empty(), "size", "size()=%zu, expected %zu", cs.size(), x.m.size());
		auto it = cs.begin(); size_t i = 0;
		for (auto & v : x.m) { VF_CHECK(c, it != cs.end() && same(*it, v), "content", "element %zu of %zu is %s, expected %s", i, x.m.size(), it == cs.end() ? "missing" : str(*it).c_str(), str(v).c_str()); ++it; ++i; }
		VF_CHECK(c, it == cs.end() && cs.cend() - cs.cbegin() == (ptrdiff_t)i && x.s.end() - x.s.begin() == (ptrdiff_t)i, "content", "more elements than expected");
		if (r.chance(20)) { auto rt = cs.rbegin(); for (auto mt = x.m.rbegin(); mt != x.m.rend(); ++mt, ++rt) VF_CHECK(c, rt != cs.rend() && same(*rt, *mt), "content", "reverse iteration differs"); VF_CHECK(c, rt == cs.rend() && x.s.rend() - x.s.rbegin() == (ptrdiff_t)i, "content", "reverse iteration does not end"); }
		count("elements_compared", i);
	}
	void query(P & x, const K & q) {
		const S & cs = x.s; S & s = x.s;
		pos(x, s.lower_bound(q), x.m.lower_bound(q), "lower_bound", q);
		pos(x, s.upper_bound(q), x.m.upper_bound(q), "upper_bound", q);
		VF_CHECK(c, cs.count(q) == x.m.count(q), "count", "count(%s)=%zu, expected %zu", str(q).c_str(), cs.count(q), x.m.count(q));
		VF_CHECK(c, (cs.find(q) == cs.end()) == (x.m.find(q) == x.m.end()) && (s.find(q) == s.end()) == (x.m.find(q) == x.m.end()), "find", "find(%s) disagrees on presence", str(q).c_str());
		if (x.m.count(q)) { // any equivalent element may be found; the standard and this library give the first
			auto f = s.find(q); auto e = x.m.equal_range(q); bool in = false; for (auto t = e.first; t != e.second; ++t) in = in || same(*f, *t);
			VF_CHECK(c, in, "find", "find(%s) gave %s", str(q).c_str(), str(*f).c_str());
		}
		auto e = s.equal_range(q); auto me = x.m.equal_range(q); pos(x, e.first, me.first, "equal_range.first", q); pos(x, e.second, me.second, "equal_range.second", q);
		auto ce = cs.equal_range(q); VF_CHECK(c, ce.second - ce.first == (ptrdiff_t)x.m.count(q) && cs.lower_bound(q) == ce.first && cs.upper_bound(q) == ce.second, "equal_range", "const equal_range(%s) spans %td", str(q).c_str(), ce.second - ce.first);
		count("queries");
	}
	template <typename R> void inserted(P & x, const R & a, typename M::iterator b, bool fresh, std::false_type) { VF_CHECK(c, a.second == fresh && same(*a.first, *b) && a.first - x.s.begin() == std::distance(x.m.begin(), b), "insert_result", "insert reports %d at %td, expected %d", (int)a.second, (ptrdiff_t)(a.first - x.s.begin()), (int)fresh); }
	template <typename R> void inserted(P & x, const R & a, typename M::iterator b, bool, std::true_type) { VF_CHECK(c, same(*a, *b) && a - x.s.begin() == std::distance(x.m.begin(), b), "insert_result", "insert reports position %td, expected %td", (ptrdiff_t)(a - x.s.begin()), (ptrdiff_t)std::distance(x.m.begin(), b)); }
	std::pair<typename M::iterator, bool> minsert(M & m, const MV & v, std::false_type) { return m.insert(v); }
	std::pair<typename M::iterator, bool> minsert(M & m, const MV & v, std::true_type) { return std::make_pair(m.insert(v), true); }
	virtual TV tv(const K & k) = 0; virtual MV mv(const TV & t) = 0;
	virtual void extra(P &) {}
	virtual ~TinyBase() {}
	std::vector<TV> few() { std::vector<TV> v; for (uint64_t n = r.size(30); n; --n) v.push_back(tv(k())); return v; }
	void common(int which, P & x, P & y) {
		std::integral_constant<bool, multi> mt;
		switch (which) {
		case 0: case 1: case 2: {
			uint64_t n = 1 + r.size(12); c.op("insert %llu", (unsigned long long)n);
			for (; n; --n) {
				TV t = tv(k()); auto b = minsert(x.m, mv(t), mt);
				switch (r.below(4)) { case 0: inserted(x, x.s.insert(t), b.first, b.second, mt); break; case 1: { TV u(t); inserted(x, x.s.insert(std::move(u)), b.first, b.second, mt); break; } case 2: inserted(x, x.s.emplace(t), b.first, b.second, mt); break; default: inserted(x, x.s.emplace_hint(x.s.cbegin(), t), b.first, b.second, mt); }
				count("inserts");
			}
			break;
		}
		case 3: { auto v = few(); c.op("insert range %zu", v.size()); x.s.insert(v.begin(), v.end()); for (auto & t : v) minsert(x.m, mv(t), mt); break; }
		case 4: case 5: { K q = k(); if (x.m.size() && r.chance(60)) { auto it = x.m.begin(); std::advance(it, r.below(x.m.size())); q = key(*it); } c.op("erase key"); size_t a = x.s.erase(q), b = x.m.erase(q); VF_CHECK(c, a == b, "erase", "erase(%s) removed %zu, expected %zu", str(q).c_str(), a, b); count("erased", a); break; }
		case 6: if (x.m.size()) { size_t i = r.below(x.m.size()); c.op("erase at %zu", i); auto m = x.m.begin(); std::advance(m, i); auto a = x.s.erase(x.s.begin() + i); auto b = x.m.erase(m); VF_CHECK(c, a - x.s.begin() == std::distance(x.m.begin(), b), "erase_result", "erase returns position %td", a - x.s.begin()); count("erased"); } break;
		case 7: { size_t n = x.m.size(), i = r.below(n + 1), j = i + r.below(n - i + 1); c.op("erase [%zu,%zu) of %zu", i, j, n); auto m = x.m.begin(), e = m; std::advance(m, i); std::advance(e, j); auto a = x.s.erase(x.s.begin() + i, x.s.begin() + j); auto b = x.m.erase(m, e); VF_CHECK(c, a - x.s.begin() == std::distance(x.m.begin(), b), "erase_result", "erase of a range returns position %td, expected %td", a - x.s.begin(), std::distance(x.m.begin(), b)); count("range_erases"); break; }
		case 8: if (r.chance(20)) { c.op("clear"); x.s.clear(); x.m.clear(); } break;
		case 9: c.op("swap"); if (r.chance(50)) x.s.swap(y.s); else swap(x.s, y.s); x.m.swap(y.m); break;
		case 10: { c.op("compare"); VF_CHECK(c, (x.s == y.s) == (std::vector<TV>(x.m.begin(), x.m.end()) == std::vector<TV>(y.m.begin(), y.m.end())) && (x.s != y.s) == !(x.s == y.s), "compare", "== gives %d", (int)(x.s == y.s));
			std::vector<TV> a(x.m.begin(), x.m.end()), b(y.m.begin(), y.m.end());
			VF_CHECK(c, (x.s < y.s) == (a < b) && (x.s > y.s) == (a > b) && (x.s <= y.s) == (a <= b) && (x.s >= y.s) == (a >= b), "compare", "< > <= >= give %d%d%d%d, expected %d%d%d%d", x.s < y.s, x.s > y.s, x.s <= y.s, x.s >= y.s, a < b, a > b, a <= b, a >= b); count("comparisons"); break; }
		case 11: { c.op("copy"); S t(x.s); VF_CHECK(c, t == x.s, "copy", "copy differs"); if (t.size()) { t.erase(t.begin()); VF_CHECK(c, t.size() + 1 == x.s.size(), "copy", "copy shares its elements"); } S u(std::move(t)); VF_CHECK(c, u.size() + (x.m.size() ? 1 : 0) == x.m.size(), "copy", "moved copy lost elements");
			// copies and moves, with an allocator or without, order their elements as the original does
			S a(x.s, x.s.get_allocator()), b(S(x.s), x.s.get_allocator()), d(x.s), t3(x.s), e(std::move(t3));
			for (S * q : {&a, &b, &d, &e}) {
				VF_CHECK(c, *q == x.s, "copy", "a copy differs");
				for (auto & v : x.m) { auto f = q->find(key(v)); VF_CHECK(c, f != q->end(), "copy_order", "a copy does not find %s", str(key(v)).c_str()); }
				auto m = x.m; TV t2 = tv(k()); auto y = minsert(m, mv(t2), mt); size_t at = std::distance(m.begin(), y.first);
				q->insert(t2);
				VF_CHECK(c, q->size() == m.size() && (!y.second || same(*(q->begin() + at), *y.first)), "copy_order", "an element inserted into a copy is not where it belongs");
				count("copies_used");
			}
			break; }
		case 12: { auto v = few(); c.op("construct from range"); std::unique_ptr<P> q(new P(cmp)); S t(v.begin(), v.end(), cmp); q->s.swap(t); for (auto & e : v) minsert(q->m, mv(e), mt); full(*q); break; }
		case 13: { c.op("reserve"); size_t n = r.below(100); x.s.reserve(n); VF_CHECK(c, x.s.capacity() >= n, "capacity", "capacity"); if (r.chance(50)) x.s.shrink_to_fit(); break; }
		case 14: extra(x); break;
		default: for (int i = 0; i < 4; ++i) { K q = k(); if (x.m.size() && r.chance(50)) { auto it = x.m.begin(); std::advance(it, r.below(x.m.size())); q = key(*it); } query(x, q); }
		}
	}
	void run(const char * name) {
		int ops = r.pick({10, 40, 150});
		c.describe("%s order=%d/%llu range=%llu ops=%d", name, cmp.how, (unsigned long long)cmp.mod, (unsigned long long)range, ops);
		for (int i = 0; i < ops; ++i) { size_t xi = r.below(2); common(r.below(18), *p[xi], *p[1 - xi]); full(*p[xi]); }
		full(*p[0]); full(*p[1]);
		c.nontrivial = ops > 10;
		count(std::string("kind_") + name);
	}
};
template <typename K> struct SetCase : TinyBase<tpie::tiny::set<K, Cmp>, std::set<K, Cmp>, K, false, false> { typedef TinyBase<tpie::tiny::set<K, Cmp>, std::set<K, Cmp>, K, false, false> B; SetCase(Ctx & c) : B(c) {} K tv(const K & k) override { return k; } K mv(const K & k) override { return k; }
	void extra(typename B::P & x) override { this->c.op("assign"); typename B::P t(this->cmp); t.s = x.s; t.m = x.m; this->full(t); if (this->r.chance(50)) { x.s = std::move(t.s); } } };
template <typename K> struct MultisetCase : TinyBase<tpie::tiny::multiset<K, Cmp>, std::multiset<K, Cmp>, K, false, true> { typedef TinyBase<tpie::tiny::multiset<K, Cmp>, std::multiset<K, Cmp>, K, false, true> B; MultisetCase(Ctx & c) : B(c) {} K tv(const K & k) override { return k; } K mv(const K & k) override { return k; }
	void extra(typename B::P & x) override { this->c.op("assign"); typename B::P t(this->cmp); t.s = x.s; t.m = x.m; this->full(t); if (this->r.chance(50)) { x.s = std::move(t.s); } } };
template <typename K, typename V> struct MapCase : TinyBase<tpie::tiny::map<K, V, Cmp>, std::map<K, V, Cmp>, K, true, false> {
	typedef TinyBase<tpie::tiny::map<K, V, Cmp>, std::map<K, V, Cmp>, K, true, false> B; MapCase(Ctx & c) : B(c) {}
	std::pair<K, V> tv(const K & k) override { V v; draw(this->r, 200, v); return std::make_pair(k, v); }
	std::pair<const K, V> mv(const std::pair<K, V> & t) override { return t; }
	void extra(typename B::P & x) override {
		K k = this->k(); V v; draw(this->r, 200, v);
		this->c.op("map access");
		bool has = x.m.count(k) > 0; bool threw = false;
		try { V & g = x.s.at(k); VF_CHECK(this->c, has && g == x.m.at(k), "at", "at(%s) gave a value it should not", str(k).c_str()); } catch (std::out_of_range &) { threw = true; }
		VF_CHECK(this->c, threw == !has, "at", "at(%s) threw %d with the key present %d", str(k).c_str(), (int)threw, (int)has);
		try { const auto & cs = x.s; threw = false; cs.at(k); } catch (std::out_of_range &) { threw = true; }
		VF_CHECK(this->c, threw == !has, "at", "const at(%s)", str(k).c_str());
		switch (this->r.below(3)) { case 0: { const V & g = x.s[k]; VF_CHECK(this->c, g == x.m[k], "subscript", "[%s] differs", str(k).c_str()); break; } case 1: x.s[k] = v; x.m[k] = v; break; default: { K t(k); x.s[std::move(t)] = v; x.m[k] = v; } }
		count("map_accesses");
	}
};
template <typename K, typename V> struct MultimapCase : TinyBase<tpie::tiny::multimap<K, V, Cmp>, std::multimap<K, V, Cmp>, K, true, true> {
	typedef TinyBase<tpie::tiny::multimap<K, V, Cmp>, std::multimap<K, V, Cmp>, K, true, true> B; MultimapCase(Ctx & c) : B(c) {}
	std::pair<K, V> tv(const K & k) override { V v; draw(this->r, 200, v); return std::make_pair(k, v); }
	std::pair<const K, V> mv(const std::pair<K, V> & t) override { return t; }
};
static void sorts(Ctx & c) {
	Rng & r = c.rng; Cmp cmp(r.below(4), 1 + r.below(6));
	size_t n = r.size(120); uint64_t range = r.pick({2, 20, 100000});
	c.describe("sort n=%zu order=%d range=%llu", n, cmp.how, (unsigned long long)range);
	std::vector<std::pair<uint64_t, size_t>> v; for (size_t i = 0; i < n; ++i) v.push_back({r.below(range), i});
	auto w = v, u = v; auto lt = [&](const std::pair<uint64_t, size_t> & a, const std::pair<uint64_t, size_t> & b) { return cmp(a.first, b.first); };
	tpie::tiny::sort(v.begin(), v.end(), lt); std::stable_sort(w.begin(), w.end(), lt);
	for (size_t i = 0; i < n; ++i) VF_CHECK(c, !i || !lt(v[i], v[i - 1]), "sort", "not sorted at %zu", i);
	auto a = v, b = w; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); VF_CHECK(c, a == b, "sort", "not a permutation");
	tpie::tiny::sort(u.begin(), u.end()); VF_CHECK(c, u == b, "sort", "default order differs");
	count("kind_sort"); c.nontrivial = n > 3;
}

void vf_case(Ctx & c) {
	switch (c.rng.below(11)) {
	case 0: { SetCase<uint64_t> f(c); f.run("set"); break; }
	case 1: { SetCase<std::string> f(c); f.run("set"); break; }
	case 2: { MultisetCase<uint64_t> f(c); f.run("multiset"); break; }
	case 3: { MultisetCase<std::string> f(c); f.run("multiset"); break; }
	case 4: { MapCase<uint64_t, uint64_t> f(c); f.run("map"); break; }
	case 5: { MapCase<uint64_t, uint8_t> f(c); f.run("map"); break; }
	case 6: { MapCase<std::string, uint64_t> f(c); f.run("map"); break; }
	case 7: { MultimapCase<uint64_t, uint64_t> f(c); f.run("multimap"); break; }
	case 8: { MultimapCase<uint64_t, uint8_t> f(c); f.run("multimap"); break; }
	case 9: { MultimapCase<std::string, uint64_t> f(c); f.run("multimap"); break; }
	default: sorts(c);
	}
}
