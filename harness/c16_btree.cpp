// C16: B-trees against an ordered sequence; structure and augmentation recomputed from the leaves.
#include "common.h"
#include <tpie/tpie.h>
#include <tpie/btree.h>
#include <tpie/serialization2.h>
using namespace vf;

struct V { uint32_t key; uint32_t w; uint64_t id; bool operator==(const V & o) const { return key == o.key && w == o.w && id == o.id; } };
struct SV { uint32_t key; uint32_t w; uint64_t id; std::string s; bool operator==(const SV & o) const { return key == o.key && w == o.w && id == o.id && s == o.s; } };
template <typename D> void serialize(D & d, const SV & v) { using tpie::serialize; serialize(d, v.key); serialize(d, v.w); serialize(d, v.id); serialize(d, v.s); }
template <typename D> void unserialize(D & d, SV & v) { using tpie::unserialize; unserialize(d, v.key); unserialize(d, v.w); unserialize(d, v.id); unserialize(d, v.s); }
static V mk(Ctx & c, uint32_t k, uint64_t id, V *) { return V{k, (uint32_t)c.rng.below(1000), id}; }
static SV mk(Ctx & c, uint32_t k, uint64_t id, SV *) { uint64_t n = c.rng.pick({0, 1, 7, 60, 400}); return SV{k, (uint32_t)c.rng.below(1000), id, std::string(n, (char)('a' + id % 26))}; }

struct Key { template <typename X> uint32_t operator()(const X & v) const noexcept { return v.key; } };
struct Cmp { bool desc = false; bool operator()(uint32_t a, uint32_t b) const noexcept { return desc ? b < a : a < b; } };
struct Aug { uint64_t n, sum; uint32_t max; bool operator==(const Aug & o) const { return n == o.n && sum == o.sum && max == o.max; } };
static Aug none() { return Aug{0, 0, 0}; }
static void add(Aug & a, const Aug & b) { a.n += b.n; a.sum = a.sum * 1 + b.sum; a.max = std::max(a.max, b.max); }
template <typename X> static void addv(Aug & a, const X & v) { ++a.n; a.sum += v.id * 31 + v.w; a.max = std::max(a.max, v.w); }
struct Augmenter {
	template <typename N> Aug operator()(const N & n) {
		Aug a = none();
		if (n.is_leaf()) for (size_t i = 0; i < n.count(); ++i) addv(a, n.value(i));
		else for (size_t i = 0; i < n.count(); ++i) add(a, n.get_augmentation(i));
		count("augmented");
		return a;
	}
};

// a, b: fan-out (0 = default), leaf limits of serialized trees are 1..b and their node limits 1..a
template <typename X_, bool Internal_, bool Static_, bool Ordered_, bool Ser_, int A_, int B_, size_t BS_> struct Cfg {
	typedef X_ X;
	static const bool internal = Internal_, stat = Static_, ordered = Ordered_, ser = Ser_;
	static const int a = A_, b = B_;
	typedef typename std::conditional<Internal_, tpie::btree_internal, tpie::btree_external>::type I;
	typedef typename std::conditional<Static_, tpie::btree_static, tpie::btree_dynamic>::type S;
	typedef typename std::conditional<Ordered_, tpie::btree_ordered, tpie::btree_unordered>::type O;
	typedef typename std::conditional<Ser_, tpie::btree_serialized, tpie::btree_not_serialized>::type Z;
	typedef tpie::btree<X, I, S, O, Z, tpie::btree_comp<Cmp>, tpie::btree_key<Key>, tpie::btree_augment<Augmenter>, tpie::btree_fanout<A_, B_>, tpie::btree_blocksize<BS_>> tree;
	typedef tpie::btree_builder<X, I, S, O, Z, tpie::btree_comp<Cmp>, tpie::btree_key<Key>, tpie::btree_augment<Augmenter>, tpie::btree_fanout<A_, B_>, tpie::btree_blocksize<BS_>> builder;
};

template <typename C> struct Make { // external
	static std::unique_ptr<typename C::tree> open(const std::string & p, Cmp cmp) { return std::unique_ptr<typename C::tree>(new typename C::tree(p, cmp)); }
	static std::unique_ptr<typename C::builder> build(const std::string & p, Cmp cmp, tpie::btree_flags f) { return std::unique_ptr<typename C::builder>(new typename C::builder(p, cmp, Augmenter(), f)); }
};
template <typename X, bool St, bool Or, bool Se, int A, int B, size_t BS> struct Make<Cfg<X, true, St, Or, Se, A, B, BS>> {
	typedef Cfg<X, true, St, Or, Se, A, B, BS> C;
	static std::unique_ptr<typename C::tree> open(const std::string &, Cmp cmp) { return std::unique_ptr<typename C::tree>(new typename C::tree(cmp)); }
	static std::unique_ptr<typename C::builder> build(const std::string &, Cmp cmp, tpie::btree_flags) { return std::unique_ptr<typename C::builder>(new typename C::builder(cmp)); }
};

template <typename C> struct Checker {
	typedef typename C::tree tree; typedef typename C::X X; typedef typename tree::node_type node; typedef typename tree::iterator iter;
	Ctx & c; tree & t; const std::vector<X> & m; Cmp cmp;
	size_t at = 0, leafDepth = 0;
	Aug walk(node & n, size_t depth, bool root) {
		Aug a = none();
		size_t k = n.count();
		VF_CHECK(c, k >= 1, "empty_node", "%s at depth %zu has no entries", n.is_leaf() ? "leaf" : "node", depth);
		VF_CHECK(c, n.has_parent() == !root, "has_parent", "has_parent wrong at depth %zu", depth);
		count("nodes_walked");
		size_t lo = C::ser ? 1 : C::a, hi = C::ser && !n.is_leaf() ? C::a : C::b;
		if (root && lo) lo = n.is_leaf() ? 1 : C::ser ? 1 : 2;
		if (hi) VF_CHECK(c, k >= lo && k <= hi, "fill", "%s at depth %zu has %zu entries, allowed are %zu to %zu", n.is_leaf() ? "leaf" : "node", depth, k, lo, hi);
		if (n.is_leaf()) {
			if (!leafDepth) leafDepth = depth;
			count_max("max_height", depth);
			VF_CHECK(c, depth == leafDepth, "leaf_depth", "leaves at depths %zu and %zu", leafDepth, depth);
			for (size_t i = 0; i < k; ++i, ++at) {
				VF_CHECK(c, at < m.size(), "too_many", "the tree holds more than the %zu expected elements", m.size());
				VF_CHECK(c, n.value(i) == m[at], "element", "element %zu is id %llu key %u, expected id %llu key %u", at, (unsigned long long)n.value(i).id, n.value(i).key, (unsigned long long)m[at].id, m[at].key);
				addv(a, m[at]);
				count("elements_compared");
			}
		} else for (size_t i = 0; i < k; ++i) {
			size_t first = at;
			n.child(i);
			VF_CHECK(c, n.index() == i, "index", "child %zu says it is child %zu", i, n.index());
			Aug s = walk(n, depth + 1, false);
			n.parent();
			VF_CHECK(c, n.get_augmentation(i) == s, "augmentation", "child %zu at depth %zu: augmentation (%llu, %llu, %u), recomputed (%llu, %llu, %u)", i, depth,
				(unsigned long long)n.get_augmentation(i).n, (unsigned long long)n.get_augmentation(i).sum, n.get_augmentation(i).max, (unsigned long long)s.n, (unsigned long long)s.sum, s.max);
			key(n, i, first, std::integral_constant<bool, C::ordered>());
			add(a, s);
			count("augmentations_compared");
		}
		return a;
	}
	void key(node & n, size_t i, size_t first, std::true_type) { VF_CHECK(c, n.min_key(i) == m[first].key, "min_key", "child %zu: min_key %u, smallest element has %u", i, n.min_key(i), m[first].key); }
	void key(node &, size_t, size_t, std::false_type) {}
	iter pos(size_t p) {
		if (p > m.size() / 2) { iter i = t.end(); for (size_t k = m.size(); k > p; --k) --i; return i; }
		iter i = t.begin(); for (size_t k = 0; k < p; ++k) ++i; return i;
	}
	void expect(const iter & i, size_t p, const char * what) {
		if (p == m.size()) VF_CHECK(c, i == t.end(), what, "expected the end");
		else { VF_CHECK(c, i != t.end(), what, "got the end, expected element %zu (key %u)", p, m[p].key); VF_CHECK(c, *i == m[p], what, "got key %u id %llu, expected element %zu: key %u id %llu", i->key, (unsigned long long)i->id, p, m[p].key, (unsigned long long)m[p].id); VF_CHECK(c, i == pos(p), what, "iterator differs from the one reached by stepping"); }
	}
	size_t lower(uint32_t k) { size_t p = 0; while (p < m.size() && cmp(m[p].key, k)) ++p; return p; }
	size_t upper(uint32_t k) { size_t p = 0; while (p < m.size() && !cmp(k, m[p].key)) ++p; return p; }
	void lookup(uint32_t k, std::true_type) {
		size_t l = lower(k), u = upper(k);
		expect(t.lower_bound(k), l, "lower_bound");
		expect(t.upper_bound(k), u, "upper_bound");
		expect(t.find(k), l == u ? m.size() : l, "find");
		count("lookups", 3);
		if (l != u) count("found"); else count("not_found");
	}
	void lookup(uint32_t, std::false_type) {}
	void full(uint32_t range) {
		VF_CHECK(c, t.size() == m.size() && t.empty() == m.empty(), "size", "size %zu, expected %zu", (size_t)t.size(), m.size());
		if (!m.empty()) { node r = t.root(); at = 0; leafDepth = 0; walk(r, 1, true); VF_CHECK(c, at == m.size(), "too_few", "the tree holds %zu of %zu elements", at, m.size()); }
		iter i = t.begin(), e = t.end();
		size_t p = 0;
		for (; i != e; ++i, ++p) {
			VF_CHECK(c, p < m.size() && *i == m[p], "forward", "iteration differs at %zu", p);
			if (p % 7 == 0) { node l = i.get_leaf(); VF_CHECK(c, l.value(i.index()) == m[p], "get_leaf", "leaf of the iterator at %zu does not hold the element", p); }
		}
		VF_CHECK(c, p == m.size(), "forward", "iteration ended after %zu of %zu", p, m.size());
		while (p) { --i; --p; VF_CHECK(c, *i == m[p], "backward", "backward iteration differs at %zu", p); }
		VF_CHECK(c, i == t.begin(), "backward", "backward iteration does not end at begin()");
		count("iterated", 2 * m.size());
		for (int k = 0; k < 6; ++k) lookup((uint32_t)c.rng.below(range + 2), std::integral_constant<bool, C::ordered>());
		if (!m.empty()) for (int k = 0; k < 3; ++k) lookup(c.rng.pick_from(m).key, std::integral_constant<bool, C::ordered>());
		count("trees_compared");
	}
};

template <typename C, bool dyn = !C::stat> struct Update {
	static void run(Ctx &, typename C::tree &, std::vector<typename C::X> &, Cmp, uint32_t, uint64_t &, int) {}
};
template <typename C> struct Update<C, true> {
	typedef typename C::X X; typedef typename C::tree tree;
	static void ins(Ctx &, tree & t, std::vector<X> & m, Cmp cmp, const X & v, std::true_type) {
		Ctx * c = nullptr; (void)c;
		size_t p = 0; while (p < m.size() && !cmp(v.key, m[p].key)) ++p;
		t.insert(v); m.insert(m.begin() + p, v);
	}
	static void ins(Ctx & c, tree & t, std::vector<X> & m, Cmp cmp, const X & v, std::false_type) {
		size_t p = c.rng.chance(30) ? m.size() : c.rng.chance(10) ? 0 : c.rng.below(m.size() + 1);
		Checker<C> k{c, t, m, cmp};
		t.insert_before(v, k.pos(p)); m.insert(m.begin() + p, v);
	}
	static void erase_key(Ctx & c, tree & t, std::vector<X> & m, uint32_t k, std::true_type) {
		size_t n = 0; for (size_t i = 0; i < m.size();) if (m[i].key == k) { m.erase(m.begin() + i); ++n; } else ++i;
		size_t got = t.erase(k);
		VF_CHECK(c, got == n, "erase_key", "erase(%u) removed %zu, expected %zu", k, got, n);
		count("erased_by_key", n);
	}
	static void erase_key(Ctx &, tree &, std::vector<X> &, uint32_t, std::false_type) {}
	static void run(Ctx & c, tree & t, std::vector<X> & m, Cmp cmp, uint32_t range, uint64_t & id, int ops) {
		Rng & r = c.rng;
		std::integral_constant<bool, C::ordered> ord;
		int bias = r.pick({50, 60, 70}), mode = 0; // percent of insertions in growing, erasures in shrinking phases
		int every = r.pick({1, 5, 25});
		for (int i = 0; i < ops; ++i) {
			if (r.chance(2)) mode ^= 1;
			if (m.size() > 600) mode = 1;
			int run = r.chance(5) ? 1 + r.below(40) : 1;
			if (r.chance(mode ? 100 - bias : bias)) for (int k = 0; k < run; ++k) {
				uint32_t key = r.chance(20) ? range / 2 : (uint32_t)r.below(range);
				X v = mk(c, key, id++, (X *)nullptr);
				c.op("insert %u", key);
				ins(c, t, m, cmp, v, ord);
				count("inserted");
			} else if (C::ordered && r.chance(10)) {
				uint32_t k = (uint32_t)r.below(range);
				c.op("erase key %u", k);
				erase_key(c, t, m, k, ord);
			} else for (int k = 0; k < run && !m.empty(); ++k) {
				size_t p = r.chance(15) ? 0 : r.chance(15) ? m.size() - 1 : r.below(m.size());
				c.op("erase at %zu", p);
				Checker<C> ck{c, t, m, cmp};
				auto it = ck.pos(p);
				m.erase(m.begin() + p);
				t.erase(it);
				count("erased");
				if (m.empty()) count("emptied");
			}
			VF_CHECK(c, t.size() == m.size(), "size", "size %zu, expected %zu", (size_t)t.size(), m.size());
			if (i % every == 0) Checker<C>{c, t, m, cmp}.full(range);
		}
	}
};

template <typename C> static void run(Ctx & c, const char * name) {
	typedef typename C::X X; typedef typename C::tree tree;
	Rng & r = c.rng;
	Cmp cmp; cmp.desc = r.chance(30);
	uint32_t range = r.pick({1, 3, 20, 200, 100000});
	uint64_t id = 0;
	std::vector<X> m;
	std::string path = scratch("tree"), meta;
	unlink(path.c_str()); unlink((path + ".queue").c_str());
	std::unique_ptr<tree> t;
	bool built = C::stat || r.chance(30);
	tpie::btree_flags flags = tpie::btree_flags::defaults;
	if (C::ser) { flags = r.pick({tpie::btree_flags::compress_none, tpie::btree_flags::compress_lz4, tpie::btree_flags::compress_snappy, tpie::btree_flags::compress_zstd}); if (r.chance(20)) flags |= tpie::btree_flags::compress_level_3; }
	c.describe("%s range=%u desc=%d built=%d flags=%llx", name, range, cmp.desc, built, (unsigned long long)flags);
	if (built) {
		size_t n = r.chance(15) ? r.below(3) : r.chance(50) ? r.below(60) : r.below(1200);
		for (size_t i = 0; i < n; ++i) m.push_back(mk(c, (uint32_t)r.below(range), id++, (X *)nullptr));
		if (C::ordered) std::stable_sort(m.begin(), m.end(), [&](const X & a, const X & b) { return cmp(a.key, b.key); });
		c.op("build %zu", n);
		auto b = Make<C>::build(path, cmp, flags);
		for (auto & x : m) b->push(x);
		if ((C::internal || C::ser) && r.chance(50)) { meta.assign(1 + r.below(3000), 'm'); for (auto & ch : meta) ch = (char)r.below(256); }
		t.reset(new tree(b->build(meta)));
		count("built"); count_max("max_built", n);
	} else t = Make<C>::open(path, cmp);
	Checker<C>{c, *t, m, cmp}.full(range);
	if ((C::internal || C::ser) && built) { VF_CHECK(c, t->get_metadata() == meta, "metadata", "metadata of %zu bytes not returned", meta.size()); count("metadata_compared"); }
	int sessions = 1 + r.below(3);
	for (int s = 0; s < sessions; ++s) {
		Update<C>::run(c, *t, m, cmp, range, id, r.pick({10, 60, 200}));
		Checker<C>{c, *t, m, cmp}.full(range);
		if (r.chance(30)) { // moving a tree keeps its contents
			std::unique_ptr<tree> u(new tree(std::move(*t)));
			t = std::move(u);
			Checker<C>{c, *t, m, cmp}.full(range);
			count("moved");
		}
		if (!C::internal && r.chance(70)) {
			t.reset(); // closes it
			if (C::ser && (flags & tpie::btree_flags::compression_mask) == tpie::btree_flags::compress_none && r.chance(30)) {
				// The first version of the format is the same without flags; nothing was compressed then.
				std::string f = slurp(path); uint64_t v;
				if (f.size() >= 16 && (memcpy(&v, &f[8], 8), v == 1)) { v = 0; memcpy(&f[8], &v, 8); spit(path, f); c.op("format of the first version"); count("old_format"); }
			}
			t = Make<C>::open(path, cmp);
			c.op("reopen");
			Checker<C>{c, *t, m, cmp}.full(range);
			count("reopened"); if (m.empty()) count("reopened_empty");
		}
		if ((C::internal || C::ser) && built) VF_CHECK(c, t->get_metadata() == meta, "metadata", "metadata of %zu bytes not returned later", meta.size());
	}
	c.nontrivial = m.size() > 3;
	count(std::string("kind_") + name);
	t.reset();
	unlink(path.c_str()); unlink((path + ".queue").c_str());
}

void vf_case(Ctx & c) {
	switch (c.rng.below(15)) {
	case 0: run<Cfg<V, true, false, true, false, 2, 4, 0>>(c, "internal_2_4"); break;
	case 1: run<Cfg<V, true, false, true, false, 2, 3, 0>>(c, "internal_2_3"); break;
	case 2: run<Cfg<SV, true, false, true, false, 3, 9, 0>>(c, "internal_3_9_string"); break;
	case 3: run<Cfg<V, true, false, true, false, 0, 0, 0>>(c, "internal_default"); break;
	case 4: run<Cfg<V, true, false, false, false, 2, 4, 0>>(c, "internal_unordered"); break;
	case 5: run<Cfg<V, false, false, true, false, 2, 4, 512>>(c, "external_2_4"); break;
	case 6: run<Cfg<V, false, false, true, false, 3, 6, 700>>(c, "external_3_6"); break;
	case 7: run<Cfg<V, false, false, true, false, 0, 0, 600>>(c, "external_bs600"); break;
	case 8: run<Cfg<V, false, false, false, false, 2, 5, 600>>(c, "external_unordered"); break;
	case 9: run<Cfg<V, true, true, true, false, 2, 4, 0>>(c, "internal_static"); break;
	case 10: run<Cfg<V, false, true, true, false, 3, 7, 700>>(c, "external_static"); break;
	case 11: run<Cfg<V, false, true, true, true, 3, 4, 600>>(c, "serialized"); break;
	case 12: run<Cfg<SV, false, true, true, true, 0, 0, 900>>(c, "serialized_string"); break;
	case 13: run<Cfg<SV, false, true, false, true, 4, 8, 300>>(c, "serialized_unordered"); break;
	default: run<Cfg<V, false, false, true, false, 0, 0, 0>>(c, "external_default"); break;
	}
}
