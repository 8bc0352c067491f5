// C14: disjoint sets against a naive partition.
#include "common.h"
#include "fail_new.h"
#include <tpie/tpie.h>
#include <tpie/disjoint_sets.h>
using namespace vf;

template <typename V> struct DisjointCase {
	Ctx & c; Rng & r;
	DisjointCase(Ctx & c) : c(c), r(c.rng) {}
	void run(uint64_t maxN) {
		uint64_t n = r.chance(10) ? r.below(3) : 1 + r.size(maxN);
		bool own = r.chance(30);
		tpie::memory_bucket bucket;
		V unused = own ? (V)(n + r.below(3)) : tpie::default_unused<V>::v(); // an index outside the elements
		bool bk = r.chance(30);
		tpie::disjoint_sets<V> d(n, unused, bk ? tpie::memory_bucket_ref(&bucket) : tpie::memory_bucket_ref());
		std::vector<int64_t> cls(n, -1); // class of each element, named by an element
		std::vector<V> rep(n); // last representative handed out for the class name (valid while untouched)
		uint64_t sets = 0; std::vector<std::vector<uint64_t>> members(n);
		int ops = r.pick({10, 60, 400});
		int shape = r.below(5);
		c.describe("disjoint sets n=%llu value=%zu shape=%d ops=%d", (unsigned long long)n, sizeof(V), shape, ops);
		auto mk = [&](uint64_t e) { d.make_set((V)e); cls[e] = e; members[e] = {e}; ++sets; };
		auto find = [&](uint64_t e) {
			V x = d.find_set((V)e);
			VF_CHECK(c, (uint64_t)x < n && cls[(uint64_t)x] == cls[e], "representative", "representative of %llu is %lld, which is not in its set", (unsigned long long)e, (long long)x);
			VF_CHECK(c, d.find_set((V)e) == x, "representative", "representative of %llu changes without a union", (unsigned long long)e);
			count("finds");
			return (uint64_t)x;
		};
		auto merge = [&](uint64_t a, uint64_t b) { int64_t ca = cls[a], cb = cls[b]; if (ca == cb) return; if (members[ca].size() < members[cb].size()) std::swap(ca, cb); for (uint64_t e : members[cb]) { cls[e] = ca; members[ca].push_back(e); } members[cb].clear(); --sets; };
		auto full = [&] {
			std::vector<int64_t> seen(n, -1); // class -> representative
			std::vector<uint64_t> order(n); for (uint64_t i = 0; i < n; ++i) order[i] = i;
			if (r.chance(50)) r.shuffle(order.begin(), order.end());
			for (uint64_t e : order) {
				VF_CHECK(c, d.is_set((V)e) == (cls[e] >= 0), "membership", "is_set(%llu)=%d, expected %d", (unsigned long long)e, (int)d.is_set((V)e), (int)(cls[e] >= 0));
				if (cls[e] < 0) continue;
				uint64_t x = find(e);
				if (seen[cls[e]] < 0) seen[cls[e]] = x;
				VF_CHECK(c, seen[cls[e]] == (int64_t)x, "partition", "elements of one set have representatives %lld and %llu", (long long)seen[cls[e]], (unsigned long long)x);
			}
			VF_CHECK(c, d.count_sets() == sets, "count", "count_sets()=%llu, expected %llu", (unsigned long long)d.count_sets(), (unsigned long long)sets);
			count("partitions_compared");
		};
		auto live = [&]() -> int64_t { for (int t = 0; t < 8 && n; ++t) { uint64_t e = r.below(n); if (cls[e] >= 0) return e; } return -1; };
		uint64_t chain = 0;
		for (int i = 0; i < ops; ++i) {
			switch (r.below(12)) {
			case 0: case 1: { uint64_t k = 1 + r.size(n + 1); c.op("make %llu", (unsigned long long)k); for (; k && n; --k) { uint64_t e = r.below(n); if (cls[e] < 0) mk(e); } break; }
			case 2: case 3: case 4: {
				uint64_t k = 1 + r.size(20); c.op("union %llu", (unsigned long long)k);
				for (; k; --k) {
					int64_t a, b;
					if (shape == 0 && n > 1) { a = chain % n; b = (chain + 1) % n; ++chain; } // adjacent
					else if (shape == 1) { a = live(); b = live(); if (a >= 0 && b >= 0) { a = std::min(a, b); b = a ^ 1; if ((uint64_t)b >= n) b = a; } }
					else { a = live(); b = live(); }
					if (a < 0 || b < 0 || cls[a] < 0 || cls[b] < 0) continue;
					bool deep = shape == 2; // hang whole trees below each other: link of roots
					V x;
					if (deep || r.chance(20)) { V ra = find(a), rb = find(b); x = d.link(ra, rb); count("links"); }
					else { x = d.union_set((V)a, (V)b); count("unions"); }
					merge(a, b);
					VF_CHECK(c, (uint64_t)x < n && cls[(uint64_t)x] == cls[a], "union_result", "union of %lld and %lld gave %lld, which is not in the set", (long long)a, (long long)b, (long long)x);
					VF_CHECK(c, d.find_set((V)a) == x && d.find_set((V)b) == x, "union_result", "union of %lld and %lld gave %lld, but the representatives are %lld and %lld", (long long)a, (long long)b, (long long)x, (long long)d.find_set((V)a), (long long)d.find_set((V)b));
				}
				break;
			}
			case 5: case 6: { c.op("find"); for (int k = 0; k < 6; ++k) { int64_t a = live(), b = live(); if (a < 0 || b < 0) continue; bool same = find(a) == find(b); VF_CHECK(c, same == (cls[a] == cls[b]), "connected", "%lld and %lld are %sconnected, expected otherwise", (long long)a, (long long)b, same ? "" : "not "); count("pairs_compared"); } break; }
			case 7: if (r.chance(20)) { c.op("clear"); d.clear(); cls.assign(n, -1); for (auto & m : members) m.clear(); sets = 0; count("clears"); } break;
			case 8: if (r.chance(20)) {
				uint64_t k = own ? n : r.size(maxN) + r.below(2); c.op("resize %llu", (unsigned long long)k);
				bool ok = true;
				{ FailNew f(r.chance(20) ? 1 : 0); try { d.resize(k); } catch (std::bad_alloc &) { ok = false; } }
				if (!ok) { count("failed_allocations"); VF_CHECK(c, d.count_sets() == 0 || d.count_sets() == sets, "count", "count_sets()=%llu after a failed resize", (unsigned long long)d.count_sets()); d.resize(k); }
				n = k; cls.assign(n, -1); members.assign(n, {}); sets = 0; count("resizes"); } break;
			default: if (i % 5 == 0) full();
			}
			VF_CHECK(c, d.count_sets() == sets, "count", "count_sets()=%llu, expected %llu", (unsigned long long)d.count_sets(), (unsigned long long)sets);
		}
		full();
		if (n > 2 && ops > 10) c.nontrivial = true;
	}
};

void vf_case(Ctx & c) {
	switch (c.rng.below(5)) {
	case 0: { DisjointCase<uint64_t> f(c); f.run(400); break; }
	case 1: { DisjointCase<int> f(c); f.run(100); break; }
	case 2: { DisjointCase<uint8_t> f(c); f.run(200); break; }
	case 3: { DisjointCase<int64_t> f(c); f.run(40); break; }
	default: { DisjointCase<uint32_t> f(c); f.run(2000); }
	}
}
