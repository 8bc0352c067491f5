// C12: the external priority queue against a multiset, at small memory limits.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/priority_queue.h>
using namespace vf;

template <size_t PAD> struct Rec { // key decides, id tells apart
	uint32_t key; uint32_t id; unsigned char pad[PAD];
	friend std::ostream & operator<<(std::ostream & o, const Rec & r) { return o << r.key; }
};
template <> struct Rec<0> { uint32_t key; uint32_t id; friend std::ostream & operator<<(std::ostream & o, const Rec & r) { return o << r.key; } };
template <size_t P> static void fill(Rec<P> & r) { for (size_t i = 0; i < P; ++i) r.pad[i] = (unsigned char)(mix(r.id) >> (i % 8)); }
template <> void fill(Rec<0> &) {}
template <size_t P> static bool intact(const Rec<P> & r) { for (size_t i = 0; i < P; ++i) if (r.pad[i] != (unsigned char)(mix(r.id) >> (i % 8))) return false; return true; }
template <> bool intact(const Rec<0> &) { return true; }

struct Less { template <typename T> bool operator()(const T & a, const T & b) const { return a.key < b.key; } static uint32_t rank(uint32_t k) { return k; } };
struct Greater { template <typename T> bool operator()(const T & a, const T & b) const { return a.key > b.key; } static uint32_t rank(uint32_t k) { return ~k; } };
struct Mod { template <typename T> bool operator()(const T & a, const T & b) const { return a.key % 7 < b.key % 7; } static uint32_t rank(uint32_t k) { return k % 7; } }; // many equivalent elements

template <typename T, typename C> static void drive(Ctx & c) {
	typedef tpie::priority_queue<T, C> PQ;
	Rng & r = c.rng;
	auto & mm = tpie::get_memory_manager();
	size_t mem0 = mm.used(), files0 = tpie::get_file_manager().used();
	uint64_t temp0 = tpie::get_temp_file_usage();
	struct Restore { ~Restore() { tpie::get_memory_manager().set_limit(512 << 20); auto & fm = tpie::get_file_manager(); fm.set_enforcement(tpie::file_manager::ENFORCE_IGNORE); fm.set_limit(900); } } restore;
	size_t files = 0;
	if (r.chance(25)) {
		auto & fm = tpie::get_file_manager(); files = r.range(2, 14);
		fm.set_limit(fm.used() + files); fm.set_enforcement(tpie::file_manager::ENFORCE_THROW);
		count("file_limits");
	}
	std::unique_ptr<PQ> q;
	bool internal = r.chance(10), factor = r.chance(15);
	size_t cap = ~(size_t)0, mem = 0;
	float bf = r.pick({PQ::default_blocksize, PQ::default_blocksize, 0.25f, 1.0f});
	std::string how;
	if (internal) { cap = r.size(2000); mem = cap * sizeof(T) + r.below(1000) + 1; }
	else mem = r.pick({24000, 30000, 40000, 60000, 100000, 200000, 500000}) + r.below(5000);
	for (int tries = 0; !q; ++tries) {
		if (tries > 40 || (files && tries > 12)) { count("never_constructed"); return; }
		try {
			if (factor && !internal) {
				mm.set_limit(mm.used() + mem);
				how = "factor";
				q.reset(new PQ(r.pick({1.0, 0.5}), bf));
				mm.set_limit(512 << 20);
			}
			else if (internal) { how = "internal"; q.reset(new PQ((tpie::memory_size_type)mem, bf, cap)); }
			else { how = "bytes"; q.reset(new PQ((tpie::memory_size_type)mem, bf)); }
		} catch (const tpie::priority_queue_error &) { count("refused_memory"); }
		catch (const tpie::exception &) { count("refused_memory"); }
		mm.set_limit(512 << 20);
		if (!q) mem = mem * 3 / 2;
	}
	size_t memq = mm.used();
	int dist = r.below(6);
	uint64_t range = r.pick({1, 3, 50, 1000, 1000000000});
	size_t budget = r.pick({500, 4000, 15000, 40000});
	c.describe("pq %s mem=%zu files=%zu block=%zu factor=%.4f item=%zu keys=%llu dist=%d budget=%zu", how.c_str(), mem, files, (size_t)tpie::get_block_size(), bf, sizeof(T), (unsigned long long)range, dist, budget);
	std::map<uint32_t, std::set<uint32_t>> held; // rank -> ids
	std::unordered_map<uint32_t, uint32_t> keys; // id -> key
	uint64_t n = 0;
	uint32_t nextId = 0, mono = 0x40000000u, lastPopped = 0;
	bool full = false;
	size_t maxn = 0;
	auto key = [&]() -> uint32_t {
		switch (dist) {
		case 0: return (uint32_t)r.below(range);
		case 1: return mono += (uint32_t)r.below(3);                     // ascending
		case 2: return mono -= (uint32_t)r.below(3);                     // descending
		case 3: return lastPopped + (uint32_t)r.below(100);              // as in a sweep
		case 4: return (uint32_t)(nextId % 2 ? r.below(10) : 0x80000000u + r.below(10)); // two clusters
		default: return (uint32_t)((nextId / 300) % 2 ? 0x40000000u + nextId : 0x40000000u - nextId); // outwards
		}
	};
	auto push = [&]() {
		T t; memset(&t, 0, sizeof t);
		t.key = key(); t.id = nextId++;
		fill(t);
		try { q->push(t); }
		catch (const tpie::exception & e) { // all groups are in use
			VF_CHECK(c, strstr(e.what(), "full"), "push_threw", "push threw %s with %llu held", e.what(), (unsigned long long)n);
			full = true; count("queue_full"); return;
		}
		held[C::rank(t.key)].insert(t.id); keys[t.id] = t.key; ++n;
		count("pushed");
	};
	auto expect = [&](const T & t, const char * what) {
		VF_CHECK(c, intact(t), "damaged", "%s gave a damaged element", what);
		auto i = keys.find(t.id);
		VF_CHECK(c, i != keys.end() && i->second == t.key, "foreign", "%s gave element %u/%u which is not in the queue", what, t.key, t.id);
		VF_CHECK(c, C::rank(t.key) == held.begin()->first, "minimum", "%s gave rank %u, but rank %u is held (%llu elements)", what, C::rank(t.key), held.begin()->first, (unsigned long long)n);
	};
	auto remove = [&](const T & t) {
		auto h = held.find(C::rank(t.key));
		h->second.erase(t.id);
		if (h->second.empty()) held.erase(h);
		keys.erase(t.id); --n; lastPopped = t.key;
	};
	auto pop = [&]() {
		T t = q->top();
		expect(t, "top");
		if (r.chance(3)) { T u = q->top(); VF_CHECK(c, u.id == t.id, "top_changes", "top gave another element the second time"); }
		q->pop();
		remove(t);
		count("popped");
	};
	auto check = [&] {
		VF_CHECK(c, q->size() == n && q->empty() == (n == 0), "size", "size()=%llu empty()=%d, model %llu", (unsigned long long)q->size(), (int)q->empty(), (unsigned long long)n);
	};
	size_t done = 0;
	while (done < budget) {
		uint64_t k = 1 + r.size(r.pick({10, 200, 3000}));
		switch (r.below(6)) {
		case 0: case 1: c.op("push %llu", (unsigned long long)k); for (uint64_t i = 0; i < k && n < cap && !full; ++i) push(); break;
		case 2: k = std::min(k, n); c.op("pop %llu of %llu", (unsigned long long)k, (unsigned long long)n); for (uint64_t i = 0; i < k; ++i) pop(); full = false; break;
		case 3: // hold: the length stays
			c.op("hold %llu at %llu", (unsigned long long)k, (unsigned long long)n);
			for (uint64_t i = 0; i < k; ++i) { if (n && (r.chance(50) || n >= cap || full)) { pop(); full = false; } else if (n < cap && !full) push(); }
			break;
		case 4: if (n) { // everything equal to the minimum
				struct F { std::vector<T> * v; void operator()(const T & t) { v->push_back(t); } };
				std::vector<T> v; F f{&v};
				size_t want = held.begin()->second.size();
				c.op("pop_equals %zu of %llu", want, (unsigned long long)n);
				q->pop_equals(f);
				VF_CHECK(c, v.size() == want, "pop_equals", "pop_equals handed out %zu elements, %zu are minimal", v.size(), want);
				uint32_t rank = held.begin()->first;
				for (auto & t : v) {
					VF_CHECK(c, n && held.begin()->first == rank, "pop_equals", "too many");
					expect(t, "pop_equals"); remove(t);
				}
				full = false;
				count("pop_equals");
			} break;
		default: if (!n) {
				bool t = false;
				try { if (r.chance(50)) q->top(); else q->pop(); } catch (const tpie::priority_queue_error &) { t = true; }
				VF_CHECK(c, t, "underflow", "no error from an empty queue");
				count("underflows");
			} else { T t = q->top(); expect(t, "top"); }
		}
		maxn = std::max<size_t>(maxn, n);
		done += k;
		check();
	}
	if (r.chance(70)) { while (n) pop(); check(); count("drained"); }
	count_max("held", maxn);
	if (tpie::get_temp_file_usage() > temp0) { count("external_cases"); c.nontrivial = true; }
	if (internal) count("internal_cases");
	(void)memq;
	q.reset();
	VF_CHECK(c, tpie::get_file_manager().used() == files0, "open_files", "files left open");
	VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 4096, 16384}));
	io().reset(r.next());
	io().shortPermille = r.pick({0, 0, 50});
	switch (r.below(6)) {
	case 0: case 1: drive<Rec<0>, Less>(c); break;
	case 2: drive<Rec<0>, Greater>(c); break;
	case 3: drive<Rec<0>, Mod>(c); break;
	case 4: drive<Rec<24>, Less>(c); break;
	default: drive<Rec<4>, Mod>(c);
	}
}
