// C17: block collections and the block cache against a map from handle to bytes.
#include "common.h"
#include <tpie/tpie.h>
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#include <sys/stat.h>
using namespace vf;
using namespace tpie::blocks;

struct Live { block_handle h; std::string bytes; bool written; };
struct Model {
	Ctx & c; size_t bs;
	std::map<uint64_t, Live> live; std::set<uint64_t> freed; uint64_t end = 0;
	void alloc(const block_handle & h) {
		VF_CHECK(c, h.size == bs, "handle_size", "allocated %zu bytes for blocks of %zu", (size_t)h.size, bs);
		auto n = live.lower_bound(h.position);
		VF_CHECK(c, n == live.end() || n->first >= h.position + bs, "overlap", "new block at %llu overlaps the live one at %llu", (unsigned long long)h.position, (unsigned long long)n->first);
		if (n != live.begin()) { --n; VF_CHECK(c, n->first + bs <= h.position, "overlap", "new block at %llu overlaps the live one at %llu", (unsigned long long)h.position, (unsigned long long)n->first); }
		if (!freed.empty()) { VF_CHECK(c, freed.count(h.position), "no_reuse", "%zu freed blocks exist but the file grows at %llu", freed.size(), (unsigned long long)h.position); freed.erase(h.position); count("reused"); }
		end = std::max<uint64_t>(end, h.position + bs);
		live[h.position] = Live{h, std::string(), false};
		count("allocated");
	}
	Live * pick() { if (live.empty()) return nullptr; auto i = live.begin(); std::advance(i, c.rng.chance(10) ? live.size() - 1 : c.rng.below(live.size())); return &i->second; }
	std::string bytes(size_t n) { std::string s(n, 0); uint64_t x = c.rng.next(); for (auto & ch : s) { ch = (char)(x >> 56); x = x * 6364136223846793005ull + 1442695040888963407ull; } return s; }
	void same(const Live & l, const char * got, size_t n, const char * where) {
		VF_CHECK(c, n >= l.bytes.size() && memcmp(got, l.bytes.data(), l.bytes.size()) == 0, "bytes", "block at %llu %s: the %zu bytes differ from those written", (unsigned long long)l.h.position, where, l.bytes.size());
		count("blocks_compared");
	}
};

static void raw(Ctx & c, Model & m, const std::string & path, bool writeable, int ops, bool shortWrites) {
	block_collection b(path, m.bs, writeable);
	std::vector<Live *> v;
	for (int i = 0; i < ops; ++i) {
		int k = c.rng.below(100);
		Live * l = m.pick();
		if (!writeable) k = 99;
		if (k < 30 || !l) {
			if (!writeable) break;
			m.alloc(b.get_free_block());
			c.op("alloc");
		} else if (k < 45) {
			c.op("free %llu", (unsigned long long)l->h.position);
			block_handle h = l->h;
			b.free_block(h);
			m.freed.insert(h.position); m.live.erase(h.position);
			count("freed");
		} else if (k < 75) {
			size_t n = shortWrites && c.rng.chance(30) ? 1 + c.rng.below(m.bs) : m.bs;
			std::string s = m.bytes(n);
			block blk(n);
			std::copy(s.begin(), s.end(), blk.begin());
			c.op("write %llu %zu", (unsigned long long)l->h.position, n);
			b.write_block(l->h, blk);
			if (l->bytes.size() > n) s += l->bytes.substr(n); // the rest stays
			l->bytes = s; l->written = true;
			count("written"); if (n < m.bs) count("short_writes");
		} else if (l->written) {
			block blk;
			c.op("read %llu", (unsigned long long)l->h.position);
			b.read_block(l->h, blk);
			VF_CHECK(c, blk.size() == m.bs, "read_size", "read %zu of %zu bytes", blk.size(), m.bs);
			m.same(*l, blk.get(), blk.size(), "read");
		}
	}
}

static void cached(Ctx & c, Model & m, const std::string & path, bool writeable, int ops) {
	size_t cap = c.rng.pick({1, 2, 3, 8, 32, 1000});
	c.op("cache of %zu", cap);
	block_collection_cache b(path, m.bs, cap, writeable);
	for (int i = 0; i < ops; ++i) {
		int k = c.rng.below(100);
		Live * l = m.pick();
		if (!writeable) k = 99;
		if (k < 25 || !l) {
			if (!writeable) break;
			block_handle h = b.get_free_block();
			m.alloc(h);
			c.op("alloc %llu", (unsigned long long)h.position);
			if (c.rng.chance(60)) {
				Live & n = m.live[h.position];
				block * p = b.read_block(h);
				VF_CHECK(c, p->size() == m.bs, "read_size", "new block has %zu of %zu bytes", p->size(), m.bs);
				n.bytes = m.bytes(m.bs); n.written = true;
				std::copy(n.bytes.begin(), n.bytes.end(), p->begin());
				b.write_block(h);
			}
		} else if (k < 38) {
			c.op("free %llu", (unsigned long long)l->h.position);
			block_handle h = l->h;
			b.free_block(h);
			m.freed.insert(h.position); m.live.erase(h.position);
			count("cache_freed");
		} else if (k < 65) {
			c.op("change %llu", (unsigned long long)l->h.position);
			block * p = b.read_block(l->h);
			if (l->written) m.same(*l, p->get(), p->size(), "before a change");
			if (!l->written || c.rng.chance(40)) l->bytes = m.bytes(m.bs);
			else l->bytes[c.rng.below(m.bs)] ^= 0x5a;
			l->written = true;
			std::copy(l->bytes.begin(), l->bytes.end(), p->begin());
			b.write_block(l->h);
			count("cache_written");
		} else if (k < 75 && m.live.size() > 1 && cap > 1) { // two blocks in use at once
			Live * o = m.pick();
			c.op("copy %llu to %llu", (unsigned long long)o->h.position, (unsigned long long)l->h.position);
			if (o->written && o != l) {
				block * p = b.read_block(o->h), * q = b.read_block(l->h);
				m.same(*o, p->get(), p->size(), "while another is read");
				std::copy(p->begin(), p->end(), q->begin());
				b.write_block(l->h);
				if (c.rng.chance(50)) b.write_block(o->h);
				l->bytes = o->bytes; l->written = true;
				count("pairs_in_use");
			}
		} else {
			c.op("read %llu", (unsigned long long)l->h.position);
			block * p = b.read_block(l->h);
			VF_CHECK(c, p->size() == m.bs, "read_size", "read %zu of %zu bytes", p->size(), m.bs);
			if (l->written) m.same(*l, p->get(), p->size(), "through the cache");
			count("cache_read");
		}
	}
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	Model m{c, (size_t)r.pick({1, 16, 100, 512, 4096})};
	std::string path = scratch("blocks");
	unlink(path.c_str()); unlink((path + ".queue").c_str());
	int sessions = 1 + r.below(5);
	int kind = r.below(3); // raw, cached, mixed
	bool shortWrites = kind == 0 && r.chance(40);
	c.describe("bs=%zu sessions=%d kind=%d short=%d", m.bs, sessions, kind, shortWrites);
	for (int s = 0; s < sessions; ++s) {
		bool ro = s > 0 && r.chance(20);
		bool cache = kind == 1 || (kind == 2 && r.chance(50));
		c.op("%s%s session", cache ? "cache" : "raw", ro ? " read-only" : "");
		if (cache && kind == 2) // the cache reads whole blocks; give every live block contents first
			for (auto & l : m.live) if (!l.second.written) { block_collection b(path, m.bs, true); l.second.bytes = m.bytes(m.bs); block k(m.bs); std::copy(l.second.bytes.begin(), l.second.bytes.end(), k.begin()); b.write_block(l.second.h, k); l.second.written = true; }
		std::string before = ro ? slurp(path) : std::string();
		int ops = r.pick({3, 30, 150});
		if (cache) cached(c, m, path, !ro, ops); else raw(c, m, path, !ro, ops, shortWrites);
		if (ro) { VF_CHECK(c, slurp(path) == before, "read_only", "a read-only session changed the file"); count("read_only_sessions"); }
		// at rest, the file holds what was written
		std::string f = slurp(path);
		for (auto & l : m.live) if (l.second.written) {
			VF_CHECK(c, f.size() >= l.first + l.second.bytes.size(), "file_size", "the file has %zu bytes, block at %llu not held", f.size(), (unsigned long long)l.first);
			m.same(l.second, f.data() + l.first, m.bs, "in the file");
		}
		VF_CHECK(c, f.size() <= m.end, "file_size", "the file has %zu bytes but only %llu were ever allocated", f.size(), (unsigned long long)m.end);
		count("sessions");
	}
	{ // everything can be read back raw
		block_collection b(path, m.bs, false);
		for (auto & l : m.live) if (l.second.written) { block k; b.read_block(l.second.h, k); m.same(l.second, k.get(), k.size(), "in the end"); }
	}
	count_max("max_live", m.live.size());
	c.nontrivial = m.live.size() > 1;
}
