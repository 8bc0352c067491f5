// C30: a failing disk in the middle of a computation is reported, and leaves nothing behind.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include "c23.h"
#include <tpie/compressed/buffer.h>
#include <tpie/sort.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/dummy_progress.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/priority_queue.h>
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/serialization_sorter.h>
#include <tpie/blocks/block_collection_cache.h>
#include <tpie/btree.h>
using namespace vf;

// --- faults -----------------------------------------------------------------
static bool hard; // an error is planned, not only short transfers
static bool faulty; // this is the attempt with faults
static std::string arm(Ctx & c, uint64_t far) {
	Rng & r = c.rng;
	io().reset(r.next());
	hard = !r.chance(10);
	if (!hard) { io().shortPermille = r.pick({50, 500}); io().eintrPermille = r.pick({0, 300}); return "short transfers"; }
	io().failErrno = r.pick({EIO, ENOSPC, EDQUOT});
	io().failSticky = r.chance(50);
	int64_t at = 1 + r.below(r.pick({(uint64_t)4, (uint64_t)30, far}));
	const char * what;
	switch (r.below(10)) {
	case 0: case 1: case 2: case 3: io().failWriteAt = at; what = "write"; break;
	case 4: case 5: case 6: io().failReadAt = at; what = "read"; break;
	case 7: io().failTruncAt = at = 1 + r.below(6); what = "truncate"; break;
	case 8: io().failOpenAt = at = 1 + r.below(12); what = "open"; break;
	default: io().failCloseAt = at = 1 + r.below(12); what = "close"; break;
	}
	if (r.chance(20)) io().shortPermille = 200;
	return fmt("%s %lld fails%s, errno %d", what, (long long)at, io().failSticky ? " and all after it" : "", (int)io().failErrno);
}
static void disarm() { auto & s = io(); s.failWriteAt = s.failReadAt = s.failTruncAt = s.failOpenAt = s.failCloseAt = 0; s.failSticky = 0; s.shortPermille = s.eintrPermille = 0; }

// --- what must be as it was -------------------------------------------------
static size_t pooled(bool grow = false) {
	auto & p = tpie::the_stream_buffer_pool();
	std::vector<tpie::stream_buffer_pool::buffer_t> b; size_t n = 0;
	while (p.can_take_shared_buffer()) {
		b.push_back(p.take_shared_buffer());
		if (grow) b.back()->set_capacity(tpie::get_block_size());
		n += b.back()->capacity();
	}
	for (auto & x : b) p.release_shared_buffer(x);
	return n;
}
static std::vector<std::string> files_below(const std::string & d) {
	std::vector<std::string> f;
	for (boost::filesystem::recursive_directory_iterator i(d), e; i != e; ++i) if (!boost::filesystem::is_directory(i->path())) f.push_back(i->path().filename().string());
	return f;
}
struct Start {
	size_t mem, files, fds; uint64_t temp;
	Start() { pooled(true); mem = tpie::get_memory_manager().used() - pooled(); files = tpie::get_file_manager().used(); fds = io().open_count(); temp = tpie::get_temp_file_usage(); }
	void check(Ctx & c, const char * K, const std::string & dir) {
		for (int i = 0; i < 3000 && io().open_count() != fds; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); // the last ones are closed in the background
		size_t m = tpie::get_memory_manager().used() - pooled();
		VF_CHECK(c, m == mem, fmt("%s:memory", K), "%lld bytes more than before are accounted", (long long)m - (long long)mem);
		VF_CHECK(c, tpie::get_file_manager().used() == files, fmt("%s:files", K), "%lld files more than before are accounted", (long long)tpie::get_file_manager().used() - (long long)files);
		VF_CHECK(c, io().open_count() == fds, fmt("%s:descriptors", K), "%lld descriptors more than before are open", (long long)io().open_count() - (long long)fds);
		VF_CHECK(c, tpie::get_temp_file_usage() == temp, fmt("%s:temp_usage", K), "temporary usage is off by %lld", (long long)(tpie::get_temp_file_usage() - temp));
		auto left = files_below(dir);
		VF_CHECK(c, left.empty(), fmt("%s:temp_file", K), "%zu temporary files are left", left.size());
	}
};

typedef uint64_t T;
static Seq seq(Rng & r, size_t n) { Seq s; uint64_t m = r.pick({~(uint64_t)0, (uint64_t)1000, (uint64_t)7}); for (size_t i = 0; i < n; ++i) s.push_back(r.next() % m); return s; }
#define SAME(c, K, got, want) do { std::string d_ = World::differ("result", got, want); VF_CHECK(c, d_.empty(), std::string(K) + ":result", "%s", d_.c_str()); } while (0)

static std::string own_dir() { std::string d = scratch("o"); wipe(d); boost::filesystem::create_directories(d); return d; }

// --- the computations; each judges its own results --------------------------
static void c_sort(Ctx & c, uint64_t seed) {
	Rng r(seed);
	size_t n = r.below(60000); Seq in = seq(r, n);
	tpie::file_stream<T> a, b; bool inplace = r.chance(50);
	a.open(r.chance(30) ? tpie::open::compression_normal : tpie::open::defaults); if (!inplace) b.open();
	for (T v : in) a.write(v);
	a.seek(0);
	struct Limit { Limit(size_t m) { auto & mm = tpie::get_memory_manager(); mm.set_limit(mm.used() + m); } ~Limit() { tpie::get_memory_manager().set_limit(512 << 20); } } limit(200000 + r.below(100000));
	tpie::progress_indicator_null pi(n); if (inplace) tpie::sort(a, pi); else tpie::sort(a, b, &pi);
	auto & o = inplace ? a : b;
	o.seek(0); Seq got; while (o.can_read()) got.push_back(o.read());
	std::sort(in.begin(), in.end());
	SAME(c, "sort", got, in);
}
static void c_merge_sorter(Ctx & c, uint64_t seed) {
	Rng r(seed);
	size_t n = r.below(6000); Seq in = seq(r, n);
	tpie::merge_sorter<T, true> s; s.set_parameters(r.range(std::max<int64_t>(n / 300, 1), n + 1), r.range(2, 9));
	tpie::progress_indicator_null pi(n);
	s.begin(); for (T v : in) s.push(v); s.end();
	if (r.chance(30)) s.evacuate_before_merging();
	s.calc(pi);
	if (r.chance(30)) s.evacuate_before_reporting();
	Seq got; while (s.can_pull()) got.push_back(s.pull());
	std::sort(in.begin(), in.end());
	SAME(c, "merge_sorter", got, in);
}
static void c_serialization_sorter(Ctx & c, uint64_t seed) {
	Rng r(seed);
	size_t n = r.below(2000); std::vector<std::string> in; for (size_t i = 0; i < n; ++i) { std::string s(r.below(r.pick({5, 60, 3000})), 0); for (auto & x : s) x = (char)('a' + r.below(26)); in.push_back(s); }
	tpie::serialization_sorter<std::string> s;
	size_t W = tpie::serialization_writer::memory_usage(), R = tpie::serialization_reader::memory_usage();
	s.set_available_memory(W + 20000 + r.below(200000), W + 3 * R + 20000, 3 * R + 20000);
	tpie::dummy_progress_indicator pi;
	s.begin(); for (auto & v : in) s.push(v); s.end();
	if (r.chance(30)) s.evacuate();
	s.merge_runs();
	if (r.chance(30)) s.evacuate();
	std::sort(in.begin(), in.end());
	size_t i = 0;
	for (; s.can_pull(); ++i) { std::string x = s.pull(); VF_CHECK(c, i < n && x == in[i], "serialization_sorter:result", "item %zu of %zu is wrong", i, n); }
	VF_CHECK(c, i == n, "serialization_sorter:result", "ends after %zu of %zu items", i, n);
}
static void c_pq(Ctx & c, uint64_t seed) {
	Rng r(seed);
	std::unique_ptr<tpie::priority_queue<T>> q; size_t mem = 40000 + r.below(60000);
	while (!q) { try { q.reset(new tpie::priority_queue<T>((tpie::memory_size_type)mem, 0.25)); } catch (const tpie::exception & e) { if (std::string(e.what()).find("ot enough memory") == std::string::npos) throw; mem = mem * 3 / 2; } }
	std::multiset<T> m; size_t ops = r.below(20000); int bias = r.pick({55, 70, 90});
	for (size_t i = 0; i < ops; ++i) {
		if (m.empty() || r.chance(i < ops * 2 / 3 ? bias : 20)) { T v = r.next() >> r.pick({1, 50}); q->push(v); m.insert(v); }
		else { VF_CHECK(c, q->top() == *m.begin(), "pq:result", "top gives %llu instead of %llu", (unsigned long long)q->top(), (unsigned long long)*m.begin()); q->pop(); m.erase(m.begin()); }
		VF_CHECK(c, q->size() == m.size(), "pq:result", "size %llu instead of %zu", (unsigned long long)q->size(), m.size());
	}
}
static void c_stack(Ctx & c, uint64_t seed) {
	Rng r(seed);
	tpie::stack<T> s(0.25); std::vector<T> m; size_t ops = r.below(6000); int bias = 80;
	for (size_t i = 0; i < ops; ++i) {
		if (r.chance(1)) bias = r.pick({10, 50, 95});
		if (m.empty() || r.chance(bias)) { T v = r.next(); s.push(v); m.push_back(v); }
		else { T v = s.pop(); VF_CHECK(c, v == m.back(), "stack:result", "pop gives another item"); m.pop_back(); }
	}
}
static void c_queue(Ctx & c, uint64_t seed) {
	Rng r(seed);
	tpie::queue<T> s; std::deque<T> m; size_t ops = r.below(8000); int bias = 80;
	for (size_t i = 0; i < ops; ++i) {
		if (r.chance(1)) bias = r.pick({10, 50, 95});
		if (m.empty() || r.chance(bias)) { T v = r.next(); s.push(v); m.push_back(v); }
		else { T v = s.pop(); VF_CHECK(c, v == m.front(), "queue:result", "pop gives another item"); m.pop_front(); }
	}
}
static void c_pipeline(Ctx & c, uint64_t seed) {
	Rng r(seed);
	World w; w.dir = own_dir(); // files the stages make themselves
	Seq in = seq(r, r.below(r.chance(30) ? 30000 : 2000)), now; int64_t fwd; std::string story;
	auto par = [&] { return Par{r.below(100), r.below(100)}; };
	Begin b = begin_stage((int)r.below(BEGIN_KINDS), par(), in, w); pl::virtual_chunk_begin<It> cur = b.chunk; now = b.out; fwd = b.items; story = b.name;
	for (size_t k = 1 + r.below(4); k--;) {
		bool buf = r.chance(75);
		int kind = (int)r.below(SIMPLE_KINDS);
		if (kind == 20 || kind == 13) kind = 0;
		if (kind == 19 && now.size() > 10000) kind = 1;
		int bk = (int)r.below(BUFFER_KINDS); if (now.size() > 20000 && (bk == 15 || bk == 17)) bk = 0;
		Push s = buf ? buffer_stage(bk, par(), now, fwd, w) : simple_stage(kind, par(), now, fwd, w);
		cur = cur | s.chunk; now = s.out; fwd = s.items; story += std::string(" | ") + s.name;
	}
	End e = end_stage((int)r.below(END_KINDS), par(), now, w); story += std::string(" | ") + e.name;
	pl::pipeline p = cur | e.chunk;
	c.op("%s", story.c_str());
	if (faulty) arm(c, 200); // not while the harness makes files for the stages
	tpie::progress_indicator_null pi(in.size());
	p(in.size(), pi, r.pick({(size_t)400000, (size_t)2000000, (size_t)16000000}), nullptr, nullptr);
	for (auto & f : w.checks) { std::string m = f(); VF_CHECK(c, m.empty(), "pipeline:result", "%s", m.c_str()); }
}
static void c_blocks(Ctx & c, uint64_t seed) {
	using namespace tpie::blocks;
	Rng r(seed);
	std::string path = own_dir() + "/blocks";
	size_t bs = r.pick({64, 512, 4000}), cap = r.pick({1, 2, 5, 20}), ops = r.below(400);
	std::map<uint64_t, std::pair<block_handle, std::string>> m;
	bool proceed = r.chance(60), unsure = false;
	auto same = [&](block_collection_cache & b, std::pair<block_handle, std::string> & l, const char * when) {
		block * p = b.read_block(l.first);
		VF_CHECK(c, p->size() == bs && memcmp(p->get(), l.second.data(), bs) == 0, "blocks:result", "block at %llu has other contents %s", (unsigned long long)l.first.position, when);
	};
	{
		block_collection_cache b(path, bs, cap, true);
		for (size_t i = 0; i < ops; ++i) {
			auto l = m.begin(); if (!m.empty()) std::advance(l, r.below(m.size()));
			int k = r.below(100);
			std::string bytes(bs, 0); for (auto & x : bytes) x = (char)r.next();
			bool sharp = false;
			try {
				if (m.empty() || k < 35) {
					sharp = true;
					block_handle h = b.get_free_block();
					sharp = false;
					VF_CHECK(c, !m.count(h.position), "blocks:result", "block at %llu is given out twice", (unsigned long long)h.position);
					block * p = b.read_block(h); std::copy(bytes.begin(), bytes.end(), p->get()); b.write_block(h);
					m[h.position] = {h, bytes};
				} else if (k < 45) { auto h = l->second.first; m.erase(l); sharp = true; b.free_block(h); }
				else if (k < 65) { block * p = b.read_block(l->second.first); std::copy(bytes.begin(), bytes.end(), p->get()); b.write_block(l->second.first); l->second.second = bytes; }
				else same(b, l->second, "after a write");
			} catch (const tpie::exception & e) {
				if (!faulty || !hard || !proceed || sharp) throw; // the list of free blocks may be closed now
				c.op("op %zu: %s", i, e.what()); count("continued_after_error"); unsure = true;
			}
		}
		disarm();
		for (auto & l : m) same(b, l.second, "in the end");
	}
	block_collection_cache b(path, bs, cap, false);
	for (auto & l : m) same(b, l.second, "after reopening");
	if (unsure) count("intact_after_error");
}
static void c_btree(Ctx & c, uint64_t seed) {
	Rng r(seed);
	std::string path = own_dir() + "/tree";
	typedef tpie::btree<T, tpie::btree_external, tpie::btree_blocksize<600>> tree;
	std::multiset<T> m; size_t ops = r.pick({(uint64_t)100, (uint64_t)3000}); T top = r.pick({(T)50, ~(T)0});
	auto same = [&](tree & t, const char * when) {
		Seq got(t.begin(), t.end()), want(m.begin(), m.end());
		std::string d = World::differ("tree", got, want); VF_CHECK(c, d.empty(), "btree:result", "%s %s", d.c_str(), when);
	};
	{
		tree t(path);
		for (size_t i = 0; i < ops; ++i) {
			T v = r.next() % top;
			if (r.chance(65)) { t.insert(v); m.insert(v); }
			else {
				auto x = m.lower_bound(v); auto y = t.lower_bound(v);
				VF_CHECK(c, (x == m.end()) == (y == t.end()) && (x == m.end() || *x == *y), "btree:result", "lower_bound finds another item");
				if (x != m.end()) { t.erase(y); m.erase(x); }
			}
		}
		disarm();
		same(t, "in the end");
	}
	tree t(path); same(t, "after reopening");
}
struct Kind { const char * name; void (*f)(Ctx &, uint64_t); };
static const Kind kinds[] = {{"sort", c_sort}, {"merge_sorter", c_merge_sorter}, {"serialization_sorter", c_serialization_sorter}, {"pq", c_pq}, {"stack", c_stack}, {"queue", c_queue}, {"blocks", c_blocks}, {"btree", c_btree}, {"pipeline", c_pipeline}, {"pipeline", c_pipeline}, {"pipeline", c_pipeline}};

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 4096, 16384}));
	std::string dir = scratch("t"); wipe(dir); boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	const char * only = getenv("VF_KIND");
	const Kind & k = kinds[only ? atoi(only) : r.below(sizeof kinds / sizeof *kinds)];
	uint64_t seed = r.next();
	bool failed = false; std::string what;
	Start start;
	for (int attempt = 0; attempt < 2; ++attempt) { // the second time nothing fails
		if (attempt == 0) c.describe("%s, block size %zu, %s", k.name, (size_t)tpie::get_block_size(), arm(c, 200).c_str());
		else disarm();
		faulty = attempt == 0; if (k.f == c_pipeline) disarm();
		uint64_t before = io().writes;
		try { k.f(c, seed); }
		catch (const Violation &) { disarm(); throw; }
		catch (const tpie::end_of_stream_exception & e) { disarm(); c.fail(fmt("%s:error_as_eos", k.name), "end_of_stream_exception: %s", e.what()); }
		catch (const tpie::exception & e) { failed = true; what = type_name(e) + ": " + e.what(); }
		catch (const std::exception & e) { disarm(); c.fail(fmt("%s:foreign_exception", k.name), "%s: %s", type_name(e).c_str(), e.what()); }
		disarm();
		if (failed) {
			VF_CHECK(c, attempt == 0 && hard && io().injected > 0, fmt("%s:spurious", k.name), "%s, though nothing failed%s", what.c_str(), attempt ? " (the second time)" : "");
			count("errors_reported"); count(fmt("errors_%s", k.name));
		}
		if (attempt == 0) {
			if (io().injected > 0) { count(hard ? "hard_faults" : "benign_faults"); c.nontrivial = true; if (hard && !failed) count("absorbed"); }
			c.op("%s", failed ? what.c_str() : "no error");
		} else { count("repeated_without_fault"); if (io().writes > before) count("external"); }
		start.check(c, k.name, dir);
		failed = false;
	}
	c.mark(seed);
	count(fmt("kind_%s", k.name));
}
