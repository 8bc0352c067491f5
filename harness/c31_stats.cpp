// C31: the statistics count every byte that moves, and every increment.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/stats.h>
#include <tpie/sort.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/priority_queue.h>
#include <tpie/serialization_stream.h>
#include <tpie/serialization_sorter.h>
#include <tpie/blocks/block_collection.h>
#include <tpie/progress_indicator_null.h>
using namespace vf;
typedef uint64_t T;

// Both counters only grow, and the traffic is never ahead of what is counted at rest.
struct Sampler {
	uint64_t r = 0, w = 0;
	void look(Ctx & c) {
		uint64_t r2 = tpie::get_bytes_read(), w2 = tpie::get_bytes_written();
		VF_CHECK(c, r2 >= r && w2 >= w, "decrease", "a byte counter went from %llu/%llu to %llu/%llu", (unsigned long long)r, (unsigned long long)w, (unsigned long long)r2, (unsigned long long)w2);
		r = r2; w = w2; count("samples");
	}
};

static void stream_work(Ctx & c, Sampler & m, const std::string & path, bool comp) {
	typedef tpie::file_stream<T> S;
	Rng & r = c.rng; size_t n = r.size(6000);
	{
		S s; if (comp) s.open(path, tpie::open::compression_all); else s.open(path);
		for (size_t i = 0; i < n; ++i) s.write(r.next() & 0xffff);
		m.look(c);
		if (r.chance(40) && n) { s.seek(r.chance(50) ? 0 : 0); T x = 0; for (size_t i = 0; i < n / 2; ++i) x += s.read(); (void)x; }
		if (r.chance(30)) { s.seek(0, S::end); for (size_t i = r.below(n + 1); i > 0; --i) s.read_back(); }
		if (r.chance(20)) s.truncate(r.chance(50) ? 0 : s.size());
		s.close();
	}
	S s; s.open(path); while (s.can_read()) s.read(); s.close(); m.look(c);
}
static void work(Ctx & c, Sampler & m, const std::string & dir, int serial, bool faults = false) {
	Rng & r = c.rng; std::string path = dir + fmt("/%d", serial);
	int k = (int)r.below(faults ? 8 : 9); /* a block collection that cannot be written at its end gives up */ c.op("work %d", k); count(fmt("work_%d", k));
	switch (k) {
	case 0: stream_work(c, m, path, r.chance(60)); break;
	case 1: { tpie::uncompressed_stream<T> s; s.open(path); size_t n = r.size(5000); for (size_t i = 0; i < n; ++i) s.write(i); m.look(c); s.seek(0); while (s.can_read()) s.read(); s.close(); break; }
	case 2: { tpie::file_stream<T> s; s.open(); size_t n = r.size(6000); for (size_t i = 0; i < n; ++i) s.write(r.next()); s.seek(0); { tpie::progress_indicator_null pi; tpie::sort(s, pi); } m.look(c); break; }
	case 3: { tpie::stack<T> s; for (size_t i = r.size(8000); i > 0; --i) s.push(i); while (s.size()) s.pop(); break; }
	case 4: { tpie::queue<T> q; for (size_t i = r.size(8000); i > 0; --i) q.push(i); while (!q.empty()) q.pop(); break; }
	case 5: {
		{ tpie::serialization_writer w; w.open(path); for (size_t i = r.size(3000); i > 0; --i) w.serialize(std::string(r.below(20), 'x')); w.close(); }
		m.look(c);
		tpie::serialization_reader d; d.open(path); std::string x; while (d.can_read()) d.unserialize(x); d.close();
		break; }
	case 6: {
		{ tpie::serialization_reverse_writer w; w.open(path); for (size_t i = r.size(3000); i > 0; --i) w.serialize(i); w.close(); }
		tpie::serialization_reverse_reader d; d.open(path); size_t x; while (d.can_read()) d.unserialize(x); d.close();
		break; }
	case 7: {
		tpie::serialization_sorter<uint64_t> s; s.set_available_memory(s.minimum_memory_phase_1() * 2 + 200000);
		s.begin(); for (size_t i = r.size(4000); i > 0; --i) s.push(r.next()); s.end(); m.look(c);
		s.merge_runs(); while (s.can_pull()) s.pull();
		break; }
	default: {
		size_t size = r.pick({64, 500, 4096});
		tpie::blocks::block_collection b(path, size, true); std::vector<tpie::blocks::block_handle> h;
		for (size_t i = r.below(30); i > 0; --i) { h.push_back(b.get_free_block()); tpie::blocks::block x(size); memset(x.get(), 3, size); b.write_block(h.back(), x); }
		for (auto & y : h) { tpie::blocks::block x(size); b.read_block(y, x); if (r.chance(20)) b.free_block(y); }
		break; }
	}
	m.look(c);
}

// A region of user counters that nothing else uses.
static const size_t mine[] = {2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19};
static void users(Ctx & c, bool threads) {
	Rng & r = c.rng;
	std::vector<uint64_t> before(20), added(20);
	for (size_t i : mine) before[i] = tpie::get_user(i);
	std::mutex mu;
	auto body = [&](Ctx & t) {
		std::vector<uint64_t> here(20);
		for (int k = t.rng.pick({5, 100, 2000}); k > 0; --k) {
			if (t.rng.chance(10)) { // beyond the last: nothing to count, nothing to be touched
				size_t i = t.rng.pick({(size_t)20, (size_t)21, (size_t)25, (size_t)100, (size_t)159, (size_t)160, (size_t)161, (size_t)10000, ~(size_t)0});
				tpie::increment_user(i, 1 + t.rng.below(1000));
				VF_CHECK(t, tpie::get_user(i) == 0, "beyond_last", "user counter %zu is %llu", i, (unsigned long long)tpie::get_user(i));
				count("beyond_the_last");
				continue;
			}
			size_t i = mine[t.rng.below(sizeof mine / sizeof *mine)]; uint64_t d = t.rng.below(1000);
			tpie::increment_user(i, d); here[i] += d; count("user_increments");
		}
		std::lock_guard<std::mutex> l(mu);
		for (size_t i = 0; i < 20; ++i) added[i] += here[i];
	};
	if (threads) { std::vector<std::function<void(Ctx &)>> b; for (int i = 2 + (int)r.below(4); i > 0; --i) b.push_back(body); run_threads(c, b); } else body(c);
	for (size_t i : mine) VF_CHECK(c, tpie::get_user(i) == before[i] + added[i], "user", "user counter %zu grew by %llu, %llu was added", i, (unsigned long long)(tpie::get_user(i) - before[i]), (unsigned long long)added[i]);
	// a timer adds the microseconds that passed
	size_t i = mine[r.below(sizeof mine / sizeof *mine)]; uint64_t was = tpie::get_user(i);
	auto now = [] { return std::chrono::steady_clock::now(); };
	auto a = now(); decltype(a) b, d;
	{ tpie::stat_timer t(i); b = now(); std::this_thread::sleep_for(std::chrono::microseconds(r.below(300))); d = now(); }
	auto e = now();
	auto us = [](std::chrono::steady_clock::duration x) { return std::chrono::duration_cast<std::chrono::nanoseconds>(x).count() / 1000.0; };
	double got = (double)(tpie::get_user(i) - was);
	VF_CHECK(c, got >= us(d - b) - 2 && got <= us(e - a) + 2, "timer", "a timer counted %.0f us for between %.1f and %.1f", got, us(d - b), us(e - a));
	count("timers");
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 16384}));
	set_scheme(r.chance(50) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	io().reset(r.next());
	std::string dir = scratch("s"); wipe(dir); boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	if (r.chance(15)) { bool threads = r.chance(60); c.describe("user counters%s", threads ? ", threads" : ""); users(c, threads); c.nontrivial = true; return; }
	bool threads = r.chance(35);
	int rounds = 1 + (int)r.below(4);
	if (r.chance(40)) { io().shortPermille = r.pick({30, 400}); io().eintrPermille = r.pick({0, 200}); count("short_transfers"); }
	bool faults = !threads && r.chance(20);
	c.describe("%d rounds%s%s", rounds, threads ? ", threads" : "", faults ? ", a fault" : "");
	uint64_t r0 = tpie::get_bytes_read(), w0 = tpie::get_bytes_written(), R0 = io().bytesRead, W0 = io().bytesWritten; size_t fds = io().open_count();
	auto compare = [&](const char * when) {
		for (int i = 0; i < 3000 && io().open_count() != fds; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); // the last files are closed in the background
		uint64_t rd = tpie::get_bytes_read() - r0, wr = tpie::get_bytes_written() - w0, RD = io().bytesRead - R0, WR = io().bytesWritten - W0;
		VF_CHECK(c, rd == RD, "read", "%s: %llu bytes counted as read, %llu were", when, (unsigned long long)rd, (unsigned long long)RD);
		VF_CHECK(c, wr == WR, "written", "%s: %llu bytes counted as written, %llu were", when, (unsigned long long)wr, (unsigned long long)WR);
		count("comparisons"); count("bytes_moved", RD + WR);
	};
	if (threads) {
		std::vector<std::function<void(Ctx &)>> b; int n = 2 + (int)r.below(3);
		for (int i = 0; i < n; ++i) b.push_back([&, i](Ctx & t) { Sampler m; for (int k = 0; k < rounds; ++k) work(t, m, dir, 100 * i + k); t.nontrivial = true; });
		run_threads(c, b); count("threaded");
		compare("after all threads");
	} else {
		Sampler m;
		for (int k = 0; k < rounds; ++k) {
			if (faults) {
				io().failErrno = r.pick({EIO, ENOSPC}); (r.chance(50) ? io().failReadAt : io().failWriteAt) = 1 + r.below(r.pick({3, 20}));
				try { work(c, m, dir, k, true); } catch (std::exception & e) { c.op("%s", e.what()); count("failed_work"); }
				io().failReadAt = 0; io().failWriteAt = 0;
			} else work(c, m, dir, k);
			compare("after a round");
		}
	}
	c.nontrivial = true;
}
