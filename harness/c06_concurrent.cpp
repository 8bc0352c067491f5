// C06: streams driven by several threads at once each behave as if alone.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include "cond_shim.h"
#include <tpie/file.h>
using namespace vf;
static const uint64_t userDataSize = 300;

template <typename S, size_t N, typename O> static void drive(Ctx & c, bool compressed, bool us, const std::string & path, O open, int ops, int sessions) {
	StreamOpts o; o.compressed = compressed; o.isUncompressedStream = us; o.entropy = c.rng.below(3); o.positions = !us && c.rng.chance(50); o.userData = us ? 0 : userDataSize;
	std::vector<uint64_t> m; std::string ud;
	uint64_t next = c.rng.next() >> 8;
	for (int k = 0; k < sessions; ++k) {
		std::unique_ptr<S> s(new S());
		bool anon = c.rng.chance(40);
		open(*s, anon ? std::string() : path);
		StreamDriver<S, N> d(c, *s, o);
		if (!anon) { d.m = m; d.nextId = next; d.ud = ud; }
		d.choose_profile();
		d.run(ops);
		if (!anon) { m = d.m; next = d.nextId; ud = d.ud; }
		if (anon || c.rng.chance(70)) {
			if (c.rng.chance(50)) s->close(); // else the destructor does
			s.reset();
		} else { // several streams of one thread at a time, destroyed with requests pending
			s.reset();
			std::vector<std::unique_ptr<S>> many;
			uint64_t k = 2 + c.rng.below(6);
			for (uint64_t i = 0; i < k; ++i) {
				many.emplace_back(new S());
				open(*many.back(), "");
				for (uint64_t j = 0; j < 40; ++j) many.back()->write(d.item(next + i * 1000 + j));
			}
			for (uint64_t i = 0; i < k; ++i) {
				if (c.rng.chance(30)) continue;
				many[i]->seek(0);
				for (uint64_t j = 0; j < 40; ++j) {
					auto x = many[i]->read();
					VF_CHECK(c, x == d.item(next + i * 1000 + j), "many", "stream %llu of %llu, item %llu differs", (unsigned long long)i, (unsigned long long)k, (unsigned long long)j);
				}
			}
			count("streams_held", k);
		}
		count("sessions");
	}
}

template <size_t N> static void cursors(Ctx & c, const std::string & path, int ops) {
	typedef Item<N> T;
	std::vector<uint64_t> m;
	uint64_t next = c.rng.next() >> 8;
	tpie::file<T> f;
	f.open(path, tpie::access_read_write);
	{
		typename tpie::file<T>::stream a(f), b(f);
		for (int i = 0; i < ops; ++i) {
			auto & s = c.rng.chance(50) ? a : b;
			uint64_t at = c.rng.chance(40) ? m.size() : c.rng.below(m.size() + 1);
			s.seek(at);
			uint64_t n = 1 + c.rng.below(8);
			if (c.rng.chance(50)) {
				for (uint64_t k = 0; k < n; ++k, ++at) { s.write(make_item<N>(next, 2)); if (at < m.size()) m[at] = next; else m.push_back(next); ++next; }
			} else for (uint64_t k = 0; k < n && at < m.size(); ++k, ++at) {
				T x = s.read();
				VF_CHECK(c, x == make_item<N>(m[at], 2), "file", "cursor read a wrong item at %llu", (unsigned long long)at);
				count("items_compared");
			}
		}
	}
	f.close();
	count("file_sessions");
}

// All threads stop together again and again, so that a wake-up lost at the end of a round is not
// covered up by the traffic of the other threads.
static void rendezvous(Ctx & c) {
	Rng & r = c.rng;
	int n = 2 + r.below(3), rounds = 4 + r.below(12);
	uint64_t perBlock = std::max<uint64_t>(1, tpie::get_block_size() / 8);
	bool early = r.chance(50);
	c.nontrivial = true;
	c.describe("rendezvous threads=%d rounds=%d block=%zu delay=%d", n, rounds, (size_t)tpie::get_block_size(), (int)io().delayPermille);
	struct Shared { std::atomic<int> arrived{0}; std::atomic<bool> failed{false}; } sh;
	std::vector<std::function<void(Ctx &)>> b;
	for (int i = 0; i < n; ++i) b.push_back([&sh, n, rounds, perBlock, early](Ctx & t) {
		struct Leave { Shared & s; bool ok = false; ~Leave() { if (!ok) s.failed = true; } } leave{sh};
		typedef tpie::file_stream<Item<8>> F8; typedef tpie::file_stream<Item<4>> F4;
		std::unique_ptr<F8> kept;
		uint64_t id = t.rng.next() >> 8;
		std::vector<uint64_t> held;
		for (int k = 0; k < rounds && !sh.failed; ++k) {
			if (!kept || t.rng.chance(60)) { kept.reset(new F8()); held.clear(); kept->open(t.rng.chance(75) ? tpie::open::compression_all : tpie::open::defaults); }
			uint64_t m = perBlock * t.rng.below(4) + t.rng.below(3);
			t.op("%s write %llu", kept->size() ? "append" : "new", (unsigned long long)m);
			kept->seek(0, F8::end);
			for (uint64_t j = 0; j < m; ++j) { kept->write(make_item<8>(id, 2)); held.push_back(id++); }
			switch (t.rng.below(4)) {
			case 0: kept->close(); kept.reset(); break;
			case 1: kept.reset(); break;
			case 2: kept->seek(0); for (uint64_t x : held) VF_CHECK(t, kept->read() == make_item<8>(x, 2), "rendezvous", "item %llu differs", (unsigned long long)x); count("items_compared", held.size()); break;
			default: kept->truncate(0); held.clear();
			}
			if (!kept) held.clear();
			++sh.arrived;
			auto all = [&] { return sh.arrived >= (k + 1) * n || sh.failed; };
			for (int w = 0; !all(); ++w) { if (w > 20000) std::this_thread::sleep_for(std::chrono::milliseconds(50)); else if (early) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(20)); }
			count("rounds_met");
		}
		leave.ok = true;
	});
	count("threads", n);
	run_threads(c, b);
}

void vf_case(Ctx & c) {
	Rng & r = c.rng; Spurious spurious(r);
	tpie::set_block_size(r.pick({26, 64, 130, 512}));
	io().reset(r.next());
	io().delayPermille = r.pick({0, 20, 200, 500});
	io().shortPermille = r.pick({0, 0, 200});
	if (r.chance(40)) {
		if (r.chance(50)) tpie::set_block_size(r.pick({4096, 32768}));
		uint64_t temp0 = tpie::get_temp_file_usage();
		rendezvous(c);
		VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage %lld bytes more than before", (long long)(tpie::get_temp_file_usage() - temp0));
		VF_CHECK(c, io().open_count() == 0, "open_files", "%zu files still open", io().open_count());
		return;
	}
	int n = 2 + r.below(5);
	int ops = r.pick({20, 60, 120});
	int sessions = 1 + r.below(3);
	c.describe("threads=%d block=%zu ops=%d sessions=%d delay=%d", n, (size_t)tpie::get_block_size(), ops, sessions, (int)io().delayPermille);
	uint64_t temp0 = tpie::get_temp_file_usage();
	size_t files0 = tpie::get_file_manager().used();
	std::vector<std::function<void(Ctx &)>> b;
	for (int i = 0; i < n; ++i) {
		int kind = r.below(7);
		std::string path = scratch(fmt("p%llu_%d", (unsigned long long)c.idx, i));
		b.push_back([=](Ctx & t) {
			t.describe("kind %d", kind);
			typedef tpie::file_stream<Item<8>> F8; typedef tpie::file_stream<Item<13>> F13; typedef tpie::uncompressed_stream<Item<8>> U8;
			auto openf = [](auto & s, const std::string & p, tpie::open::type t) { if (p.empty()) s.open(t, userDataSize); else s.open(p, t, userDataSize); };
			switch (kind) {
			case 0: drive<F8, 8>(t, false, false, path, [=](F8 & s, const std::string & p) { openf(s, p, tpie::open::defaults); }, ops, sessions); break;
			case 1: case 2: case 3: drive<F8, 8>(t, true, false, path, [=](F8 & s, const std::string & p) { openf(s, p, tpie::open::compression_all); }, ops, sessions); break;
			case 4: drive<F13, 13>(t, true, false, path, [=](F13 & s, const std::string & p) { openf(s, p, tpie::open::compression_normal); }, ops, sessions); break;
			case 5: drive<U8, 8>(t, false, true, path, [=](U8 & s, const std::string & p) { if (p.empty()) s.open(); else s.open(p); }, ops, sessions); break;
			default: cursors<8>(t, path, ops);
			}
		});
	}
	if (r.chance(50)) b.push_back([](Ctx & t) { // somebody changes the preferred scheme
		for (int i = 0; i < 30; ++i) {
			set_scheme(t.rng.chance(50) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
			if (t.rng.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(t.rng.below(300)));
			count("scheme_changes");
		}
	});
	count("threads", b.size());
	run_threads(c, b);
	VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage %lld bytes more than before", (long long)(tpie::get_temp_file_usage() - temp0));
	VF_CHECK(c, tpie::get_file_manager().used() == files0 && io().open_count() == 0, "open_files", "%zu files still open", io().open_count());
	for (int i = 0; i < n; ++i) wipe(scratch(fmt("p%llu_%d", (unsigned long long)c.idx, i)));
}
