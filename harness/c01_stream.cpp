// C01: an item stream behaves as a sequence with a cursor.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
using namespace vf;

template <size_t N> void go(Ctx & c) {
	Rng & r = c.rng;
	typedef Item<N> T;
	StreamOpts o;
	int kind = r.below(10); // 0-3 plain file_stream, 4-7 compressed, 8-9 uncompressed_stream
	o.isUncompressedStream = kind >= 8;
	o.compressed = kind >= 4 && kind < 8;
	o.entropy = r.below(3);
	// block size in bytes, deliberately not always a multiple of the item size
	uint64_t perBlock = r.pick({2, 3, 4, 7, 16, 50});
	uint64_t bs = N * perBlock + (r.chance(40) ? r.below(N) : 0);
	double factor = r.pick({1.0, 0.5, 0.25, 2.0});
	uint64_t base = (uint64_t)(bs / factor);
	while ((uint64_t)(base * factor) < bs) ++base;
	tpie::set_block_size(base);
	auto scheme = r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none;
	set_scheme(scheme);
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 300, 900});
	io().shortPermille = r.pick({0, 0, 200}); // partial transfers are ordinary POSIX behaviour
	uint64_t ops = r.pick({15, 60, 200});
	bool all = r.chance(50);
	c.describe("%s item=%zu perBlock=%llu factor=%.2f entropy=%d scheme=%s%s ops=%llu", o.isUncompressedStream ? "uncompressed_stream" : o.compressed ? "file_stream/compressed" : "file_stream/plain",
		N, (unsigned long long)perBlock, factor, o.entropy, scheme == tpie::compression_scheme::snappy ? "snappy" : "none", all ? "/all" : "/normal", (unsigned long long)ops);
	std::string path = scratch(fmt("s%llu", (unsigned long long)c.idx));
	{
		if (o.isUncompressedStream) {
			tpie::temp_file tf; tpie::uncompressed_stream<T> s(factor);

			if (r.chance(50)) s.open(path); else s.open(tf);
			StreamDriver<tpie::uncompressed_stream<T>, N> d(c, s, o);
			d.choose_profile();
			d.run(ops);
			s.close();
			count("kind_uncompressed_stream");
		} else {
			tpie::temp_file tf; tpie::file_stream<T> s(factor);
			tpie::open::type f = !o.compressed ? tpie::open::defaults : all ? tpie::open::compression_all : tpie::open::compression_normal;
			f = f | r.pick({tpie::open::defaults, tpie::open::access_normal, tpie::open::access_random});

			switch (r.below(3)) {
			case 0: s.open(path, f); break;
			case 1: s.open(tf, f); break;
			default: s.open(f);
			}
			StreamDriver<tpie::file_stream<T>, N> d(c, s, o);
			d.choose_profile();
			d.run(ops);
			if (r.chance(50)) s.close();
			count(o.compressed ? "kind_compressed" : "kind_plain");
		}
	}
	wipe(path);
}

void vf_case(Ctx & c) {
	switch (c.rng.below(5)) {
	case 0: go<1>(c); break;
	case 1: go<4>(c); break;
	case 2: go<8>(c); break;
	case 3: go<13>(c); break;
	default: go<40>(c); break;
	}
}
