// C03: a recorded stream position leads back to the same item, and truncating
// to a position keeps exactly the items before it (plain and compressed streams).
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
using namespace vf;

template <size_t N> void go(Ctx & c) {
	Rng & r = c.rng;
	typedef Item<N> T;
	StreamOpts o;
	o.compressed = r.chance(80);
	o.positions = true;
	o.entropy = r.below(3);
	uint64_t perBlock = r.pick({2, 3, 4, 7, 16});
	uint64_t bs = N * perBlock + (r.chance(40) ? r.below(N) : 0);
	tpie::set_block_size(bs);
	auto scheme = r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none;
	set_scheme(scheme);
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 300, 900});
	io().shortPermille = r.pick({0, 0, 200});
	uint64_t ops = r.pick({15, 60, 200});
	bool all = r.chance(50);
	c.describe("%s item=%zu perBlock=%llu entropy=%d scheme=%s%s ops=%llu", o.compressed ? "compressed" : "plain",
		N, (unsigned long long)perBlock, o.entropy, scheme == tpie::compression_scheme::snappy ? "snappy" : "none", all ? "/all" : "/normal", (unsigned long long)ops);
	std::string path = scratch(fmt("s%llu", (unsigned long long)c.idx));
	{
		tpie::temp_file tf;
		tpie::file_stream<T> s;
		tpie::open::type f = !o.compressed ? tpie::open::defaults : all ? tpie::open::compression_all : tpie::open::compression_normal;
		std::unique_ptr<StreamDriver<tpie::file_stream<T>, N>> d(new StreamDriver<tpie::file_stream<T>, N>(c, s, o));
		bool named = r.chance(70);
		if (named) s.open(path, f); else s.open(f);
		d->choose_profile();
		uint64_t reopens = 0;
		if (named) { // positions are plain data and outlive the open stream
			d->weights[13] = r.pick({0, 2, 6});
			d->opReopen = [&]() {
				c.op("reopen");
				s.close();
				s.open(path, f);
				d->pos = 0;
				d->observe();
				++reopens;
				count("reopens");
			};
		}
		d->run(ops);
		if (r.chance(50)) s.close();
		count(o.compressed ? "kind_compressed" : "kind_plain");
	}
	wipe(path);
}

void vf_case(Ctx & c) {
	switch (c.rng.below(3)) {
	case 0: go<1>(c); break;
	case 1: go<8>(c); break;
	default: go<13>(c); break;
	}
}
