#include "c23.h"
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/split.h>

template <typename F> static pl::virtual_chunk<It> chunk(pl::pipe_middle<F> && p) { return pl::virtual_chunk<It>(std::move(p)); }
// A passive stage as a chunk: in one phase it takes the items, in another they are pulled.
template <typename P> static pl::virtual_chunk<It> passive(P & p, bool first) {
	if (first) { pl::virtual_chunk_begin<It> b(pl::pull_source(p.output())); pl::virtual_chunk_end<It> e(p.input()); return pl::virtual_chunk<It>(e, b); }
	pl::virtual_chunk_end<It> e(p.input()); pl::virtual_chunk_begin<It> b(pl::pull_source(p.output())); return pl::virtual_chunk<It>(e, b);
}
// Without pull_source, for those that do not forward "items".
template <typename dest_t, typename fact_t> struct Drain : pl::node {
	typedef It item_type; dest_t dest; typename fact_t::constructed_type src;
	Drain(dest_t d, fact_t f) : dest(std::move(d)), src(f.construct()) { add_push_destination(dest); add_pull_source(src); }
	void go() override { while (src.can_pull()) dest.push(src.pull()); }
};
template <typename F> static pl::pipe_begin<pl::tfactory<Drain, pl::Args<F>, F>> drain(pl::pullpipe_begin<F> from) { return {std::move(from.factory)}; }
static Seq interleaved(const Seq & a, const Seq & b) { Seq r; for (size_t i = 0; i < a.size(); ++i) { r.push_back(a[i]); r.push_back(b[i]); } return r; }

Push buffer_stage(int kind, Par p, const Seq & in, int64_t items, World & w) {
	uint64_t a = p.a, b = p.b; int64_t n = (int64_t)in.size(); ++w.bufferings;
	switch (kind) {
	case 0: return {chunk(pl::buffer()), in, n, "buffer"};
	case 1: return {chunk(pl::reverser()), reversed(in), n, "reverser"};
	case 2: return {chunk(pl::internal_reverser()), reversed(in), n, "internal_reverser"};
	case 3: return {chunk(pl::sort(Cmp{a})), sorted(in, Cmp{a}), n, "sort"};
	case 4: return {chunk(pl::serialization_buffer()), in, n, "serialization_buffer"};
	case 5: return {chunk(pl::serialization_reverser()), reversed(in), n, "serialization_reverser"};
	case 6: return {chunk(pl::serialization_sort(Cmp{a})), sorted(in, Cmp{a}), n, "serialization_sort"};
	case 7: return {passive(w.make<pl::passive_buffer<It>>(), b % 2), in, n, "passive_buffer"};
	case 8: return {passive(w.make<pl::passive_reverser<It>>(), b % 2), reversed(in), n, "passive_reverser"};
	case 9: return {passive(w.make<pl::internal_passive_reverser<It>>(), b % 2), reversed(in), n, "internal_passive_reverser"};
	case 10: return {passive(w.make<pl::passive_sorter<It, Cmp>>(Cmp{a}), b % 2), sorted(in, Cmp{a}), n, "passive_sorter"};
	case 11: return {passive(w.make<pl::passive_serialization_buffer<It>>(), b % 2), in, n, "passive_serialization_buffer"};
	case 12: return {passive(w.make<pl::passive_serialization_reverser<It>>(), b % 2), reversed(in), n, "passive_serialization_reverser"};
	case 13: { auto & s = w.make<pl::serialization_passive_sorter<It, Cmp>>(Cmp{a}); pl::virtual_chunk_end<It> e(s.input()); pl::virtual_chunk_begin<It> g(drain(s.output())); return {pl::virtual_chunk<It>(e, g), sorted(in, Cmp{a}), n, "serialization_passive_sorter"}; }
	case 14: { // a queue in memory within one phase
		--w.bufferings; auto & q = w.make<pl::internal_passive_buffer<It>>(1 + a % 3, b % 2 ? 8 : 0);
		return {chunk(pl::map([a](const It & v) { return std::make_pair(v, h64(v ^ a)); }) | pl::unzip(q.input()) | pl::zip(q.output()) | pl::map([](const std::pair<It, It> & v) { return v.first * 3 + v.second; })), mapped(in, [a](It v) { return v * 3 + h64(v ^ a); }), UNKNOWN, "internal_passive_buffer"};
	}
	case 15: { // join
		auto & j = w.make<pl::join<It>>(); Seq o; for (auto v : in) { o.push_back(v ^ a); o.push_back(v); }
		pl::virtual_chunk_end<It> e(pl::fork(j.sink()) | pl::map([a](const It & v) { return v ^ a; }) | j.sink());
		pl::virtual_chunk_begin<It> g(j.source());
		return {pl::virtual_chunk<It>(e, g), o, items, "join"};
	}
	case 16: { // split: every source gets every item
		auto & s = w.make<pl::split<It>>(); auto & side = w.seq(); w.same("split", side, b % 2 ? reversed(in) : in);
		pl::virtual_chunk_end<It> e(s.sink());
		if (b % 2) w.others.emplace_back(s.source() | pl::reverser() | pl::output_vector(side)); else w.others.emplace_back(s.source() | pl::output_vector(side));
		pl::virtual_chunk_begin<It> g(s.source());
		return {pl::virtual_chunk<It>(e, g), in, items, "split"};
	}
	case 17: { // the items and the items through a passive stage side by side
		switch (a % 4) {
		case 0: { auto & q = w.make<pl::passive_buffer<It>>(); return {chunk(pl::fork(q.input()) | pl::buffer() | pl::merge(q.output())), interleaved(in, in), UNKNOWN, "passive buffer beside"}; }
		case 1: { auto & q = w.make<pl::passive_reverser<It>>(); return {chunk(pl::fork(q.input()) | pl::buffer() | pl::merge(q.output())), interleaved(in, reversed(in)), UNKNOWN, "passive reverser beside"}; }
		case 2: { auto & q = w.make<pl::passive_sorter<It, Cmp>>(Cmp{b}); return {chunk(pl::fork(q.input()) | pl::buffer() | pl::merge(q.output())), interleaved(in, sorted(in, Cmp{b})), UNKNOWN, "passive sorter beside"}; }
		default: { auto & q = w.make<pl::internal_passive_reverser<It>>(); return {chunk(pl::fork(q.input()) | pl::reverser() | pl::merge(q.output())), interleaved(reversed(in), reversed(in)), UNKNOWN, "internal passive reverser beside"}; }
		}
	}
	case 18: return {chunk(pl::sort(Cmp{a}).name("Sorting").memory(1 + b % 3) | pl::buffer() | pl::reverser()), reversed(sorted(in, Cmp{a})), n, "three in a row"};
	default: { // sorted twice, the second time by another order
		return {chunk(pl::sort(Cmp{a}) | pl::map([b](const It & v) { return h64(v ^ b); }) | pl::sort(Cmp{b}) | pl::unique(Equal{0})), deduped(sorted(mapped(sorted(in, Cmp{a}), [b](It v) { return h64(v ^ b); }), Cmp{b}), Equal{0}), n, "sorted twice"};
	}
	}
}
