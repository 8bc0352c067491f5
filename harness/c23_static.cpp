#include "c23.h"
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/join.h>
#include <tpie/pipelining/split.h>
#include <tpie/pipelining/numeric.h>
#include <tpie/pipelining/uniq.h>

// Whole pipelines whose types are known when they are compiled.
Static static_pipeline(int kind, Par p, const Seq & in, World & w) {
	uint64_t a = p.a, b = p.b; auto & s = w.seq(in); auto & o = w.seq(); auto & t = w.seq(); w.bufferings += 3;
	switch (kind) {
	case 0: w.same("s0", o, in); return {pl::input_vector(s) | pl::output_vector(o), "copy"};
	case 1: w.same("s1", o, reversed(sorted(in, Cmp{a}))); return {pl::input_vector(s) | pl::sort(Cmp{a}) | pl::reverser() | pl::output_vector(o), "sort, reverse"};
	case 2: w.same("s2", o, deduped(sorted(mapped(in, GenericMap{a}), Cmp{0}), std::equal_to<It>())); return {pl::input_vector(s) | pl::map(GenericMap{a}) | pl::sort() | pl::pipeuniq() | pl::output_vector(o), "map, sort, uniq"};
	case 3: { auto & f = w.stream(); w.stream_same("s3", f, mapped(in, [](It v) { return ~v; })); return {pl::pull_input_vector(s) | pl::pull_map([](const It & v) { return ~v; }) | pl::pull_output(f), "pull"}; }
	case 4: { auto & f = w.stream(); w.stream_same("s4", f, in); return {pl::pull_input_vector(s) | pl::pull_peek() | pl::pull_output(f), "pull, peek"}; }
	case 5: { auto & f = w.stream(); w.stream_same("s5", f, deduped(in, Equal{a})); return {pl::pull_input_vector(s) | pl::pull_unique(Equal{a}) | pl::pull_output(f), "pull, unique"}; }
	case 6: { // merge of two sorted sequences
		w.same("s6", o, sorted([&] { Seq x = in; for (auto v : in) x.push_back(h64(v ^ b)); return x; }(), Cmp{0}));
		auto & q = w.make<pl::passive_sorter<It>>();
		return {pl::input_vector(s) | pl::fork(pl::map([b](const It & v) { return h64(v ^ b); }) | q.input()) | pl::sort() | pl::ordered_merge(q.output() | pl::pull_peek()) | pl::output_vector(o), "sorted merge"};
	}
	case 7: { // the same sequence twice: directly and through a buffer
		auto & q = w.make<pl::passive_buffer<It>>(); w.same("s7", o, mapped(in, [](It v) -> It { return v - v; }));
		w.others.emplace_back(pl::input_vector(s) | q.input());
		return {pl::input_vector(s) | pl::zip(q.output()) | pl::map([](const std::pair<It, It> & v) { return v.first - v.second; }) | pl::output_vector(o), "zip with buffer"};
	}
	case 8: { // join of three
		auto & j = w.make<pl::join<It>>(); auto & s2 = w.seq(mapped(in, [](It v) { return v + 1; }));
		w.checks.push_back([&o, in] { Seq want = in; for (auto v : in) { want.push_back(v + 1); want.push_back(v + 2); } Seq got = o; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); return World::differ("join of three", got, want); });
		w.others.emplace_back(pl::input_vector(s2) | pl::fork(pl::map([](const It & v) -> It { return v + 1; }) | j.sink()) | j.sink());
		w.others.emplace_back(pl::input_vector(s) | j.sink());
		return {j.source() | pl::output_vector(o), "join of three"};
	}
	case 9: { // split in three
		auto & d = w.make<pl::split<It>>(); auto & u = w.seq(); w.same("split 1", o, in); w.same("split 2", t, reversed(in)); w.same("split 3", u, sorted(in, Cmp{a}));
		w.others.emplace_back(d.source() | pl::reverser() | pl::output_vector(t)); w.others.emplace_back(d.source() | pl::sort(Cmp{a}) | pl::output_vector(u)); w.others.emplace_back(pl::input_vector(s) | d.sink());
		return {d.source() | pl::output_vector(o), "split in three"};
	}
	case 10: { // unzip, one part sorted, zipped again
		auto & q = w.make<pl::passive_sorter<It, Cmp>>(Cmp{b});
		Seq k = sorted(mapped(in, [](It v) { return h64(v); }), Cmp{b}), want; for (size_t i = 0; i < in.size(); ++i) want.push_back(in[i] ^ k[i]); w.same("unzip, zip", o, want);
		return {pl::input_vector(s) | pl::map([](const It & v) { return std::make_pair(v, h64(v)); }) | pl::unzip(q.input()) | pl::buffer() | pl::zip(q.output()) | pl::map([](const std::pair<It, It> & v) { return v.first ^ v.second; }) | pl::output_vector(o), "unzip, zip"};
	}
	case 11: { // items with a destructor
		Seq want; std::vector<std::string> texts; for (auto v : in) texts.push_back(std::string(v % 60, 'a' + v % 26) + std::to_string(v)); auto ts = texts; if (b % 2) std::reverse(ts.begin(), ts.end()); for (auto & x : ts) want.push_back(std::hash<std::string>()(x)); w.same("strings", o, want);
		auto text = [](const It & v) { return std::string(v % 60, 'a' + v % 26) + std::to_string(v); }; auto hash = [](const std::string & x) -> It { return std::hash<std::string>()(x); };
		if (b % 2) return {pl::input_vector(s) | pl::map(text) | pl::serialization_reverser() | pl::map(hash) | pl::output_vector(o), "strings reversed"};
		return {pl::input_vector(s) | pl::map(text) | pl::serialization_buffer() | pl::map(hash) | pl::output_vector(o), "strings"};
	}
	case 12: { // four phases of passive stages
		auto & x = w.make<pl::passive_reverser<It>>(); auto & y = w.make<pl::passive_buffer<It>>(); auto & z = w.make<pl::passive_sorter<It, Cmp>>(Cmp{a});
		w.same("passive chain", o, sorted(in, Cmp{a}));
		w.others.emplace_back(pl::pull_source(y.output()) | z.input()); w.others.emplace_back(pl::input_vector(s) | x.input()); w.others.emplace_back(pl::pull_source(x.output()) | y.input());
		return {pl::pull_source(z.output()) | pl::output_vector(o), "passive chain"};
	}
	case 13: { auto & f = w.stream(in); auto & g = w.stream(); f.seek(0); w.stream_same("pull streams", g, in); return {pl::pull_input(f) | pl::pull_output(g), "pull streams"}; }
	case 14: { // different types through virtual chunks, devirtualized
		w.same("types", o, mapped(in, [](It v) -> It { return (It)(uint32_t)v + 1; }));
		return {pl::input_vector(s) | pl::devirtualize(pl::virtual_chunk<It, uint32_t>(pl::map([](const It & v) { return (uint32_t)v; }))) | pl::devirtualize(pl::virtual_chunk<uint32_t, It>(pl::map([](const uint32_t & v) -> It { return (It)v + 1; }))) | pl::output_vector(o), "types"};
	}
	default: { // the same for pulling
		auto & f = w.stream(); w.stream_same("pull types", f, mapped(in, [](It v) -> It { return (It)(uint32_t)v + 1; }));
		return {pl::pull_input_vector(s) | pl::devirtualize(pl::virtual_chunk_pull<It, uint32_t>(pl::pull_map([](const It & v) { return (uint32_t)v; }))) | pl::devirtualize(pl::virtual_chunk_pull<uint32_t, It>(pl::pull_map([](const uint32_t & v) -> It { return (It)v + 1; }))) | pl::pull_output(f), "pull types"};
	}
	}
}
