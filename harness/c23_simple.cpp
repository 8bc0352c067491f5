#include "c23.h"
#include <tpie/pipelining/parallel.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/pipelining/visit.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/forwarder.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/map.h>
#include <tpie/pipelining/uniq.h>
#include <tpie/pipelining/numeric.h>
#include <tpie/pipelining/std_glue.h>
#include <tpie/pipelining/subpipeline.h>
#include <iostream>
#include <sstream>

struct Mul { typedef It argument_type; typedef It result_type; uint64_t a; It operator()(const It & v) const { return v * (a | 1) + 3; } };
struct Some { typedef It argument_type; typedef std::pair<It, bool> result_type; uint64_t a; result_type operator()(const It & v) const { return {v + a, keep_item(v, a)}; } };

template <typename dest_t> struct Flatten : pl::node {
	typedef std::vector<It> item_type; dest_t dest; size_t limit;
	Flatten(dest_t dest, size_t limit) : dest(std::move(dest)), limit(limit) { add_push_destination(this->dest); }
	void push(const std::vector<It> & v) { dest.push(v.size()); for (auto x : v) dest.push(x); }
};
template <typename dest_t> struct Expand : pl::node { // 0 to 3 outputs, the last ones when it ends
	typedef It item_type; dest_t dest; uint64_t a; It last = 0; bool any = false;
	Expand(dest_t dest, uint64_t a) : dest(std::move(dest)), a(a) { add_push_destination(this->dest); }
	void push(const It & v) { any = true; last = v; for (uint64_t i = h64(v ^ a) % 4; i--;) dest.push(v + i); }
	void end() override { if (any) dest.push(last); }
};
static Seq expanded(const Seq & s, uint64_t a) { Seq r; for (auto v : s) for (uint64_t i = h64(v ^ a) % 4; i--;) r.push_back(v + i); if (!s.empty()) r.push_back(s.back()); return r; }

// Starts a pipeline of its own for every run of items.
template <typename dest_t> struct Groups : pl::node {
	typedef It item_type;
	struct Back : pl::node { typedef It item_type; dest_t & dest; Back(dest_t & dest) : dest(dest) {} void push(const It & v) { dest.push(v); } };
	dest_t dest; uint64_t a; size_t n = 0, groups = 0; pl::subpipeline<It> sp; bool open = false;
	Groups(dest_t dest, uint64_t a) : dest(std::move(dest)), a(a) { add_push_destination(this->dest); set_minimum_memory(2500000); }
	void push(const It & v) {
		if (!open) {
			typedef pl::pipe_end<pl::termfactory<Back, dest_t &>> back;
			switch (groups % 4) {
			case 0: sp = pl::sort(Cmp{a}) | back(dest); break;
			case 1: sp = pl::map([](const It & v) -> It { return v * 3; }) | pl::reverser() | back(dest); break;
			case 2: sp = pl::virtual_chunk_end<It>(pl::buffer() | back(dest)); break;
			default: sp = back(dest);
			}
			sp.begin(get_available_memory()); open = true; n = 0;
		}
		sp.push(v);
		if (++n == a % 40 + 1) finish();
	}
	void finish() { sp.end(); open = false; ++groups; sp = pl::subpipeline<It>(); }
	void end() override { if (open) finish(); }
	static Seq model(const Seq & s, uint64_t a) {
		Seq r; size_t m = a % 40 + 1, g = 0;
		for (size_t i = 0; i < s.size(); i += m, ++g) {
			Seq x(s.begin() + i, s.begin() + std::min(s.size(), i + m));
			if (g % 4 == 0) x = sorted(x, Cmp{a}); else if (g % 4 == 1) x = reversed(mapped(x, [](It v) { return v * 3; }));
			r.insert(r.end(), x.begin(), x.end());
		}
		return r;
	}
};
struct NoDest { typedef It item_type; void push(const It &) {} const pl::node_token & get_token(); };

struct OutLog { Seq log; };

pl::virtual_chunk<It> probe(int64_t expected, World & w) {
	auto & err = w.make<std::string>("\"items\" was never looked at");
	w.checks.push_back([&err] { return err; });
	return pl::virtual_chunk<It>(pl::propagater([&err, expected](pl::node & n) {
		err.clear();
		if (expected == UNKNOWN) return;
		if (!n.can_fetch("items")) { err = "\"items\" was not forwarded"; return; }
		auto got = n.fetch<tpie::stream_size_type>("items");
		if (got != (tpie::stream_size_type)expected) err = "\"items\" is " + std::to_string(got) + " instead of " + std::to_string(expected);
	}) | pl::item_type<It>());
}

template <typename F> static pl::virtual_chunk<It> chunk(pl::pipe_middle<F> && p) { return pl::virtual_chunk<It>(std::move(p)); }

Push simple_stage(int kind, Par p, const Seq & in, int64_t items, World & w) {
	uint64_t a = p.a, b = p.b;
	switch (kind) {
	case 0: return {chunk(pl::map([a](const It & v) { return v ^ a; })), mapped(in, [a](It v) { return v ^ a; }), items, "map"};
	case 1: return {chunk(pl::map(GenericMap{a}) | pl::item_type<It>()), mapped(in, GenericMap{a}), items, "generic map"};
	case 2: { Seq o; for (auto v : in) if (keep_item(v, a)) o.push_back(v); return {chunk(pl::filter([a](const It & v) { return keep_item(v, a); })), o, items, "filter"}; }
	case 3: return {chunk(pl::unique(Equal{a})), deduped(in, Equal{a}), items, "unique"};
	case 4: return {chunk(pl::pipeuniq()), deduped(in, std::equal_to<It>()), items, "pipeuniq"};
	case 5: return {chunk(pl::linear<It>(a, b)), mapped(in, [a, b](It v) { return v * a + b; }), items, "linear"};
	case 6: return {chunk(pl::lambda(Mul{a})), mapped(in, Mul{a}), items, "lambda"};
	case 7: { Seq o; for (auto v : in) if (keep_item(v, a)) o.push_back(v + a); return {chunk(pl::exclude_lambda(Some{a})), o, items, "exclude_lambda"}; }
	case 8: { // fork: first down the pipeline, then beside
		auto & log = w.seq(); Seq want; for (auto v : in) { want.push_back(v); want.push_back(~v); }
		w.same("fork", log, want);
		return {chunk(pl::fork(pl::map_sink([&log](const It & v) { log.push_back(~v); })) | pl::visit([&log](const It & v) { log.push_back(v); })), in, items, "fork"};
	}
	case 9: { auto & side = w.seq(); w.same("vfork", side, mapped(in, [](It v) { return v + 1; })); return {pl::vfork(pl::virtual_chunk_end<It>(pl::map([](const It & v) -> It { return v + 1; }) | pl::output_vector(side))), in, items, "vfork"}; }
	case 10: { auto & f = w.stream(); w.stream_same("tee", f, in); return {chunk(pl::tee(f)), in, items, "tee"}; }
	case 11: { // zip
		auto & side = w.seq(); for (size_t i = 0; i < in.size() + b % 3; ++i) side.push_back(h64(i + a));
		Seq o; for (size_t i = 0; i < in.size(); ++i) o.push_back(in[i] * 3 + side[i]);
		return {chunk(pl::zip(pl::pull_input_vector(side)) | pl::map([](const std::pair<It, It> & v) { return v.first * 3 + v.second; })), o, UNKNOWN, "zip"};
	}
	case 12: { // unzip
		auto & side = w.seq(); w.same("unzip", side, mapped(in, [a](It v) { return h64(v ^ a); }));
		return {chunk(pl::map([a](const It & v) { return std::make_pair(v, h64(v ^ a)); }) | pl::unzip(pl::output_vector(side))), in, items, "unzip"};
	}
	case 13: { // merge
		auto & side = w.seq(); for (size_t i = 0; i < in.size() + b % 3; ++i) side.push_back(h64(i + a));
		Seq o; for (size_t i = 0; i < in.size(); ++i) { o.push_back(in[i]); o.push_back(side[i]); }
		return {chunk(pl::merge(pl::pull_input_vector(side))), o, UNKNOWN, "merge"};
	}
	case 14: { // ordered merge
		auto & side = w.seq(); for (size_t i = 0; i < b % 300; ++i) side.push_back(i % 5 == 0 && !in.empty() ? in[h64(i) % in.size()] : h64(i + a));
		if (b % 2) std::sort(side.begin(), side.end());
		Seq o; size_t j = 0; for (auto v : in) { while (j < side.size() && side[j] < v) o.push_back(side[j++]); o.push_back(v); }
		while (j < side.size()) o.push_back(side[j++]);
		if (a % 2) return {chunk(pl::ordered_merge(pl::pull_input_vector(side))), o, UNKNOWN, "ordered_merge"};
		return {chunk(pl::ordered_merge(pl::pull_input_iterator(side.begin(), side.end()) | pl::pull_peek())), o, UNKNOWN, "ordered_merge peek"};
	}
	case 15: { // chunker
		size_t m = a % 20 + 1; Seq o;
		for (size_t i = 0; i < in.size(); i += m) { size_t k = std::min(m, in.size() - i); o.push_back(k); o.insert(o.end(), in.begin() + i, in.begin() + i + k); }
		return {chunk(pl::chunker(m) | pl::pipe_middle<pl::factory<Flatten, size_t>>(m)), o, items, "chunker"};
	}
	case 16: { // preparer, propagater, forwarder
		auto & err = w.make<std::string>("forwarder: never looked at"); w.checks.push_back([&err] { return err; });
		auto & prepared = w.make<int>(0); w.checks.push_back([&prepared] { return prepared == 1 ? std::string() : "preparer: called " + std::to_string(prepared) + " times"; });
		std::string key = "told" + std::to_string(w.seen.size()); auto look = [&err, a, key](pl::node & n) { err = !n.can_fetch(key) ? "forwarder: not forwarded" : n.fetch<uint64_t>(key) != a ? "forwarder: another value" : ""; };
		if (b % 2) { // what a pipe is told to forward
			prepared = 1; int64_t n = (int64_t)in.size();
			switch (b / 2 % 6) {
			case 0: return {chunk(pl::map([](const It & v) { return v; }).forward(key, a) | pl::propagater(look) | pl::item_type<It>()), in, items, "forwarding map"};
			case 1: ++w.bufferings; return {chunk(pl::buffer().forward(key, a) | pl::propagater(look) | pl::item_type<It>()), in, n, "forwarding buffer"};
			case 2: ++w.bufferings; return {chunk(pl::reverser().forward(key, a) | pl::propagater(look) | pl::item_type<It>()), reversed(in), n, "forwarding reverser"};
			case 3: ++w.bufferings; return {chunk(pl::sort().forward(key, a) | pl::propagater(look) | pl::item_type<It>()), sorted(in, Cmp{0}), n, "forwarding sort"};
			case 4: ++w.bufferings; return {chunk(pl::serialization_sort().forward(key, a) | pl::propagater(look) | pl::item_type<It>()), sorted(in, Cmp{0}), UNKNOWN, "forwarding serialization_sort"};
			default: ++w.bufferings; return {chunk(pl::map([](const It & v) { return v; }).forward(key, a) | pl::buffer().name("named").memory(2) | pl::sort().name("named").memory(3) | pl::buffer() | pl::propagater(look) | pl::item_type<It>()), sorted(in, Cmp{0}), n, "forwarding far"};
			}
		}
		return {chunk(pl::preparer([&prepared](pl::node &) { ++prepared; }) | pl::forwarder(key, a) | pl::propagater(look) | pl::item_type<It>()), in, items, "forwarder"};
	}
	case 17: { // logger
		auto & out = w.make<std::ostringstream>(); std::string want; for (auto v : in) want += "pushing " + std::to_string(v) + "\n";
		w.checks.push_back([&out, want] { return out.str() == want ? "" : "logger: another text"; });
		return {chunk(pl::pipe_middle<pl::factory<pl::bits::ostream_logger_t, std::ostream &>>(out)), in, items, "logger"};
	}
	case 18: { auto & log = w.seq(); w.same("visit", log, in); return {chunk(pl::visit([&log](const It & v) { log.push_back(v); })), in, items, "visit"}; }
	case 19: return {chunk(pl::pipe_middle<pl::factory<Expand, uint64_t>>(a)), expanded(in, a), items, "expand"};
	case 20: { // parallel
		++w.jobs;
		return {chunk(pl::parallel(pl::map([a](const It & v) { return h64(v + a); }) | pl::filter([b](const It & v) { return keep_item(v, b); }), pl::maintain_order, 1 + a % 3, 1 + b % 50)), [&] { Seq o; for (auto v : in) { It x = h64(v + a); if (keep_item(x, b)) o.push_back(x); } return o; }(), items, "parallel"};
	}
	case 21: { ++w.bufferings; return {chunk(pl::pipe_middle<pl::factory<Groups, uint64_t>>(a)), Groups<NoDest>::model(in, a), items, "subpipeline"}; }
	case 22: {
		if (a % 3 == 0) return {pl::virtual_chunk<It>(), in, items, "empty chunk"};
		bool take = a % 3 == 1; Seq o = take ? mapped(in, [b](It v) { return v - b; }) : in;
		if (b % 2) return {pl::chunk_if(take, chunk(pl::map([b](const It & v) { return v - b; }))), o, items, "chunk_if"};
		auto & side = w.seq(); w.same("chunk_end_if", side, take ? in : Seq());
		return {pl::vfork(pl::chunk_end_if(take, pl::virtual_chunk_end<It>(pl::output_vector(side)))), in, items, "chunk_end_if"};
	}
	default: { // a longer static piece
		auto & side = w.seq(); Seq o, want;
		for (auto v : in) { It x = v + b; want.push_back(x); if (keep_item(x, a)) o.push_back(x * 5 + 7); }
		o = deduped(o, Equal{b}); w.same("static piece", side, want);
		return {chunk(pl::linear<It>(1, b) | pl::fork(pl::output_vector(side)) | (pl::filter([a](const It & v) { return keep_item(v, a); }) | pl::empty_pipe_middle() | pl::linear<It>(5, 7)) | pl::unique(Equal{b})), o, items, "static piece"};
	}
	}
}

// Chunks without pipes: kept out of pipelines they cannot be part of.
template <typename E, typename F> static std::string refuses(const char * what, F f) {
	try { f(); } catch (E &) { return ""; } catch (tpie::exception & e) { return std::string(what) + " threw another exception"; }
	return std::string(what) + " was not refused";
}
std::string misuse(uint64_t a) {
	typedef pl::virtual_chunk<It, std::string> Change; typedef pl::virtual_chunk_begin<It> B; typedef pl::virtual_chunk_end<It> E; typedef pl::virtual_chunk<It> M;
	typedef pl::virtual_chunk_missing_begin NoBegin; typedef pl::virtual_chunk_missing_middle NoMiddle; typedef pl::virtual_chunk_missing_end NoEnd;
	Seq in{a, 1, 2}, out;
	auto id = [] { return chunk(pl::map([](const It & v) { return v; })); };
	auto text = [] { return pl::virtual_chunk<It, std::string>(pl::map([](const It & v) { return std::to_string(v); })); };
	switch (a % 18) {
	case 0: return refuses<NoBegin>("an empty begin | a chunk", [&] { B() | id(); });
	case 1: return refuses<NoBegin>("an empty begin | an end", [&] { pl::pipeline p = B() | E(pl::output_vector(out)); });
	case 2: return refuses<NoEnd>("a begin | an empty end", [&] { pl::pipeline p = B(pl::input_vector(in)) | E(); });
	case 3: return refuses<NoEnd>("a chunk | an empty end", [&] { id() | E(); });
	case 4: return refuses<NoMiddle>("a begin | an empty chunk that changes the type", [&] { B(pl::input_vector(in)) | Change(); });
	case 5: return refuses<NoMiddle>("a chunk | an empty chunk that changes the type", [&] { id() | Change(); });
	case 6: return refuses<NoMiddle>("an empty chunk that changes the type | an end", [&] { Change() | pl::virtual_chunk_end<std::string>(pl::map([](const std::string & s) { return It(s.size()); }) | pl::output_vector(out)); });
	case 7: return refuses<NoBegin>("devirtualize an empty begin", [&] { pl::devirtualize(B()); });
	case 8: return refuses<NoMiddle>("devirtualize an empty chunk", [&] { pl::devirtualize(M()); });
	case 9: return refuses<NoBegin>("devirtualize an empty pull begin", [&] { pl::devirtualize(pl::virtual_chunk_pull_begin<It>()); });
	case 10: return refuses<NoEnd>("devirtualize an empty pull end", [&] { pl::devirtualize(pl::virtual_chunk_pull_end<It>()); });
	case 11: return refuses<NoMiddle>("devirtualize an empty pull chunk", [&] { pl::devirtualize(pl::virtual_chunk_pull<It>()); });
	case 12: { M m; bool was = !m; auto j = M() | id(); if (!was || !j || !m.empty()) return "an empty chunk looks as if it was not"; return ""; }
	// one chunk, two continuations
	case 13: return refuses<tpie::exception>("continuing a chunk with two ends", [&] { M m = id(); E x = m | E(pl::output_vector(out)), y = m | E(pl::output_vector(out)); });
	case 14: return refuses<tpie::exception>("continuing a begin with two chunks", [&] { B b(pl::input_vector(in)); B x = b | id(), y = b | id(); });
	case 15: return refuses<tpie::exception>("continuing a begin with a chunk and an end", [&] { B b(pl::input_vector(in)); B x = b | id(); pl::pipeline p = b | E(pl::output_vector(out)); });
	case 16: return refuses<tpie::exception>("two ends for one pull chunk", [&] {
		pl::virtual_chunk_pull_begin<It> s(pl::pull_input_vector(in)), s2(pl::pull_input_vector(in)); pl::virtual_chunk_pull<It> m(pl::pull_map([](const It & v) { return v; }));
		auto x = s | m; auto y = s2 | m; });
	default: { // assigned twice
		return refuses<tpie::exception>("assigning a chunk twice", [&] { M m = id(); m = pl::map([](const It & v) { return v + 1; }); });
	}
	}
}
