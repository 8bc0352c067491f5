#include "c23.h"
#include <tpie/serialization_stream.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/numeric.h>
#include <tpie/pipelining/split.h>
#include <iterator>

static std::string stored(World & w, const Seq & in) { std::string p = w.path(); tpie::file_stream<It> f; f.open(p, tpie::access_write); for (auto v : in) f.write(v); return p; }
static Seq loaded(const std::string & p) { Seq r; tpie::file_stream<It> f; f.open(p, tpie::access_read); while (f.can_read()) r.push_back(f.read()); return r; }
template <typename F> static pl::virtual_chunk_begin<It> begin(pl::pipe_begin<F> && p) { return pl::virtual_chunk_begin<It>(std::move(p)); }
template <typename F> static pl::virtual_chunk_end<It> end(pl::pipe_end<F> && p) { return pl::virtual_chunk_end<It>(std::move(p)); }
template <typename F> static pl::virtual_chunk_pull<It> mid(pl::pullpipe_middle<F> && p) { return pl::virtual_chunk_pull<It>(std::move(p)); }
template <typename F> static pl::virtual_chunk_pull_begin<It> pbegin(pl::pullpipe_begin<F> && p) { return pl::virtual_chunk_pull_begin<It>(std::move(p)); }
template <typename F> static pl::virtual_chunk_pull_end<It> pend(pl::pullpipe_end<F> && p) { return pl::virtual_chunk_pull_end<It>(std::move(p)); }

// An open stream somewhere else than at the beginning, and whether the option brings it back.
static tpie::file_stream<It> & placed(World & w, const Seq & in, Par p, pl::stream_options & o, size_t & from, bool fromEnd) {
	auto & f = w.stream(in); o = pl::stream_options();
	from = p.a % 3 == 0 ? 0 : p.b % (in.size() + 1); f.seek(from);
	if (p.a % 2) { o |= pl::STREAM_RESET; from = fromEnd ? in.size() : 0; }
	bool close = p.a % 5 == 0; if (close) o |= pl::STREAM_CLOSE;
	w.checks.push_back([&f, close] { return f.is_open() == !close ? "" : close ? "stream option: the stream was not closed" : "stream option: the stream was closed"; });
	return f;
}

Begin begin_stage(int kind, Par p, const Seq & in, World & w) {
	int64_t n = (int64_t)in.size();
	switch (kind) {
	case 0: return {begin(pl::input_vector(w.seq(in))), in, n, "input_vector"};
	case 1: { pl::stream_options o; size_t from; auto & f = placed(w, in, p, o, from, false); return {begin(pl::input(f, o)), Seq(in.begin() + from, in.end()), (int64_t)(in.size() - from), "input"}; }
	case 2: return {begin(pl::named_input(stored(w, in))), in, n, "named_input"};
	case 3: { auto & s = w.seq(in); return {begin(pl::push_input_iterator(s.begin(), s.end())), in, UNKNOWN, "push_input_iterator"}; }
	case 4: { // range, by count
		It from = p.a % 1000, inc = 1 + p.b % 9, to = from + in.size() * inc - (in.empty() ? p.a % (from + 1) : p.a % inc); Seq o;
		for (It v = from; v < to; v += inc) o.push_back(v);
		return {begin(pl::range<It>(from, to, inc)), o, (int64_t)o.size(), "range"};
	}
	case 5: {
		std::string path = w.path(); { tpie::serialization_writer wr; wr.open(path); for (auto v : in) wr.serialize(v); wr.close(); }
		auto & rd = w.make<tpie::serialization_reader>(); rd.open(path);
		return {begin(pl::serialization_input(rd)), in, UNKNOWN, "serialization_input"};
	}
	case 6: { auto & f = w.make<tpie::file_stream<It>>(); (void)p; return {begin(pl::input(f)), Seq(), 0, "closed input"}; }
	case 7: return {begin(pl::pull_source(pl::pull_input_vector(w.seq(in)))), in, n, "pull_source"};
	default: return {begin(pl::pull_source(pl::zero_source<It>())), Seq(), 0, "zero_source"};
	}
}
Begin pull_to_push(pl::virtual_chunk_pull_begin<It> from, const Seq & in, int64_t items) { return {begin(pl::pull_source(pl::devirtualize(from))), in, items, "pulled"}; }

End end_stage(int kind, Par p, const Seq & in, World & w) {
	switch (kind) {
	case 0: { auto & s = w.seq(); w.same("output_vector", s, in); return {end(pl::output_vector(s)), "output_vector"}; }
	case 1: { // appends where the stream is
		Seq before; for (size_t i = 0; i < p.a % 4; ++i) before.push_back(i); auto & f = w.stream(before); f.seek(0, tpie::file_stream_base::end);
		Seq want = before; want.insert(want.end(), in.begin(), in.end()); w.stream_same("output", f, want); return {end(pl::output(f)), "output"};
	}
	case 2: { auto path = w.path(); if (p.a % 2) { tpie::file_stream<It> f; f.open(path, tpie::access_write); for (size_t i = 0; i < p.b % 5000; ++i) f.write(i); } w.checks.push_back([path, in] { return World::differ("named_output", loaded(path), in); }); return {end(pl::named_output<It>(path)), "named_output"}; }
	case 3: { auto & s = w.seq(Seq(in.size() + 2, 5)); Seq want = in; want.push_back(5); want.push_back(5); w.same("push_output_iterator", s, want); return {end(pl::push_output_iterator(s.begin())), "push_output_iterator"}; }
	case 4: { auto & s = w.seq(); w.same("typed_push_output_iterator", s, in); return {end(pl::typed_push_output_iterator<It>(std::back_inserter(s))), "typed_push_output_iterator"}; }
	case 5: { auto & s = w.seq(); w.same("map_sink", s, in); return {end(pl::map_sink([&s](const It & v) { s.push_back(v); })), "map_sink"}; }
	case 6: {
		auto path = w.path(); auto & wr = w.make<tpie::serialization_writer>(); wr.open(path);
		w.checks.push_back([path, in, &wr] { wr.close(); Seq got; tpie::serialization_reader rd; rd.open(path); while (rd.can_read()) { It v; rd.unserialize(v); got.push_back(v); } rd.close(); return World::differ("serialization_output", got, in); });
		return {end(pl::serialization_output<It>(wr)), "serialization_output"};
	}
	case 7: return {end(pl::null_sink<It>()), "null_sink"};
	default: { // two ends
		auto & s = w.seq(); auto & t = w.seq(); w.same("two ends", s, in); w.same("two ends", t, reversed(in));
		return {end(pl::fork(pl::output_vector(s)) | pl::buffer() | pl::reverser() | pl::output_vector(t)), "two ends"};
	}
	}
}

Pull pull_stage(int kind, Par p, const Seq & in, int64_t items, World & w) {
	uint64_t a = p.a;
	switch (kind) {
	case 0: return {mid(pl::pull_map([a](const It & v) { return h64(v ^ a); })), mapped(in, [a](It v) { return h64(v ^ a); }), items, "pull_map"};
	case 1: return {mid(pl::pull_unique(Equal{a})), [&] { // an item is dropped when equal to the first of its run
		Seq r; for (auto v : in) if (r.empty() || !Equal{a}(r.back(), v)) r.push_back(v); return r; }(), items, "pull_unique"};
	case 2: return {mid(pl::pull_peek()), in, items, "pull_peek"};
	case 3: { auto & side = w.seq(); w.same("pull_fork", side, in); return {mid(pl::pull_fork(std::move(pl::output_vector(side).factory))), in, items, "pull_fork"}; }
	case 4: { auto & f = w.stream(); w.stream_same("pull_tee", f, in); return {mid(pl::pull_tee(f)), in, items, "pull_tee"}; }
	case 5: return {mid(pl::pull_map([a](const It & v) { return v * 7 + a; }) | pl::pull_unique(Equal{a}) | pl::pull_peek()), deduped(mapped(in, [a](It v) { return v * 7 + a; }), Equal{a}), items, "pull stages in a row"};
	case 6: return {pl::virtual_chunk_pull<It>(), in, items, "empty pull chunk"};
	default: return {mid(pl::pull_peek() | pl::pull_map([](const It & v) { return ~v; })), mapped(in, [](It v) { return ~v; }), items, "pull_peek and pull_map"};
	}
}

PullBegin pull_begin_stage(int kind, Par p, const Seq & in, World & w) {
	int64_t n = (int64_t)in.size(); uint64_t a = p.a;
	switch (kind) {
	case 0: return {pbegin(pl::pull_input_vector(w.seq(in))), in, n, "pull_input_vector"};
	case 1: { pl::stream_options o; size_t from; auto & f = placed(w, in, p, o, from, false); return {pbegin(pl::pull_input(f, o)), Seq(in.begin() + from, in.end()), (int64_t)(in.size() - from), "pull_input"}; }
	case 2: { pl::stream_options o; size_t from; auto & f = placed(w, in, p, o, from, true); return {pbegin(pl::pull_reverse_input(f, o)), reversed(Seq(in.begin(), in.begin() + from)), (int64_t)from, "pull_reverse_input"}; }
	case 3: return {pbegin(pl::named_pull_input<It>(stored(w, in))), in, n, "named_pull_input"};
	case 4: return {pbegin(pl::zero_source<It>()), Seq(), 0, "pull zero_source"};
	case 5: { auto & s = w.seq(in); return {pbegin(pl::pull_input_iterator(s.begin(), s.end())), in, UNKNOWN, "pull_input_iterator"}; }
	case 6: return {pbegin(pl::pull_input_vector(w.seq(in)) | pl::pull_map([a](const It & v) { return v + a; })), mapped(in, [a](It v) { return v + a; }), n, "pulled map"};
	case 7: return {pbegin(pl::pull_input_vector(w.seq(in)) | (pl::pull_map([a](const It & v) { return v + a; }) | pl::pull_map([](const It & v) -> It { return v * 9; }))), mapped(in, [a](It v) { return (v + a) * 9; }), n, "pulled maps"};
	default: { // a passive stage filled by another pipeline
		switch (a % 4) {
		case 0: { auto & q = w.make<pl::passive_buffer<It>>(); w.others.emplace_back(pl::input_vector(w.seq(in)) | q.input()); return {pbegin(q.output()), in, n, "pulled buffer"}; }
		case 1: { auto & q = w.make<pl::passive_reverser<It>>(); w.others.emplace_back(pl::input_vector(w.seq(in)) | q.input()); return {pbegin(q.output()), reversed(in), n, "pulled reverser"}; }
		case 2: { auto & q = w.make<pl::passive_sorter<It, Cmp>>(Cmp{p.b}); w.others.emplace_back(pl::input_vector(w.seq(in)) | q.input()); return {pbegin(q.output()), sorted(in, Cmp{p.b}), n, "pulled sorter"}; }
		default: { auto & q = w.make<pl::passive_serialization_buffer<It>>(); w.others.emplace_back(pl::input_vector(w.seq(in)) | q.input()); return {pbegin(q.output()), in, n, "pulled serialization buffer"}; }
		}
	}
	}
}
PullEnd pull_end_stage(int kind, Par p, const Seq & in, World & w) {
	(void)p;
	switch (kind) {
	case 0: { auto & f = w.stream(); w.stream_same("pull_output", f, in); return {pend(pl::pull_output(f)), "pull_output"}; }
	case 1: { auto & s = w.seq(Seq(in.size() + 2, 5)); Seq want = in; want.push_back(5); want.push_back(5); w.same("pull_output_iterator", s, want); return {pend(pl::pull_output_iterator(s.begin())), "pull_output_iterator"}; }
	default: { auto & s = w.seq(); w.same("pull_output_iterator", s, in); return {pend(pl::pull_map([](const It & v) { return ~v; }) | pl::pull_map([](const It & v) { return ~v; }) | pl::pull_output_iterator(std::back_inserter(s))), "pull middle and end"}; }
	}
}
