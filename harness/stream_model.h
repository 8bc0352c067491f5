// Model-based driver for TPIE item streams: the real stream and a
// vector-with-cursor model execute the same history; every observation is compared.
#pragma once
#include "io_shim.h"
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/compressed/thread.h>
#include <memory>
#include <unordered_map>

namespace vf {

template <size_t N> struct Item {
	unsigned char b[N];
	bool operator==(const Item & o) const { return memcmp(b, o.b, N) == 0; }
	bool operator!=(const Item & o) const { return !(*this == o); }
};

template <size_t N> inline Item<N> make_item(uint64_t id, int entropy) {
	Item<N> r;
	uint64_t h = mix(id);
	for (size_t i = 0; i < N; ++i) {
		if (i % 8 == 0 && i) h = mix(h);
		unsigned char c = (unsigned char)(h >> (8 * (i % 8)));
		// entropy 0: highly compressible, 1: medium, 2: random
		if (entropy == 0) c = i < 3 ? c : 0;
		else if (entropy == 1) c &= 0x13;
		r.b[i] = c;
	}
	return r;
}
template <size_t N> inline std::string show(const Item<N> & i) {
	std::string s;
	for (size_t k = 0; k < std::min<size_t>(N, 8); ++k) s += fmt("%02x", i.b[k]);
	return s;
}

struct StreamOpts {
	bool compressed = false;     // stream file is in compressed format
	bool isUncompressedStream = false; // tpie::uncompressed_stream
	bool positions = false;      // exercise get_position / set_position / truncate(pos)
	bool reopen = false;         // exercise close / open
	bool plainOps = true;
	int entropy = 2;
	uint64_t userData = 0;       // exercise user data of up to this many bytes
};

inline void set_scheme(tpie::compression_scheme::type t) {
	tpie::compressor_thread_lock l(tpie::the_compressor_thread());
	tpie::the_compressor_thread().set_preferred_compression(l, t);
}

// --- adapters that paper over the small API differences -----------------
template <typename S> struct pos_ops {
	typedef int position;
	static position get(S &) { return 0; }
	static void set(S &, const position &) {}
	static void trunc(S &, const position &) {}
	static uint64_t ro(position) { return 0; }
	static const bool has = false;
};
template <typename T> struct pos_ops<tpie::file_stream<T>> {
	typedef tpie::stream_position position;
	static position get(tpie::file_stream<T> & s) { return s.get_position(); }
	static void set(tpie::file_stream<T> & s, const position & p) { s.set_position(p); }
	static void trunc(tpie::file_stream<T> & s, const position & p) { s.truncate(p); }
	static uint64_t ro(position p) { uint64_t v; memcpy(&v, &p, 8); return v; }
	static const bool has = true;
};

template <typename S, size_t N>
class StreamDriver {
public:
	typedef Item<N> T;
	typedef typename pos_ops<S>::position position;
	struct Saved { position p; uint64_t off; };

	Ctx & c;
	S & s;
	StreamOpts o;
	std::vector<uint64_t> m; // ids of items in the stream
	uint64_t pos = 0;
	uint64_t nextId;
	bool writable = true, readable = true;
	std::vector<Saved> saved;
	uint64_t blockItems;
	int checkProb;
	std::vector<int> weights;
	std::vector<uint64_t> inflight; // items of a write that has not returned
	int64_t truncTo = -1;           // size of a truncation that has not returned
	uint64_t crossBlock = 0, rewrites = 0, appends = 0, eos = 0;

	StreamDriver(Ctx & c, S & s, StreamOpts o) : c(c), s(s), o(o), nextId(c.rng.next() >> 8) {}

	const char * K(const char * k) { static thread_local std::string t; t = std::string(o.isUncompressedStream ? "ustream" : o.compressed ? "compressed" : "plain") + ":" + k; return t.c_str(); }

	T item(uint64_t id) { return make_item<N>(id, o.entropy); }

	void observe() {
		VF_CHECK(c, s.size() == m.size(), K("size"), "size()=%llu, model %zu", (unsigned long long)s.size(), m.size());
		VF_CHECK(c, s.offset() == pos, K("offset"), "offset()=%llu, model %llu (size %zu)", (unsigned long long)s.offset(), (unsigned long long)pos, m.size());
		if (readable) VF_CHECK(c, s.can_read() == (pos < m.size()), K("can_read"), "can_read()=%d at %llu of %zu", (int)s.can_read(), (unsigned long long)pos, m.size());
		VF_CHECK(c, s.can_read_back() == (pos > 0), K("can_read_back"), "can_read_back()=%d at %llu", (int)s.can_read_back(), (unsigned long long)pos);
		count("observations");
	}
	void maybe_observe() { if (c.rng.chance(checkProb)) observe(); }

	void cmp(const T & got, uint64_t at, const char * what) {
		if (got != item(m[at]))
			c.fail(K(what), "%s returned %s for item %llu of %zu, expected %s", what, show<N>(got).c_str(), (unsigned long long)at, m.size(), show<N>(item(m[at])).c_str());
		count("items_compared");
	}

	void note_move(uint64_t from) { if (blockItems && from / blockItems != pos / blockItems) ++crossBlock; }

	void op_write(uint64_t n, bool array) {
		c.op("%s %llu", array ? "write_array" : "write", (unsigned long long)n);
		std::vector<T> buf;
		std::vector<uint64_t> ids;
		for (uint64_t i = 0; i < n; ++i) { ids.push_back(nextId++); buf.push_back(item(ids.back())); }
		bool expectThrow = o.compressed && pos != m.size() && n > 0;
		if (expectThrow) {
			bool threw = false;
			try { s.write(buf[0]); } catch (const tpie::stream_exception &) { if (!s.is_open()) throw; threw = true; }
			VF_CHECK(c, threw, K("nonappend"), "write at %llu of %zu in a compressed stream did not throw", (unsigned long long)pos, m.size());
			count("nonappend_rejected");
			observe();
			return;
		}
		inflight = ids;
		if (array) s.write(buf.begin(), buf.end());
		else for (auto & x : buf) s.write(x);
		inflight.clear();
		uint64_t from = pos;
		for (uint64_t i = 0; i < n; ++i) {
			if (pos < m.size()) { m[pos] = ids[i]; ++rewrites; } else { m.push_back(ids[i]); ++appends; }
			++pos;
		}
		note_move(from);
	}

	void op_read(uint64_t n) {
		c.op("read %llu", (unsigned long long)n);
		uint64_t from = pos;
		for (uint64_t i = 0; i < n; ++i) {
			if (pos < m.size()) {
				if (c.rng.chance(10)) cmp(s.peek(), pos, "peek");
				if (c.rng.chance(5)) s.skip(); else cmp(s.read(), pos, "read");
				++pos;
			} else {
				bool threw = false;
				try { s.read(); } catch (const tpie::end_of_stream_exception &) { threw = true; }
				VF_CHECK(c, threw, K("eos"), "read at end (%zu) did not throw end_of_stream", m.size());
				++eos; count("end_of_stream_seen");
				observe();
				break;
			}
		}
		note_move(from);
	}

	void op_read_array(uint64_t n) {
		c.op("read_array %llu", (unsigned long long)n);
		std::vector<T> buf(n);
		uint64_t from = pos;
		bool threw = false;
		try { s.read(buf.begin(), buf.end()); } catch (const tpie::end_of_stream_exception &) { threw = true; }
		bool shouldThrow = pos + n > m.size();
		VF_CHECK(c, threw == shouldThrow, K("read_array_eos"), "read of %llu items at %llu of %zu: threw=%d", (unsigned long long)n, (unsigned long long)pos, m.size(), (int)threw);
		if (!threw) {
			for (uint64_t i = 0; i < n; ++i) cmp(buf[i], pos + i, "read_array");
			pos += n;
		} else {
			// The items before the end may or may not have been consumed, but the
			// cursor must be somewhere sensible and the items before it delivered.
			uint64_t off = s.offset();
			VF_CHECK(c, off >= pos && off <= m.size(), K("read_array_offset"), "offset %llu after failed array read at %llu of %zu", (unsigned long long)off, (unsigned long long)pos, m.size());
			for (uint64_t i = pos; i < off; ++i) cmp(buf[i - pos], i, "read_array");
			pos = off;
			count("end_of_stream_seen");
			observe();
		}
		note_move(from);
	}

	void op_read_back(uint64_t n) {
		c.op("read_back %llu", (unsigned long long)n);
		uint64_t from = pos;
		for (uint64_t i = 0; i < n; ++i) {
			if (pos > 0) {
				--pos;
				if (c.rng.chance(5)) s.skip_back(); else cmp(s.read_back(), pos, "read_back");
			} else {
				bool threw = false;
				try { s.read_back(); }
				catch (const tpie::end_of_stream_exception &) { threw = true; }
				catch (const tpie::io_exception &) { threw = o.isUncompressedStream; }
				VF_CHECK(c, threw, K("bos"), "read_back at 0 did not throw");
				count("begin_of_stream_seen");
				observe();
				break;
			}
		}
		note_move(from);
	}

	void op_peek() {
		c.op("peek");
		if (pos < m.size()) cmp(s.peek(), pos, "peek");
		else {
			bool threw = false;
			try { s.peek(); } catch (const tpie::end_of_stream_exception &) { threw = true; }
			VF_CHECK(c, threw, K("peek_eos"), "peek at end did not throw");
			observe();
		}
	}

	void op_seek() {
		uint64_t from = pos;
		int w = c.rng.below(o.compressed ? 3 : 6);
		if (w == 0) { c.op("seek beginning"); s.seek(0); pos = 0; }
		else if (w == 1) { c.op("seek end"); s.seek(0, S::end); pos = m.size(); }
		else if (w == 2) { c.op("seek current+0"); s.seek(0, S::current); }
		else {
			uint64_t t = target();
			if (w == 3) { c.op("seek %llu", (unsigned long long)t); s.seek(t); }
			else if (w == 4) { c.op("seek end-%llu", (unsigned long long)(m.size() - t)); s.seek((int64_t)t - (int64_t)m.size(), S::end); }
			else { c.op("seek cur%+lld", (long long)t - (long long)pos); s.seek((int64_t)t - (int64_t)pos, S::current); }
			pos = t;
		}
		note_move(from);
	}

	uint64_t target() { // interesting offsets in [0, size]
		uint64_t n = m.size();
		switch (c.rng.below(5)) {
		case 0: return c.rng.below(n + 1);
		case 1: return std::min<uint64_t>(n, pos + c.rng.below(4));
		case 2: return pos - std::min<uint64_t>(pos, c.rng.below(4));
		case 3: { // block boundary +-1
			if (!blockItems) return n;
			uint64_t b = c.rng.below(n / blockItems + 1) * blockItems;
			int64_t t = (int64_t)b + c.rng.range(-1, 1);
			return std::min<int64_t>(std::max<int64_t>(t, 0), n);
		}
		default: return n - std::min<uint64_t>(n, c.rng.below(3));
		}
	}

	void op_bad_seek() {
		if (o.compressed) {
			c.op("seek unsupported");
			bool threw = false;
			try { s.seek(1 + c.rng.below(5)); } catch (const tpie::stream_exception &) { if (!s.is_open()) throw; threw = true; }
			VF_CHECK(c, threw, K("badseek"), "arbitrary seek in a compressed stream did not throw");
		} else {
			c.op("seek outside");
			bool threw = false;
			try {
				int w = c.rng.below(3);
				if (w == 0) s.seek(m.size() + 1 + c.rng.below(3 * blockItems + 3));
				else if (w == 1) s.seek(1 + c.rng.below(3), S::end);
				else s.seek((int64_t)(m.size() - pos) + 1 + c.rng.below(3), S::current);
			} catch (const tpie::exception &) { if (!s.is_open()) throw; threw = true; }
			VF_CHECK(c, threw, K("badseek"), "seek outside [0,size] did not throw");
		}
		count("bad_seek_rejected");
		observe();
	}

	void drop_positions(uint64_t newSize) {
		// documented: a position is violated if the stream is truncated to before it
		std::vector<Saved> k;
		for (auto & x : saved) if (x.off <= newSize) k.push_back(x);
		saved.swap(k);
	}

	void op_truncate() {
		uint64_t t = target();
		if (o.compressed) t = c.rng.chance(50) ? 0 : m.size();
		do_truncate(t);
	}
	void do_truncate(uint64_t t) {
		c.op("truncate %llu", (unsigned long long)t);
		truncTo = t;
		s.truncate(t);
		truncTo = -1;
		drop_positions(t);
		m.resize(t);
		if (pos > t) pos = t;
		observe();
		count("truncates");
	}

	void op_bad_truncate() {
		if (!o.compressed || m.size() < 2) return;
		c.op("truncate unsupported");
		bool threw = false;
		try { s.truncate((uint64_t)1 + c.rng.below(m.size() - 1)); } catch (const tpie::stream_exception &) { if (!s.is_open()) throw; threw = true; }
		VF_CHECK(c, threw, K("badtruncate"), "arbitrary truncate of a compressed stream did not throw");
		observe();
	}

	void op_getpos() {
		c.op("get_position @%llu", (unsigned long long)pos);
		Saved x; x.p = pos_ops<S>::get(s); x.off = pos;
		if (c.tracing) fprintf(stderr, "    read_offset %llu\n", (unsigned long long)pos_ops<S>::ro(x.p));
		observe();
		if (saved.size() < 64) saved.push_back(x); else saved[c.rng.below(64)] = x;
		count("positions_taken");
	}
	void op_setpos() {
		if (saved.empty()) return op_getpos();
		uint64_t from = pos;
		Saved & x = saved[c.rng.below(saved.size())];
		c.op("set_position @%llu", (unsigned long long)x.off);
		pos_ops<S>::set(s, x.p);
		pos = x.off;
		note_move(from);
		count("positions_restored");
	}
	void op_truncpos() {
		if (saved.empty()) return op_getpos();
		truncpos(saved[c.rng.below(saved.size())]);
	}
	void op_truncpos_near(uint64_t t) { // the saved position nearest to t
		if (saved.empty()) return op_getpos();
		size_t best = 0;
		auto d = [&](size_t i) { return saved[i].off > t ? saved[i].off - t : t - saved[i].off; };
		for (size_t i = 1; i < saved.size(); ++i) if (d(i) < d(best) || (d(i) == d(best) && c.rng.chance(30))) best = i;
		truncpos(saved[best]);
	}
	void truncpos(Saved x) {
		c.op("truncate(position @%llu)", (unsigned long long)x.off);
		truncTo = x.off;
		pos_ops<S>::trunc(s, x.p);
		truncTo = -1;
		drop_positions(x.off);
		m.resize(x.off);
		if (pos > x.off) pos = x.off;
		observe();
		count("position_truncates");
	}

	/** Fill, move, truncate and write right around the last block boundary. */
	void op_boundary() {
		if (!blockItems || blockItems > 600) return;
		bool posOk = o.positions && pos_ops<S>::has;
		auto move = [&] {
			switch (c.rng.below(8)) {
			case 0: c.op("seek 0"); s.seek(0); pos = 0; break;
			case 1: c.op("seek end"); s.seek(0, S::end); pos = m.size(); break;
			case 2: if (readable) op_read_back(1 + c.rng.below(3)); break;
			case 3: if (readable) op_read(1 + c.rng.below(3)); break;
			case 4: if (posOk) op_getpos(); break;
			case 5: if (posOk) op_setpos(); break;
			default: break;
			}
		};
		auto write = [&](uint64_t n) {
			if (o.compressed && pos != m.size()) { c.op("seek end"); s.seek(0, S::end); pos = m.size(); }
			if (n) op_write(n, c.rng.chance(30));
		};
		c.op("seek end"); s.seek(0, S::end); pos = m.size();
		uint64_t fill = (blockItems - m.size() % blockItems) % blockItems;
		if (c.rng.chance(30)) fill += blockItems;
		if (c.rng.chance(25) && fill) --fill;
		if (fill) op_write(fill, c.rng.chance(30));
		if (posOk && c.rng.chance(60)) op_getpos();
		write(c.rng.below(3));
		if (posOk && c.rng.chance(30)) op_getpos();
		move();
		if (c.rng.chance(75)) {
			uint64_t t = m.size() - m.size() % blockItems;
			t = std::min<uint64_t>(m.size(), std::max<int64_t>(0, (int64_t)t + c.rng.pick({0, 0, 0, -1, 1})));
			if (o.compressed) {
				if (posOk) op_truncpos_near(t);
			} else if (posOk && c.rng.chance(30)) op_truncpos_near(t);
			else do_truncate(t);
		}
		move();
		if (c.rng.chance(60)) write(1 + c.rng.below(3));
		move();
		if (opReopen && c.rng.chance(25)) opReopen();
		if (c.rng.chance(40)) { c.op("seek end"); s.seek(0, S::end); pos = m.size(); if (readable) op_read_back(1 + c.rng.below(blockItems + 1)); }
		count("boundary_scenarios");
	}

	std::function<void()> opReopen;
	template <typename X> static auto describe_(X & x, int) -> decltype(x.describe(), void()) { fprintf(stderr, "    %s\n", x.describe().c_str()); }
	template <typename X> static void describe_(X &, long) {}

	std::string ud; // user data of the stream
	void op_userdata() {
		if (writable && c.rng.chance(60)) {
			std::string d(c.rng.below(o.userData + 1), '\0');
			for (auto & x : d) x = (char)c.rng.next();
			c.op("write_user_data %zu", d.size());
			s.write_user_data(d.data(), d.size());
			ud = d;
			count("user_data_written");
		} else {
			c.op("read_user_data");
			std::string b(o.userData + 1, '\x5a');
			size_t got = s.read_user_data(&b[0], b.size());
			VF_CHECK(c, got == ud.size() && b.compare(0, got, ud) == 0, K("user_data"), "%zu bytes of user data, expected %zu%s", got, ud.size(), got == ud.size() ? ", and they differ" : "");
			count("user_data_compared");
		}
	}

	void step() {
		if (o.userData && c.rng.chance(8)) op_userdata();
		if (c.tracing && getenv("VF_DESCRIBE")) describe_(s, 0);
		uint64_t total = 0;
		for (int w : weights) total += w;
		uint64_t r = c.rng.below(total);
		size_t k = 0;
		while (r >= (uint64_t)weights[k]) { r -= weights[k]; ++k; }
		uint64_t big = 2 * blockItems + 3;
		uint64_t n = c.rng.chance(50) ? 1 + c.rng.below(3) : 1 + c.rng.below(std::min<uint64_t>(big, 300));
		switch (k) {
		case 0: if (writable) op_write(n, false); break;
		case 1: if (writable) op_write(n, true); break;
		case 2: if (readable) op_read(n); break;
		case 3: if (readable) op_read_array(n); break;
		case 4: if (readable) op_read_back(n); break;
		case 5: if (readable) op_peek(); break;
		case 6: op_seek(); break;
		case 7: op_bad_seek(); break;
		case 8: if (writable) op_truncate(); break;
		case 9: if (writable) op_bad_truncate(); break;
		case 10: if (o.positions && pos_ops<S>::has) op_getpos(); break;
		case 11: if (o.positions && pos_ops<S>::has) op_setpos(); break;
		case 12: if (o.positions && pos_ops<S>::has && writable) op_truncpos(); break;
		case 13: if (opReopen) opReopen(); break;
		case 14: // append run: go to the end first
			if (writable) { c.op("seek end"); s.seek(0, S::end); pos = m.size(); op_write(n, false); }
			break;
		}
		if (k == 15 && writable) op_boundary();
		maybe_observe();
	}

	void choose_profile() {
		Rng & r = c.rng;
		checkProb = r.pick({0, 20, 100});
		//            wr wa rd ra rb pk sk bs tr bt gp sp tp ro ap
		weights = r.pick(std::vector<std::vector<int>>{
			{10, 6, 10, 6, 8, 4, 6, 1, 2, 1, 0, 0, 0, 0, 4},
			{4, 0, 6, 0, 20, 2, 4, 1, 1, 0, 0, 0, 0, 0, 8},
			{12, 10, 3, 2, 3, 1, 3, 0, 1, 0, 0, 0, 0, 0, 4},
			{6, 3, 6, 3, 6, 3, 10, 2, 8, 1, 0, 0, 0, 0, 6},
			{8, 0, 8, 0, 8, 8, 0, 0, 0, 0, 0, 0, 0, 0, 6}});
		if (o.positions) { weights[10] = r.pick({4, 12}); weights[11] = r.pick({4, 12}); weights[12] = r.pick({0, 3, 8}); }
		weights.push_back(r.pick({0, 2, 8}));
		if (o.reopen) weights[13] = r.pick({1, 4, 10});
	}

	void sweep() {
		if (!readable) return;
		c.op("final sweep");
		observe();
		s.seek(0);
		pos = 0;
		for (; pos < m.size(); ++pos) cmp(s.read(), pos, "sweep_read");
		observe();
		s.seek(0, S::end);
		while (pos > 0) { --pos; cmp(s.read_back(), pos, "sweep_read_back"); }
		observe();
	}

	void run(uint64_t ops) {
		blockItems = 0;
		blockItems = s.block_items();
		for (uint64_t i = 0; i < ops; ++i) step();
		sweep();
		count("operations", ops);
		count("block_crossings", crossBlock);
		count("overwrites", rewrites);
		count("appends", appends);
		count_max("stream_items", m.size());
		if (crossBlock > 1 && appends > 2) c.nontrivial = true;
	}
};

} // namespace vf
