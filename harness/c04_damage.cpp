// C04: damaged, foreign or unfinished files are refused, never misread.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
#include <tpie/stream_header.h>
#include <csignal>
using namespace vf;
typedef tpie::stream_header_t H;

enum Kind { PLAIN, COMPRESSED, SER, RSER };

static size_t hdr_area(uint64_t maxUd) { return (sizeof(H) + maxUd + 4095) / 4096 * 4096; }

template <size_t N> struct Victim {
	typedef Item<N> T;
	Ctx & c; Rng & r;
	Kind kind; std::string path;
	std::vector<uint64_t> m; int entropy; uint64_t perBlock, blockBytes, maxUd = 0;
	std::string ser;   // bytes of a serialization stream
	std::string bytes; // the intact file
	std::vector<std::pair<size_t, size_t>> blocks; // compressed: file offset and length of every block
	bool multi = true;
	Victim(Ctx & c) : c(c), r(c.rng) {}
	T item(uint64_t id) { return make_item<N>(id, entropy); }

	void create() {
		uint64_t id = r.next() >> 8;
		if (kind == SER || kind == RSER) {
			size_t n = r.chance(10) ? (2 << 20) + r.below(3000) - 1000 : r.size(5000);
			ser.resize(n);
			for (size_t i = 0; i < n; ++i) ser[i] = (char)(mix(id + i / 8) >> (8 * (i % 8)));
			if (kind == SER) {
				tpie::serialization_writer w; w.open(path);
				{ tpie::serialization_writer::serializer s(w); s.write(ser.data(), ser.size()); }
				w.close();
			} else {
				tpie::serialization_reverse_writer w; w.open(path);
				{ tpie::serialization_reverse_writer::serializer s(w); s.write(ser.data(), ser.size()); }
				w.close();
			}
		} else {
			uint64_t n = r.size(perBlock * 12);
			if (r.chance(20)) n = n / perBlock * perBlock;
			maxUd = r.pick({0, 0, 10, 5000});
			for (uint64_t i = 0; i < n; ++i) m.push_back(id + i);
			if (kind == COMPRESSED || r.chance(60)) {
				tpie::file_stream<T> s;
				s.open(path, kind == COMPRESSED ? r.pick({tpie::open::compression_all, tpie::open::compression_normal}) : tpie::open::defaults, maxUd);
				for (auto x : m) s.write(item(x));
				if (maxUd) { std::string u(r.below(maxUd + 1), 'u'); s.write_user_data(u.data(), u.size()); }
				s.close();
			} else {
				tpie::uncompressed_stream<T> s;
				s.open(path, tpie::access_read_write, maxUd);
				for (auto x : m) s.write(item(x));
				s.close();
			}
		}
		bytes = slurp(path);
		if (kind == COMPRESSED) {
			size_t at = hdr_area(maxUd);
			while (at + 8 <= bytes.size()) {
				uint32_t h; memcpy(&h, &bytes[at], 4);
				size_t len = 8 + (h & 0xffffff);
				blocks.push_back({at, len});
				at += len;
			}
			VF_CHECK(c, blocks.size() == (m.size() + perBlock - 1) / perBlock, "block_layout", "%zu blocks on disk for %zu items of %llu per block", blocks.size(), m.size(), (unsigned long long)perBlock);
		}
	}

	enum Expect { ANY, REFUSE_OPEN, PREFIX, INTACT, READ_THROWS };
	Expect expect = ANY;
	bool flipped = false; // the direction flag of a serialization stream may say the other one

	// Damages `bytes` and says what opening and reading must do.
	std::string damage(std::string b) {
		std::string d = damage_(std::move(b));
		flipped = kind >= SER && d.size() > 26 && d[25] != bytes[25];
		return d;
	}
	std::string damage_(std::string b) {
		bool ser = kind >= SER;
		size_t hs = ser ? 26 : sizeof(H);
		switch (r.below(9)) {
		case 0: { // cut
			size_t t = r.chance(30) ? r.below(std::min<size_t>(b.size(), 5000) + 1) : r.below(b.size() + 1);
			if (r.chance(30) && !blocks.empty()) { auto & x = r.pick(blocks); t = x.first + r.pick({0, 1, 4, 5}) + (r.chance(50) ? x.second - 4 : 0); t = std::min(t, b.size()); }
			c.op("cut to %zu of %zu", t, b.size());
			bool all = t == b.size();
			b.resize(t);
			expect = all ? INTACT : t < hs ? REFUSE_OPEN : PREFIX;
			count("damage_cut");
			break;
		}
		case 1: case 2: { // header field
			H h; memcpy(&h, b.data(), sizeof h);
			uint64_t v = r.pick<uint64_t>({0, 1, ~0ull, ~0ull >> 1, 1ull << 63, r.next(), r.below(100), (uint64_t)m.size() + r.below(10), 4096, ~0ull - r.below(5000)});
			if (ser) {
				int f = r.below(5);
				uint64_t off[5] = {0, 8, 16, 24, 25};
				size_t len = f < 3 ? 8 : 1;
				uint64_t old = 0; memcpy(&old, &b[off[f]], len);
				if (r.chance(50)) v = old ^ (1ull << r.below(8 * len));
				if (len == 1) v &= 0xff;
				memcpy(&b[off[f]], &v, len);
				c.op("serialization header field %d: %llx -> %llx", f, (unsigned long long)old, (unsigned long long)v);
				expect = v == old ? INTACT : f == 2 ? PREFIX : REFUSE_OPEN;
			} else {
				int f = r.below(9);
				uint64_t * p = reinterpret_cast<uint64_t *>(&h) + f;
				uint64_t old = *p;
				if (r.chance(50)) v = old ^ (1ull << r.below(64));
				*p = v;
				memcpy(&b[0], &h, sizeof h);
				c.op("header field %d: %llx -> %llx", f, (unsigned long long)old, (unsigned long long)v);
				if (v == old) expect = INTACT;
				else if (f < 4) expect = REFUSE_OPEN;
				else if (f == 4) expect = v > maxUd ? REFUSE_OPEN : PREFIX;
				else if (f == 5) expect = v < h.userDataSize ? REFUSE_OPEN : ANY;
				else if (f == 6) expect = PREFIX;
				else if (f == 7) expect = !(v & 1) ? REFUSE_OPEN : ((v ^ old) & 2) ? ANY : PREFIX;
				else expect = PREFIX; // offset of the last block is only used to go to the end
			}
			count("damage_header_field");
			break;
		}
		case 3: { // random header bits
			size_t k = 1 + r.below(4);
			for (size_t i = 0; i < k; ++i) { size_t at = r.below(hs); b[at] ^= (char)(1 << r.below(8)); c.op("flip header byte %zu", at); }
			expect = ANY;
			if (b == bytes) expect = INTACT;
			else if (!ser && memcmp(b.data(), bytes.data(), 32) != 0) expect = REFUSE_OPEN;
			else if (ser && (memcmp(b.data(), bytes.data(), 16) != 0 || memcmp(b.data() + 24, bytes.data() + 24, 2) != 0)) expect = REFUSE_OPEN;
			count("damage_header_bits");
			break;
		}
		case 4: case 5: { // body
			size_t h = hdr_area(maxUd);
			if (b.size() <= h) { b += "trailing"; c.op("append garbage"); expect = PREFIX; break; }
			if (!blocks.empty() && r.chance(70)) { // block header or trailer: the two no longer agree
				auto & x = r.pick(blocks);
				size_t at = x.first + r.below(4) + (r.chance(50) ? x.second - 4 : 0);
				b[at] ^= (char)(1 << r.below(8));
				c.op("flip block frame byte %zu", at);
				expect = READ_THROWS;
				count("damage_block_frame");
			} else if (!blocks.empty() && r.chance(50)) { // both at once: consistent but wrong
				auto & x = r.pick(blocks);
				size_t o = r.below(4); char f = (char)(1 << r.below(8));
				b[x.first + o] ^= f; b[x.first + x.second - 4 + o] ^= f;
				c.op("flip block frame byte %zu twice", x.first + o);
				expect = ANY;
				count("damage_block_frame_both");
			} else {
				size_t k = 1 + r.below(20);
				for (size_t i = 0; i < k; ++i) { size_t at = h + r.below(b.size() - h); b[at] = (char)r.next(); }
				c.op("overwrite %zu body bytes", k);
				expect = ANY;
				count("damage_body");
			}
			break;
		}
		case 6: { // garbage at the end
			size_t k = 1 + r.below(5000);
			for (size_t i = 0; i < k; ++i) b.push_back((char)r.next());
			c.op("append %zu", k);
			expect = PREFIX; // the items before are all there
			count("damage_append");
			break;
		}
		case 7: { // not a stream at all
			switch (r.below(4)) {
			case 0: b.clear(); break;
			case 1: b.assign(r.below(10000), 0); break;
			case 2: b.resize(r.below(10000)); for (auto & ch : b) ch = (char)r.next(); break;
			default: b = "#!/bin/sh\necho hello\n"; b.resize(20 + r.below(200), 'x');
			}
			c.op("foreign file of %zu bytes", b.size());
			expect = b.empty() ? REFUSE_OPEN : REFUSE_OPEN;
			count("damage_foreign");
			break;
		}
		default: { // holes
			size_t h = hdr_area(maxUd);
			size_t a = r.below(b.size()), e = std::min(b.size(), a + r.below(6000));
			memset(&b[0] + a, 0, e - a);
			c.op("zero [%zu,%zu)", a, e);
			expect = b == bytes ? INTACT : a < 16 && e > a ? REFUSE_OPEN : ANY;
			(void)h;
			count("damage_zero");
		}
		}
		return b;
	}

	bool bodyKnown(const std::string & b) { // the item bytes of a plain file are where they were
		return kind == PLAIN && b.size() >= sizeof(H) && memcmp(&b[40], &bytes[40], 8) == 0;
	}

	void check_item(const std::string & b, const T & x, uint64_t at, bool exact) {
		if (kind == PLAIN && bodyKnown(b)) {
			size_t off = hdr_area(maxUd) + at / perBlock * blockBytes + at % perBlock * N;
			VF_CHECK(c, off + N <= b.size(), "more_than_file_holds", "item %llu was handed out but the file ends at byte %zu", (unsigned long long)at, b.size());
			VF_CHECK(c, memcmp(&x, &b[off], N) == 0, "misread", "item %llu is not what the file holds", (unsigned long long)at);
		}
		if (exact) {
			VF_CHECK(c, at < m.size(), "too_many_items", "item %llu of a file of %zu items", (unsigned long long)at, m.size());
			VF_CHECK(c, x == item(m[at]), "misread", "item %llu is not the item written", (unsigned long long)at);
		}
		count("items_read_from_damaged");
	}

	// Reads everything it can; returns whether an exception ended it.
	template <typename S> bool consume(S & s, const std::string & b, bool exact, uint64_t & got) {
		got = 0;
		uint64_t bound = s.size();
		try {
			while (s.can_read()) {
				T x = s.read();
				check_item(b, x, got, exact);
				++got;
				VF_CHECK(c, got <= bound, "too_many_items", "read %llu items of %llu", (unsigned long long)got, (unsigned long long)bound);
				if (got > 200000) break;
			}
		} catch (const Violation &) { throw; }
		catch (const tpie::exception &) { return true; }
		catch (const std::exception & e) { c.fail("foreign_exception", "%s: %s", type_name(e).c_str(), e.what()); }
		return false;
	}

	template <typename S, typename O> void attempt(const std::string & b, O open, const char * what) {
		size_t fds = io().open_count(), mgr = tpie::get_file_manager().used();
		bool opened = false, threw = false;
		uint64_t got = 0;
		{
			S s;
			try { open(s); opened = true; }
			catch (const tpie::exception &) {}
			catch (const std::exception & e) { c.fail("foreign_exception", "%s: %s", type_name(e).c_str(), e.what()); }
			c.op("%s %s", what, opened ? "opened" : "refused");
			if (!opened) {
				VF_CHECK(c, io().open_count() == fds, "fd_leak", "refused open left %zu descriptors open (was %zu)", io().open_count(), fds);
				VF_CHECK(c, tpie::get_file_manager().used() == mgr, "fd_account", "refused open changed the number of open files");
				count("refused");
			} else {
				VF_CHECK(c, expect != REFUSE_OPEN, "accepted", "%s accepted a file that must be refused", what);
				bool exact = expect == PREFIX || expect == INTACT;
				try {
					uint64_t n = s.size();
					threw = consume(s, b, exact, got);
					if (expect == INTACT) VF_CHECK(c, !threw && got == m.size(), "intact_refused", "intact file: threw %d after %llu of %zu items", (int)threw, (unsigned long long)got, m.size());
					if (expect == PREFIX && !threw) VF_CHECK(c, got == std::min<uint64_t>(n, m.size()), "short", "read %llu items of %llu without an error", (unsigned long long)got, (unsigned long long)n);
					if (expect == READ_THROWS) VF_CHECK(c, threw, "inconsistent_accepted", "all %llu items were read over an inconsistent block", (unsigned long long)got);
					if (!threw && r.chance(60)) hostile(s, b, exact);
				} catch (const Violation &) { throw; }
				catch (const tpie::exception &) { threw = true; }
				try { s.close(); } catch (const tpie::exception &) {}
				count("accepted");
			}
			if (threw) count("refused_in_reading");
		}
		VF_CHECK(c, io().open_count() == fds, "fd_leak", "%zu descriptors open after the stream is gone (was %zu)", io().open_count(), fds);
		VF_CHECK(c, tpie::get_file_manager().used() == mgr, "fd_account", "open file count did not return");
	}

	// anything goes, as long as it ends and stays within its own memory
	void hostile(tpie::file_stream<T> & s, const std::string & b, bool exact) {
		uint64_t bound = s.size();
		for (int i = 0; i < 12; ++i) {
			switch (r.below(6)) {
			case 0: s.seek(0, tpie::file_stream<T>::end); break;
			case 1: for (int k = 0; k < 20 && s.can_read_back(); ++k) { T x = s.read_back(); if (expect == INTACT) check_item(b, x, s.offset(), exact); } break;
			case 2: for (int k = 0; k < 20 && s.can_read(); ++k) { uint64_t at = s.offset(); T x = s.read(); if (expect == INTACT) check_item(b, x, at, exact); } break;
			case 3: s.seek(0); break;
			case 4: if (s.is_writable() && expect != INTACT) { s.seek(0, tpie::file_stream<T>::end); s.write(item(1)); } break;
			default: { char u[64]; s.read_user_data(u, sizeof u); }
			}
			VF_CHECK(c, s.offset() <= s.size(), "offset", "offset beyond size");
		}
		(void)bound;
	}
	void hostile(tpie::uncompressed_stream<T> & s, const std::string &, bool) {
		for (int i = 0; i < 8; ++i) {
			switch (r.below(4)) {
			case 0: s.seek(0, tpie::uncompressed_stream<T>::end); break;
			case 1: for (int k = 0; k < 20 && s.can_read_back(); ++k) s.read_back(); break;
			case 2: for (int k = 0; k < 20 && s.can_read(); ++k) s.read(); break;
			default: s.seek(0);
			}
		}
	}

	struct FileReader { // file with one cursor, dressed as a stream
		tpie::file<T> f;
		typename tpie::file<T>::stream s;
		uint64_t size() { return f.size(); }
		bool can_read() { return s.can_read(); }
		T read() { return s.read(); }
		void close() { s.detach(); f.close(); }
		~FileReader() { if (s.attached()) s.detach(); }
	};
	void hostile(FileReader &, const std::string &, bool) {}

	template <typename RD, bool rev> void attempt_ser() {
		size_t fds = io().open_count();
		bool opened = false, threw = false;
		std::string got;
		{
			RD rd;
			try { rd.open(path); opened = true; } catch (const tpie::exception &) {}
			if (!opened) { VF_CHECK(c, io().open_count() == fds, "fd_leak", "refused open left a descriptor open"); count("refused"); }
			else {
				VF_CHECK(c, expect != REFUSE_OPEN, "accepted", "serialization reader accepted a file that must be refused");
				try {
					while (rd.can_read()) { char x; rd.read(&x, 1); got.push_back(x); if (got.size() > (5u << 20)) break; }
				} catch (const tpie::exception &) { threw = true; }
				bool prefix = expect == PREFIX || expect == INTACT;
				if (prefix && !rev) VF_CHECK(c, got.size() <= ser.size() || expect == PREFIX, "more_than_file_holds", "read %zu bytes of %zu", got.size(), ser.size());
				if (prefix && !rev) VF_CHECK(c, ser.compare(0, std::min(got.size(), ser.size()), got, 0, std::min(got.size(), ser.size())) == 0, "misread", "serialized bytes differ");
				if (expect == INTACT) VF_CHECK(c, !threw && got.size() == ser.size(), "intact_refused", "intact serialization stream not read to the end");
				std::string now = slurp(path);
				VF_CHECK(c, got.size() + 4096 <= now.size() || got.empty(), "more_than_file_holds", "read %zu bytes from a file of %zu", got.size(), now.size());
				rd.close();
				count("accepted");
			}
		}
		VF_CHECK(c, io().open_count() == fds, "fd_leak", "descriptor left open");
	}

	void attack(const std::string & b) {
		spit(path, b);
		if (kind == SER) { if (r.chance(20) && !flipped) { Expect e = expect; if (e == INTACT || e == PREFIX) expect = REFUSE_OPEN; attempt_ser<tpie::serialization_reverse_reader, true>(); expect = e; } else attempt_ser<tpie::serialization_reader, false>(); return; }
		if (kind == RSER) { attempt_ser<tpie::serialization_reverse_reader, true>(); return; }
		bool rw = r.chance(40);
		switch (kind == PLAIN ? r.below(3) : 0) {
		case 0:
			attempt<tpie::file_stream<T>>(b, [&](tpie::file_stream<T> & s) { s.open(path, rw ? tpie::open::defaults : tpie::open::read_only); }, rw ? "file_stream rw" : "file_stream ro");
			break;
		case 1:
			attempt<tpie::uncompressed_stream<T>>(b, [&](tpie::uncompressed_stream<T> & s) { s.open(path, rw ? tpie::access_read_write : tpie::access_read); }, rw ? "uncompressed_stream rw" : "uncompressed_stream ro");
			break;
		default:
			attempt<FileReader>(b, [&](FileReader & s) { s.f.open(path, rw ? tpie::access_read_write : tpie::access_read); s.s.attach(s.f); }, rw ? "file rw" : "file ro");
		}
	}
};

// A file left by a process killed between any two system calls is refused,
// unless it is byte for byte a cleanly closed one.
template <size_t N> void crash(Ctx & c, Victim<N> & v) {
	typedef Item<N> T;
	Rng & r = c.rng;
	std::vector<std::string> snaps;
	std::mutex mu;
	bool fresh = r.chance(50);
	if (fresh) unlink(v.path.c_str());
	std::string old = fresh ? "" : v.bytes;
	std::vector<uint64_t> oldM = fresh ? std::vector<uint64_t>() : v.m, newM = oldM;
	int every = r.pick({1, 1, 2, 3});
	int n = 0;
	io().onEvent = [&](const char * what, int, const std::string & p) {
		if (p != v.path || strcmp(what, "read") == 0) return;
		std::lock_guard<std::mutex> l(mu);
		if (n++ % every == 0 && snaps.size() < 60) snaps.push_back(slurp(p));
	};
	{
		tpie::file_stream<T> s;
		s.open(v.path, v.kind == COMPRESSED ? tpie::open::compression_all : tpie::open::defaults);
		s.seek(0, tpie::file_stream<T>::end);
		uint64_t k = 1 + r.below(v.perBlock * 5);
		for (uint64_t i = 0; i < k; ++i) { uint64_t id = r.next() >> 8; newM.push_back(id); s.write(v.item(id)); if (r.chance(3)) { s.seek(0); s.read(); s.seek(0, tpie::file_stream<T>::end); } }
		if (r.chance(20)) { s.truncate(0); newM.clear(); }
		s.close();
	}
	io().onEvent = nullptr;
	std::string fin = slurp(v.path);
	std::string p2 = v.path + "c";
	for (auto & sn : snaps) {
		spit(p2, sn);
		bool opened = false;
		size_t fds = io().open_count();
		{
			tpie::file_stream<T> s;
			try { s.open(p2, r.chance(50) ? tpie::open::defaults : tpie::open::read_only); opened = true; } catch (const tpie::exception &) {}
			bool isOld = !fresh && sn == old, isFin = sn == fin;
			if (opened) {
				VF_CHECK(c, isOld || isFin, "unclean_accepted", "a file left by a killed process (%zu bytes) was accepted with %llu items", sn.size(), (unsigned long long)s.size());
				const auto & want = isOld ? oldM : newM;
				VF_CHECK(c, s.size() == want.size(), "crash_size", "size %llu, expected %zu", (unsigned long long)s.size(), want.size());
				for (auto x : want) VF_CHECK(c, s.read() == v.item(x), "crash_content", "item differs after crash");
			} else VF_CHECK(c, !isOld && !isFin, "clean_refused", "a cleanly closed file was refused");
			try { s.close(); } catch (const tpie::exception &) {}
		}
		VF_CHECK(c, io().open_count() == fds, "fd_leak", "descriptor left open");
		count(opened ? "crash_points_clean" : "crash_points_refused");
	}
	wipe(p2);
}

template <size_t N> void go(Ctx & c) {
	Rng & r = c.rng;
	Victim<N> v(c);
	v.kind = (Kind)r.pick({0, 0, 0, 1, 1, 1, 1, 2, 3});
	v.entropy = r.below(3);
	v.perBlock = r.pick({2, 3, 7, 16});
	v.blockBytes = N * v.perBlock + (r.chance(40) ? r.below(N) : 0);
	v.path = scratch(fmt("v%llu", (unsigned long long)c.idx));
	tpie::set_block_size(v.blockBytes);
	set_scheme(r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 300});
	v.create();
	c.describe("%s item=%zu perBlock=%llu items=%zu bytes=%zu", (const char *[]){"plain", "compressed", "serialization", "reverse serialization"}[v.kind], N, (unsigned long long)v.perBlock, v.kind >= SER ? v.ser.size() : v.m.size(), v.bytes.size());
	if (v.kind < SER && r.chance(30)) {
		crash(c, v);
		c.nontrivial = true;
	} else {
		for (int i = 0; i < 6; ++i) { std::string b = v.damage(v.bytes); if (b != v.bytes) c.nontrivial = true; v.attack(b); }
		// the library is none the worse for it
		v.expect = Victim<N>::INTACT;
		c.op("intact again");
		v.attack(v.bytes);
		if (v.kind < SER && r.chance(30)) { // other item or block size
			spit(v.path, v.bytes);
			bool threw = false;
			try {
				if (r.chance(50)) { tpie::file_stream<Item<N + 1>> s; s.open(v.path); }
				else if (r.chance(50)) { tpie::file_stream<Item<N>> s(3.0); s.open(v.path); }
				else { tpie::uncompressed_stream<Item<N>> s(2.0); s.open(v.path); }
			} catch (const tpie::exception &) { threw = true; }
			VF_CHECK(c, threw, "accepted", "another item type or block size was accepted");
			count("wrong_type_refused");
		}
		if (r.chance(10)) { // no such file, a directory
			bool threw = false;
			try { tpie::file_stream<Item<N>> s; s.open(v.path + "none", tpie::open::read_only); } catch (const tpie::exception &) { threw = true; }
			VF_CHECK(c, threw, "accepted", "a file that does not exist was opened read-only");
			threw = false;
			try { tpie::file_stream<Item<N>> s; s.open(G().scratch, r.chance(50) ? tpie::open::read_only : tpie::open::defaults); } catch (const tpie::exception &) { threw = true; }
			VF_CHECK(c, threw, "accepted", "a directory was opened as a stream");
			count("nonfiles_refused");
		}
	}
	wipe(v.path);
	wipe(v.path + "none");
}

void vf_case(Ctx & c) {
	signal(SIGXFSZ, SIG_IGN); // writing at the end a damaged size claims: an error like a full disk
	switch (c.rng.below(3)) {
	case 0: go<1>(c); break;
	case 1: go<8>(c); break;
	default: go<13>(c); break;
	}
}
