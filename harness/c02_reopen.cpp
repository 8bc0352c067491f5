// C02: closing and reopening a stream preserves items, size and user data.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/file.h>
#include <array>
using namespace vf;

template <size_t N> struct Session {
	typedef Item<N> T;
	Ctx & c;
	Rng & r;
	std::string path;
	StreamOpts o;
	std::vector<uint64_t> m;     // what the file must hold
	std::string ud;              // user data
	uint64_t maxUd = 0;
	bool exists = false;
	uint64_t nextId;
	bool all;
	Session(Ctx & c) : c(c), r(c.rng), nextId(c.rng.next() >> 8) {}

	T item(uint64_t id) { return make_item<N>(id, o.entropy); }

	template <typename S> void check_user_data(S & s) {
		VF_CHECK(c, s.user_data_size() == ud.size(), "user_data_size", "user_data_size %zu, expected %zu", (size_t)s.user_data_size(), ud.size());
		VF_CHECK(c, s.max_user_data_size() == maxUd, "max_user_data_size", "max_user_data_size %zu, expected %llu", (size_t)s.max_user_data_size(), (unsigned long long)maxUd);
		std::string b(maxUd + 8, '\x5a');
		size_t got = s.read_user_data(&b[0], b.size());
		VF_CHECK(c, got == ud.size() && b.compare(0, got, ud) == 0, "user_data", "user data differ (%zu bytes)", got);
		VF_CHECK(c, b.substr(got) == std::string(b.size() - got, '\x5a'), "user_data_overrun", "read_user_data wrote past its count");
		if (!ud.empty()) count("user_data_compared");
		if (r.chance(30)) { typed_read<1>(s); typed_read<3>(s); typed_read<16>(s); typed_read<64>(s); }
	}
	// as an object of a type: of just the size that was written, or refused
	template <size_t K, typename S> void typed_read(S & s) {
		struct { std::array<char, K> a; char after[8]; } b; memset(&b, 0x5a, sizeof b); bool threw = false;
		try { s.read_user_data(b.a); } catch (const tpie::exception &) { threw = true; }
		VF_CHECK(c, threw == (ud.size() != K), "typed_user_data", "reading an object of %zu bytes of %zu bytes of user data %s", K, ud.size(), threw ? "threw" : "did not throw");
		if (!threw) { VF_CHECK(c, memcmp(b.a.data(), ud.data(), K) == 0, "typed_user_data", "an object of %zu bytes differs from what was written", K); count("typed_user_data_read"); }
		for (char ch : b.after) VF_CHECK(c, ch == 0x5a, "user_data_overrun", "read_user_data wrote past an object of %zu bytes", K);
	}
	template <size_t K, typename S> void typed_write(S & s) {
		std::array<char, K> a; for (auto & ch : a) ch = (char)r.next();
		bool threw = false; c.op("user data object %zu", K);
		try { s.write_user_data(a); } catch (const tpie::exception &) { threw = true; }
		VF_CHECK(c, threw == (K > maxUd), "typed_user_data", "writing an object of %zu bytes of user data into %llu %s", K, (unsigned long long)maxUd, threw ? "threw" : "did not throw");
		if (!threw) { ud.assign(a.data(), K); count("typed_user_data_written"); }
		check_user_data(s);
	}
	template <typename S> void maybe_write_user_data(S & s) {
		if (r.chance(50)) {
			size_t n = r.below(maxUd + 1);
			std::string d(n, 0);
			for (auto & ch : d) ch = (char)r.next();
			c.op("user data %zu", n);
			s.write_user_data(d.data(), d.size());
			ud = d;
			check_user_data_back(s);
		}
		if (r.chance(30)) switch (r.below(4)) { case 0: typed_write<1>(s); break; case 1: typed_write<3>(s); break; case 2: typed_write<16>(s); break; default: typed_write<64>(s); }
		if (r.chance(10)) {
			std::string d(maxUd + 1 + r.below(9), 'x');
			bool threw = false;
			try { s.write_user_data(d.data(), d.size()); } catch (const tpie::exception &) { threw = true; }
			VF_CHECK(c, threw, "user_data_limit", "writing %zu bytes of user data into %llu did not throw", d.size(), (unsigned long long)maxUd);
			count("user_data_refused");
		}
	}
	template <typename S> void check_user_data_back(S & s) { check_user_data(s); }

	uint64_t ask_user_data() { // user data size to ask for when opening; the file's own must be enough
		if (!exists) { maxUd = r.pick({0, 0, 1, 17, 4000, 9000}); return maxUd; }
		return r.below(maxUd + 1);
	}

	tpie::open::type flags() {
		tpie::open::type f = !o.compressed ? tpie::open::defaults : all ? tpie::open::compression_all : tpie::open::compression_normal;
		// the compression choice of an existing file is the file's own
		if (exists && r.chance(30)) f = r.pick({tpie::open::defaults, tpie::open::compression_normal, tpie::open::compression_all});
		return f | r.pick({tpie::open::defaults, tpie::open::access_normal, tpie::open::access_random});
	}

	typedef tpie::file_stream<T> FS;
	typedef tpie::uncompressed_stream<T> US;
	typedef tpie::file<T> F;

	template <typename S> void driver_session(S & s, bool readable, bool writable, uint64_t ops, bool isU) {
		StreamOpts so = o;
		so.isUncompressedStream = isU;
		so.positions = pos_ops<S>::has && readable;
		StreamDriver<S, N> d(c, s, so);
		d.m = m;
		d.pos = 0;
		d.readable = readable;
		d.writable = writable;
		d.nextId = nextId;
		d.choose_profile();
		if (!readable) { d.weights.assign(16, 0); d.weights[0] = 4; d.weights[1] = 3; }
		d.run(ops);
		m = d.m;
		nextId = d.nextId;
		if (readable && !writable) count("read_only_sessions");
	}

	void rw(uint64_t ops) {
		int api = o.compressed ? 0 : r.below(3);
		c.op("session rw api=%d", api);
		uint64_t u = ask_user_data();
		if (api == 0) {
			FS s;
			s.open(path, flags(), u);
			check_user_data(s);
			driver_session(s, true, true, ops, false);
			maybe_write_user_data(s);
			if (r.chance(70)) s.close();
		} else if (api == 1) {
			US s;
			s.open(path, tpie::access_read_write, u, r.pick({tpie::access_normal, tpie::access_random, tpie::access_sequential}));
			check_user_data(s);
			driver_session(s, true, true, ops, true);
			maybe_write_user_data(s);
			if (r.chance(70)) s.close();
		} else {
			F f;
			f.open(path, tpie::access_read_write, u);
			check_user_data(f);
			VF_CHECK(c, f.size() == m.size(), "file_size", "file size %llu, expected %zu", (unsigned long long)f.size(), m.size());
			{
				typename F::stream a(f), b(f);
				for (uint64_t i = 0; i < ops; ++i) {
					typename F::stream & s = r.chance(50) ? a : b;
					uint64_t at = r.below(m.size() + 1);
					uint64_t n = r.below(6);
					s.seek(at);
					c.op("file %s @%llu x%llu", r.chance(50) ? "a" : "b", (unsigned long long)at, (unsigned long long)n);
					if (r.chance(60)) {
						for (uint64_t k = 0; k < n; ++k) {
							uint64_t id = nextId++;
							s.write(item(id));
							if (at + k < m.size()) m[at + k] = id; else m.push_back(id);
						}
					} else for (uint64_t k = at; k < at + n && k < m.size(); ++k) {
						T x = s.read();
						VF_CHECK(c, x == item(m[k]), "file_read", "file item %llu differs", (unsigned long long)k);
					}
				}
			}
			if (r.chance(30)) { uint64_t t = r.below(m.size() + 1); c.op("file truncate %llu", (unsigned long long)t); f.truncate(t); m.resize(t); }
			maybe_write_user_data(f);
			f.close();
		}
		exists = true;
		count("sessions_rw");
	}

	void ro(uint64_t ops) {
		int api = o.compressed ? 0 : r.below(3);
		c.op("session ro api=%d", api);
		std::string before = slurp(path);
		if (api == 0) {
			FS s;
			s.open(path, flags() | tpie::open::read_only, ask_user_data());
			VF_CHECK(c, s.is_readable() && !s.is_writable(), "ro_flags", "read-only stream claims to be writable");
			check_user_data(s);
			driver_session(s, true, false, ops, false);
			if (r.chance(30)) { // a write may fail early or late, but never reach the file
				try { s.seek(0, FS::end); for (int i = 0; i < 40; ++i) s.write(item(nextId++)); s.close(); } catch (const tpie::exception &) {}
				try { s.close(); } catch (const tpie::exception &) {}
				count("read_only_writes_attempted");
			}
			s.close();
		} else if (api == 1) {
			US s;
			s.open(path, tpie::access_read, ask_user_data());
			VF_CHECK(c, s.is_readable() && !s.is_writable(), "ro_flags", "read-only stream claims to be writable");
			check_user_data(s);
			driver_session(s, true, false, ops, true);
			s.close();
		} else {
			F f;
			f.open(path, tpie::access_read, ask_user_data());
			check_user_data(f);
			VF_CHECK(c, f.size() == m.size(), "file_size", "file size %llu, expected %zu", (unsigned long long)f.size(), m.size());
			{
				typename F::stream a(f), b(f, m.size() / 2);
				for (size_t i = 0, j = m.size() / 2; i < m.size(); ++i) {
					VF_CHECK(c, a.read() == item(m[i]), "file_read", "file item %zu differs", i);
					if (j < m.size()) { VF_CHECK(c, b.read() == item(m[j]), "file_read", "file item %zu differs", j); ++j; }
				}
				count("items_compared", m.size());
			}
			f.close();
		}
		std::string after = slurp(path);
		VF_CHECK(c, before == after, "ro_changed_file", "a read-only session changed the file (%zu -> %zu bytes)", before.size(), after.size());
		count("sessions_ro");
	}

	void wo(uint64_t ops) { // starts from an empty file
		int api = o.compressed ? 0 : r.below(2);
		c.op("session wo api=%d", api);
		m.clear(); ud.clear(); exists = false;
		uint64_t u = ask_user_data();
		if (api == 0) {
			FS s;
			s.open(path, flags() | tpie::open::write_only, u);
			VF_CHECK(c, !s.is_readable() && s.is_writable(), "wo_flags", "write-only stream claims to be readable");
			driver_session(s, false, true, ops, false);
			if (r.chance(60)) maybe_write_user_data(s);
			s.close();
		} else {
			US s;
			s.open(path, tpie::access_write, u);
			driver_session(s, false, true, ops, true);
			if (r.chance(60)) maybe_write_user_data(s);
			s.close();
		}
		exists = true;
		count("sessions_wo");
	}

	void refused() { // opens that must fail and leave the file as it was
		std::string before = slurp(path);
		bool threw = false;
		int w = r.below(3);
		c.op("refused open %d", w);
		try {
			if (w == 0) { FS s; s.open(path, flags(), maxUd + 1 + r.below(100)); }
			else if (w == 1 && o.compressed) { US s; s.open(path); }
			else if (w == 2 && o.compressed) { F s; s.open(path); }
			else { tpie::file_stream<Item<N + 1>> s; s.open(path); }
		} catch (const tpie::exception &) { threw = true; }
		VF_CHECK(c, threw, "open_not_refused", "incompatible open (%d) was accepted", w);
		std::string after = slurp(path);
		VF_CHECK(c, before == after, "refused_changed_file", "a refused open (%d) changed the file", w);
		count("refused_opens");
	}
};

template <size_t N> void go(Ctx & c) {
	Rng & r = c.rng;
	Session<N> s(c);
	s.o.compressed = r.chance(50);
	s.o.entropy = r.below(3);
	s.all = r.chance(50);
	uint64_t perBlock = r.pick({2, 3, 7, 16});
	tpie::set_block_size(N * perBlock + (r.chance(40) ? r.below(N) : 0));
	set_scheme(r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 300});
	io().shortPermille = r.pick({0, 0, 200});
	s.path = scratch(fmt("s%llu", (unsigned long long)c.idx));
	uint64_t sessions = r.range(2, 9);
	uint64_t ops = r.pick({0, 1, 10, 40});
	c.describe("%s item=%zu perBlock=%llu sessions=%llu ops=%llu", s.o.compressed ? "compressed" : "plain", N, (unsigned long long)perBlock, (unsigned long long)sessions, (unsigned long long)ops);
	size_t fds = io().open_count();
	for (uint64_t i = 0; i < sessions; ++i) {
		if (!s.exists) { if (r.chance(80)) s.rw(ops); else s.wo(ops); continue; }
		switch (r.below(8)) {
		case 0: case 1: case 2: s.rw(r.chance(30) ? 0 : ops); break;
		case 3: case 4: s.ro(ops); break;
		case 5: s.ro(0); s.ro(0); break;
		case 6: if (r.chance(40)) s.wo(ops); else s.rw(ops); break;
		default: s.refused();
		}
	}
	s.ro(0);
	VF_CHECK(c, io().open_count() == fds, "fd_leak", "%zu descriptors open after the last close", io().open_count());
	if (s.m.size() > 2) c.nontrivial = true;
	count(s.o.compressed ? "kind_compressed" : "kind_plain");
	wipe(s.path);
}

void vf_case(Ctx & c) {
	switch (c.rng.below(4)) {
	case 0: go<1>(c); break;
	case 1: go<8>(c); break;
	case 2: go<13>(c); break;
	default: go<40>(c); break;
	}
}
