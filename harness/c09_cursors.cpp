// C09: several cursors on one tpie::file, and the legacy ami stream, against a
// vector with one offset per cursor.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/file.h>
#include <tpie/stream_old.h>
using namespace vf;

template <size_t N> struct FileCase {
	typedef Item<N> T;
	typedef tpie::file<T> file;
	typedef typename file::stream stream;
	struct Cur { std::unique_ptr<stream> s; uint64_t off = 0; bool loaded = false; };

	Ctx & c;
	std::unique_ptr<file> f;
	tpie::temp_file tmp;
	std::vector<uint64_t> m;
	std::vector<Cur> cur;
	uint64_t next;
	int entropy;
	double factor;
	uint64_t bi = 1;
	std::string path;
	int openKind = 0; // 0 path, 1 anonymous, 2 temp_file
	bool ro = false;

	FileCase(Ctx & c) : c(c), next(c.rng.next() >> 8), entropy(c.rng.below(3)) {}
	T item(uint64_t id) { return make_item<N>(id, entropy); }

	void open() {
		ro = openKind != 1 && !m.empty() && c.rng.chance(20);
		auto at = ro ? tpie::access_read : tpie::access_read_write;
		auto hint = c.rng.pick({tpie::access_normal, tpie::access_sequential, tpie::access_random});
		f.reset(new file(factor));
		if (openKind == 0) f->open(path, at, 0, hint);
		else if (openKind == 1) { m.clear(); f->open(0, hint); }
		else f->open(tmp, at, 0, hint);
		bi = f->block_items();
		VF_CHECK(c, f->size() == m.size(), "open_size", "opened with %llu items, expected %zu", (unsigned long long)f->size(), m.size());
		count("opens");
	}
	void check_cursor(Cur & k) {
		if (!k.s->attached()) return;
		VF_CHECK(c, k.s->offset() == k.off, "offset", "cursor at %llu, model %llu (size %zu)", (unsigned long long)k.s->offset(), (unsigned long long)k.off, m.size());
		VF_CHECK(c, k.s->size() == m.size(), "size", "cursor reports size %llu, model %zu", (unsigned long long)k.s->size(), m.size());
		VF_CHECK(c, k.s->can_read() == (k.off < m.size()), "can_read", "can_read()=%d at %llu of %zu", (int)k.s->can_read(), (unsigned long long)k.off, m.size());
		VF_CHECK(c, k.s->can_read_back() == (k.off > 0), "can_read_back", "can_read_back()=%d at %llu", (int)k.s->can_read_back(), (unsigned long long)k.off);
	}
	void check_all() {
		VF_CHECK(c, f->size() == m.size(), "file_size", "file reports %llu items, model %zu", (unsigned long long)f->size(), m.size());
		for (auto & k : cur) check_cursor(k);
		count("agreements_checked");
	}
	void cmp(const T & got, uint64_t at, const char * what) {
		if (got != item(m[at])) c.fail(what, "%s gave %s for item %llu of %zu, expected %s", what, show<N>(got).c_str(), (unsigned long long)at, m.size(), show<N>(item(m[at])).c_str());
		count("items_compared");
	}
	void put(uint64_t at, uint64_t id) { if (at < m.size()) { m[at] = id; count("overwrites"); } else { m.push_back(id); count("appends"); } }

	void run() {
		path = scratch("c09_file");
		wipe(path);
		size_t files0 = tpie::get_file_manager().used();
		uint64_t temp0 = tpie::get_temp_file_usage();
		size_t mem0 = tpie::get_memory_manager().used();
		factor = c.rng.pick({1.0, 1.0, 0.5, 2.0, 3.3});
		while (factor * tpie::get_block_size() < 2 * N) factor *= 2;
		openKind = c.rng.below(3);
		int ops = c.rng.pick({30, 100, 300});
		size_t nc = 1 + c.rng.below(6);
		bool locality = c.rng.chance(50);
		c.describe("file N=%zu block=%zu factor=%.1f open=%d cursors=%zu ops=%d", N, (size_t)tpie::get_block_size(), factor, openKind, nc, ops);
		open();
		bool shared = false;
		for (int i = 0; i < ops; ++i) {
			if (cur.size() < nc && c.rng.chance(30)) { // another cursor
				Cur k;
				uint64_t o = c.rng.below(m.size() + 1);
				switch (c.rng.below(3)) {
				case 0: k.s.reset(new stream(*f)); o = 0; break;
				case 1: k.s.reset(new stream(*f, o)); break;
				default: k.s.reset(new stream()); k.s->attach(*f); o = 0;
				}
				k.off = o;
				c.op("cursor %zu at %llu", cur.size(), (unsigned long long)o);
				cur.push_back(std::move(k));
				check_all();
			}
			if (cur.empty()) continue;
			size_t ci = c.rng.below(cur.size());
			Cur & k = cur[ci];
			if (!k.s->attached()) {
				k.s->attach(*f); k.off = 0; k.loaded = false;
				c.op("%zu: attach", ci);
				continue;
			}
			uint64_t room = m.size() - k.off;
			switch (c.rng.below(14)) {
			case 0: case 1: case 2: { // write
				if (ro) break;
				uint64_t n = 1 + c.rng.size(bi * 2 + 2);
				bool arr = c.rng.chance(50);
				c.op("%zu: %s %llu at %llu", ci, arr ? "write_array" : "write", (unsigned long long)n, (unsigned long long)k.off);
				std::vector<T> b;
				for (uint64_t j = 0; j < n; ++j) { b.push_back(item(next)); put(k.off + j, next++); }
				if (arr) k.s->write(b.begin(), b.end()); else for (auto & x : b) k.s->write(x);
				k.off += n; k.loaded = true;
				break;
			}
			case 3: case 4: case 5: { // read
				if (!room) {
					c.op("%zu: read at end", ci);
					bool t = false;
					try { k.s->read(); } catch (const tpie::end_of_stream_exception &) { t = true; }
					VF_CHECK(c, t, "read_past_end", "reading at the end gave an item");
					count("end_of_stream_seen");
					break;
				}
				uint64_t n = 1 + c.rng.below(std::min<uint64_t>(room, bi * 2 + 1));
				c.op("%zu: read %llu at %llu", ci, (unsigned long long)n, (unsigned long long)k.off);
				for (uint64_t j = 0; j < n; ++j) { T x = k.s->read(); cmp(x, k.off++, "read"); }
				k.loaded = true;
				break;
			}
			case 6: { // array read
				uint64_t n = c.rng.size(std::min<uint64_t>(room + 3, bi * 4 + 4));
				std::vector<T> b(n);
				c.op("%zu: read_array %llu at %llu", ci, (unsigned long long)n, (unsigned long long)k.off);
				bool t = false;
				try { k.s->read(b.begin(), b.end()); } catch (const tpie::end_of_stream_exception &) { t = true; }
				VF_CHECK(c, t == (n > room), "read_array_end", "array read of %llu of %llu items %s", (unsigned long long)n, (unsigned long long)room, t ? "refused" : "accepted");
				if (!t) { for (uint64_t j = 0; j < n; ++j) cmp(b[j], k.off + j, "read_array"); k.off += n; if (n) k.loaded = true; }
				break;
			}
			case 7: case 8: { // backwards
				if (!k.off) {
					bool t = false;
					try { k.s->read_back(); } catch (const tpie::stream_exception &) { t = true; }
					VF_CHECK(c, t, "read_back_past_start", "reading back at the start gave an item");
					break;
				}
				uint64_t n = 1 + c.rng.below(std::min<uint64_t>(k.off, bi + 2));
				c.op("%zu: read_back %llu at %llu", ci, (unsigned long long)n, (unsigned long long)k.off);
				for (uint64_t j = 0; j < n; ++j) { T x = k.s->read_back(); cmp(x, --k.off, "read_back"); }
				k.loaded = true;
				break;
			}
			case 9: case 10: case 11: { // seek
				int64_t to = c.rng.chance(10) ? c.rng.range(-3, (int64_t)m.size() + 3) : (int64_t)c.rng.below(m.size() + 1);
				if (locality && cur.size() > 1 && c.rng.chance(60)) // go near another cursor
					to = std::min<int64_t>(m.size(), std::max<int64_t>(0, (int64_t)cur[c.rng.below(cur.size())].off + c.rng.range(-3, 3)));
				if (c.rng.chance(20)) to = std::min<int64_t>(m.size(), (to + bi - 1) / bi * bi);
				c.op("%zu: seek %lld from %llu", ci, (long long)to, (unsigned long long)k.off);
				bool t = false;
				try {
					switch (c.rng.below(3)) {
					case 0: k.s->seek(to); break;
					case 1: k.s->seek(to - (int64_t)k.off, tpie::file_base::stream::current); break;
					default: k.s->seek(to - (int64_t)m.size(), tpie::file_base::stream::end);
					}
				} catch (const tpie::io_exception &) { t = true; }
				VF_CHECK(c, t == (to < 0 || to > (int64_t)m.size()), "seek_range", "seek to %lld of %zu %s", (long long)to, m.size(), t ? "refused" : "accepted");
				if (!t) k.off = to;
				count("seeks");
				break;
			}
			case 12: // cursor goes away
				if (c.rng.chance(50)) { c.op("%zu: detach", ci); k.s->detach(); VF_CHECK(c, !k.s->attached(), "detach", "still attached"); k.off = 0; k.loaded = false; }
				else { c.op("%zu: destroy", ci); cur.erase(cur.begin() + ci); }
				break;
			default: { // truncation and reopening
				if (c.rng.chance(25)) {
					c.op("reopen");
					cur.clear();
					f->close();
					if (c.rng.chance(50)) f.reset();
					open();
					break;
				}
				if (ro) break;
				bool held = false;
				for (auto & x : cur) held = held || x.loaded;
				uint64_t to = c.rng.below(m.size() + 1);
				if (held && c.rng.chance(70)) { // refused while blocks are in use
					bool t = false;
					try { f->truncate(to); } catch (const tpie::io_exception &) { t = true; }
					VF_CHECK(c, t, "truncate_in_use", "truncation accepted while cursors hold blocks");
					count("truncations_refused");
					break;
				}
				c.op("truncate %llu", (unsigned long long)to);
				if (c.rng.chance(50)) cur.clear(); else for (auto & x : cur) { if (x.s->attached()) x.s->detach(); x.off = 0; x.loaded = false; }
				f->truncate(to);
				m.resize(to);
				count("truncations");
			}
			}
			if (c.rng.chance(40)) check_all();
			std::map<uint64_t, int> blocks;
			for (auto & x : cur) if (x.loaded) shared = ++blocks[x.off / bi] > 1 || shared;
		}
		check_all();
		if (shared) { count("shared_block_cases"); c.nontrivial = true; }
		if (!cur.empty() && cur[0].s->attached()) { // full scan through one cursor while others hold blocks
			cur[0].s->seek(0);
			for (uint64_t j = 0; j < m.size(); ++j) cmp(cur[0].s->read(), j, "scan");
		}
		cur.clear();
		f->close();
		if (openKind != 1) {
			open();
			stream s(*f);
			for (uint64_t j = 0; j < m.size(); ++j) cmp(s.read(), j, "reopened");
			VF_CHECK(c, !s.can_read(), "reopened_end", "more items than written");
			s.detach();
			f->close();
			if (c.rng.chance(50)) { // the same file as a stream
				tpie::uncompressed_stream<T> u(factor);
				u.open(openKind == 0 ? path : tmp.path(), tpie::access_read);
				VF_CHECK(c, u.size() == m.size(), "as_stream_size", "stream of the file has %llu items, expected %zu", (unsigned long long)u.size(), m.size());
				for (uint64_t j = 0; j < m.size(); ++j) cmp(u.read(), j, "as_stream");
				count("read_as_stream");
			}
		}
		f.reset();
		tmp.free();
		VF_CHECK(c, tpie::get_file_manager().used() == files0, "open_files", "files left open");
		VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
		VF_CHECK(c, tpie::get_memory_manager().used() == mem0, "memory", "memory usage off by %lld", (long long)(tpie::get_memory_manager().used() - mem0));
		count("file_cases");
	}
};

template <size_t N> static void ami_case(Ctx & c) {
	typedef Item<N> T;
	typedef tpie::ami::stream_old<T> S;
	int entropy = c.rng.below(3);
	auto item = [&](uint64_t id) { return make_item<N>(id, entropy); };
	bool named = c.rng.chance(60);
	std::string path = scratch("c09_ami");
	wipe(path);
	std::vector<uint64_t> m;
	uint64_t next = c.rng.next() >> 8, pos = 0;
	std::string left;
	int sessions = named ? 1 + c.rng.below(3) : 1;
	c.describe("ami stream N=%zu block=%zu named=%d sessions=%d", N, (size_t)tpie::get_block_size(), (int)named, sessions);
	auto same = [&](const T & x, uint64_t at, const char * what) {
		VF_CHECK(c, x == item(m[at]), what, "%s: item %llu of %zu differs", what, (unsigned long long)at, m.size());
		count("items_compared");
	};
	for (int k = 0; k < sessions; ++k) {
		bool ro = named && k && c.rng.chance(25), app = named && !ro && c.rng.chance(30);
		std::unique_ptr<S> s(named ? new S(path, ro ? tpie::ami::READ_STREAM : app ? tpie::ami::APPEND_STREAM : tpie::ami::READ_WRITE_STREAM) : new S());
		VF_CHECK(c, s->is_valid() && !!*s && s->status() == tpie::ami::STREAM_STATUS_VALID, "ami_valid", "opening failed");
		c.op("session ro=%d app=%d", (int)ro, (int)app);
		pos = app ? m.size() : 0;
		int ops = c.rng.pick({20, 60, 150});
		for (int i = 0; i < ops; ++i) {
			switch (c.rng.below(9)) {
			case 0: case 1: if (!ro) {
				uint64_t n = 1 + c.rng.below(30);
				c.op("write_item x%llu at %llu", (unsigned long long)n, (unsigned long long)pos);
				for (uint64_t j = 0; j < n; ++j) {
					VF_CHECK(c, s->write_item(item(next)) == tpie::ami::NO_ERROR, "ami_write", "write failed");
					if (pos < m.size()) m[pos] = next; else m.push_back(next);
					++next; ++pos;
				}
				break;
			} // fall through
			case 2: case 3: {
				uint64_t n = 1 + c.rng.below(30);
				for (uint64_t j = 0; j < n; ++j) {
					T * x = 0;
					auto e = s->read_item(&x);
					if (pos >= m.size()) { VF_CHECK(c, e == tpie::ami::END_OF_STREAM, "ami_eos", "no end of stream"); count("end_of_stream_seen"); break; }
					VF_CHECK(c, e == tpie::ami::NO_ERROR, "ami_read", "read failed with %d", (int)e);
					same(*x, pos++, "ami_read_item");
				}
				break;
			}
			case 4: if (!ro) {
				uint64_t n = c.rng.size(60);
				std::vector<T> b;
				for (uint64_t j = 0; j < n; ++j) { b.push_back(item(next)); if (pos + j < m.size()) m[pos + j] = next; else m.push_back(next); ++next; }
				VF_CHECK(c, s->write_array(b.data(), n) == tpie::ami::NO_ERROR, "ami_write_array", "failed");
				pos += n;
				c.op("write_array %llu", (unsigned long long)n);
				break;
			} // fall through
			case 5: {
				uint64_t n = c.rng.size(60);
				std::vector<T> b(n + 1);
				uint64_t want = std::min<uint64_t>(n, m.size() - pos), got;
				tpie::ami::err e;
				if (c.rng.chance(50)) { tpie::memory_size_type l = n; e = s->read_array(b.data(), l); got = l; if (n > want) got = want; /* length is not updated by this overload */ }
				else { tpie::stream_offset_type l = n; e = s->read_array(b.data(), &l); got = n > want ? want : l; }
				VF_CHECK(c, e == (want == n ? tpie::ami::NO_ERROR : tpie::ami::END_OF_STREAM), "ami_read_array", "status %d for %llu of %llu", (int)e, (unsigned long long)n, (unsigned long long)want);
				VF_CHECK(c, got == want, "ami_read_array_len", "length %llu", (unsigned long long)got);
				for (uint64_t j = 0; j < want; ++j) same(b[j], pos + j, "ami_array");
				pos += want;
				break;
			}
			case 6: case 7: {
				int64_t to = c.rng.chance(10) ? c.rng.range(-2, m.size() + 2) : (int64_t)c.rng.below(m.size() + 1);
				auto e = s->seek(to);
				bool ok = to >= 0 && to <= (int64_t)m.size();
				c.op("seek %lld", (long long)to);
				VF_CHECK(c, (e == tpie::ami::NO_ERROR) == ok, "ami_seek", "seek to %lld of %zu: %d", (long long)to, m.size(), (int)e);
				if (ok) pos = to;
				break;
			}
			case 8: if (!ro) {
				uint64_t to = c.rng.below(m.size() + 1);
				c.op("truncate %llu", (unsigned long long)to);
				VF_CHECK(c, s->truncate(to) == tpie::ami::NO_ERROR, "ami_truncate", "failed");
				m.resize(to);
				VF_CHECK(c, s->seek(to) == tpie::ami::NO_ERROR, "ami_seek_end", "seek to the new end failed");
				pos = to;
				count("truncations");
			}
			}
			VF_CHECK(c, (uint64_t)s->stream_len() == m.size(), "ami_len", "length %lld, model %zu", (long long)s->stream_len(), m.size());
			VF_CHECK(c, (uint64_t)s->tell() == pos, "ami_tell", "at %lld, model %llu", (long long)s->tell(), (unsigned long long)pos);
		}
		if (!named) {
			VF_CHECK(c, s->persist() == tpie::PERSIST_DELETE, "ami_persist", "temporary stream is persistent");
			std::string p = s->name();
			bool keep = c.rng.chance(30);
			if (keep) s->persist(tpie::PERSIST_PERSISTENT);
			s.reset();
			struct stat st;
			VF_CHECK(c, (stat(p.c_str(), &st) == 0) == keep, "ami_removed", "persistent %d but file %s", (int)keep, keep ? "removed" : "left behind");
			if (keep) {
				S t(p);
				VF_CHECK(c, t.is_valid() && (uint64_t)t.stream_len() == m.size(), "ami_kept", "kept stream has %lld items", (long long)t.stream_len());
				t.persist(tpie::PERSIST_DELETE);
			}
			VF_CHECK(c, stat(p.c_str(), &st) != 0, "ami_removed2", "file left behind");
		}
	}
	if (m.size() > 3) c.nontrivial = true;
	count("ami_cases");
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({24, 40, 64, 130, 512, 2048}));
	io().reset(r.next());
	io().shortPermille = r.pick({0, 0, 100});
	if (r.chance(20)) {
		tpie::set_block_size(std::max<size_t>(64, tpie::get_block_size()));
		if (r.chance(50)) ami_case<8>(c); else ami_case<13>(c);
		return;
	}
	switch (r.below(4)) {
	case 0: { FileCase<1> f(c); f.run(); break; }
	case 1: { FileCase<8> f(c); f.run(); break; }
	case 2: { FileCase<13> f(c); f.run(); break; }
	default: { FileCase<40> f(c); f.run(); }
	}
}
