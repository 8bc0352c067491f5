// C05: short transfers and interruptions change nothing; errors are reported and
// whatever closes without an error holds everything.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
using namespace vf;

struct Fault { bool hard = false; std::string what; };

static Fault arm(Ctx & c) {
	Rng & r = c.rng;
	Fault f;
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 100});
	if (r.chance(45)) {
		io().shortPermille = r.pick({0, 50, 500, 1000});
		io().eintrPermille = r.pick({0, 50, 500, 900});
		f.what = fmt("short=%d eintr=%d", (int)io().shortPermille, (int)io().eintrPermille);
	} else {
		f.hard = true;
		io().failErrno = r.pick({EIO, ENOSPC, EDQUOT, EFBIG});
		io().failSticky = r.chance(40);
		int64_t at = 1 + (r.chance(50) ? r.below(6) : r.below(60));
		switch (r.below(8)) {
		case 0: case 1: case 2: io().failWriteAt = at; f.what = "write"; break;
		case 3: case 4: io().failReadAt = at; f.what = "read"; break;
		case 5: io().failTruncAt = 1 + r.below(4); f.what = "ftruncate"; if (r.chance(30)) { io().failErrno = EINTR; io().failSticky = 0; } break;
		case 6: io().failOpenAt = 1; f.what = "open"; if (r.chance(30)) { io().failErrno = EINTR; io().failSticky = 0; } break;
		default: io().failCloseAt = 1; f.what = "close"; break;
		}
		f.what += fmt(" #%lld errno=%d sticky=%d", (long long)at, (int)io().failErrno, (int)io().failSticky);
		if (r.chance(20)) io().shortPermille = 300;
	}
	return f;
}
static uint64_t hard_left() { return io().failWriteAt + io().failReadAt + io().failTruncAt + io().failOpenAt + io().failCloseAt; }
static void disarm() { io().failWriteAt = io().failReadAt = io().failTruncAt = io().failOpenAt = io().failCloseAt = 0; io().shortPermille = io().eintrPermille = 0; io().failSticky = 0; }
static void disarm_hard() { io().failWriteAt = io().failReadAt = io().failTruncAt = io().failOpenAt = io().failCloseAt = 0; io().failSticky = 0; }

// Runs f; returns whether it reported an I/O error.  Anything but an honest error is a violation.
template <typename F> static bool guarded(Ctx & c, const Fault & fl, const char * K, F f) {
	try { f(); return false; }
	catch (const Violation &) { throw; }
	catch (const tpie::end_of_stream_exception & e) { c.fail(fmt("%s:error_as_eos", K), "end_of_stream although items remain (%s)", e.what()); }
	catch (const tpie::exception & e) {
		VF_CHECK(c, fl.hard && io().injected > 0, fmt("%s:spurious_error", K), "%s: %s, but nothing failed", type_name(e).c_str(), e.what());
		c.op("reported %s", type_name(e).c_str());
		count("errors_reported");
		return true;
	}
	catch (const std::exception & e) { c.fail(fmt("%s:foreign_exception", K), "%s: %s", type_name(e).c_str(), e.what()); }
	return false;
}

// Which contents the file may have: the model, or the model with the operation
// that reported the error done in part.
template <size_t N> static void check_file(Ctx & c, const char * K, const std::string & path, const std::vector<uint64_t> & m, uint64_t pos, const std::vector<uint64_t> & inflight, int64_t truncTo, bool reported, int entropy) {
	disarm();
	tpie::uncompressed_stream<Item<N>> us; tpie::file_stream<Item<N>> fs;
	bool refused = false;
	try { fs.open(path, tpie::open::read_only); } catch (const tpie::exception & e) {
		VF_CHECK(c, reported, fmt("%s:lost_file", K), "file closed without an error does not open: %s", e.what());
		refused = true;
	}
	if (refused) { count("unclean_refused"); return; }
	std::vector<Item<N>> got;
	try { while (fs.can_read()) got.push_back(fs.read()); }
	catch (const tpie::exception & e) { c.fail(fmt("%s:unreadable", K), "%s file cannot be read back: %s", reported ? "accepted" : "cleanly closed", e.what()); }
	auto same = [&](const std::vector<uint64_t> & w) {
		if (w.size() != got.size()) return false;
		for (size_t i = 0; i < w.size(); ++i) if (got[i] != make_item<N>(w[i], entropy)) return false;
		return true;
	};
	count(reported ? "verified_after_error" : "verified_clean");
	count("items_verified", got.size());
	if (same(m)) return;
	VF_CHECK(c, reported, fmt("%s:silent_loss", K), "no error was reported, but the file holds %zu items instead of %zu or they differ", got.size(), m.size());
	std::vector<uint64_t> w = m;
	for (size_t k = 0; k < inflight.size(); ++k) {
		if (pos + k < w.size()) w[pos + k] = inflight[k]; else w.push_back(inflight[k]);
		if (same(w)) return;
	}
	if (truncTo >= 0) { w = m; w.resize(std::min<size_t>(truncTo, w.size())); if (same(w)) return; }
	size_t d = 0;
	while (d < std::min(got.size(), m.size()) && got[d] == make_item<N>(m[d], entropy)) ++d;
	c.fail(fmt("%s:bad_after_error", K), "after the error the file was accepted with %zu items (model %zu, %zu in flight at %llu, truncating to %lld), first difference at %zu", got.size(), m.size(), inflight.size(), (unsigned long long)pos, (long long)truncTo, d);
}

template <typename S, size_t N, typename O> static void stream_case(Ctx & c, const char * K, bool compressed, bool us, O open) {
	Rng & r = c.rng;
	std::string path = scratch(fmt("f%llu", (unsigned long long)c.idx));
	S s;
	StreamOpts o; o.compressed = compressed; o.isUncompressedStream = us; o.entropy = r.below(3); o.positions = !us && r.chance(30);
	std::vector<uint64_t> base;
	io().reset(1);
	StreamDriver<S, N> d(c, s, o);
	bool pre = r.chance(50);
	if (pre) { // an existing file
		uint64_t n = r.below(100);
		open(s, path);
		for (uint64_t i = 0; i < n; ++i) { d.m.push_back(d.nextId++); s.write(d.item(d.m.back())); }
		s.close();
	}
	size_t fds = io().open_count();
	Fault f = arm(c);
	c.describe("%s N=%zu block=%zu pre=%zu scheme fault: %s", K, N, (size_t)tpie::get_block_size(), d.m.size(), f.what.c_str());
	if (pre && r.chance(15)) { // an existing file that cannot even be opened is left alone
		io().failOpenAt = 1; f.hard = true;
	}
	bool reported = guarded(c, f, K, [&] { open(s, path); });
	if (reported) { // opening failed
		VF_CHECK(c, !s.is_open(), fmt("%s:open_after_failure", K), "stream is open after open() threw");
		count("opens_failed");
		if (!pre) { disarm(); wipe(path); return; }
	} else {
		d.choose_profile();
		reported = guarded(c, f, K, [&] { d.run(r.pick({5, 30, 100})); });
		bool hit = io().injected > 0;
		(void)hit;
		if (reported) disarm_hard();
		bool rep2 = guarded(c, f, K, [&] { s.close(); });
		if (rep2) {
			reported = true;
			// a stream that could not be closed can still be closed once the fault is gone
			disarm_hard();
			guarded(c, f, K, [&] { s.close(); });
		}
		VF_CHECK(c, !s.is_open(), fmt("%s:still_open", K), "stream is open after close()");
	}
	if (f.hard && io().injected == 0) count("fault_not_reached");
	if (io().injected > 0) { count(f.hard ? "cases_with_hard_fault" : "cases_with_benign_faults"); count("faults_injected", io().injected); c.nontrivial = true; }
	if (f.hard && io().injected > 0 && !reported) count("hard_fault_absorbed");
	VF_CHECK(c, io().open_count() == fds, fmt("%s:fd_leak", K), "%zu descriptors left open", io().open_count() - fds);
	check_file<N>(c, K, path, d.m, d.pos, d.inflight, d.truncTo, reported, o.entropy);
	disarm();
	wipe(path);
}

template <size_t N> static void file_case(Ctx & c) {
	typedef Item<N> T;
	Rng & r = c.rng;
	const char * K = "file";
	std::string path = scratch(fmt("m%llu", (unsigned long long)c.idx));
	int entropy = 2;
	std::vector<uint64_t> m;
	uint64_t next = r.next() >> 8;
	io().reset(1);
	Fault f = arm(c);
	io().failOpenAt = 0; 
	c.describe("file N=%zu block=%zu fault: %s", N, (size_t)tpie::get_block_size(), f.what.c_str());
	bool reported = false;
	{
		tpie::file<T> fl;
		uint64_t k = 1 + r.below(3);
		std::vector<std::unique_ptr<typename tpie::file<T>::stream>> st;
		std::vector<uint64_t> pos(k, 0);
		reported = guarded(c, f, K, [&] { fl.open(path, tpie::access_read_write); });
		if (!reported) {
			reported = guarded(c, f, K, [&] { for (uint64_t i = 0; i < k; ++i) { st.emplace_back(new typename tpie::file<T>::stream()); st.back()->attach(fl); } });
		}
		std::vector<uint64_t> tries; uint64_t tryAt = 0; // writes that reported an error: may or may not be there
		if (!reported) {
			int ops = r.pick({10, 60, 200});
			for (int i = 0; i < ops && !reported; ++i) {
				uint64_t w = r.below(k);
				auto & s = *st[w];
				uint64_t & p = pos[w];
				tries.clear();
				switch (r.below(4)) {
				case 0: {
					uint64_t t = r.chance(40) ? m.size() : r.below(m.size() + 1);
					c.op("s%llu seek %llu", (unsigned long long)w, (unsigned long long)t);
					reported = guarded(c, f, K, [&] { s.seek(t); });
					p = t; break;
				}
				case 1: {
					uint64_t n = 1 + r.below(20);
					c.op("s%llu read", (unsigned long long)w);
					reported = guarded(c, f, K, [&] {
						for (uint64_t j = 0; j < n && p < m.size(); ++j) {
							T x = s.read();
							VF_CHECK(c, x == make_item<N>(m[p], entropy), "file:misread", "cursor %llu read %s at %llu", (unsigned long long)w, show<N>(x).c_str(), (unsigned long long)p);
							++p;
						}
					});
					break;
				}
				default: {
					uint64_t n = 1 + r.below(20);
					c.op("s%llu write %llu at %llu", (unsigned long long)w, (unsigned long long)n, (unsigned long long)p);
					for (uint64_t j = 0; j < n && !reported; ++j) {
						uint64_t id = next++;
						reported = guarded(c, f, K, [&] { s.write(make_item<N>(id, entropy)); });
						if (reported) { tries.assign(1, id); tryAt = p; break; }
						if (p < m.size()) m[p] = id; else m.push_back(id);
						++p;
					}
				}
				}
			}
			if (reported) disarm_hard();
			for (auto & s : st) {
				if (guarded(c, f, K, [&] { s->detach(); })) { reported = true; disarm_hard(); guarded(c, f, K, [&] { s->detach(); }); }
			}
		}
		st.clear();
		if (guarded(c, f, K, [&] { fl.close(); })) { reported = true; disarm_hard(); guarded(c, f, K, [&] { fl.close(); }); }
		if (io().injected > 0) { count(f.hard ? "cases_with_hard_fault" : "cases_with_benign_faults"); count("faults_injected", io().injected); c.nontrivial = true; }
		count("file_cases");
		disarm();
		if (reported && m.empty() && !boost::filesystem::exists(path)) return;
		check_file<N>(c, K, path, m, tryAt, tries, -1, reported, entropy);
	}
	wipe(path);
}

template <typename W, typename R> static void ser_case(Ctx & c, const char * K, bool rev) {
	Rng & r = c.rng;
	std::string path = scratch(fmt("s%llu", (unsigned long long)c.idx));
	std::vector<std::string> chunks;
	size_t k = r.size(40);
	for (size_t i = 0; i < k; ++i) {
		std::string s(r.chance(10) ? (r.chance(30) ? r.below(1 << 21) : r.below(200000)) : r.below(300), 0);
		uint64_t h = r.next();
		for (size_t j = 0; j < s.size(); ++j) s[j] = (char)(mix(h + j / 8) >> (8 * (j % 8)));
		chunks.push_back(s);
	}
	io().reset(1);
	Fault f = arm(c);
	c.describe("%s chunks=%zu fault: %s", K, k, f.what.c_str());
	size_t fds = io().open_count();
	bool reported;
	{
		W w;
		reported = guarded(c, f, K, [&] { w.open(path); });
		if (!reported) for (auto & s : chunks) {
			reported = guarded(c, f, K, [&] { w.serialize(s); });
			if (reported) break;
		}
		if (reported) disarm_hard();
		if (guarded(c, f, K, [&] { w.close(); })) { reported = true; disarm_hard(); guarded(c, f, K, [&] { w.close(); }); }
		if (reported) disarm_hard();
	}
	VF_CHECK(c, io().open_count() == fds, fmt("%s:fd_leak", K), "descriptor left open by the writer");
	bool rrep = false;
	if (!reported) {
		if (f.hard && hard_left() == 0 && r.chance(50)) { io().failReadAt = 1 + r.below(8); }
		if (rev) std::reverse(chunks.begin(), chunks.end());
		size_t got = 0;
		{
			R rd;
			rrep = guarded(c, f, K, [&] { rd.open(path); });
			if (!rrep) rrep = guarded(c, f, K, [&] {
				for (auto & s : chunks) {
					VF_CHECK(c, rd.can_read(), fmt("%s:silent_loss", K), "stream ended after %zu of %zu strings", got, chunks.size());
					std::string x; rd.unserialize(x);
					VF_CHECK(c, x == s, fmt("%s:misread", K), "string %zu differs", got);
					++got;
				}
				VF_CHECK(c, !rd.can_read(), fmt("%s:extra", K), "more to read after the last string");
			});
			if (rrep) disarm_hard();
			guarded(c, f, K, [&] { rd.close(); });
		}
		VF_CHECK(c, io().open_count() == fds, fmt("%s:fd_leak", K), "descriptor left open by the reader");
		count("serialized_strings_verified", got);
	}
	if (io().injected > 0) { count(f.hard ? "cases_with_hard_fault" : "cases_with_benign_faults"); count("faults_injected", io().injected); c.nontrivial = true; }
	count("serialization_cases");
	disarm();
	wipe(path);
}

template <size_t N> static void streams(Ctx & c) {
	Rng & r = c.rng;
	typedef Item<N> T;
	int kind = r.below(4);
	bool wo = false; (void)wo;
	if (kind == 0) stream_case<tpie::file_stream<T>, N>(c, "plain", false, false, [](tpie::file_stream<T> & s, const std::string & p) { s.open(p, tpie::open::defaults); });
	else if (kind == 1 || kind == 2) stream_case<tpie::file_stream<T>, N>(c, "compressed", true, false, [](tpie::file_stream<T> & s, const std::string & p) { s.open(p, tpie::open::compression_all); });
	else stream_case<tpie::uncompressed_stream<T>, N>(c, "ustream", false, true, [](tpie::uncompressed_stream<T> & s, const std::string & p) { s.open(p, tpie::access_read_write); });
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({26, 39, 130, 1024}));
	set_scheme(r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	switch (r.below(10)) {
	case 0: case 1: ser_case<tpie::serialization_writer, tpie::serialization_reader>(c, "ser", false); break;
	case 2: ser_case<tpie::serialization_reverse_writer, tpie::serialization_reverse_reader>(c, "rser", true); break;
	case 3: case 4: r.chance(50) ? file_case<8>(c) : file_case<13>(c); break;
	case 5: case 6: streams<13>(c); break;
	default: streams<8>(c);
	}
}
