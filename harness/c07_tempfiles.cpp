// C07: temporary names, ownership of temporary files, space accounting.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/file.h>
#include <tpie/serialization_stream.h>
using namespace vf;
namespace fs = boost::filesystem;

static std::mutex namesMu;
static std::atomic<int64_t> kept(0); // bytes of files left behind as persistent, which may or may not stay accounted
static std::set<std::string> allNames; // every name ever handed out in this process

struct World {
	Ctx & c; Rng & r;
	std::string dir, base, ext;
	explicit World(Ctx & c) : c(c), r(c.rng) {}

	struct Rec { std::string path; int owners; bool persist; bool touched; int fmt = -1; };
	std::map<int, Rec> recs;   // inner file id -> what we know
	int nextRec = 0;
	struct Handle { tpie::temp_file t; int rec; };
	std::vector<std::unique_ptr<Handle>> hs;
	typedef tpie::file_stream<Item<8>> FS; typedef tpie::uncompressed_stream<Item<8>> US; typedef tpie::file<Item<8>> FF;
	struct Open {
		int kind; int rec; // rec -1: anonymous
		std::unique_ptr<FS> fs; std::unique_ptr<US> us; std::unique_ptr<FF> ff; std::unique_ptr<FF::stream> cur; std::unique_ptr<tpie::serialization_writer> sw;
		std::string path;
	};
	std::vector<std::unique_ptr<Open>> os;
	bool threaded = false, persistOk = true;
	// Closed objects, to be opened again with another file.
	std::vector<std::unique_ptr<FS>> idleFs; std::vector<std::unique_ptr<US>> idleUs; std::vector<std::unique_ptr<FF>> idleFf;
	template <typename X> std::unique_ptr<X> fresh(std::vector<std::unique_ptr<X>> & idle) {
		if (idle.empty() || r.chance(30)) return std::unique_ptr<X>(new X());
		auto x = std::move(idle.back()); idle.pop_back(); count("objects_reopened"); return x;
	}
	template <typename X> void retire(std::vector<std::unique_ptr<X>> & idle, std::unique_ptr<X> & x, bool closed) {
		if (closed && r.chance(60)) { if (r.chance(40)) visit(*x); idle.push_back(std::move(x)); }
		x.reset();
	}
	// The object is used for an ordinary file, which is neither removed nor accounted.
	template <typename X> void fill(X & x, size_t n) { for (size_t i = 0; i < n; ++i) x.write(make_item<8>(i, 1)); }
	void fill(FF & f, size_t n) { FF::stream s(f); fill(s, n); }
	template <typename X> void visit(X & x) {
		std::string p = scratch(fmt("plain%llu_%llx", (unsigned long long)c.idx, (unsigned long long)r.next()));
		c.op("ordinary file in between");
		uint64_t was = tpie::get_temp_file_usage();
		x.open(p); fill(x, r.size(200)); x.close();
		VF_CHECK(c, fs::exists(p), "plain_removed", "an ordinary file was removed when closed");
		bool others = threaded; // whose blocks the compressor may be writing meanwhile
		for (auto & o : os) others |= o->fs && (void *)o->fs.get() != (void *)&x;
		VF_CHECK(c, others || tpie::get_temp_file_usage() == was, "plain_usage", "an ordinary file changed the temporary usage by %lld", (long long)(tpie::get_temp_file_usage() - was));
		wipe(p); count("plain_files");
	}

	void check_name(const std::string & n, const std::string & post, const std::string & dirArg, const std::string & e) {
		VF_CHECK(c, !fs::exists(n), "name_in_use", "%s already exists", n.c_str());
		{ std::lock_guard<std::mutex> l(namesMu); VF_CHECK(c, allNames.insert(n).second, "name_twice", "%s was handed out before", n.c_str()); }
		std::string d = dirArg.empty() ? dir : dirArg;
		VF_CHECK(c, n.compare(0, d.size() + 1, d + "/") == 0, "name_dir", "%s is not below %s", n.c_str(), d.c_str());
		VF_CHECK(c, fs::is_directory(fs::path(n).parent_path()), "name_nodir", "the directory of %s does not exist", n.c_str());
		std::string b = fs::path(n).filename().string();
		std::string pre = base + "_" + (post.empty() ? "" : post + "_");
		VF_CHECK(c, b.compare(0, pre.size(), pre) == 0, "name_base", "%s does not start with %s", b.c_str(), pre.c_str());
		if (!e.empty()) VF_CHECK(c, b.size() > e.size() && b.compare(b.size() - e.size(), e.size(), e) == 0, "name_ext", "%s does not end in %s", b.c_str(), e.c_str());
		count("names_checked");
	}

	void drop_owner(int rec) {
		if (rec < 0) return;
		Rec & x = recs[rec];
		if (--x.owners == 0) {
			if (!x.path.empty()) {
				if (x.persist) {
					VF_CHECK(c, fs::exists(x.path) == x.touched, "persistent_removed", "persistent file %s is gone", x.path.c_str());
					count("persistent_kept");
					if (x.touched) { int64_t b = (int64_t)tpie::get_block_size(), z = (int64_t)fs::file_size(x.path); kept += std::max<int64_t>(0, z + b); }
					wipe(x.path);
				} else VF_CHECK(c, !fs::exists(x.path), "left_behind", "%s still exists although nothing owns it", x.path.c_str());
			}
			if (x.touched && !x.persist) count("files_removed");
			recs.erase(rec);
		}
	}
	void exists_all() {
		for (auto & x : recs) if (x.second.touched)
			VF_CHECK(c, fs::exists(x.second.path), "removed_early", "%s is gone although %d owners remain", x.second.path.c_str(), x.second.owners);
		for (auto & o : os) VF_CHECK(c, fs::exists(o->path), "removed_early", "the file of an open stream (%s) is gone", o->path.c_str());
	}

	void settle(Open & o) {
		switch (o.kind) {
		case 0: case 1: o.fs->seek(0); if (o.fs->can_read()) o.fs->read(); o.fs->seek(0, FS::end); break;
		default: break;
		}
	}
	void usage(uint64_t base0) {
		if (threaded) return;
		for (auto & o : os) settle(*o);
		int64_t got = (int64_t)(tpie::get_temp_file_usage() - base0);
		// what the files hold: with or without their header, in bytes or in whole blocks
		std::set<int64_t> sums{0};
		std::set<std::string> paths;
		for (auto & x : recs) if (x.second.touched) paths.insert(x.second.path);
		for (auto & o : os) paths.insert(o->path);
		int64_t all = 0, b = (int64_t)tpie::get_block_size();
		for (auto & p : paths) {
			if (!fs::exists(p)) continue;
			int64_t z = (int64_t)fs::file_size(p), pay = std::max<int64_t>(0, z - 4096), full = (pay + b - 1) / b * b;
			all += z;
			std::set<int64_t> n;
			for (int64_t q : sums) for (int64_t w : {pay, z, full, full + 4096}) n.insert(q + w);
			sums.swap(n);
			if (sums.size() > 100000) { sums.clear(); break; }
		}
		if (sums.empty()) return;
		auto it = sums.upper_bound(got);
		bool ok = it != sums.begin() && got - *--it <= kept.load();
		if (!ok) for (auto & p : paths) c.op("FILE %s %lld", p.c_str(), fs::exists(p) ? (long long)fs::file_size(p) : -1LL);
		VF_CHECK(c, ok, "usage", "usage is %lld, but the %zu temporary files hold %lld bytes with their headers", (long long)got, paths.size(), (long long)all);
		count_max("temp_bytes", all);
		count("usage_checked");
	}

	void new_handle() {
		c.op("temp_file()");
		hs.emplace_back(new Handle());
		hs.back()->rec = nextRec++;
		recs[hs.back()->rec] = Rec{"", 1, false, false};
		if (r.chance(50)) {
			auto & h = *hs.back();
			recs[h.rec].path = h.t.path();
			check_name(h.t.path(), "", "", ext.empty() ? ".tpie" : "." + ext);
		}
	}
	Handle & pick() { if (hs.empty()) new_handle(); return *hs[r.below(hs.size())]; }
	bool in_use(int rec) { for (auto & o : os) if (o->rec == rec) return true; return false; }

	void open_stream() {
		std::unique_ptr<Open> o(new Open());
		o->kind = r.below(5);
		Handle * h = nullptr;
		if (o->kind == 4 || r.chance(50)) {
			h = &pick();
			if (in_use(h->rec)) return;
			o->rec = h->rec;
		} else o->rec = -1;
		bool reuse = h && recs[h->rec].touched;
		int fmt = o->kind == 4 ? 2 : o->kind == 1 ? 1 : 0; // plain and uncompressed streams and files can open each other's files
		if (reuse && recs[h->rec].fmt != fmt) return;
		if (h) recs[h->rec].fmt = fmt;
		c.op("open kind %d %s", o->kind, h ? "on handle" : "anonymous");
		switch (o->kind) {
		case 0: case 1: {
			o->fs = fresh(idleFs);
			auto fl = o->kind ? tpie::open::compression_all : tpie::open::defaults;
			if (h) o->fs->open(h->t, fl); else o->fs->open(fl);
			o->path = o->fs->path();
			break;
		}
		case 2: o->us = fresh(idleUs); if (h) o->us->open(h->t); else o->us->open(); o->path = o->us->path(); break;
		case 3: o->ff = fresh(idleFf); if (h) o->ff->open(h->t); else o->ff->open(); o->cur.reset(new FF::stream(*o->ff)); o->path = o->ff->path(); break;
		default: o->sw.reset(new tpie::serialization_writer()); o->sw->open(h->t); o->path = h->t.path();
		}
		if (h) { recs[h->rec].path = o->path; recs[h->rec].touched = true; VF_CHECK(c, h->t.path() == o->path, "path", "stream and handle disagree about the path"); }
		else check_fresh(o->path);
		os.push_back(std::move(o));
		count("streams_opened");
	}
	void check_fresh(const std::string & p) {
		{ std::lock_guard<std::mutex> l(namesMu); VF_CHECK(c, allNames.insert(p).second, "name_twice", "%s was handed out before", p.c_str()); }
		VF_CHECK(c, p.compare(0, dir.size() + 1, dir + "/") == 0, "name_dir", "%s is not below %s", p.c_str(), dir.c_str());
		count("names_checked");
	}
	uint64_t ids = 1;
	void use() {
		if (os.empty()) return open_stream();
		Open & o = *os[r.below(os.size())];
		uint64_t n = r.size(200);
		c.op("use kind %d: %llu size %llu", o.kind, (unsigned long long)n, (unsigned long long)(o.fs ? o.fs->size() : o.us ? o.us->size() : o.ff ? o.ff->size() : 0));
		auto item = [&] { return make_item<8>(ids++, r.below(3)); };
		switch (o.kind) {
		case 0: case 1:
			if (r.chance(70)) { o.fs->seek(0, FS::end); for (uint64_t i = 0; i < n; ++i) o.fs->write(item()); }
			else if (o.kind == 1) o.fs->truncate(0);
			else o.fs->truncate(r.below(o.fs->size() + 1));
			break;
		case 2:
			if (r.chance(70)) { o.us->seek(0, US::end); for (uint64_t i = 0; i < n; ++i) o.us->write(item()); }
			else o.us->truncate(r.below(o.us->size() + 1));
			break;
		case 3:
			if (r.chance(70)) { o.cur->seek(0, FF::stream::end); for (uint64_t i = 0; i < n; ++i) o.cur->write(item()); }
			else { o.cur->detach(); o.ff->truncate(r.below(o.ff->size() + 1)); o.cur->attach(*o.ff); }
			break;
		default: { std::string s(r.chance(5) ? 1 << 21 : n, 'x'); o.sw->serialize(s); }
		}
	}
	void close_one(size_t i) {
		Open & o = *os[i];
		c.op("close kind %d", o.kind);
		bool destroy = r.chance(40);
		switch (o.kind) {
		case 0: case 1: if (!destroy) o.fs->close(); retire(idleFs, o.fs, !destroy); break;
		case 2: if (!destroy) o.us->close(); retire(idleUs, o.us, !destroy); break;
		case 3: o.cur.reset(); o.ff->close(); retire(idleFf, o.ff, true); break;
		default: if (!destroy) o.sw->close(); o.sw.reset();
		}
		int rec = o.rec; std::string p = o.path;
		os.erase(os.begin() + i);
		if (rec < 0) { VF_CHECK(c, !fs::exists(p), "left_behind", "anonymous file %s still exists after close", p.c_str()); count("files_removed"); }
	}

	void run(int ops, uint64_t base0) {
		for (int i = 0; i < ops; ++i) {
			switch (r.below(threaded ? 9 : 11)) {
			case 0: new_handle(); break;
			case 1: { // copy: one more owner
				Handle & h = pick();
				c.op("copy handle");
				hs.emplace_back(new Handle(h)); ++recs[hs.back()->rec].owners;
				break;
			}
			case 2: { // drop
				if (hs.empty()) break;
				size_t k = r.below(hs.size());
				if (in_use(hs[k]->rec)) break;
				int rec = hs[k]->rec;
				c.op("drop handle");
				if (r.chance(50)) hs.erase(hs.begin() + k);
				else { hs[k]->t.free(); hs[k]->rec = nextRec++; recs[hs[k]->rec] = Rec{"", 1, false, false}; }
				drop_owner(rec);
				break;
			}
			case 3: { // assign
				Handle & a = pick(); Handle & b = pick();
				if (in_use(a.rec)) break;
				c.op("assign handle");
				int old = a.rec;
				++recs[b.rec].owners;
				a.t = b.t; a.rec = b.rec;
				drop_owner(old);
				break;
			}
			case 4: { // a specific file
				Handle & h = pick();
				if (in_use(h.rec)) break;
				std::string p = scratch(fmt("own%llu_%d_%llx", (unsigned long long)c.idx, nextRec, (unsigned long long)r.next()));
				bool exists = r.chance(50), persist = persistOk && r.chance(50);
				if (exists) spit(p, std::string());
				c.op("set_path exists=%d persist=%d", exists, persist);
				int old = h.rec;
				h.t.set_path(p, persist); h.rec = nextRec++;
				recs[h.rec] = Rec{p, 1, persist, exists};
				if (exists) wipe(p), recs[h.rec].touched = false;
				drop_owner(old);
				break;
			}
			case 5: { Handle & h = pick(); bool p = persistOk && r.chance(50); c.op("set_persistent %d", p); h.t.set_persistent(p); recs[h.rec].persist = p; VF_CHECK(c, h.t.is_persistent() == p, "persist", "persistence not kept"); break; }
			case 6: { // plain names
				std::string post = r.chance(50) ? "" : "post", d = r.chance(50) ? "" : G().scratch, e = r.chance(50) ? "" : "dat";
				if (r.chance(70)) check_name(tpie::tempname::tpie_name(post, d, e), post, d, e.empty() ? (ext.empty() ? ".tpie" : "." + ext) : "." + e);
				else check_name(tpie::tempname::tpie_dir_name(post, d), post, d, "");
				break;
			}
			case 7: if (!threaded && r.chance(25)) try_dir(); else open_stream(); break;
			case 8: if (!os.empty()) close_one(r.below(os.size())); break;
			case 9: configure(); break;
			default: use();
			}
			if (r.chance(30)) use();
			if (r.chance(15)) { exists_all(); usage(base0); }
		}
		exists_all();
		usage(base0);
		while (!os.empty()) close_one(os.size() - 1);
		usage(base0);
		while (!hs.empty()) { int rec = hs.back()->rec; hs.pop_back(); drop_owner(rec); }
	}

	void try_dir() { // a directory that is tried is left as it was
		std::string d = scratch("tried"), a = d + "/afile";
		fs::create_directories(d); spit(a, "x");
		int how = r.below(os.empty() ? 5 : 2); // faults could hit the streams instead
		c.op("try_directory how=%d", how);
		std::string p = how == 0 ? d + "/none" : how == 1 ? a : d;
		if (how == 2) { io().failOpenAt = 1; io().failErrno = EACCES; io().failSticky = false; }
		if (how == 3) { io().failWriteAt = 1; io().failErrno = ENOSPC; io().failSticky = false; }
		size_t fds = io().open_count();
		bool ok = tpie::tempname::try_directory(p);
		io().failOpenAt = io().failWriteAt = 0;
		VF_CHECK(c, ok == (how == 4), "try_directory", "%s is %susable", p.c_str(), ok ? "" : "not ");
		auto l = list_dir(d);
		VF_CHECK(c, l.size() == 1, "tried", "%zu files are in a directory that was tried, one was (how %d)", l.size(), how);
		VF_CHECK(c, io().open_count() == fds, "tried_fd", "trying a directory leaves a file open");
		count("directories_tried");
	}

	void configure() { // only while single-threaded
		base = r.pick<std::string>({"TPIE", "x", "a_b"});
		ext = r.pick<std::string>({"", "", "ext"});
		std::string root = scratch(fmt("root%llu", (unsigned long long)r.below(3)));
		fs::create_directories(root);
		int how = r.below(4);
		c.op("configure base=%s ext=%s how=%d", base.c_str(), ext.c_str(), how);
		tpie::tempname::set_default_base_name(base);
		tpie::tempname::set_default_extension(ext);
		if (how == 0) { tpie::tempname::set_default_path(root, ""); dir = root; }
		else if (how == 1) { tpie::tempname::set_default_path(root, "sub"); dir = root + "/sub"; }
		else if (how == 2) { spit(root + "/afile", "x"); tpie::tempname::set_default_path(root, "afile"); dir = root; } // cannot be used: falls back
		else { tpie::tempname::set_default_path(root, "no/such/parent"); dir = root; }
		VF_CHECK(c, tpie::tempname::get_default_path() == dir && tpie::tempname::get_actual_path() == dir, "default_path", "default path is %s, not %s", tpie::tempname::get_default_path().c_str(), dir.c_str());
		count("reconfigured");
	}
};

static void leftovers(Ctx & c, const char * when) {
	for (int i = 0; i < 3; ++i) {
		std::string root = scratch(fmt("root%d", i));
		for (auto & n : list_dir(root)) {
			if (n == "afile") continue;
			if (n == "sub") { for (auto & m : list_dir(root + "/sub")) c.fail("leftover", "%s: %s/sub/%s is left", when, root.c_str(), m.c_str()); continue; }
			c.fail("leftover", "%s: %s/%s is left", when, root.c_str(), n.c_str());
		}
	}
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({64, 200, 4096}));
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 200});
	set_scheme(r.chance(60) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	uint64_t base0 = tpie::get_temp_file_usage();
	bool threads = r.chance(25);
	kept = 0;
	c.describe("%s block=%zu", threads ? "threads" : "one thread", (size_t)tpie::get_block_size());
	{
		World w(c);
		w.persistOk = r.chance(50);
		bool pok = w.persistOk;
		w.configure();
		if (!threads) {
			w.run(r.pick({10, 40, 120}), base0);
		} else {
			std::vector<std::function<void(Ctx &)>> b;
			int n = 2 + r.below(4);
			for (int i = 0; i < n; ++i) b.push_back([&, i](Ctx & t) {
				World x(t); x.threaded = true; x.persistOk = pok; x.dir = w.dir; x.base = w.base; x.ext = w.ext; x.ids = 1000000 * i;
				x.run(20, base0);
			});
			run_threads(c, b);
			count("threaded_cases");
		}
	}
	int64_t off = (int64_t)(tpie::get_temp_file_usage() - base0);
	VF_CHECK(c, off >= 0 && off <= kept.load(), "usage_end", "usage is %lld bytes off after everything is gone (%lld bytes were kept)", (long long)off, (long long)kept.load());
	if (!kept.load()) count("usage_returned_exactly");
	VF_CHECK(c, tpie::get_file_manager().used() == 0, "open_files", "files still open");
	c.nontrivial = true;
	if (r.chance(20)) {
		if (r.chance(50)) { tpie::tpie_finish(); leftovers(c, "after tpie_finish"); tpie::tpie_init(); tpie::get_memory_manager().set_limit(512 << 20); tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); count("library_restarts"); }
		else { tpie::finish_tempfile(); leftovers(c, "after finish_tempfile"); }
		count("shutdowns_checked");
	}
}
