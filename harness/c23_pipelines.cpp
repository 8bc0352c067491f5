// C23: pipelines compute the composition of their stages.
// Random compositions of the standard stages, joined through virtual chunks, devirtualized into static
// pipelines, or written out with static types, are compared with the composition of what each stage
// does to a sequence; everything the stages leave beside the pipeline is compared as well.
#include "common.h"
#include "c23.h"
#include <tpie/tempname.h>
#include <tpie/compressed/buffer.h>
#include <tpie/pipelining/visit.h>
#include <dirent.h>
#include <filesystem>
#include <sstream>
using namespace vf;

static Seq items(Rng & r, size_t n) {
	Seq s(n); int shape = (int)r.below(6); uint64_t k = 1 + r.below(40);
	for (size_t i = 0; i < n; ++i) s[i] = shape == 0 ? r.next() : shape == 1 ? r.below(k) : shape == 2 ? i : shape == 3 ? n - i : shape == 4 ? i / k : (r.chance(90) ? i << 20 : r.next());
	return s;
}
static int files_in(const std::string & d) { int n = 0; for (auto & e : std::filesystem::recursive_directory_iterator(d)) n += e.is_regular_file(); return n; }
static int fds() { int n = 0; DIR * d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }

// The number of descriptors before the first case: other threads may be opening and closing some at the start of a later one.
static int at_rest() { int n = fds(), same = 0; while (same < 5) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); int m = fds(); same = m == n ? same + 1 : 0; n = m; } return n; }

// The pool of stream buffers keeps up to two buffers at rest.
static size_t pooled(bool grow = false) {
	auto & p = tpie::the_stream_buffer_pool();
	std::vector<tpie::stream_buffer_pool::buffer_t> b; size_t n = 0;
	while (p.can_take_shared_buffer()) { b.push_back(p.take_shared_buffer()); if (grow) b.back()->set_capacity(tpie::get_block_size()); n += b.back()->capacity(); }
	for (auto & x : b) p.release_shared_buffer(x);
	return n;
}
struct Bomb { size_t at; };

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 4096, 65536}));
	std::string tmp = scratch("t"), own = scratch("o");
	std::filesystem::remove_all(tmp); std::filesystem::remove_all(own); std::filesystem::create_directories(tmp); std::filesystem::create_directories(own);
	tpie::tempname::set_default_path(tmp);
	pooled(true); // the buffers at rest have the size of a block of this case
	size_t mem0 = tpie::get_memory_manager().used() - pooled(), files0 = tpie::get_file_manager().used(); static int fd0 = at_rest();
	bool thrown = false;
	std::string story; uint64_t shape = 0;
	if (r.chance(5)) { std::string m = misuse(r.next()); VF_CHECK(c, m.empty(), "misuse", "%s", m.c_str()); count("misuses"); }
	{
		World w; w.dir = own;
		auto par = [&] { uint64_t a = r.chance(50) ? r.below(100) : r.next(), b = r.chance(50) ? r.below(100) : r.next(); return Par{a, b}; };
		auto tell = [&](const char * n) { story += story.empty() ? n : std::string(" | ") + n; w.seen.push_back(n); shape = mix(shape ^ std::hash<std::string>()(n)); };
		size_t n = r.chance(10) ? r.below(3) : r.size(r.chance(5) ? 20000 : 400);
		Seq in = items(r, n);
		pl::pipeline p; bool bombed = false; size_t bombAt = 0; size_t fuse = 0;
		auto bomb = [&](const Seq & now) { // throws at an item that comes
			bombed = true; bombAt = r.chance(30) ? now.size() - 1 : r.below(now.size()); tell("bomb"); size_t at = bombAt; size_t * f = &fuse;
			return [at, f](const It & v) -> It { if ((*f)++ == at) throw Bomb{at}; return v; };
		};
		bool toBomb = r.chance(20);
		if (r.chance(20)) {
			Static s = static_pipeline((int)r.below(STATIC_KINDS), par(), in, w); tell(s.name); p = s.pipe; count("static");
		} else {
			Seq now; int64_t fwd;
			size_t len = r.size(7), most = 60000;
			int how = (int)r.below(4); // 0 to 2: push, 3: pull all the way
			if (how == 3) {
				PullBegin b = pull_begin_stage((int)r.below(PULL_BEGIN_KINDS), par(), in, w); tell(b.name); now = b.out; fwd = b.items; auto cur = b.chunk;
				bool devirt = r.chance(40); bool one = true;
				for (size_t i = 0; i < len && !(devirt && i); ++i) { if (toBomb && !bombed && !devirt && !now.empty() && r.chance(40)) { auto b = bomb(now); cur = cur | pl::virtual_chunk_pull<It>(pl::pull_map(b)); } Pull s = pull_stage((int)r.below(PULL_KINDS), par(), now, fwd, w); tell(s.name); if (!devirt || s.chunk.empty()) cur = cur | s.chunk; else { PullEnd e = pull_end_stage((int)r.below(PULL_END_KINDS), par(), s.out, w); tell(e.name); p = pl::devirtualize(cur) | pl::devirtualize(s.chunk) | pl::devirtualize(e.chunk); one = false; count("pull_devirtualized"); } now = s.out; fwd = s.items; }
				if (one) { PullEnd e = pull_end_stage((int)r.below(PULL_END_KINDS), par(), now, w); tell(e.name); if (devirt) p = pl::devirtualize(cur) | pl::devirtualize(e.chunk); else p = cur | e.chunk; }
				count("pull");
			} else {
				pl::virtual_chunk_begin<It> cur;
				if (r.chance(25)) {
					PullBegin b = pull_begin_stage((int)r.below(PULL_BEGIN_KINDS), par(), in, w); 
					if (b.items == UNKNOWN) b = pull_begin_stage(0, par(), in, w); // pull_source needs the number of items
					tell(b.name); now = b.out; fwd = b.items; auto pc = b.chunk;
					for (size_t i = r.below(3); i--;) { Pull s = pull_stage((int)r.below(PULL_KINDS), par(), now, fwd, w); tell(s.name); pc = pc | s.chunk; now = s.out; fwd = s.items; }
					Begin q = pull_to_push(pc, now, fwd); tell(q.name); cur = q.chunk; count("pull_to_push");
				} else { Begin b = begin_stage((int)r.below(BEGIN_KINDS), par(), in, w); tell(b.name); cur = b.chunk; now = b.out; fwd = b.items; }
				bool devirt = r.chance(30);
				for (size_t i = 0; i < len; ++i) {
					if (toBomb && !bombed && !(devirt && i == 0) && !now.empty() && r.chance(40)) { auto b = bomb(now); cur = cur | pl::virtual_chunk<It>(pl::map(b)); }
					if (r.chance(25)) { cur = cur | probe(fwd, w); count("items_looked_at"); if (fwd != UNKNOWN) count("items_known"); }
					int kind = (int)r.below(SIMPLE_KINDS);
					if (kind == 20 && w.jobs) kind = 0;
					if (kind == 19 && now.size() > most / 4) kind = 1;
					bool buf = r.chance(35); if (!buf && kind == 13 && now.size() > most / 2) kind = 1;
					int bk = (int)r.below(BUFFER_KINDS); if (now.size() > most / 2 && (bk == 15 || bk == 17)) bk = 0;
					Push s = buf ? buffer_stage(bk, par(), now, fwd, w) : simple_stage(kind, par(), now, fwd, w);
					tell(s.name);
					if (devirt && i == 0 && !s.chunk.empty()) { pl::virtual_chunk<It> more = s.chunk; cur = pl::virtual_chunk_begin<It>(pl::devirtualize(cur) | pl::devirtualize(more)); count("devirtualized"); }
					else cur = cur | s.chunk;
					now = s.out; fwd = s.items;
				}
				End e = end_stage((int)r.below(END_KINDS), par(), now, w); tell(e.name);
				if (devirt) p = pl::devirtualize(cur) | pl::devirtualize(e.chunk);
				else p = cur | e.chunk;
				count_max("longest", w.seen.size()); count("push");
			}
		}
		size_t mem = r.pick({(size_t)0, (size_t)300000, (size_t)2000000, (size_t)16000000, (size_t)128000000});
		c.describe("%s; %zu items, block size %zu, memory %zu", story.c_str(), n, tpie::get_block_size(), mem);
		if (r.chance(20)) { std::ostringstream o; if (r.chance(50)) p.plot(o); else p.plot_full(o); VF_CHECK(c, o.str().size() > 10, "plot", "an empty plot"); count("plots"); }
		tpie::progress_indicator_null pi(n);
		try { p(n, pi, mem, nullptr, nullptr); } catch (Bomb & b) { thrown = true; VF_CHECK(c, bombed && b.at == bombAt, "another_exception", "the exception of another stage"); }
		VF_CHECK(c, thrown == bombed, "swallowed", "the exception thrown at item %zu did not reach the caller (%zu items passed)", bombAt, fuse);
		if (thrown) count("threw"); else
		for (auto & f : w.checks) { std::string m = f(); VF_CHECK(c, m.empty(), "output", "%s", m.c_str()); count("outputs_compared"); }
		for (auto & s : w.seen) count("stage_" + s);
		count("items", n); if (w.bufferings) count("phases");
		c.mark(mix(shape ^ n));
		c.nontrivial = n > 1 && w.seen.size() > 2;
	}
	VF_CHECK(c, files_in(tmp) == 0, "files_left", "%d temporary files are left", files_in(tmp));
	VF_CHECK(c, tpie::get_file_manager().used() == files0, "files_open", "%zu files are still accounted", (size_t)tpie::get_file_manager().used() - files0);
	int fd1 = fds(); for (int i = 0; i < 10000 && fd1 != fd0; ++i) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); fd1 = fds(); } // the last ones are closed in the background
	VF_CHECK(c, fd1 == fd0, "fds", "%d descriptors are left", fd1 - fd0);
	size_t mem = tpie::get_memory_manager().used() - pooled();
	VF_CHECK(c, mem == mem0, thrown ? "memory_after_exception" : "memory", "%lld bytes more than before are accounted", (long long)(mem - mem0));
}
