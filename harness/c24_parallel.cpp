// C24: parallel pipeline stages neither lose, duplicate nor misorder items.
// Random pipelines with one or two parallel sections run on the real threads with random delays; the
// output is compared with what the inner stages produce for each item, and throwing stages at random
// points must end the pipeline with their exception and leave no thread, memory or item behind.
#include "common.h"
#include "cond_shim.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/progress_indicator_base.h>
#include <dirent.h>
using namespace vf;
namespace pl = tpie::pipelining;

static std::atomic<int64_t> alive{0};
struct Val { // what goes through: which source item, which output of each section
	uint64_t id = ~0ull; uint32_t a = 0, b = 0; std::vector<uint32_t> trail; // not trivially copyable
	Val() { alive.fetch_add(1, std::memory_order_relaxed); }
	Val(const Val & o) : id(o.id), a(o.a), b(o.b), trail(o.trail) { alive.fetch_add(1, std::memory_order_relaxed); }
	Val & operator=(const Val & o) = default;
	~Val() { alive.fetch_sub(1, std::memory_order_relaxed); }
	bool operator==(const Val & o) const { return id == o.id && a == o.a && b == o.b && trail == o.trail; }
	bool operator<(const Val & o) const { return std::tie(id, a, b, trail) < std::tie(o.id, o.a, o.b, o.trail); }
};
struct Boom { int where; uint64_t at; };
enum Where { NOWHERE, SOURCE_BEGIN, SOURCE_GO, SOURCE_END, IN_BEGIN, IN_PUSH, IN_END, SINK_BEGIN, SINK_PUSH, SINK_END, PROPAGATE, WHERES };
static const char * whereName[] = {"nowhere", "source begin", "source go", "source end", "inner begin", "inner push", "inner end", "sink begin", "sink push", "sink end", "inner propagate"};

struct Section { int jobs; size_t buf; bool ordered; int fan; bool hold; int stages; int delayPct; uint64_t seed; };
struct World {
	std::thread::id mainThread; size_t n = 0; uint64_t seed = 0; int sourceDelay = 0, sinkDelay = 0; bool steps = false;
	int where = NOWHERE; uint64_t at = 0; int atSection = 0; bool many = false; // many: every item from at on
	bool hit(int which, uint64_t id) const { return where == IN_PUSH && atSection == which && (many ? id >= at : id == at); }
	 // at: item id (or copy number for begin and end)
	std::atomic<uint64_t> thrown{0}, schedule{0}, misfit{0}, wrongThread{0}, reentered{0}, processed{0}, switches{0};
	std::vector<Val> out; std::atomic<int> inside{0};
	void boom(int w, uint64_t a) { thrown.fetch_add(1, std::memory_order_relaxed); throw Boom{w, a}; }
};
static World * W;
static thread_local int lastCopy = -1;
static void nap(uint64_t h, int pct) {
	if (!pct || (int)(h % 100) >= pct) return;
	h /= 100;
	if (h % 3 == 0) std::this_thread::yield(); else if (h % 3 == 1) { volatile uint64_t x = h; for (unsigned i = 0; i < h / 3 % 2000; ++i) x = mix(x); } else std::this_thread::sleep_for(std::chrono::microseconds(h / 3 % 150));
}
// How many outputs the section makes of an item.
static unsigned fan_of(const Section & s, uint64_t key) { uint64_t h = mix(s.seed ^ key); return s.fan == 0 ? 1 : s.fan == 1 ? (unsigned)(h % 2) : s.fan == 2 ? (unsigned)(h % 4) : s.fan == 3 ? (h % 50 == 0 ? 200 : 0) : s.fan == 4 ? 3 : 0; }
static uint64_t key_of(const Val & v) { return mix(v.id * 1000003 + v.a * 1009 + v.b); }

template <typename dest_t> struct Inner : pl::node { // first stage of a section: fans out
	typedef Val item_type;
	dest_t dest; const Section * s; int which; std::atomic<int> * copies; int copy = -1; std::vector<Val> held; std::thread::id me; int entered = 0; bool begun = false, ended = false;
	Inner(dest_t dest, const Section * s, int which, std::atomic<int> * copies) : dest(std::move(dest)), s(s), which(which), copies(copies) { add_push_destination(this->dest); }
	void propagate() override {
		if (W->where == PROPAGATE && W->atSection == which) W->boom(PROPAGATE, 0);
		if (W->steps && which == 0) set_steps(fetch<tpie::stream_size_type>("items"));
	}
	void begin() override {
		copy = (*copies)++; begun = true;
		if (std::this_thread::get_id() != W->mainThread) ++W->wrongThread;
		if (W->where == IN_BEGIN && W->atSection == which && (uint64_t)copy == W->at) { nap(mix(W->seed), 100); W->boom(IN_BEGIN, W->at); }
	}
	void push(const Val & v) {
		if (!begun || ended || ++entered != 1) W->reentered.fetch_add(1, std::memory_order_relaxed);
		std::thread::id t = std::this_thread::get_id();
		if (me == std::thread::id()) me = t;
		if (me != t) W->wrongThread.fetch_add(1, std::memory_order_relaxed);
		W->processed.fetch_add(1, std::memory_order_relaxed);
		W->schedule.store(mix(W->schedule.load(std::memory_order_relaxed) ^ (uint64_t)copy << 32 ^ (v.id & 63)), std::memory_order_relaxed);
		uint64_t k = key_of(v);
		nap(mix(k ^ W->seed), s->delayPct);
		unsigned m = fan_of(*s, k);
		for (unsigned i = 0; i < m; ++i) {
			if (i == m - 1 && W->hit(which, v.id)) W->boom(IN_PUSH, v.id);
			Val o = v; (which ? o.b : o.a) = i + 1; o.trail.push_back((uint32_t)k + i);
			if (s->hold && mix(k + i) % 5 == 0) held.push_back(o); else dest.push(o);
		}
		if (m == 0 && W->hit(which, v.id)) W->boom(IN_PUSH, v.id);
		if (W->steps && which == 0) step();
		--entered;
	}
	void end() override {
		if (std::this_thread::get_id() != W->mainThread) ++W->wrongThread;
		if (W->where == IN_END && W->atSection == which && (uint64_t)copy == W->at) W->boom(IN_END, W->at);
		for (auto & v : held) dest.push(v);
		std::vector<Val>().swap(held);
		ended = true;
	}
};
template <typename dest_t> struct Pass : pl::node { // second stage of a section
	typedef Val item_type; dest_t dest;
	Pass(dest_t dest) : dest(std::move(dest)) { add_push_destination(this->dest); }
	void propagate() override { if (W->steps) set_steps(fetch<tpie::stream_size_type>("items") * 8); } // more than it takes
	void push(const Val & v) { Val o = v; o.trail.push_back(77); dest.push(o); if (W->steps) step(); }
};
template <typename dest_t> struct Source : pl::node {
	dest_t dest;
	Source(dest_t dest) : dest(std::move(dest)) { add_push_destination(this->dest); }
	void propagate() override { forward("items", (tpie::stream_size_type)W->n); set_steps(W->n); }
	void begin() override { if (W->where == SOURCE_BEGIN) W->boom(SOURCE_BEGIN, 0); }
	void go() override {
		for (size_t i = 0; i < W->n; ++i) {
			if (W->where == SOURCE_GO && W->at == i) W->boom(SOURCE_GO, i);
			nap(mix(i * 3 + W->seed), W->sourceDelay);
			Val v; v.id = i; dest.push(v); step();
		}
	}
	void end() override { if (W->where == SOURCE_END) W->boom(SOURCE_END, 0); }
};
struct Sink : pl::node {
	typedef Val item_type;
	void begin() override { if (W->where == SINK_BEGIN) W->boom(SINK_BEGIN, 0); }
	void push(const Val & v) {
		if (std::this_thread::get_id() != W->mainThread || W->inside.fetch_add(1, std::memory_order_relaxed)) W->wrongThread.fetch_add(1, std::memory_order_relaxed);
		if (W->where == SINK_PUSH && W->at == W->out.size()) W->boom(SINK_PUSH, W->at);
		nap(mix(key_of(v) + W->seed), W->sinkDelay);
		W->out.push_back(v);
		W->inside.fetch_sub(1, std::memory_order_relaxed);
	}
	void end() override { if (W->where == SINK_END) W->boom(SINK_END, 0); }
};
struct Ind : tpie::progress_indicator_base {
	Ctx & c; uint64_t last = 0; int inits = 0, dones = 0;
	Ind(Ctx & c) : progress_indicator_base(1), c(c) {}
	void init(tpie::stream_size_type range) override { ++inits; last = 0; progress_indicator_base::init(range); }
	void done() override { ++dones; }
	void refresh() override { uint64_t v = get_current(); VF_CHECK(c, v >= last && v <= get_range(), "progress", "progress went from %llu to %llu of %llu", (unsigned long long)last, (unsigned long long)v, (unsigned long long)get_range()); last = v; count("progress_seen"); }
};
static int threads_now() { int n = 0; DIR * d = opendir("/proc/self/task"); while (dirent * e = readdir(d)) n += e->d_name[0] != '.'; closedir(d); return n; }

// What comes out of a section for a sequence; what it holds back until the end separately.
static void expect(const Section & s, int which, const std::vector<Val> & in, std::vector<Val> & flow, std::vector<Val> & late) {
	for (auto & v : in) {
		uint64_t k = key_of(v); unsigned m = fan_of(s, k);
		for (unsigned i = 0; i < m; ++i) {
			Val o = v; (which ? o.b : o.a) = i + 1; o.trail.push_back((uint32_t)k + i);
			bool hold = s.hold && mix(k + i) % 5 == 0;
			if (s.stages > 1) o.trail.push_back(77);
			(hold ? late : flow).push_back(o);
		}
	}
}
static Section section(Rng & r) {
	Section s; s.jobs = r.pick({1, 1, 2, 2, 3, 4, 4, 8}); s.buf = r.pick({1, 1, 2, 3, 7, 16, 64, 2048}); s.ordered = r.chance(50);
	s.fan = (int)r.below(6); if (s.fan == 5 && r.chance(80)) s.fan = 0; s.hold = r.chance(25); s.stages = 1 + (int)r.below(2); s.delayPct = r.pick({0, 0, 5, 30, 100}); s.seed = r.next();
	return s;
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	Spurious spurious(r);
	int before = threads_now();
	size_t mem0 = tpie::get_memory_manager().used(); int64_t alive0 = alive;
	{
		World w; W = &w; w.mainThread = std::this_thread::get_id();
		Section s[2] = {section(r), section(r)};
		int sections = r.chance(30) ? 2 : 1;
		w.n = r.chance(8) ? r.below(3) : r.size(s[0].delayPct > 5 || s[1].delayPct > 5 ? 250 : 1500); w.seed = r.next();
		w.sourceDelay = r.pick({0, 0, 0, 5, 20}); w.sinkDelay = r.pick({0, 0, 0, 5, 20}); w.steps = r.chance(50);
		if (r.chance(40)) {
			w.where = 1 + (int)r.below(WHERES - 1); if (r.chance(30)) w.where = IN_PUSH; w.atSection = (int)r.below(sections);
			w.at = w.where == IN_BEGIN || w.where == IN_END ? r.below(s[w.atSection].jobs) : r.below(w.n + 1);
			if (w.n && r.chance(20) && w.where == IN_PUSH) w.at = w.n - 1;
			w.many = r.chance(40);
		}
		c.describe("%zu items, %d sections: jobs %d buffer %zu %s fan %d%s stages %d delay %d%s; throw: %s at %llu in section %d", w.n, sections, s[0].jobs, s[0].buf, s[0].ordered ? "ordered" : "arbitrary", s[0].fan, s[0].hold ? " holding" : "", s[0].stages, s[0].delayPct,
			sections > 1 ? fmt("; jobs %d buffer %zu %s fan %d%s stages %d delay %d", s[1].jobs, s[1].buf, s[1].ordered ? "ordered" : "arbitrary", s[1].fan, s[1].hold ? " holding" : "", s[1].stages, s[1].delayPct).c_str() : "", whereName[w.where], (unsigned long long)w.at, w.atSection);
		std::atomic<int> copies[2] = {{0}, {0}};
		bool caught = false; Boom boom{0, 0}; Ind pi(c);
		{
			auto inner = [&](int i) { return pl::pipe_middle<pl::factory<Inner, const Section *, int, std::atomic<int> *>>(&s[i], i, &copies[i]); };
			auto pass = [] { return pl::pipe_middle<pl::factory<Pass>>(); };
			auto order = [&](int i) { return s[i].ordered ? pl::maintain_order : pl::arbitrary_order; };
			auto source = [] { return pl::pipe_begin<pl::factory<Source>>(); };
			auto sink = [] { return pl::pipe_end<pl::termfactory<Sink>>(); };
			auto run = [&](pl::pipeline p) {
				try { p(w.n, pi, nullptr, nullptr); }
				catch (const Boom & b) { caught = true; boom = b; }
			};
			if (sections == 1) {
				if (s[0].stages == 1) run(source() | pl::parallel(inner(0), order(0), s[0].jobs, s[0].buf) | sink());
				else run(source() | pl::parallel(inner(0) | pass(), order(0), s[0].jobs, s[0].buf) | sink());
			} else {
				if (s[0].stages == 1 && s[1].stages == 1) run(source() | pl::parallel(inner(0), order(0), s[0].jobs, s[0].buf) | pl::parallel(inner(1), order(1), s[1].jobs, s[1].buf) | sink());
				else { s[0].stages = s[1].stages = 2; run(source() | pl::parallel(inner(0) | pass(), order(0), s[0].jobs, s[0].buf) | pl::parallel(inner(1) | pass(), order(1), s[1].jobs, s[1].buf) | sink()); }
			}
		}
		c.mark(w.schedule);
		VF_CHECK(c, w.wrongThread == 0, "thread", "%llu calls came from a thread they should not come from", (unsigned long long)w.wrongThread);
		VF_CHECK(c, w.reentered == 0, "reentered", "%llu calls of a stage while it runs, before begin or after end", (unsigned long long)w.reentered);
		VF_CHECK(c, caught == (w.thrown > 0), "exception", "%llu exceptions were thrown, %s", (unsigned long long)w.thrown, caught ? "one reached the caller" : "none reached the caller");
		if (caught) { VF_CHECK(c, boom.where == w.where && (boom.at == w.at || (w.many && w.where == IN_PUSH && boom.at >= w.at) || w.where == SOURCE_END || w.where == SINK_END || w.where == SOURCE_BEGIN || w.where == SINK_BEGIN || w.where == PROPAGATE), "exception_value", "the exception that arrived is not the one thrown"); count("threw"); if (w.thrown > 1) count("threw_twice"); count(std::string("threw_") + fmt("%d", w.where)); }
		// what should have come out
		std::vector<Val> in(w.n); for (size_t i = 0; i < w.n; ++i) in[i].id = i;
		std::vector<Val> flow, late; expect(s[0], 0, in, flow, late);
		size_t n0 = in.size();
		bool ordered = s[0].ordered;
		if (sections == 2) {
			std::vector<Val> f2, l2; n0 += flow.size() + late.size();
			std::vector<Val> in2 = flow, lateIn = late; flow.clear(); late.clear();
			expect(s[1], 1, in2, f2, l2);
			size_t k = f2.size(); (void)k;
			flow = f2; std::vector<Val> lf; expect(s[1], 1, lateIn, lf, l2);
			late = lf; late.insert(late.end(), l2.begin(), l2.end());
			ordered = ordered && s[1].ordered;
		}
		std::vector<Val> all = flow; all.insert(all.end(), late.begin(), late.end());
		std::vector<Val> got = w.out;
		if (!caught) {
			VF_CHECK(c, w.processed == n0, "processed", "%llu items were processed, there are %zu", (unsigned long long)w.processed, n0);
			VF_CHECK(c, got.size() == all.size(), "count", "%zu items came out instead of %zu", got.size(), all.size());
			if (ordered) {
				for (size_t i = 0; i < flow.size(); ++i) VF_CHECK(c, got[i] == flow[i], "order", "item %zu of %zu is item %llu.%u.%u instead of %llu.%u.%u", i, flow.size(), (unsigned long long)got[i].id, got[i].a, got[i].b, (unsigned long long)flow[i].id, flow[i].a, flow[i].b);
				count("ordered");
			} else {
				// outputs for one item come in the order they were made
				if (sections == 1) { std::map<uint64_t, uint32_t> seen; for (size_t i = 0; i < flow.size() && i < got.size(); ++i) { if (s[0].hold) break; uint32_t & l = seen[got[i].id]; VF_CHECK(c, got[i].a == l + 1, "item_order", "output %u of item %llu comes after output %u", got[i].a, (unsigned long long)got[i].id, l); l = got[i].a; } }
				bool moved = false; for (size_t i = 1; i < got.size(); ++i) if (got[i].id < got[i - 1].id) moved = true;
				if (moved) count("overtaken");
			}
			std::sort(got.begin(), got.end()); std::sort(all.begin(), all.end());
			VF_CHECK(c, got == all, "items", "the items that came out are not those expected");
			VF_CHECK(c, pi.get_current() <= pi.get_range(), "progress", "progress ended at %llu of %llu", (unsigned long long)pi.get_current(), (unsigned long long)pi.get_range());
			count("completed");
			if (!late.empty()) count("held_back");
			if (w.n % s[0].buf) count("partial_batches");
			if (s[0].fan >= 2 && s[0].buf < 4) count("partial_outputs");
		} else {
			if (ordered && !s[0].hold && !s[1].hold) for (size_t i = 0; i < got.size(); ++i) VF_CHECK(c, i < flow.size() && got[i] == flow[i], "prefix", "before the exception, item %zu is not the expected one", i);
			std::sort(got.begin(), got.end()); std::sort(all.begin(), all.end());
			VF_CHECK(c, std::includes(all.begin(), all.end(), got.begin(), got.end()), "foreign", "items came out that should not");
		}
		count("items_in", w.n); count("items_out", w.out.size()); count(fmt("jobs_%d", s[0].jobs)); count(sections == 2 ? "two_sections" : "one_section");
		count_max("workers_used", (uint64_t)copies[0].load());
		c.nontrivial = w.n > 1;
	}
	// threads joined may take a moment to vanish from /proc
	for (int i = 0; i < 2000 && threads_now() > before; ++i) std::this_thread::sleep_for(std::chrono::microseconds(500));
	VF_CHECK(c, threads_now() <= before, "threads_left", "%d threads are left", threads_now() - before);
	VF_CHECK(c, alive == alive0, "items_left", "%lld items are left", (long long)(alive - alive0));
	VF_CHECK(c, tpie::get_memory_manager().used() == mem0, "memory_left", "%lld bytes are still accounted", (long long)tpie::get_memory_manager().used() - (long long)mem0);
}
