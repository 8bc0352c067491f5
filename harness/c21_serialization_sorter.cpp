// C21: the serialization sorter: sorted permutation of items of any size, for all memory assignments;
// items that do not fit are reported; nothing is left behind.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/compressed/buffer.h>
#include <tpie/serialization_sorter.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/progress_indicator_base.h>
using namespace vf;
namespace pl = tpie::pipelining;

static std::atomic<int64_t> alive{0}, bodies{0}; // items and the bytes of their bodies
static std::string body_of(uint32_t id, size_t len) { std::string s(len, 0); for (size_t i = 0; i < len; ++i) s[i] = (char)(mix(id + i / 8 * 77) >> (i % 8 * 8)); return s; }
struct Item21 { // variable size
	uint32_t key = 0, id = ~0u; std::string body;
	Item21() { ++alive; }
	Item21(const Item21 & o) : key(o.key), id(o.id), body(o.body) { ++alive; bodies += body.size(); }
	Item21 & operator=(const Item21 & o) { bodies += (int64_t)o.body.size() - (int64_t)body.size(); key = o.key; id = o.id; body = o.body; return *this; }
	~Item21() { --alive; bodies -= body.size(); }
	bool intact() const { return body == body_of(id, body.size()); }
	size_t len() const { return body.size(); }
	static Item21 make(uint32_t key, uint32_t id, size_t len) { Item21 i; i.key = key; i.id = id; i.body = body_of(id, len); bodies += len; return i; }
};
template <typename D> void serialize(D & d, const Item21 & v) { using tpie::serialize; serialize(d, v.key); serialize(d, v.id); serialize(d, v.body); }
template <typename S> void unserialize(S & s, Item21 & v) { using tpie::unserialize; unserialize(s, v.key); unserialize(s, v.id); bodies -= v.body.size(); unserialize(s, v.body); bodies += v.body.size(); }
template <size_t P> struct Fixed21 { // constant size
	uint32_t key = 0, id = ~0u; unsigned char pad[P];
	bool intact() const { for (size_t i = 0; i < P; ++i) if (pad[i] != (unsigned char)(mix(id) >> (i % 8))) return false; return true; }
	size_t len() const { return 0; }
	static Fixed21 make(uint32_t key, uint32_t id, size_t) { Fixed21 i; i.key = key; i.id = id; for (size_t k = 0; k < P; ++k) i.pad[k] = (unsigned char)(mix(id) >> (k % 8)); return i; }
};

struct Hollow21 { // much smaller on disk than in memory
	uint32_t key = 0, id = ~0u; unsigned char rest[3992];
	bool intact() const { return rest[0] == (unsigned char)id && rest[3991] == (unsigned char)(id >> 8); }
	size_t len() const { return 0; }
	void fill() { memset(rest, 0, sizeof rest); rest[0] = (unsigned char)id; rest[3991] = (unsigned char)(id >> 8); }
	static Hollow21 make(uint32_t key, uint32_t id, size_t) { Hollow21 i; i.key = key; i.id = id; i.fill(); return i; }
	Hollow21() {}
	Hollow21(const Hollow21 & o) { memcpy((void *)this, &o, sizeof o); }
	Hollow21 & operator=(const Hollow21 & o) { memcpy((void *)this, &o, sizeof o); return *this; }
};
template <typename D> void serialize(D & d, const Hollow21 & v) { using tpie::serialize; serialize(d, v.key); serialize(d, v.id); }
template <typename S> void unserialize(S & s, Hollow21 & v) { using tpie::unserialize; unserialize(s, v.key); unserialize(s, v.id); v.fill(); }

static size_t used() { return tpie::get_memory_manager().used(); }
struct Source { std::vector<uint32_t> key; std::vector<size_t> len; };
struct Watch { const Source * src = nullptr; std::atomic<uint64_t> calls{0}, foreign{0}; std::atomic<size_t> peak{0}, held{0}, files{0}; };
static size_t open_files() { return io().opens.load(std::memory_order_relaxed) - io().closes.load(std::memory_order_relaxed); }
static void raise(std::atomic<size_t> & a, size_t v) { size_t was = a.load(std::memory_order_relaxed); while (v > was && !a.compare_exchange_weak(was, v, std::memory_order_relaxed)) {} }
struct Order {
	Watch * w; int how;
	static uint64_t rank(uint32_t k, int how) { return how == 0 ? k : how == 1 ? ~k : how == 2 ? k % 7 : how == 3 ? 0 : (k ^ (k >> 5)) & 0xffff; }
	template <typename T> bool operator()(const T & a, const T & b) const {
		w->calls.fetch_add(1, std::memory_order_relaxed);
		size_t u = used();
		raise(w->peak, u); raise(w->held, u + bodies.load(std::memory_order_relaxed)); raise(w->files, open_files());
		for (const T * x : {&a, &b}) if (x->id >= w->src->key.size() || w->src->key[x->id] != x->key || w->src->len[x->id] != x->len()) w->foreign.fetch_add(1, std::memory_order_relaxed);
		return rank(a.key, how) < rank(b.key, how);
	}
};
static uint32_t key_at(Rng & r, int shape, size_t i, size_t n) {
	switch (shape) {
	case 0: return (uint32_t)r.next();
	case 1: return 7;
	case 2: return (uint32_t)i;
	case 3: return (uint32_t)(n - i);
	case 4: return (uint32_t)r.below(3);
	case 5: return (uint32_t)(i < n / 2 ? i : n - i);
	default: return r.chance(97) ? (uint32_t)i : (uint32_t)r.next();
	}
}
static size_t pooled() {
	auto & p = tpie::the_stream_buffer_pool();
	std::vector<tpie::stream_buffer_pool::buffer_t> b; size_t n = 0;
	while (p.can_take_shared_buffer()) { b.push_back(p.take_shared_buffer()); n += b.back()->capacity(); }
	for (auto & x : b) p.release_shared_buffer(x);
	return n;
}
// Judges what comes out.
struct Judge {
	Ctx & c; const Source & src; int how; std::vector<bool> seen; uint64_t last = 0; size_t got = 0;
	Judge(Ctx & c, const Source & s, int how) : c(c), src(s), how(how), seen(s.key.size()) {}
	template <typename T> void operator()(const T & t) {
		VF_CHECK(c, t.id < seen.size() && src.key[t.id] == t.key && src.len[t.id] == t.len() && t.intact(), "foreign", "item %zu of the output (key %u, id %u, %zu bytes) is not in the input", got, t.key, t.id, t.len());
		VF_CHECK(c, !seen[t.id], "twice", "item %u comes twice", t.id);
		seen[t.id] = true;
		uint64_t k = Order::rank(t.key, how);
		VF_CHECK(c, got == 0 || last <= k, "order", "item %zu of %zu is out of order", got, seen.size());
		last = k; ++got; count("items_checked");
	}
};
struct Left { // what must be as it was
	Ctx & c; std::string dir; uint64_t temp; size_t files, mem; int64_t items; size_t fds;
	static size_t held() { size_t p = pooled(); return used() - p; }
	Left(Ctx & c, const std::string & dir) : c(c), dir(dir), temp(tpie::get_temp_file_usage()), files(tpie::get_file_manager().used()), mem(held()), items(alive), fds(io().open_count()) {}
	void check(bool faulty) {
		VF_CHECK(c, alive == items, "items_left", "%lld items exist after the sorter is gone", (long long)(alive - items));
		VF_CHECK(c, held() == mem, "memory_left", "%lld bytes accounted after the sorter is gone", (long long)held() - (long long)mem);
		VF_CHECK(c, tpie::get_file_manager().used() == files, "files_left", "%lld files open", (long long)tpie::get_file_manager().used() - (long long)files);
		VF_CHECK(c, io().open_count() == fds, "descriptors_left", "%lld descriptors open", (long long)io().open_count() - (long long)fds);
		VF_CHECK(c, tpie::get_temp_file_usage() == temp, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp));
		(void)faulty;
		std::string left; bool isDir = false;
		for (boost::filesystem::recursive_directory_iterator i(dir), e; i != e; ++i) if (i.depth() > 0) { if (left.empty()) left = i->path().string(); if (boost::filesystem::is_directory(i->path())) isDir = true; else { left = i->path().string(); isDir = false; break; } }
		if (!left.empty()) { for (boost::filesystem::directory_iterator i(dir), e; i != e; ++i) for (boost::filesystem::directory_iterator k(i->path()); k != e; ++k) boost::filesystem::remove_all(k->path()); c.fail(isDir ? "temp_dir_left" : "temp_left", "%s is left", left.c_str()); }
	}
};

template <typename T> static size_t ser_size(const T & t) { using tpie::serialized_size; return serialized_size(t); }

struct Sizes { size_t n, most = 0, total = 0; };
template <typename T> static Sizes make_source(Ctx & c, Source & src, size_t n, size_t longest, int & shape, size_t cap = 6u << 20) {
	Rng & r = c.rng; shape = (int)r.below(7); int lens = (int)r.below(6); Sizes s; s.n = n;
	for (size_t i = 0; i < n; ++i) {
		src.key.push_back(key_at(r, shape, i, n));
		size_t l = lens == 0 ? 0 : lens == 1 ? r.below(longest + 1) : lens == 2 ? r.below(16) : lens == 3 ? (r.chance(3) ? longest : r.below(8)) : lens == 4 ? longest * i / std::max<size_t>(n, 1) : longest - longest * i / std::max<size_t>(n, 1);
		l = std::min(l, longest);
		if (s.total > cap) l = std::min<size_t>(l, 8);
		T t = T::make(src.key[i], (uint32_t)i, l);
		src.len.push_back(t.len());
		size_t z = ser_size(t); s.most = std::max(s.most, z); s.total += z;
	}
	return s;
}

template <typename T> static void drive(Ctx & c, const char * type) {
	typedef tpie::serialization_sorter<T, Order> Sorter;
	Rng & r = c.rng;
	std::string dir = scratch("t");
	boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	Left left(c, dir);
	const size_t W = tpie::serialization_writer::memory_usage(), R = tpie::serialization_reader::memory_usage();
	bool faulty = r.chance(12);
	{
		Source src; int shape, how = (int)r.below(5);
		size_t longest = r.pick({0, 10, 100, 1000, 1000, 20000, 300000});
		size_t n = r.chance(8) ? r.below(4) : r.size(longest > 2000 ? 120 : 2500);
		bool giant = sizeof(T) == sizeof(Item21) && !faulty && r.chance(1); // items as large as the buffers of a file
		if (giant) { longest = 2 << 20; n = r.range(30, 40); count("giant_items"); }
		// The runs: room for items beside the writer in phase 1.
		Sizes sz = make_source<T>(c, src, n, longest, shape, giant ? 60u << 20 : 6u << 20);
		size_t room = r.pick({(int)(sz.most * 2 + 2 * sizeof(T)), (int)(sz.most * 2 + 2 * sizeof(T) + r.below(3000)), (int)(sz.total / r.range(1, 30)), (int)(sz.total * 2 + sizeof(T) * 2 * n), (int)(sz.total * 4 + sizeof(T) * 4 * n), (int)(1 + r.below(4000)), (int)(sz.most + sizeof(T))}) + 1;
		size_t floorRoom = (sz.total + sizeof(T) * n) / 30; // at most so many runs
		room = std::max(room, floorRoom + 1);
		if (giant) room = sz.most * 2 + 2 * sizeof(T) + 1;
		size_t m[3] = {W + room, 0, 0};
		size_t biggest = std::max(sz.most, sizeof(T));
		bool tight = r.chance(25);
		for (int i = 1; i < 3; ++i) {
			size_t fan = giant ? 7 : r.pick({2, 2, 3, 4, 7});
			m[i] = i == 1 ? W + fan * (R + biggest) : fan * (R + biggest);
			if (tight) m[i] -= r.pick({0, 1, (int)biggest, (int)R});
			else m[i] += r.pick({0, 0, 1, (int)r.below(1000)});
		}
		size_t hint = r.pick({(int)sizeof(T), (int)sizeof(T), 0, 1, (int)std::min<size_t>(sz.most, sizeof(T))});
		Watch w; w.src = &src;
		std::unique_ptr<Sorter> s(r.chance(30) ? (hint = sizeof(T), new Sorter(sizeof(T), Order{&w, how})) : new Sorter(hint, Order{&w, how}));
		int way = (int)r.below(3);
		if (way == 0) { m[0] = std::max(m[0], m[1]); m[1] = m[2] = m[0]; s->set_available_memory(m[0]); }
		else if (way == 1) s->set_available_memory(m[0], m[1], m[2]);
		else { s->set_phase_1_memory(m[0]); s->set_phase_2_memory(m[1]); s->set_phase_3_memory(m[2]); }
		size_t f = 0, f3 = 0;
		if (r.chance(50) && !giant) { f = r.range(3, 8); f3 = r.range(3, 8); if (r.chance(50)) s->set_available_files(f3 = f); else { s->set_available_files(1, f, f3); } count("file_limits"); }
		room = m[0] - W;
		// Is the assignment certainly enough for every item? Certainly not for the largest?
		bool enough = sz.most <= room / 2 && sizeof(T) <= room / 2 && m[1] >= W + 2 * (R + biggest) && m[2] >= 2 * (R + biggest);
		bool toolarge = sz.n && (sz.most > room + sizeof(T) || sizeof(T) > room);
		c.describe("%s: %zu items, serialized %zu at most and %zu in all, shape %d, order %d, memory %zu %zu %zu (writer %zu), files %zu/%zu, hint %zu%s%s", type, n, sz.most, sz.total, shape, how, m[0], m[1], m[2], W, f, f3, hint, enough ? "" : ", perhaps not enough", faulty ? ", faulty disk" : "");
		if (!n) count("empty");
		io().reset(r.next());
		if (r.chance(30)) { io().shortPermille = 300; io().eintrPermille = 100; }
		if (faulty) {
			io().failSticky = (int)r.below(2); io().failErrno = r.pick({ENOSPC, EIO});
			switch (r.below(3)) { case 0: io().failWriteAt = r.range(1, 20); break; case 1: io().failOpenAt = r.range(1, 8); break; default: io().failReadAt = r.range(1, 20); }
		}
		const size_t base = used(), files0 = open_files(); const int64_t bodies0 = bodies;
		auto watch_memory = [&](int phase) {
			size_t u = std::max<size_t>(used(), w.peak) - base; w.peak = 0;
			VF_CHECK(c, u <= m[phase] + 4096 + 200 * 16, fmt("memory_phase_%d", phase + 1).c_str(), "phase %d uses %zu bytes, %zu were assigned", phase + 1, u, m[phase]);
			// With what the items hold themselves; a few of them are on their way.
			size_t h = std::max<size_t>(used() + bodies, w.held) - base - bodies0; w.held = 0;
			VF_CHECK(c, h <= m[phase] + 4096 + 200 * 16 + 10 * sz.most, fmt("held_phase_%d", phase + 1).c_str(), "phase %d holds %zu bytes, items included, %zu were assigned", phase + 1, h, m[phase]);
			count("memory_compared");
			size_t most = w.files; w.files = 0;
			if (phase && f) {
				VF_CHECK(c, most <= files0 + (phase == 1 ? f : f3), "files", "phase %d has %zu files open, %zu were assigned", phase + 1, most - files0, phase == 1 ? f : f3);
				if (most > files0 + 2) count("files_compared");
			}
		};
		bool evacuated = false;
		auto evacuate = [&](const char * when) {
			c.op("evacuate %s", when);
			s->evacuate(); evacuated = true; count("evacuations");
			VF_CHECK(c, used() <= base + s->evacuated_memory_usage() + 16 * 200, "evacuated", "%s: %lld bytes held after evacuation, at most %zu announced", when, (long long)(used() - base), (size_t)s->evacuated_memory_usage());
		};
		std::string what; size_t pushed = 0; bool refused = false; Judge j(c, src, how);
		try {
			s->begin();
			watch_memory(0);
			for (size_t i = 0; i < n; ++i) {
				s->push(T::make(src.key[i], (uint32_t)i, src.len[i]));
				++pushed;
				if (i % 16 == 0) watch_memory(0);
			}
			VF_CHECK(c, s->item_count() == n, "item_count", "item_count()=%llu after %zu pushes", (unsigned long long)s->item_count(), n);
			s->end();
			watch_memory(0);
			bool free = s->is_merge_runs_free();
			if (free) count("merge_free");
			if (r.chance(10)) { c.op("destroy before merging"); count("abandoned"); goto done; }
			if (r.chance(25)) evacuate("before merging");
			uint64_t wr0 = io().writes;
			s->merge_runs();
			if (free) VF_CHECK(c, io().writes == wr0, "merge_not_free", "merging was announced to be free and made %llu writes", (unsigned long long)(io().writes - wr0));
			if (io().writes != wr0) count("merged_levels");
			watch_memory(1);
			if (!evacuated && tpie::get_temp_file_usage() == left.temp) count("internal");
			if (r.chance(10)) { c.op("destroy before reporting"); count("abandoned"); goto done; }
			if (r.chance(25)) { if (r.chance(50)) s->can_pull(); evacuate("before reporting"); }
			size_t stop = r.chance(10) ? r.below(n + 1) : n;
			size_t claim = s->actual_memory_phase_3();
			VF_CHECK(c, !enough || claim <= m[2] , "claim_phase_3", "the last phase asks for %zu bytes, %zu were assigned", claim, m[2]);
			while (j.got < stop) {
				VF_CHECK(c, s->can_pull(), "short", "ends after %zu of %zu items", j.got, n);
				j(s->pull());
				if (j.got % 16 == 1) {
					size_t u = used() - base;
					VF_CHECK(c, u <= claim + 4096 + 200 * 16, "claimed_phase_3", "the last phase uses %zu bytes, %zu were asked for", u, claim);
					watch_memory(2);
				}
			}
			if (stop == n) { VF_CHECK(c, !s->can_pull(), "long", "goes on after %zu items", n); count("complete"); }
			else { c.op("destroy after %zu", stop); count("abandoned"); }
			VF_CHECK(c, !toolarge, "too_large_accepted", "an item of %zu bytes was sorted within %zu", sz.most, room);
			if (tpie::get_temp_file_usage() > left.temp || evacuated) count("external");
		} catch (const Violation &) { throw; }
		catch (const std::exception & e) { what = e.what(); refused = true; }
		if (refused) {
			c.op("refused after %zu pushes: %s", pushed, what.c_str());
			count(io().injected && faulty ? "fault_refusals" : "refusals");
			bool f = faulty && io().injected;
			VF_CHECK(c, f || !enough, "refused", "the items fit, but after %zu pushes and %zu pulls: %s", pushed, j.got, what.c_str());
			if (toolarge) count("too_large_reported");
		}
done:
		if (r.chance(50)) { io().failWriteAt = io().failReadAt = io().failOpenAt = 0; }
		s.reset();
		io().reset(1);
		VF_CHECK(c, w.foreign == 0, "compared_foreign", "the order was shown %llu items that are not in the input", (unsigned long long)w.foreign);
		count("sorts"); count(std::string("type_") + type);
		c.nontrivial = n > 1;
	}
	left.check(faulty);
}

// In a pipeline, memory is assigned by the runtime.
template <typename T> static void pipe(Ctx & c, const char * type) {
	Rng & r = c.rng;
	std::string dir = scratch("t");
	boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	Left left(c, dir);
	{
		Source src; int shape, how = (int)r.below(5);
		bool large = r.chance(30);
		size_t longest = large ? r.pick({1000, 100000}) : r.below(20);
		size_t n = r.chance(8) ? r.below(4) : r.size(large ? 400 : 2500);
		Sizes sz = make_source<T>(c, src, n, longest, shape);
		size_t most = 0; for (size_t i = 0; i < n; ++i) most = std::max(most, ser_size(T::make(src.key[i], (uint32_t)i, src.len[i])));
		Watch w; w.src = &src; Order order{&w, how};
		std::vector<T> in; for (size_t i = 0; i < n; ++i) in.push_back(T::make(src.key[i], (uint32_t)i, src.len[i]));
		const size_t M = 1u << 20;
		size_t mem = r.pick({0, 1, (int)(4 * M), (int)(6 * M), (int)(7 * M), (int)(9 * M), (int)(13 * M), (int)(64 * M)});
		int form = (int)r.below(3);
		c.describe("pipeline form %d, %s: %zu items, serialized %zu at most and %zu in all, shape %d, order %d, memory %zu", form, type, n, sz.most, sz.total, shape, how, mem);
		io().reset(r.next());
		Judge j(c, src, how); bool refused = false; std::string what;
		tpie::progress_indicator_null pi;
		try {
			std::vector<T> out;
			if (form == 0) {
				pl::pipeline p = pl::input_vector(in) | pl::serialization_sort(order) | pl::output_vector(out);
				p(n, pi, mem, nullptr, nullptr);
			} else if (form == 1) {
				pl::serialization_passive_sorter<T, Order> ps(order);
				pl::pipeline p = pl::input_vector(in) | ps.input();
				pl::pipeline q = pl::pull_source(ps.output()) | pl::output_vector(out);
				p(n, pi, mem, nullptr, nullptr);
				count("passive");
			} else {
				pl::pipeline p = pl::input_vector(in) | pl::serialization_sort(Order{&w, 1 - how % 2}) | pl::serialization_sort(order) | pl::output_vector(out);
				p(n, pi, mem, nullptr, nullptr);
				count("twice_sorted");
			}
			for (auto & t : out) j(t);
			VF_CHECK(c, j.got == n, "short", "%zu of %zu items came out", j.got, n);
		} catch (const Violation &) { throw; }
		catch (const std::exception & e) { refused = true; what = e.what(); }
		if (refused) {
			c.op("refused: %s", what.c_str()); count("pipe_refusals");
			VF_CHECK(c, most > sizeof(T), "refused", "items of %zu bytes fit into any assignment, but: %s", most, what.c_str());
		}
		VF_CHECK(c, w.foreign == 0, "compared_foreign", "the order was shown %llu items that are not in the input", (unsigned long long)w.foreign);
		count("pipelines"); c.nontrivial = n > 1;
	}
	left.check(false);
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	switch (r.below(9)) {
	case 8: drive<Hollow21>(c, "hollow"); break;
	case 0: case 1: case 2: drive<Item21>(c, "string"); break;
	case 3: drive<Fixed21<4>>(c, "small"); break;
	case 4: drive<Fixed21<1000>>(c, "big"); break;
	case 5: case 6: pipe<Item21>(c, "string"); break;
	default: pipe<Fixed21<100>>(c, "fixed");
	}
}
