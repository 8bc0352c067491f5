// C20: the pipelined merge sorter: sorted permutation for all parameters, evacuated anywhere,
// within the memory assigned to each phase.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/compressed/buffer.h>
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/progress_indicator_base.h>
using namespace vf;

template <size_t PAD> struct Rec { uint32_t key, id; unsigned char pad[PAD]; };
template <> struct Rec<0> { uint32_t key, id; };
template <size_t P> static void fill(Rec<P> & r) { for (size_t i = 0; i < P; ++i) r.pad[i] = (unsigned char)(mix(r.id) >> (i % 8)); }
template <> void fill(Rec<0> &) {}
template <size_t P> static bool intact(const Rec<P> & r) { for (size_t i = 0; i < P; ++i) if (r.pad[i] != (unsigned char)(mix(r.id) >> (i % 8))) return false; return true; }
template <> bool intact(const Rec<0> &) { return true; }

struct Watch { const std::vector<uint32_t> * keyOf = nullptr; std::atomic<uint64_t> calls{0}, foreign{0}; std::atomic<size_t> peak{0}, files{0}; };
static size_t used() { return tpie::get_memory_manager().used(); }
struct Order {
	Watch * w; int how;
	static uint64_t rank(uint32_t k, int how) { return how == 0 ? k : how == 1 ? ~k : how == 2 ? k % 7 : how == 3 ? 0 : (k ^ (k >> 5)) & 0xffff; }
	template <typename T> bool shown(const T & a) const { return a.id < w->keyOf->size() && (*w->keyOf)[a.id] == a.key; }
	template <typename T> bool operator()(const T & a, const T & b) const {
		w->calls.fetch_add(1, std::memory_order_relaxed);
		size_t u = used(), was = w->peak.load(std::memory_order_relaxed);
		while (u > was && !w->peak.compare_exchange_weak(was, u, std::memory_order_relaxed)) {}
		size_t f = tpie::get_file_manager().used(), wasF = w->files.load(std::memory_order_relaxed);
		while (f > wasF && !w->files.compare_exchange_weak(wasF, f, std::memory_order_relaxed)) {}
		if (!shown(a) || !shown(b)) w->foreign.fetch_add(1, std::memory_order_relaxed);
		return rank(a.key, how) < rank(b.key, how);
	}
};
struct Ind : tpie::progress_indicator_base {
	Ctx & c; int inits = 0, dones = 0; uint64_t last = 0;
	Ind(Ctx & c) : progress_indicator_base(1), c(c) {}
	void init(tpie::stream_size_type range) override { ++inits; last = 0; progress_indicator_base::init(range); }
	void done() override { ++dones; refresh(); progress_indicator_base::done(); }
	void refresh() override {
		uint64_t v = get_current();
		VF_CHECK(c, v >= last && v <= get_range(), "progress", "progress went from %llu to %llu of %llu", (unsigned long long)last, (unsigned long long)v, (unsigned long long)get_range());
		last = v; count("progress_seen");
	}
};
static uint32_t key_at(Rng & r, int shape, size_t i, size_t n) {
	switch (shape) {
	case 0: return (uint32_t)r.next();
	case 1: return 7;
	case 2: return (uint32_t)i;
	case 3: return (uint32_t)(n - i);
	case 4: return (uint32_t)r.below(3);
	case 5: return (uint32_t)(i < n / 2 ? i : n - i);
	case 6: return (uint32_t)(i % 2 ? i : n - i);
	case 7: return (uint32_t)(i * 2654435761u);
	default: return r.chance(97) ? (uint32_t)i : (uint32_t)r.next();
	}
}
// The pool of stream buffers keeps up to two buffers at rest; all of them as large as the block size of the case.
static size_t pooled(bool grow = false) {
	auto & p = tpie::the_stream_buffer_pool();
	std::vector<tpie::stream_buffer_pool::buffer_t> b; size_t n = 0;
	while (p.can_take_shared_buffer()) {
		b.push_back(p.take_shared_buffer());
		if (grow) b.back()->set_capacity(tpie::get_block_size());
		n += b.back()->capacity();
	}
	for (auto & x : b) p.release_shared_buffer(x);
	return n;
}

// How the items go in and out under each storage strategy.
template <typename T> struct Plain { // plain_store, pointer_store, default_store
	typedef T outer;
	static T in(const T & t) { return t; }
	static T out(T && t) { return t; }
};
template <typename T> struct Raw { // explicit_tpie_pointer_store
	typedef T * outer;
	static T * in(const T & t) { return tpie::tpie_new<T>(t); }
	static T out(T * && p) { T t = *p; tpie::tpie_delete(p); return t; }
};
template <typename T> struct Unique { // explicit_tpie_unique_pointer_store
	typedef tpie::unique_ptr<T> outer;
	static outer in(const T & t) { return outer(tpie::tpie_new<T>(t)); }
	static T out(outer && p) { return *p; }
};

template <size_t P, typename Store, template <typename> class Way> static void drive(Ctx & c, const char * storeName) {
	typedef Rec<P> T;
	typedef Way<T> W;
	typedef tpie::merge_sorter<typename W::outer, true, Order, Store> Sorter;
	Rng & r = c.rng;
	std::string dir = scratch("t");
	boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	uint64_t temp0 = tpie::get_temp_file_usage();
	size_t files0 = tpie::get_file_manager().used();
	pooled(true);
	const size_t base = used(), mem0 = base - pooled();
	{
		bool manual = r.chance(55);
		size_t bs = tpie::get_block_size();
		size_t most = manual ? 3000 : std::min<size_t>(60000, 1200000 / sizeof(T));
		size_t n = r.chance(10) ? r.below(4) : r.size(most);
		int shape = (int)r.below(9), how = (int)r.below(5);
		std::vector<uint32_t> keyOf;
		for (size_t i = 0; i < n; ++i) keyOf.push_back(key_at(r, shape, i, n));
		Watch w; w.keyOf = &keyOf;
		std::unique_ptr<Sorter> s(new Sorter(Order{&w, how}));
		bool judged = false, held = false; size_t m[3] = {0, 0, 0}, f[3] = {0, 0, 0};
		std::string params;
		size_t bound = r.chance(25) ? r.pick({(int)n, (int)n, (int)n + 1, (int)n * 2 + 7, (int)n / 2, 1}) : ~(size_t)0;
		if (manual) {
			size_t run = r.pick({(int)r.range(1, 9), (int)r.range(1, 60), (int)std::max<size_t>(n, 1), (int)std::max<size_t>(n / 2, 1), (int)n + 1}), fan = r.range(2, 9);
			if (n / run > 700) run = n / 700 + 1;
			if (bound != ~(size_t)0 && r.chance(50)) { s->set_items(bound); s->set_parameters(run, fan); } else { s->set_parameters(run, fan); if (bound != ~(size_t)0) s->set_items(bound); }
			params = fmt("run %zu, fan-out %zu", run, fan);
			if (n > run * fan) count("several_levels");
			if (n % run == 0 && n) count("exact_runs");
			if (n > run) count("manual_external");
		} else {
			judged = !r.chance(10); // otherwise less than the minimum, which the sorter may exceed
			size_t per = tpie::file_stream<T>::memory_usage();
			size_t lo[3] = {s->minimum_memory_phase_1(), s->minimum_memory_phase_2(), s->minimum_memory_phase_3()};
			for (int i = 0; i < 3; ++i) {
				size_t extra = r.pick({0, 1, (int)per, (int)(per * 2), (int)(per * r.range(1, 10)), (int)r.below(400000)}) + r.below(r.pick({1, 1000}));
				m[i] = judged ? lo[i] + extra : r.below(lo[i] + 1);
			}
			int way = (int)r.below(3);
			if (way == 0) { m[0] = m[1] = m[2] = std::max(m[0], std::max(m[1], m[2])); s->set_available_memory(m[0]); }
			else if (way == 1) s->set_available_memory(m[0], m[1], m[2]);
			else { s->set_phase_1_memory(m[0]); s->set_phase_2_memory(m[1]); s->set_phase_3_memory(m[2]); }
			if (r.chance(60)) {
				f[1] = f[2] = r.range(5, 14);
				if (r.chance(50)) s->set_available_files(f[1]);
				else { f[0] = 1 + r.below(5); f[2] = r.range(5, 14); s->set_available_files(f[0], f[1], f[2]); }
				count("file_limits");
			}
			if (bound != ~(size_t)0) s->set_items(bound);
			params = fmt("memory %zu %zu %zu (minimum %zu %zu %zu), files %s", m[0], m[1], m[2], lo[0], lo[1], lo[2], fmt("%zu %zu", f[1], f[2]).c_str());
		}
		c.describe("%s, %zu items of %zu bytes, block %zu, shape %d, order %d, %s%s", storeName, n, sizeof(T), bs, shape, how, params.c_str(), bound == ~(size_t)0 ? "" : fmt(", at most %zu", bound).c_str());
		if (n == 0) count("empty");
		const size_t self = used() - base; // what the harness and the sorter object itself hold
		auto watch_memory = [&](int phase) {
			size_t u = std::max<size_t>(used(), w.peak) - base - self; // now, or whenever items were compared
			w.peak = 0;
			// The compressor thread's scratch space for one block is nobody's.
			size_t scratch = bs + bs / 6 + 256;
			if (f[phase] && phase > 0) { VF_CHECK(c, w.files <= files0 + f[phase], "files", "phase %d had %zu files open, %zu were assigned", phase + 1, w.files - files0, f[phase]); if (w.files > files0 + 2) count("files_compared"); w.files = 0; }
			if (judged) { VF_CHECK(c, u <= m[phase] + scratch, fmt("memory_phase_%d", phase + 1).c_str(), "phase %d uses %zu bytes, %zu were assigned", phase + 1, u, m[phase]); count("memory_compared"); }
		};
		// The memory manager itself may see to it that a phase takes no more than assigned.
		held = judged && r.chance(40);
		struct Unhold { ~Unhold() { tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); tpie::get_memory_manager().set_limit(1 << 30); } } unhold;
		auto hold = [&](int phase) { if (!held) return; auto & mm = tpie::get_memory_manager(); mm.set_limit(base + self + m[phase] + bs + bs / 6 + 256); mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); count("phases_held"); };
		auto release = [&] { if (held) tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); }; // evacuation is no phase
		hold(0);
		s->begin();
		watch_memory(0);
		for (size_t i = 0; i < n; ++i) {
			T t; memset(&t, 0, sizeof t); t.key = keyOf[i]; t.id = (uint32_t)i; fill(t);
			s->push(W::in(t));
			watch_memory(0);
		}
		VF_CHECK(c, s->item_count() == n, "item_count", "item_count()=%llu after %zu pushes", (unsigned long long)s->item_count(), n);
		s->end();
		watch_memory(0);
		bool free = s->is_calc_free();
		if (free) count("calc_free");
		auto evacuated = [&](const char * when) {
			// The streams are closed, the pool may have been left with other buffers.
			size_t u = used() - pooled() - mem0 - self;
			VF_CHECK(c, manual || u <= s->evacuated_memory_usage(), "evacuated", "%s: %zu bytes held after evacuation, at most %zu announced", when, u, (size_t)s->evacuated_memory_usage());
			count("evacuations");
		};
		if (r.chance(10)) { c.op("destroy before merging"); s.reset(); count("abandoned"); goto done; }
		if (r.chance(30)) { c.op("evacuate before merging"); release(); if (r.chance(50)) s->evacuate(); else s->evacuate_before_merging(); evacuated("before merging"); if (r.chance(30)) s->evacuate_before_merging(); }
		{
			Ind pi(c);
			hold(1);
			s->calc(pi);
			VF_CHECK(c, pi.inits == 1 && pi.dones == 1, "progress_done", "progress started %d times, completed %d times", pi.inits, pi.dones);
			if (free) VF_CHECK(c, pi.get_current() <= 1, "calc_not_free", "calc was announced to be free and made %llu steps", (unsigned long long)pi.get_current());
			watch_memory(1);
		}
		if (r.chance(10)) { c.op("destroy before reporting"); s.reset(); count("abandoned"); goto done; }
		for (int i = r.chance(30) ? (int)r.range(1, 2) : 0; i--;) {
			c.op("evacuate before reporting"); release();
			s->evacuate_before_reporting(); evacuated("before reporting"); hold(2);
			if (r.chance(30)) { s->can_pull(); watch_memory(2); }
		}
		{
			hold(2);
			size_t stop = r.chance(10) ? r.below(n + 1) : n, got = 0;
			std::vector<bool> seen(n); uint64_t last = 0;
			const size_t bits = 0; (void)bits;
			while (got < stop) {
				VF_CHECK(c, s->can_pull(), "short", "ends after %zu of %zu items", got, n);
				if (r.chance(5)) VF_CHECK(c, s->can_pull(), "can_pull", "can_pull changes its mind");
				watch_memory(2);
				T t = W::out(s->pull());
				VF_CHECK(c, t.id < n && keyOf[t.id] == t.key && intact(t), "foreign", "item %zu of the output is not in the input", got);
				VF_CHECK(c, !seen[t.id], "twice", "item %u comes twice", t.id);
				seen[t.id] = true;
				uint64_t k = Order::rank(t.key, how);
				VF_CHECK(c, got == 0 || last <= k, "order", "item %zu of %zu is out of order", got, n);
				last = k; ++got;
			}
			if (stop == n) VF_CHECK(c, !s->can_pull(), "long", "goes on after %zu items", n);
			else { c.op("destroy after %zu", got); count("abandoned"); }
			count("items_checked", got);
			if (tpie::get_temp_file_usage() > temp0) count("external");
		}
		s.reset();
done:
		VF_CHECK(c, w.foreign == 0, "compared_foreign", "the order was shown %llu items that are not in the input", (unsigned long long)w.foreign);
		count("sorts"); count(std::string("store_") + storeName);
		c.nontrivial = true;
	}
	size_t mem1 = used() - pooled();
	VF_CHECK(c, mem1 == mem0, "memory_left", "%lld bytes accounted after the sorter is gone", (long long)mem1 - (long long)mem0);
	VF_CHECK(c, tpie::get_file_manager().used() == files0, "files_left", "%lld files open", (long long)tpie::get_file_manager().used() - (long long)files0);
	VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
	for (boost::filesystem::recursive_directory_iterator i(dir), e; i != e; ++i)
		if (boost::filesystem::is_regular_file(i->path())) { std::string f = i->path().string(); boost::filesystem::remove(f); c.fail("temp_left", "temporary file %s is left", f.c_str()); }
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 4096, 16384}));
	set_scheme(r.chance(50) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	io().reset(r.next());
	switch (r.below(8)) {
	case 0: drive<0, tpie::default_store, Plain>(c, "default"); break;
	case 1: drive<16, tpie::default_store, Plain>(c, "default"); break;
	case 2: drive<92, tpie::plain_store, Plain>(c, "plain"); break;
	case 3: drive<392, tpie::default_store, Plain>(c, "default"); break;
	case 4: drive<16, tpie::pointer_store, Plain>(c, "pointer"); break;
	case 5: drive<100, tpie::explicit_tpie_pointer_store, Raw>(c, "explicit_pointer"); break;
	case 6: drive<32, tpie::explicit_tpie_unique_pointer_store, Unique>(c, "unique_pointer"); break;
	default: drive<504, tpie::plain_store, Plain>(c, "plain");
	}
}
