// C19: external sorting gives a sorted permutation, in place and into another stream,
// at whatever memory and file limit it accepts.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/compressed/buffer.h>
#include <tpie/sort.h>
#include <tpie/stream.h>
#include <tpie/progress_indicator_base.h>
using namespace vf;

template <size_t PAD> struct Rec { uint32_t key, id; unsigned char pad[PAD]; };
template <> struct Rec<0> { uint32_t key, id; };
template <size_t P> static void fill(Rec<P> & r) { for (size_t i = 0; i < P; ++i) r.pad[i] = (unsigned char)(mix(r.id) >> (i % 8)); }
template <> void fill(Rec<0> &) {}
template <size_t P> static bool intact(const Rec<P> & r) { for (size_t i = 0; i < P; ++i) if (r.pad[i] != (unsigned char)(mix(r.id) >> (i % 8))) return false; return true; }
template <> bool intact(const Rec<0> &) { return true; }
template <size_t P> static bool operator<(const Rec<P> & a, const Rec<P> & b) { return a.key < b.key; }

// Every comparison is watched: only items of the input may be shown to the order.
struct Watch { const std::vector<uint32_t> * keyOf = nullptr; std::atomic<uint64_t> calls{0}, foreign{0}; };
template <typename T> struct Order {
	Watch * w; int how;
	static uint64_t rank(uint32_t k, int how) { return how == 0 ? k : how == 1 ? ~k : how == 2 ? k % 7 : how == 3 ? 0 : (k ^ (k >> 5)) & 0xffff; }
	bool shown(const T & a) const { return a.id < w->keyOf->size() && (*w->keyOf)[a.id] == a.key; }
	bool operator()(const T & a, const T & b) const {
		w->calls.fetch_add(1, std::memory_order_relaxed);
		if (!shown(a) || !shown(b)) w->foreign.fetch_add(1, std::memory_order_relaxed);
		return rank(a.key, how) < rank(b.key, how);
	}
	int compare(const T & a, const T & b) { return (*this)(a, b) ? -1 : (*this)(b, a) ? 1 : 0; } // old style
};
struct Ind : tpie::progress_indicator_base {
	Ctx & c; int inits = 0, dones = 0; uint64_t last = 0;
	Ind(Ctx & c) : progress_indicator_base(1), c(c) {}
	void init(tpie::stream_size_type range) override { ++inits; last = 0; progress_indicator_base::init(range); }
	void done() override { ++dones; progress_indicator_base::done(); }
	void refresh() override {
		uint64_t v = get_current();
		VF_CHECK(c, v >= last && v <= get_range(), "progress", "progress went from %llu to %llu of %llu", (unsigned long long)last, (unsigned long long)v, (unsigned long long)get_range());
		last = v; count("progress_seen");
	}
};
static uint32_t key_at(Rng & r, int shape, size_t i, size_t n) {
	switch (shape) {
	case 0: return (uint32_t)r.next();
	case 1: return 7;
	case 2: return (uint32_t)i;
	case 3: return (uint32_t)(n - i);
	case 4: return (uint32_t)r.below(3);
	case 5: return (uint32_t)(i < n / 2 ? i : n - i);
	case 6: return (uint32_t)(i % 2 ? i : n - i);
	case 7: return (uint32_t)(i * 2654435761u);
	default: return r.chance(97) ? (uint32_t)i : (uint32_t)r.next();
	}
}
enum Api { Generic, GenericCmp, Old, OldCmp, Manager, ManagerPtr, NApi };

template <typename T> struct Job {
	Ctx & c; Rng & r;
	size_t n; int shape, how; Api api; bool inplace, progress;
	Watch w; std::vector<uint32_t> keyOf;
	std::unique_ptr<Ind> pi;
	Job(Ctx & c) : c(c), r(c.rng) {}

	template <typename S> void fill_stream(S & s) {
		for (size_t i = 0; i < n; ++i) { T t; t.key = keyOf[i]; t.id = (uint32_t)i; fill(t); s.write(t); }
	}
	template <typename S> void check_sorted(S & s) {
		VF_CHECK(c, s.size() == n, "size", "%llu items after sorting %zu", (unsigned long long)s.size(), n);
		s.seek(0);
		std::vector<bool> seen(n); uint64_t last = 0;
		for (size_t i = 0; i < n; ++i) {
			VF_CHECK(c, s.can_read(), "short", "output ends after %zu of %zu items", i, n);
			T t = s.read();
			VF_CHECK(c, t.id < n && keyOf[t.id] == t.key && intact(t), "foreign", "item %zu of the output is not in the input", i);
			VF_CHECK(c, !seen[t.id], "twice", "item %u is twice in the output", t.id);
			seen[t.id] = true;
			uint64_t k = Order<T>::rank(t.key, how);
			VF_CHECK(c, i == 0 || last <= k, "order", "item %zu of %zu is out of order (%llu after %llu)", i, n, (unsigned long long)k, (unsigned long long)last);
			last = k;
		}
		VF_CHECK(c, !s.can_read(), "long", "output goes on after %zu items", n);
		count("items_checked", n);
	}
	template <typename S> void check_unchanged(S & s) {
		VF_CHECK(c, s.size() == n, "input_size", "the input has %llu items after sorting, it had %zu", (unsigned long long)s.size(), n);
		s.seek(0);
		for (size_t i = 0; i < n; ++i) {
			T t = s.read();
			VF_CHECK(c, t.id == i && t.key == keyOf[i] && intact(t), "input_changed", "item %zu of the input changed", i);
		}
		count("inputs_unchanged");
	}
	// Sort; false when it was refused.
	template <typename S> void call(S & in, S & out) {
		Order<T> o{&w, how}; bool less = how == 0 && r.chance(60);
		if (inplace) {
			if (less && progress) tpie::sort(in, *pi);
			else tpie::sort(in, o, *pi);
		} else {
			if (less) tpie::sort(in, out, progress ? (tpie::progress_indicator_base *)pi.get() : nullptr);
			else tpie::sort(in, out, o, *pi);
		}
	}
	void manage(tpie::file_stream<T> & in, tpie::file_stream<T> & out) {
		Order<T> o{&w, how};
		typedef tpie::ami::Internal_Sorter_Obj<T, Order<T>> I;
		I is(o);
		Ind * p = progress ? pi.get() : nullptr;
		if (api == Manager) {
			typedef tpie::ami::merge_heap_op<T, Order<T>> H; H h(o);
			tpie::sort_manager<T, I, H> m(&is, &h);
			if (inplace && r.chance(50)) m.sort(&in, p); else m.sort(&in, inplace ? &in : &out, p);
		} else {
			typedef tpie::ami::merge_heap_ptr_op<T, Order<T>> H; H h(o);
			tpie::sort_manager<T, I, H> m(&is, &h);
			if (inplace && r.chance(50)) m.sort(&in, p); else m.sort(&in, inplace ? &in : &out, p);
		}
	}
	template <typename S> struct Tag { typedef S type; };
	template <typename S> void dispatch(S & in, S & out) { call(in, out); }
	void dispatch(tpie::file_stream<T> & in, tpie::file_stream<T> & out) {
		if (api == Manager || api == ManagerPtr) manage(in, out); else call(in, out);
	}
	template <typename S, typename Open> void run(S & in, S & out, Open open) {
		open(in); if (!inplace) open(out);
		fill_stream(in);
		in.close(); open(in); // nothing of the input is still being written
		if (!inplace) { // an output that holds something already
			size_t old = r.chance(30) ? r.below(2 * n + 5) : 0;
			for (size_t i = 0; i < old; ++i) { T t; memset(&t, 0x77, sizeof t); out.write(t); }
			if (old) count("output_not_empty");
			out.close(); open(out); out.seek(0, tpie::file_stream_base::end);
		}
		if (r.chance(40)) { // wherever the input was left
			if (r.chance(50)) in.seek(0, tpie::file_stream_base::end); else for (size_t k = r.below(n + 1); k; --k) in.read();
			if (in.offset()) count("input_not_at_start");
		}
		pi.reset(new Ind(c));
		bool limited = limit();
		bool refused = false;
		std::string why;
		try { dispatch(in, out); }
		catch (const tpie::exception & e) { refused = true; why = e.what(); }
		catch (const std::bad_alloc & e) { refused = true; why = e.what(); }
		unlimit();
		VF_CHECK(c, w.foreign == 0, "compared_foreign", "the order was shown %llu items that are not in the input", (unsigned long long)w.foreign);
		if (refused) {
			VF_CHECK(c, limited, "refused", "refused without any limit: %s", why.c_str());
			count("refused");
			if (!inplace && !in.is_open()) { open(in); count("reopened_input"); } // a failed operation may close its stream
			if (!inplace) check_unchanged(in);
			return;
		}
		c.nontrivial = true;
		count("sorts");
		if (api == Generic || api == GenericCmp) {
			auto & o = inplace ? in : out;
			VF_CHECK(c, o.offset() == 0, "position", "the sorted stream is left at item %llu", (unsigned long long)o.offset());
		}
		if (limited) count("sorted_under_limit");
		if (api == Manager || api == ManagerPtr) count("managers_sorted");
		if (pi->inits) {
			VF_CHECK(c, pi->dones >= 1, "progress_done", "progress was started and never completed");
			count("with_progress");
		}
		finish(inplace ? in : out, in, limited);
	}
	// Blocks of the output may still be on their way; what happens to them is reported by a later operation.
	template <typename S> void finish(S & out, S & in, bool limited) {
		try { check_sorted(out); }
		catch (const tpie::exception & e) {
			VF_CHECK(c, limited, "late", "reading the output: %s", e.what());
			count("refused_late"); return;
		}
		if (!inplace) { check_unchanged(in); count("two_streams"); } else count("in_place");
	}
	bool limit() {
		auto & mm = tpie::get_memory_manager();
		if (r.chance(15)) return false;
		size_t bs = tpie::get_block_size();
		size_t extra;
		if (api == Manager || api == ManagerPtr) {
			size_t per = tpie::file_stream<T>::memory_usage();
			extra = per * r.range(1, 14) + r.below(4 * bs) + (r.chance(30) ? n * sizeof(T) : 0);
			count("limit_manager");
		} else {
			size_t per = tpie::file_stream<T>::memory_usage();
			extra = r.chance(15) ? r.below(300000) : 128 * 1024 + per * r.range(3, 20) + 16 * sizeof(T) + r.below(200000);
		}
		bool hard = r.chance(70);
		mm.set_enforcement(hard ? tpie::memory_manager::ENFORCE_THROW : tpie::memory_manager::ENFORCE_IGNORE);
		mm.set_limit(mm.used() + extra);
		if (hard) count("hard_limits");
		if (r.chance(25)) {
			auto & fm = tpie::get_file_manager();
			fm.set_enforcement(tpie::file_manager::ENFORCE_THROW);
			fm.set_limit(fm.used() + r.range(1, 12));
			count("file_limits");
		}
		if (n * sizeof(T) > extra) count("larger_than_limit");
		c.op("limit: %zu bytes, %s", extra, hard ? "hard" : "soft");
		return true;
	}
	static void unlimit() {
		tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
		tpie::get_memory_manager().set_limit(1 << 30);
		tpie::get_file_manager().set_enforcement(tpie::file_manager::ENFORCE_IGNORE);
		tpie::get_file_manager().set_limit(900);
	}
};

// What the pool of stream buffers holds while no stream is open.
static size_t pooled() {
	auto & p = tpie::the_stream_buffer_pool();
	std::vector<tpie::stream_buffer_pool::buffer_t> b; size_t n = 0;
	while (p.can_take_shared_buffer()) { b.push_back(p.take_shared_buffer()); n += b.back()->capacity(); }
	for (auto & x : b) p.release_shared_buffer(x);
	return n;
}
template <size_t P> static void drive(Ctx & c) {
	typedef Rec<P> T;
	Rng & r = c.rng;
	auto & mm = tpie::get_memory_manager();
	std::string dir = scratch("t");
	boost::filesystem::create_directories(dir);
	tpie::tempname::set_default_path(dir, "");
	uint64_t temp0 = tpie::get_temp_file_usage();
	struct Restore { ~Restore() { Job<T>::unlimit(); } } restore;
	size_t mem0 = mm.used() - pooled(), files0 = tpie::get_file_manager().used();
	{
		Job<T> j(c);
		j.api = (Api)r.below(NApi);
		int kind = j.api == Generic || j.api == GenericCmp ? (int)r.below(2) : 0; // 1: uncompressed_stream
		size_t most = std::min<size_t>(60000, 1600000 / sizeof(T));
		if (j.api == Manager || j.api == ManagerPtr) most = std::min<size_t>(most, 6000);
		j.n = r.chance(12) ? r.below(4) : r.size(most);
		j.shape = (int)r.below(9); j.how = (int)r.below(5);
		j.inplace = r.chance(50); j.progress = r.chance(60);
		if (j.api == Old) j.how = 0;
		for (size_t i = 0; i < j.n; ++i) j.keyOf.push_back(key_at(r, j.shape, i, j.n));
		j.w.keyOf = &j.keyOf;
		static const char * names[] = {"sort", "sort", "ami::sort", "ami::sort cmp", "sort_manager", "sort_manager ptr"};
		c.describe("%s%s, %zu items of %zu bytes, block %zu, shape %d, order %d%s%s", names[j.api], kind ? " uncompressed_stream" : "", j.n, sizeof(T), (size_t)tpie::get_block_size(), j.shape, j.how, j.inplace ? ", in place" : "", j.progress ? ", progress" : "");
		if (j.n == 0) count("empty");
		if (j.n == 1) count("single");
		tpie::temp_file f1, f2;
		int comp = r.chance(60) ? tpie::compression_normal : tpie::compression_none;
		if (kind == 1) {
			tpie::uncompressed_stream<T> a, b;
			j.run(a, b, [&](tpie::uncompressed_stream<T> & s) { s.open(&s == &b ? f2 : f1); });
			count("uncompressed_streams");
		} else if (j.api == Old || j.api == OldCmp) {
			tpie::ami::stream<T> a, b;
			auto reopen = [&] { auto & u = a.underlying_stream(); u.close(); u.open(f1, tpie::access_read_write, 0, tpie::access_sequential, (tpie::compression_flags)comp); };
			reopen(); j.fill_stream(a.underlying_stream()); reopen();
			j.pi.reset(new Ind(c));
			bool limited = j.limit();
			Order<T> o{&j.w, j.how}; tpie::progress_indicator_base * p = j.progress ? j.pi.get() : nullptr;
			tpie::ami::err e;
			if (j.api == Old) e = j.inplace ? tpie::ami::sort(&a, p) : r.chance(30) ? tpie::ami::ptr_sort(&a, &b, p) : tpie::ami::sort(&a, &b, p);
			else e = j.inplace ? (r.chance(30) ? tpie::ami::key_sort(&a, 0, &o, p) : tpie::ami::sort(&a, &o, p)) : r.chance(30) ? tpie::ami::key_sort(&a, &b, 0, &o, p) : tpie::ami::sort(&a, &b, &o, p);
			j.unlimit();
			if (e != tpie::ami::NO_ERROR) {
				VF_CHECK(c, limited, "refused", "refused without any limit");
				count("refused");
				if (!j.inplace && !a.underlying_stream().is_open()) reopen();
				if (!j.inplace) j.check_unchanged(a.underlying_stream());
			} else {
				c.nontrivial = true; count("sorts"); count("old_interface");
				if (limited) count("sorted_under_limit");
				j.finish((j.inplace ? a : b).underlying_stream(), a.underlying_stream(), limited);
			}
		} else {
			tpie::file_stream<T> a, b;
			j.run(a, b, [&](tpie::file_stream<T> & s) { s.open(&s == &b ? f2 : f1, tpie::access_read_write, 0, tpie::access_sequential, (tpie::compression_flags)comp); });
			if (j.api == Manager || j.api == ManagerPtr) count("managers");
		}
		count("comparisons", j.w.calls);
	}
	size_t mem1 = mm.used() - pooled();
	VF_CHECK(c, mem1 == mem0, "memory_left", "%lld bytes accounted after the sort", (long long)mem1 - (long long)mem0);
	VF_CHECK(c, tpie::get_file_manager().used() == files0, "files_left", "%lld files open after the sort", (long long)tpie::get_file_manager().used() - (long long)files0);
	VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
	for (boost::filesystem::recursive_directory_iterator i(dir), e; i != e; ++i)
		if (boost::filesystem::is_regular_file(i->path())) { std::string f = i->path().string(); boost::filesystem::remove(f); c.fail("temp_left", "temporary file %s is left", f.c_str()); }
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({1024, 4096, 4096, 16384, 65536}));
	io().reset(r.next());
	switch (r.below(4)) {
	case 0: drive<0>(c); break;
	case 1: drive<16>(c); break;
	case 2: drive<92>(c); break;
	default: drive<392>(c);
	}
}
