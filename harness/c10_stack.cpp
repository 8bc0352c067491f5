// C10: external stacks (tpie::stack, tpie::ami::stack) against std::vector,
// across sessions, buffer boundaries and file formats.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/stack.h>
using namespace vf;

template <size_t N> struct StackCase {
	typedef Item<N> T;
	Ctx & c;
	std::vector<uint64_t> m;
	uint64_t next;
	int entropy;
	double factor = 1.0;
	StackCase(Ctx & c) : c(c), next(c.rng.next() >> 8), entropy(c.rng.below(3)) {}
	T item(uint64_t id) { return make_item<N>(id, entropy); }

	// uniform access to the two stack classes
	static void push(tpie::stack<T> & s, const T & t, Ctx &) { s.push(t); }
	static T pop(tpie::stack<T> & s, Ctx &) { return s.pop(); }
	static T top(tpie::stack<T> & s, Ctx &) { return s.top(); }
	static bool empty(tpie::stack<T> & s) { return s.empty(); }
	static uint64_t size(tpie::stack<T> & s) { return s.size(); }
	static void push(tpie::ami::stack<T> & s, const T & t, Ctx & c) { VF_CHECK(c, s.push(t) == tpie::ami::NO_ERROR, "ami_push", "push failed"); }
	static T pop(tpie::ami::stack<T> & s, Ctx & c) { const T * p = 0; VF_CHECK(c, s.pop(&p) == tpie::ami::NO_ERROR, "ami_pop", "pop failed"); return *p; }
	static T top(tpie::ami::stack<T> & s, Ctx & c) { const T * p = 0; VF_CHECK(c, s.peek(&p) == tpie::ami::NO_ERROR, "ami_peek", "peek failed"); return *p; }
	static bool empty(tpie::ami::stack<T> & s) { return s.is_empty(); }
	static uint64_t size(tpie::ami::stack<T> & s) { return s.size(); }
	static void underflow(tpie::stack<T> & s, Ctx & c, bool peek) {
		bool t = false;
		try { if (peek) s.top(); else s.pop(); } catch (const tpie::end_of_stream_exception &) { t = true; }
		VF_CHECK(c, t, "underflow", "%s on an empty stack gave an item", peek ? "top" : "pop");
	}
	static void underflow(tpie::ami::stack<T> & s, Ctx & c, bool peek) {
		const T * p = 0;
		VF_CHECK(c, (peek ? s.peek(&p) : s.pop(&p)) == tpie::ami::END_OF_STREAM, "ami_underflow", "no end of stream");
	}

	template <typename S> void drive(S & s, int ops) {
		uint64_t B = std::max<uint64_t>(1, (uint64_t)(tpie::get_block_size() * factor) / N);
		bool oscillate = c.rng.chance(50);
		auto check = [&] {
			VF_CHECK(c, size(s) == m.size(), "size", "size()=%llu, model %zu", (unsigned long long)size(s), m.size());
			VF_CHECK(c, empty(s) == m.empty(), "empty", "empty()=%d with %zu items", (int)empty(s), m.size());
			count("observations");
		};
		auto doPush = [&](uint64_t n) { for (uint64_t i = 0; i < n; ++i) { push(s, item(next), c); m.push_back(next++); } count("pushed", n); };
		auto doPop = [&](uint64_t n) {
			for (uint64_t i = 0; i < n; ++i) {
				T x = pop(s, c);
				VF_CHECK(c, x == item(m.back()), "pop", "pop gave %s for item %zu, expected %s", show<N>(x).c_str(), m.size() - 1, show<N>(item(m.back())).c_str());
				m.pop_back();
			}
			count("popped", n);
		};
		check();
		for (int i = 0; i < ops; ++i) {
			uint64_t n;
			switch (c.rng.below(oscillate ? 9 : 6)) {
			case 0: case 1: n = 1 + c.rng.size(2 * B + 3); c.op("push %llu", (unsigned long long)n); doPush(n); break;
			case 2: case 3:
				n = std::min<uint64_t>(m.size(), 1 + c.rng.size(2 * B + 3)); c.op("pop %llu of %zu", (unsigned long long)n, m.size());
				if (!n) { underflow(s, c, false); count("underflows"); } else doPop(n);
				break;
			case 4: case 5: {
				c.op("top");
				if (m.empty()) { underflow(s, c, true); count("underflows"); break; }
				T x = top(s, c);
				VF_CHECK(c, x == item(m.back()), "top", "top gave %s, expected %s", show<N>(x).c_str(), show<N>(item(m.back())).c_str());
				count("tops");
				break;
			}
			default: { // around a multiple of the buffer size
				uint64_t k = m.size() / B * B + (c.rng.chance(50) ? B : 0) + c.rng.range(-1, 1);
				c.op("to %llu", (unsigned long long)k);
				if ((int64_t)k < 0) break;
				if (k > m.size()) doPush(k - m.size()); else doPop(m.size() - k);
				count("boundary_visits");
				if (c.rng.chance(50) && !m.empty()) { T x = top(s, c); VF_CHECK(c, x == item(m.back()), "top", "top differs"); }
			}
			}
			if (c.rng.chance(60)) check();
		}
		check();
	}

	void run() {
		std::string path = scratch("c10_stack");
		wipe(path);
		size_t files0 = tpie::get_file_manager().used(), mem0 = tpie::get_memory_manager().used();
		uint64_t temp0 = tpie::get_temp_file_usage();
		int kind = c.rng.below(4); // anonymous, named, temporary, ami
		factor = kind == 3 ? 1.0 : c.rng.pick({1.0, 1.0, 2.0, 0.5});
		if (kind != 3) while (factor * tpie::get_block_size() < N) factor *= 2;
		else while (tpie::get_block_size() < N) tpie::set_block_size(2 * tpie::get_block_size());
		int sessions = kind == 0 ? 1 : 1 + c.rng.below(5);
		bool old = kind != 0 && c.rng.chance(30);
		int ops = c.rng.pick({10, 40, 120});
		c.describe("stack kind=%d N=%zu block=%zu factor=%.1f sessions=%d ops=%d oldfmt=%d", kind, N, (size_t)tpie::get_block_size(), factor, sessions, ops, (int)old);
		{
			tpie::temp_file tmp;
			if (kind == 2 && c.rng.chance(50)) tmp.set_path(path, true);
			std::string p = kind == 2 ? tmp.path() : path;
			if (old) { // as written by an earlier, uncompressed stack or as a stream
				tpie::uncompressed_stream<T> u(factor);
				if (kind == 2) u.open(tmp); else u.open(p);
				uint64_t n = c.rng.size(300);
				for (uint64_t i = 0; i < n; ++i) { u.write(item(next)); m.push_back(next++); }
				count("old_format");
			}
			for (int k = 0; k < sessions; ++k) {
				c.op("session %d with %zu", k, m.size());
				if (c.rng.chance(30)) set_scheme(c.rng.pick({tpie::compression_scheme::none, tpie::compression_scheme::snappy}));
				switch (kind) {
				case 0: { tpie::stack<T> s(factor); drive(s, ops); break; }
				case 1: { tpie::stack<T> s(p, factor); drive(s, ops); break; }
				case 2: { tpie::stack<T> s(tmp, factor); drive(s, ops); break; }
				default:
					if (!old && sessions == 1 && c.rng.chance(50)) { tpie::ami::stack<T> s; VF_CHECK(c, s.persist() == tpie::PERSIST_DELETE, "ami_persist", "persistent"); drive(s, ops); m.clear(); }
					else { tpie::ami::stack<T> s(p); drive(s, ops); }
				}
				count("sessions");
				if (kind && !m.empty() && k) count("reopened_nonempty");
			}
			if (kind == 1 || kind == 2) { // the file is a stream of the stack's items
				tpie::file_stream<T> f(factor);
				f.open(p, tpie::access_read);
				VF_CHECK(c, f.size() == m.size(), "file_size", "the file has %llu items, the stack had %zu", (unsigned long long)f.size(), m.size());
				for (size_t i = 0; i < m.size(); ++i) { T x = f.read(); VF_CHECK(c, x == item(m[i]), "file_item", "item %zu differs", i); }
				count("files_read");
			}
		}
		VF_CHECK(c, tpie::get_file_manager().used() == files0, "open_files", "files left open");
		VF_CHECK(c, tpie::get_temp_file_usage() == temp0 || kind >= 2, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
		(void)mem0;
		if (m.size() > 2) c.nontrivial = true;
	}
};

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({32, 64, 130, 512, 2048}));
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 0, 100});
	io().shortPermille = r.pick({0, 0, 100});
	set_scheme(r.chance(70) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	switch (r.below(4)) {
	case 0: { StackCase<1> f(c); f.run(); break; }
	case 1: { StackCase<8> f(c); f.run(); break; }
	case 2: { StackCase<13> f(c); f.run(); break; }
	default: { StackCase<40> f(c); f.run(); }
	}
}
