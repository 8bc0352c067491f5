// C11: the external queue (tpie::queue, tpie::ami::queue) against std::deque.
#define VF_IO_SHIM_IMPL
#include "stream_model.h"
#include <tpie/queue.h>
using namespace vf;

template <size_t N> struct QueueCase {
	typedef Item<N> T;
	Ctx & c;
	std::deque<uint64_t> m;
	uint64_t next;
	int entropy;
	QueueCase(Ctx & c) : c(c), next(c.rng.next() >> 8), entropy(c.rng.below(3)) {}
	T item(uint64_t id) { return make_item<N>(id, entropy); }
	static void push(tpie::queue<T> & q, const T & t) { q.push(t); }
	static T pop(tpie::queue<T> & q) { return q.pop(); }
	static T front(tpie::queue<T> & q) { return q.front(); }
	static bool underflow(tpie::queue<T> &) { return true; }
	static void push(tpie::ami::queue<T> & q, const T & t) { q.enqueue(t); }
	static T pop(tpie::ami::queue<T> & q) { const T * t = 0; if (q.dequeue(&t) != tpie::ami::NO_ERROR) throw std::runtime_error("dequeue failed"); return *t; }
	static T front(tpie::ami::queue<T> & q) { const T * t = 0; if (q.peek(&t) != tpie::ami::NO_ERROR) throw std::runtime_error("peek failed"); return *t; }
	static bool underflow(tpie::ami::queue<T> & q) { const T * t = 0; count("underflows"); return q.dequeue(&t) == tpie::ami::END_OF_STREAM; }

	template <typename Q> void drive(Q & q, int ops) {
		uint64_t B = std::max<uint64_t>(1, tpie::get_block_size() / N);
		auto check = [&] {
			VF_CHECK(c, q.size() == m.size(), "size", "size()=%llu, model %zu", (unsigned long long)q.size(), m.size());
			VF_CHECK(c, q.empty() == m.empty(), "empty", "empty()=%d with %zu items", (int)q.empty(), m.size());
		};
		auto doPush = [&](uint64_t n) { for (uint64_t i = 0; i < n; ++i) { push(q, item(next)); m.push_back(next++); } count("pushed", n); };
		auto doFront = [&] { T x = front(q); VF_CHECK(c, x == item(m.front()), "front", "front gave %s, expected %s (%zu queued)", show<N>(x).c_str(), show<N>(item(m.front())).c_str(), m.size()); count("fronts"); };
		auto doPop = [&](uint64_t n, bool peek) {
			for (uint64_t i = 0; i < n; ++i) {
				if (peek && c.rng.chance(50)) doFront();
				T x = pop(q);
				VF_CHECK(c, x == item(m.front()), "pop", "pop gave %s, expected %s (%zu queued)", show<N>(x).c_str(), show<N>(item(m.front())).c_str(), m.size());
				m.pop_front();
			}
			count("popped", n);
		};
		check();
		int target = c.rng.below(4);
		for (int i = 0; i < ops; ++i) {
			if (i % 20 == 0) target = c.rng.below(4);
			uint64_t n;
			switch (c.rng.below(7)) {
			case 0: case 1: n = 1 + c.rng.size(2 * B + 2); c.op("push %llu", (unsigned long long)n); doPush(n); break;
			case 2: case 3:
				n = std::min<uint64_t>(m.size(), 1 + c.rng.size(2 * B + 2)); c.op("pop %llu of %zu", (unsigned long long)n, m.size());
				if (!n) { VF_CHECK(c, underflow(q), "underflow", "popping an empty queue did not report the end"); }
				else doPop(n, c.rng.chance(30));
				break;
			case 4: c.op("front"); if (!m.empty()) { doFront(); doFront(); } break;
			case 5: { // length towards a multiple of the buffer
				uint64_t k = target * B + c.rng.range(-1, 1);
				if ((int64_t)k < 0) break;
				c.op("length to %llu", (unsigned long long)k);
				if (k > m.size()) doPush(k - m.size()); else doPop(m.size() - k, false);
				count("boundary_visits");
				break;
			}
			default: { // steady state: keep the length, move the contents through
				n = c.rng.below(2 * B + 2);
				c.op("shift %llu at %zu", (unsigned long long)n, m.size());
				for (uint64_t j = 0; j < n; ++j) { if (c.rng.chance(50) && !m.empty()) { doPop(1, false); doPush(1); } else { doPush(1); doPop(1, true); } }
				count("shifts", n);
			}
			}
			if (c.rng.chance(60)) check();
		}
		check();
		if (c.rng.chance(50)) doPop(m.size(), false);
		check();
	}

	void run() {
		size_t files0 = tpie::get_file_manager().used();
		uint64_t temp0 = tpie::get_temp_file_usage();
		int kind = c.rng.below(4);
		int ops = c.rng.pick({10, 40, 120});
		c.describe("queue kind=%d N=%zu block=%zu ops=%d", kind, N, (size_t)tpie::get_block_size(), ops);
		switch (kind) {
		case 0: { tpie::queue<T> q; drive(q, ops); break; }
		case 1: { tpie::queue<T> q(tpie::access_normal, tpie::compression_none); drive(q, ops); break; }
		case 2: { tpie::queue<T> q(tpie::access_sequential, tpie::compression_all); drive(q, ops); break; }
		default: { tpie::ami::queue<T> q; drive(q, ops); }
		}
		VF_CHECK(c, tpie::get_file_manager().used() == files0, "open_files", "files left open");
		VF_CHECK(c, tpie::get_temp_file_usage() == temp0, "temp_usage", "temporary usage off by %lld", (long long)(tpie::get_temp_file_usage() - temp0));
		if (c.log.size() > 5) c.nontrivial = true;
	}
};

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	tpie::set_block_size(r.pick({40, 64, 130, 512, 2048}));
	io().reset(r.next());
	io().delayPermille = r.pick({0, 0, 0, 100});
	io().shortPermille = r.pick({0, 0, 100});
	set_scheme(r.chance(70) ? tpie::compression_scheme::snappy : tpie::compression_scheme::none);
	switch (r.below(4)) {
	case 0: { QueueCase<1> f(c); f.run(); break; }
	case 1: { QueueCase<8> f(c); f.run(); break; }
	case 2: { QueueCase<13> f(c); f.run(); break; }
	default: { QueueCase<40> f(c); f.run(); }
	}
}
