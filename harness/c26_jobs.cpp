// C26: every enqueued job runs exactly once; joins see the effects of the whole tree.
#include "common.h"
#include "cond_shim.h"
#include <tpie/job.h>
#include <tpie/exception.h>
using namespace vf;

static inline uint64_t churn(uint64_t seed, unsigned n) { volatile uint64_t x = seed; for (unsigned i = 0; i < n; ++i) x = mix(x); return x; }
struct Plan { int depth, fan, spin, sleepPct; };
struct Tree;
// One node of a tree of jobs.  The plain (non-atomic) members are written by
// whichever thread runs the job and read by the joiner: the race detector
// checks that the join orders them.
struct Node : tpie::job {
	Tree & t; Node * parent; Plan p; uint64_t seed;
	std::vector<std::unique_ptr<Node>> kids;
	unsigned runs = 0; uint64_t effect = 0; uint64_t expected = 0; // plain
	std::atomic<unsigned> started{0}, finished{0}, dones{0}; // for observers
	std::atomic<bool> threw{false};
	Node(Tree & t, Node * parent, Plan p, uint64_t seed) : t(t), parent(parent), p(p), seed(seed) {}
	void prepare(Rng & r) { // the children are decided beforehand, and created by the job itself
		nkids = p.depth > 0 ? r.below(p.fan + 1) : 0;
	}
	unsigned nkids = 0;
	void operator()() override;
	void on_done() override;
	bool all_finished() const { if (finished.load(std::memory_order_relaxed) == 0) return false; for (auto & k : kids) if (!k->all_finished()) return false; return true; }
};
struct Tree {
	std::atomic<uint64_t> jobs{0}, doneCalls{0}, inlineRuns{0}, order{0}, early{0};
	std::atomic<uint64_t> schedule{0}; // hash of the order in which jobs start
	std::unique_ptr<Node> root;
};
static thread_local int depthHere = 0;
void Node::operator()() {
	started.fetch_add(1, std::memory_order_relaxed);
	t.schedule.store(mix(t.schedule.load(std::memory_order_relaxed) ^ seed), std::memory_order_relaxed);
	if (++depthHere > 1) t.inlineRuns.fetch_add(1, std::memory_order_relaxed);
	Rng r(seed);
	++runs;
	if (r.chance(p.sleepPct)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
	kids.reserve(nkids);
	for (unsigned i = 0; i < nkids; ++i) {
		Plan q = p; --q.depth;
		kids.emplace_back(new Node(t, this, q, r.next())); kids.back()->prepare(r);
		t.jobs.fetch_add(1, std::memory_order_relaxed);
		kids.back()->enqueue(this);
		if (r.chance(20)) std::this_thread::yield();
	}
	effect = churn(seed, r.below(p.spin + 1)) | 1;
	expected = effect;
	--depthHere;
	finished.fetch_add(1, std::memory_order_relaxed);
}
void Node::on_done() {
	dones.fetch_add(1, std::memory_order_relaxed); t.doneCalls.fetch_add(1, std::memory_order_relaxed);
	if (!all_finished()) t.early.fetch_add(1, std::memory_order_relaxed);
}

static uint64_t verify(Ctx & c, Node & n, unsigned rounds) {
	VF_CHECK(c, n.runs == rounds && n.started == rounds, "runs", "a job ran %u times, expected %u", n.runs, rounds);
	VF_CHECK(c, n.effect && n.effect == n.expected, "effect", "the effect of a job is not visible after the join");
	VF_CHECK(c, n.dones == rounds, "on_done", "on_done ran %u times, expected %u", n.dones.load(), rounds);
	VF_CHECK(c, n.is_done(), "is_done", "is_done() is false after the join");
	VF_CHECK(c, n.kids.size() == n.nkids, "runs", "only %zu of %u children were created", n.kids.size(), n.nkids);
	uint64_t k = 1;
	for (auto & x : n.kids) k += verify(c, *x, 1);
	return k;
}

// A flat job that may be enqueued again and again.
struct Flat : tpie::job { unsigned runs = 0; uint64_t seed = 0; std::atomic<unsigned> dones{0}; unsigned spin = 0; void operator()() override { ++runs; churn(seed, spin); } void on_done() override { dones.fetch_add(1, std::memory_order_relaxed); } };

// A job that others add children to while it runs.
struct Gate : tpie::job { std::atomic<bool> open{false}, running{false}; unsigned runs = 0; std::atomic<unsigned> dones{0}; std::thread::id creator = std::this_thread::get_id(); void operator()() override { ++runs; if (std::this_thread::get_id() == creator) return; running = true; while (!open) std::this_thread::yield(); } void on_done() override { ++dones; } };

// Jobs that wait for each other, as many as there are workers.
struct Meet : tpie::job { std::atomic<size_t> & arrived; size_t all; unsigned runs = 0; Meet(std::atomic<size_t> & a, size_t all) : arrived(a), all(all) {} void operator()() override { ++runs; arrived.fetch_add(1); while (arrived.load() < all) std::this_thread::yield(); } };

static void client(Ctx & c, int rounds, bool poll, size_t meet) {
	Rng & r = c.rng;
	for (int i = 0; i < rounds; ++i) {
		switch (r.below(6)) {
		case 4: { // several threads join the same jobs
			size_t n = r.pick({1, 2, 10}), k = 2 + r.below(3); c.op("%zu jobs joined by %zu threads", n, k);
			std::vector<std::unique_ptr<Flat>> v; for (size_t j = 0; j < n; ++j) { v.emplace_back(new Flat); v.back()->seed = r.next(); v.back()->spin = r.below(r.pick({1, 2000, 60000})); }
			for (auto & x : v) x->enqueue();
			std::atomic<unsigned> bad{0}; std::vector<std::thread> ts;
			for (size_t q = 1; q < k; ++q) ts.emplace_back([&] { for (auto & x : v) { x->join(); if (x->runs != 1) ++bad; } });
			for (auto & x : v) { x->join(); if (x->runs != 1) ++bad; }
			for (auto & t : ts) t.join();
			VF_CHECK(c, bad == 0, "runs", "a join by one of several threads returned before the job ran");
			count("joined_by_several", n);
			break;
		}
		case 5: { // jobs that need each other: none of the idle workers may sleep while jobs are queued
			if (!meet) break;
			size_t k = 1 + r.below(meet); c.op("%zu jobs that meet", k); std::atomic<size_t> arrived{0}; std::vector<std::unique_ptr<Meet>> v;
			for (size_t j = 0; j < k; ++j) v.emplace_back(new Meet(arrived, k));
			for (auto & x : v) x->enqueue();
			for (auto & x : v) { x->join(); VF_CHECK(c, x->runs == 1, "runs", "a job ran %u times", x->runs); }
			count("meetings");
			break;
		}
		case 0: { // a burst of independent jobs, perhaps more than the queue holds, enqueued repeatedly
			size_t n = r.pick({1, 3, 20, 127, 128, 129, 300}); unsigned times = 1 + r.below(3); c.op("%zu flat jobs %u times", n, times);
			std::vector<std::unique_ptr<Flat>> v; for (size_t k = 0; k < n; ++k) { v.emplace_back(new Flat); v.back()->seed = r.next(); v.back()->spin = r.below(r.pick({1, 30, 2000})); }
			for (unsigned t = 1; t <= times; ++t) {
				for (auto & x : v) { if (r.chance(5)) std::this_thread::yield(); x->enqueue(); }
				if (r.chance(50)) r.shuffle(v.begin(), v.end());
				for (auto & x : v) {
					if (r.chance(20)) { while (!x->is_done()) std::this_thread::yield(); count("polled"); } else x->join();
					VF_CHECK(c, x->runs == t, "runs", "a job ran %u times after %u enqueues", x->runs, t);
					VF_CHECK(c, x->dones <= t, "on_done", "on_done ran %u times after %u enqueues", x->dones.load(), t);
				}
				count("flat_runs", n);
			}
			break;
		}
		case 3: { // children given to a running job from outside
			Gate g; size_t n = r.pick({1, 5, 140}); c.op("%zu children from outside", n); g.enqueue(); if (g.is_done()) break; /* the queue was full and it ran here */ if (r.chance(90)) while (!g.running) std::this_thread::yield(); else while (!g.running) std::this_thread::sleep_for(std::chrono::microseconds(20));
			std::vector<std::unique_ptr<Flat>> v; for (size_t k = 0; k < n; ++k) { v.emplace_back(new Flat); v.back()->seed = r.next(); v.back()->spin = r.below(r.pick({1, 30, 2000})); }
						for (size_t k = 0; k < n; ++k) v[k]->enqueue(&g);
			VF_CHECK(c, !g.is_done(), "early", "is_done() of a job that still runs");
			g.open = true; g.join();
			for (auto & x : v) VF_CHECK(c, x->runs == 1 && x->dones == 1, "runs", "a child ran %u times before its parent was joined", x->runs);
			VF_CHECK(c, g.runs == 1 && g.dones == 1, "runs", "the parent ran %u times, on_done %u", g.runs, g.dones.load());
			count("outside_children", n);
			break;
		}
		case 1: case 2: { // trees
			size_t m = 1 + r.below(3); std::vector<std::unique_ptr<Tree>> ts;
			for (size_t k = 0; k < m; ++k) {
				ts.emplace_back(new Tree); Plan p; p.depth = r.below(5); p.fan = 1 + r.below(p.depth > 3 ? 4 : 7); p.spin = r.pick({1, 50, 3000}); p.sleepPct = r.pick({0, 0, 10, 60});
				ts[k]->root.reset(new Node(*ts[k], nullptr, p, r.next())); ts[k]->root->prepare(r); ts[k]->jobs = 1; c.op("tree depth %d fan %d spin %d", p.depth, p.fan, p.spin);
				ts[k]->root->enqueue();
			}
			for (size_t k = 0; k < m; ++k) {
				Tree & t = *ts[k]; Node & n = *t.root;
				if (poll && r.chance(30)) { while (!n.is_done()) { } count("polled"); }
				// is_done() is true only when every job of the tree is finished
				bool d = n.is_done(); if (d) VF_CHECK(c, n.all_finished(), "early", "is_done() before all descendants have run");
				n.join();
				uint64_t seen = verify(c, n, 1);
				VF_CHECK(c, seen == t.jobs && t.doneCalls == seen, "runs", "%llu jobs created, %llu verified, %llu callbacks", (unsigned long long)t.jobs, (unsigned long long)seen, (unsigned long long)t.doneCalls);
				VF_CHECK(c, t.early == 0, "early", "on_done() before all descendants have run");
				count("tree_jobs", seen); count("trees"); count("run_inside_another", t.inlineRuns); c.mark(t.schedule);
				if (seen > 3) c.nontrivial = true;
			}
			break;
		}
		}
	}
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	size_t workers = r.pick({1, 1, 2, 3, 4, 8}); tpie::set_worker_count(workers);
	size_t threads = r.pick({1, 1, 2, 4}); bool resizing = r.chance(30);
	c.describe("%zu workers, %zu clients%s", workers, threads, resizing ? ", the worker count changes meanwhile" : "");
	size_t meet = threads == 1 && !resizing ? workers : 0;
	spuriousPercent = r.pick({0, 0, 20, 60}); uint64_t spur = spuriousWakeups;
	std::atomic<size_t> left{threads};
	std::vector<std::function<void(Ctx &)>> b;
	for (size_t i = 0; i < threads; ++i) b.push_back([&](Ctx & c) { struct D { std::atomic<size_t> & l; ~D() { l.fetch_sub(1, std::memory_order_relaxed); } } d{left}; client(c, 1 + c.rng.below(4), true, meet); });
	if (resizing) b.push_back([&](Ctx & c) { // one thread changes the number of workers
		do { size_t n = 1 + c.rng.below(6); c.op("set_worker_count %zu", n); tpie::set_worker_count(n); count("worker_count_changes"); std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(500))); } while (left.load(std::memory_order_relaxed));
	});
	run_threads(c, b);
	spuriousPercent = 0; count("spurious_wakeups", spuriousWakeups - spur);
	count("cases_workers_" + std::to_string(workers));
	if (threads > 1) count("multi_client_cases");
	if (r.chance(3)) { tpie::tpie_finish(); tpie::tpie_init(); tpie::get_memory_manager().set_limit(512 << 20); tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); count("restarts"); }
}
