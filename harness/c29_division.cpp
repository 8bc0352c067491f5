// C29: phase memory and files are divided within the limits and by priority.
// The runtime is driven with hand-made nodes whose limits and priorities are drawn at random; the
// amounts every node is told are judged from the limits alone.
#include "common.h"
#include <tpie/pipelining/node.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/progress_indicator_null.h>
#include <list>
using namespace vf;
namespace pl = tpie::pipelining;
typedef uint64_t u64;
typedef unsigned __int128 u128;
static const u64 MAX = std::numeric_limits<u64>::max();

struct Lim { u64 lo = 0, hi = MAX; double f = 0; };
struct Ds { std::string name; Lim own; };
struct Log { std::vector<int> beginOrder; Ctx * c = nullptr; std::map<std::string, int> value; std::set<std::string> alive; std::vector<std::pair<int, std::set<std::string>>> aliveAt; };
// what a data structure holds; its destruction is seen
struct Held { Log * log; std::string name; int value = 0; Held(Log * l, const std::string & n) : log(l), name(n) { log->alive.insert(n); } Held(const Held &) = delete; ~Held() { log->alive.erase(name); } };
struct Node : pl::node {
	int id, phase; Log * log; Lim mem, files, mem2, files2; bool change = false, changeMemWithFiles = false;
	std::vector<Ds> ds; std::vector<u64> dsGot;
	u64 memAtPropagate = 0, filesAtPropagate = 0, memAtBegin = 0, filesAtBegin = 0;
	u64 memTold = MAX, filesTold = MAX; bool begun = false, root = false;
	Node(int id, int phase, Log * l) : id(id), phase(phase), log(l) {}
	Node(Node &&) = default;
	void apply(const Lim & m, const Lim & f) {
		set_minimum_memory(m.lo); set_maximum_memory(m.hi); set_memory_fraction(m.f);
		set_minimum_resource_usage(tpie::FILES, f.lo); set_maximum_resource_usage(tpie::FILES, f.hi); set_resource_fraction(tpie::FILES, f.f);
	}
	void resource_available_changed(tpie::resource_type t, tpie::memory_size_type n) override {
		if (t == tpie::FILES) {
			filesTold = n;
			// The memory demand may follow from the number of files that was assigned.
			if (changeMemWithFiles) { set_minimum_memory(mem2.lo); set_maximum_memory(mem2.hi); set_memory_fraction(mem2.f); }
		}
	}
	void set_available_memory(tpie::memory_size_type n) override { memTold = n; }
	void propagate() override {
		log->aliveAt.push_back({phase, log->alive});
		memAtPropagate = get_available_memory(); filesAtPropagate = get_available_of_resource(tpie::FILES);
		if (change) apply(mem2, files2);
	}
	void begin() override {
		begun = true; log->beginOrder.push_back(phase);
		memAtBegin = get_available_memory(); filesAtBegin = get_available_of_resource(tpie::FILES);
		for (auto & d : ds) dsGot.push_back(get_datastructure_memory(d.name));
		for (auto & d : ds) if (!log->value.count(d.name)) { // the first to begin makes it, the others find what it holds
			set_datastructure(d.name, std::make_shared<Held>(log, d.name)); log->value[d.name] = 0;
		}
		use("begin");
	}
	void use(const char * when) {
		for (auto & d : ds) {
			Ctx & c = *log->c; int & v = log->value[d.name];
			VF_CHECK(c, log->alive.count(d.name), "datastructure_freed", "%s is gone in %s of node %d, which uses it", d.name.c_str(), when, id);
			auto & h = *get_datastructure<std::shared_ptr<Held>>(d.name);
			VF_CHECK(c, h.name == d.name && h.value == v, "datastructure_contents", "%s holds %d in %s of node %d, %d was left there", d.name.c_str(), h.value, when, id, v);
			h.value = ++v; count("datastructure_uses");
		}
	}
	void go() override { use("go"); }
	void end() override { use("end"); }
};

static double priority_of(Rng & r) {
	switch (r.below(6)) {
	case 0: return 0;
	case 1: case 2: return 1;
	case 3: return (double)r.range(1, 1000) / 100;
	case 4: return 1.0 / (double)r.range(1, 100000);
	default: return (double)r.range(1, 1000000);
	}
}
static u64 about(Rng & r, u64 m) { // something comparable to m
	switch (r.below(6)) {
	case 0: return 0;
	case 1: return r.below(20);
	case 2: return m / (1 + r.below(20));
	case 3: return r.below(m / 2 + 1);
	case 4: return m ? r.below(m) : 0;
	default: return m / (2 + r.below(1000));
	}
}
static Lim limits_of(Rng & r, u64 m, size_t n, bool tight) {
	Lim l; l.f = priority_of(r);
	l.lo = r.chance(30) ? 0 : tight ? about(r, m) : about(r, m / n);
	if (tight && r.chance(10)) l.lo = r.chance(50) ? m : r.chance(50) ? MAX / 2 : m / n;
	switch (r.below(6)) {
	case 0: l.hi = l.lo; break;
	case 1: l.hi = l.lo + std::min<u64>(MAX - l.lo, r.below(10)); break;
	case 2: l.hi = std::max(l.lo, about(r, m)); break;
	case 3: l.hi = l.lo + std::min<u64>(MAX - l.lo, about(r, m)); break;
	default: l.hi = MAX;
	}
	return l;
}
static const char * show(const Lim & l, char * b) { snprintf(b, 90, "[%llu,%llu]*%g", (unsigned long long)l.lo, (unsigned long long)l.hi, l.f); return b; }

struct Share { Lim l; u64 got; };
// The rules for one phase. fixed: memory that was set aside for data structures.
static void judge(Ctx & c, const char * what, const std::vector<Share> & s, u64 limit, u128 fixed, u128 fixedMin) {
	char b[100]; u128 minima = fixedMin, total = fixed;
	for (auto & x : s) { minima += x.l.lo; total += x.got; }
	for (size_t i = 0; i < s.size(); ++i) {
		VF_CHECK(c, s[i].got >= s[i].l.lo, "below_minimum", "%s: a node %s was assigned %llu", what, show(s[i].l, b), (unsigned long long)s[i].got);
		VF_CHECK(c, s[i].got <= s[i].l.hi, "above_maximum", "%s: a node %s was assigned %llu", what, show(s[i].l, b), (unsigned long long)s[i].got);
	}
	count("phases_judged");
	if (minima > limit) {
		count("minima_do_not_fit");
		for (auto & x : s) VF_CHECK(c, x.got == x.l.lo, "not_minimum", "%s: the minima do not fit, but a node %s was assigned %llu", what, show(x.l, b), (unsigned long long)x.got);
		return;
	}
	VF_CHECK(c, total <= limit, "over_limit", "%s: %zu nodes were assigned %llu in all, the limit is %llu", what, s.size(), (unsigned long long)total, (unsigned long long)limit);
	double fsum = 0; for (auto & x : s) fsum += x.l.f;
	u64 unused = (u64)(limit - total), tol = s.size() + 2 + (u64)((long double)limit * 2e-6L);
	bool someone = false;
	for (auto & x : s) if (x.l.f > 0 && x.got < x.l.hi) someone = true;
	if (someone) {
		count("someone_unsaturated");
		VF_CHECK(c, unused <= tol, "unused", "%s: %llu of %llu is left unused while a node could use more", what, (unsigned long long)unused, (unsigned long long)limit);
	} else count("all_saturated");
	// One factor explains every assignment.
	long double Fmin = 0, Fmax = INFINITY; int between = 0;
	for (auto & x : s) {
		if (x.l.f <= 0) { VF_CHECK(c, x.got == x.l.lo, "priority_zero", "%s: a node %s was assigned %llu", what, show(x.l, b), (unsigned long long)x.got); continue; }
		if (x.l.lo == x.l.hi) continue;
		long double f = x.l.f;
		if (x.got == x.l.lo) Fmax = std::min(Fmax, ((long double)x.got + 1) / f);
		else if (x.got == x.l.hi) Fmin = std::max(Fmin, (long double)x.got / f);
		else { ++between; Fmin = std::max(Fmin, (long double)x.got / f); Fmax = std::min(Fmax, ((long double)x.got + 1) / f); }
	}
	if (between > 1) count("several_between_limits");
	if (Fmin > Fmax * (1 + 1e-9L)) {
		std::string all; for (auto & x : s) all += fmt(" %s=%llu", show(x.l, b), (unsigned long long)x.got);
		c.fail("not_proportional", "%s: no factor explains the assignment of %llu:%s", what, (unsigned long long)limit, all.c_str());
	}
}

static u64 clampf(long double F, const Lim & l) {
	long double v = F * l.f;
	if (!(v > l.lo)) return l.lo;
	if (v >= l.hi) return l.hi;
	return std::min(l.hi, std::max(l.lo, (u64)v));
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	auto limit_of = [&](bool files) -> u64 {
		switch (r.below(8)) {
		case 0: return r.below(30);
		case 1: return r.below(1000);
		case 2: return files ? r.below(5000) : MAX >> r.range(1, 12);
		case 3: return files ? 253 : r.below(1ull << 40);
		case 4: return files ? 1000 : 1ull << r.range(10, 34);
		default: return files ? r.below(300) : r.range(1000, 100000000);
		}
	};
	u64 M = limit_of(false), Fl = limit_of(true);
	int K = 1 + (int)r.below(4); bool tight = r.chance(25);
	bool useDs = r.chance(35); bool changes = r.chance(40), late = !useDs && r.chance(30);
	Log log; log.c = &c; std::list<Node> nodes; std::vector<std::vector<Node *>> phases(K);
	c.op("memory %llu files %llu, %d phases", (unsigned long long)M, (unsigned long long)Fl, K);
	// data structures, with limits every user agrees can be met
	std::vector<std::string> names; std::vector<Lim> base;
	if (useDs) for (int i = 1 + (int)r.below(3); i; --i) { names.push_back(fmt("ds%d", i)); base.push_back(limits_of(r, M / 2, 3, tight)); }
	for (int k = 0; k < K; ++k) {
		int n = 1 + (int)r.below(6);
		for (int i = 0; i < n; ++i) {
			Node fresh((int)nodes.size(), k, &log);
			fresh.mem = limits_of(r, M, n, tight); fresh.files = limits_of(r, Fl, n, tight);
			fresh.mem2 = fresh.mem; fresh.files2 = fresh.files;
			fresh.change = changes && r.chance(50);
			if (fresh.change) { fresh.mem2 = limits_of(r, M, n, tight && !useDs); fresh.files2 = limits_of(r, Fl, n, tight); }
			if (fresh.change && useDs) fresh.mem2 = fresh.mem;
			if (late && !fresh.change && r.chance(50)) { fresh.changeMemWithFiles = true; fresh.mem2 = limits_of(r, M, n, tight); count("demand_follows_files"); }
			fresh.apply(fresh.mem, fresh.files);
			for (size_t d = 0; d < names.size(); ++d) if (r.chance(40)) {
				Ds u; u.name = names[d]; u.own.lo = r.chance(50) ? base[d].lo : base[d].lo / 2; u.own.hi = r.chance(50) ? base[d].hi : base[d].hi == MAX ? MAX : base[d].hi + std::min<u64>(MAX - base[d].hi, r.below(1000));
				u.own.f = r.chance(60) ? base[d].f : base[d].f * 2;
				fresh.register_datastructure_usage(u.name, u.own.f);
				if (r.chance(80)) fresh.set_datastructure_memory_limits(u.name, u.own.lo, u.own.hi); else { u.own.lo = 0; u.own.hi = MAX; }
				fresh.ds.push_back(u);
			}
			nodes.emplace_back(std::move(fresh)); // nodes are moved into their pipelines
			char b1[100], b2[100]; Node & x = nodes.back();
			c.op("phase %d node %d mem %s files %s%s", k, x.id, show(x.mem, b1), show(x.files, b2), x.change ? " changes" : "");
			if (x.change || x.changeMemWithFiles) c.op("node %d then %s files %s", x.id, show(x.mem2, b1), show(x.files2, b2));
			for (auto & d : x.ds) c.op("node %d uses %s %s", x.id, d.name.c_str(), show(d.own, b1));
			phases[k].push_back(&x);
		}
	}
	// relations: the nodes of a phase form a tree of pushes; phases depend on earlier ones
	for (int k = 0; k < K; ++k) {
		auto & p = phases[k];
		for (size_t i = 1; i < p.size(); ++i) {
			Node * up = p[r.below(i)];
			if (r.chance(30)) { p[i]->add_pull_source(*up); } else up->add_push_destination(*p[i]);
		}
	}
	for (int k = 1; k < K; ++k) phases[k][r.below(phases[k].size())]->add_dependency(*phases[r.chance(60) ? k - 1 : (int)r.below(k)][0]);
	{
		pl::bits::runtime rt(nodes.front().get_node_map()->find_authority());
		tpie::progress_indicator_null pi;
		rt.go(100, pi, Fl, M, nullptr, nullptr);
	}
	c.nontrivial = true;
	for (auto & n : nodes) {
		VF_CHECK(c, n.begun, "not_begun", "node %d was never begun", n.id);
		VF_CHECK(c, n.memTold == n.memAtBegin && n.filesTold == n.filesAtBegin, "not_told", "node %d was told %llu/%llu and has %llu/%llu at begin", n.id, (unsigned long long)n.memTold, (unsigned long long)n.filesTold, (unsigned long long)n.memAtBegin, (unsigned long long)n.filesAtBegin);
	}
	// the order the phases ran in
	std::vector<int> order; for (int p : log.beginOrder) if (order.empty() || order.back() != p) order.push_back(p);
	VF_CHECK(c, (int)order.size() == K, "phases", "%d phases ran as %zu", K, order.size());
	std::vector<int> pos(K); for (int i = 0; i < K; ++i) pos[order[i]] = i;
	// data structures
	struct Agg { Lim l; int left = 99, right = -1; u64 got = 0; bool used = false; };
	std::map<std::string, Agg> agg;
	for (auto & n : nodes) for (size_t d = 0; d < n.ds.size(); ++d) {
		Agg & a = agg[n.ds[d].name]; auto & o = n.ds[d].own;
		if (!a.used) { a.l = o; a.got = n.dsGot[d]; a.used = true; }
		else { a.l.lo = std::max(a.l.lo, o.lo); a.l.hi = std::min(a.l.hi, o.hi); a.l.f = std::min(a.l.f, o.f); }
		VF_CHECK(c, a.got == n.dsGot[d], "datastructure", "two nodes are told %llu and %llu for one data structure", (unsigned long long)a.got, (unsigned long long)n.dsGot[d]);
		a.left = std::min(a.left, pos[n.phase]); a.right = std::max(a.right, pos[n.phase]);
	}
	for (auto & at : log.aliveAt) for (auto & kv : agg) { // kept as long as it is used, and no longer
		int i = pos[at.first]; bool alive = at.second.count(kv.first) > 0, used = kv.second.left < i && i <= kv.second.right;
		if (i == kv.second.left) continue;
		VF_CHECK(c, alive == used, "datastructure_life", "%s is %s when phase %d starts, it is used from phase %d to %d", kv.first.c_str(), alive ? "there" : "gone", i, kv.second.left, kv.second.right);
		count("datastructure_lives");
	}
	VF_CHECK(c, log.alive.empty(), "datastructure_life", "a data structure is there after the last phase");
	for (int i = 0; i < K; ++i) {
		auto & p = phases[order[i]]; u128 fixed = 0, fixedMin = 0;
		for (auto & kv : agg) if (kv.second.left <= i && i <= kv.second.right) { fixed += kv.second.got; fixedMin += kv.second.l.lo; count("datastructures_in_phase"); }
		std::vector<Share> m1, m2, f1, f2;
		for (Node * n : p) {
			m1.push_back({n->changeMemWithFiles ? n->mem2 : n->mem, n->memAtPropagate}); m2.push_back({n->change || n->changeMemWithFiles ? n->mem2 : n->mem, n->memAtBegin});
			f1.push_back({n->files, n->filesAtPropagate}); f2.push_back({n->change ? n->files2 : n->files, n->filesAtBegin});
		}
		judge(c, "files before propagate", f1, Fl, 0, 0); judge(c, "files at begin", f2, Fl, 0, 0);
		judge(c, "memory before propagate", m1, M, fixed, fixedMin); judge(c, "memory at begin", m2, M, fixed, fixedMin);
	}
	for (auto & kv : agg) {
		Agg & a = kv.second; char b[100];
		VF_CHECK(c, a.got >= a.l.lo && a.got <= a.l.hi, "datastructure_limits", "a data structure %s was assigned %llu", show(a.l, b), (unsigned long long)a.got);
		if (a.l.f <= 0 || a.l.lo == a.l.hi) continue;
		// the phase that decided its share is full at the factor it was given
		bool decided = false; long double F = (long double)a.got / a.l.f;
		for (int i = a.left; i <= a.right; ++i) {
			u128 at = 0, above = 0, minima = 0; long double tol = 0;
			auto add = [&](const Lim & l) { at += clampf(F, l); above += clampf(((long double)a.got + 1) / a.l.f * (1 + 1e-12L), l); minima += l.lo; tol += 1; };
			for (Node * n : phases[order[i]]) add(n->mem);
			for (auto & o : agg) if (o.second.left <= i && i <= o.second.right) add(o.second.l);
			if (minima > M) { decided = decided || a.got == a.l.lo; continue; }
			tol += 2 + (long double)M * 2e-6L;
			if (a.got > a.l.lo) VF_CHECK(c, (long double)at <= (long double)M + tol, "datastructure_share", "a data structure was assigned %llu, more than its share in phase %d", (unsigned long long)a.got, i);
			if ((long double)above + tol >= (long double)M) decided = true;
		}
		if (a.got < a.l.hi) VF_CHECK(c, decided, "datastructure_unused", "a data structure %s was assigned %llu though no phase was short of memory", show(a.l, b), (unsigned long long)a.got);
		count("datastructures_judged");
	}
}
