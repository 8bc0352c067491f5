// C25: the pipelining runtime runs every stage in dependency order, once.
// Random arrangements of hand-made nodes (pushes, pulls, dependencies, memory sharing) are run by the
// real runtime. Every call a node receives is logged; an oracle that knows only the arrangement judges
// the log: once each, in order, forwards where they belong, ill-formed arrangements rejected, and
// everything released when a stage throws.
#include "common.h"
#include <tpie/pipelining/node.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/pipelining/factory_base.h>
#include <tpie/pipelining/node_set.h>
#include <tpie/pipelining/pipeline.h>
#include <tpie/pipelining/pair_factory.h>
#include <tpie/pipelining/pipe_base.h>
#include <tpie/pipelining/helpers.h>
#include <tpie/progress_indicator_base.h>
#include <tpie/array.h>
#include <tpie/tempname.h>
#include <tpie/file_stream.h>
#include <array>
#include <list>
using namespace vf;
namespace pl = tpie::pipelining;

enum Kind { PREPARE, PROPAGATE, BEGIN, GO, END, EVACUATE };
static const char * kindName[] = {"prepare", "propagate", "begin", "go", "end", "evacuate"};
struct Ev { int kind, node; };
struct Planned { int source; std::string key; size_t k; int when; int value = -1; };
struct Boom { int id; };
struct World {
	Ctx & c; std::vector<Ev> ev; int throwKind = -1, throwNode = -1; bool thrown = false;
	// forwarding: who forwards what and when; what each node should see
	std::vector<Planned> plan; std::vector<std::map<std::string, int>> from; // node -> key -> source
	std::map<std::pair<int, std::string>, int> current; // (source, key) -> value
	std::map<std::string, int> global;
	std::vector<std::vector<int>> dist; // distance along forwards, -1 if none
	int nextValue = 1; uint64_t fetches = 0, found = 0; bool steps = false; bool resources = false;
	// progress: of each phase, the steps announced and taken, and what the root showed
	tpie::progress_indicator_base * root = nullptr; struct Prog { int phase; uint64_t k, cur; }; std::vector<Prog> prog; std::vector<uint64_t> total, taken, base; std::vector<int> began;
	World(Ctx & c) : c(c) {}
};
struct Node : pl::node {
	World * w; int id, phase = 0; bool evac, checkFetch = true; uint64_t steps = 0; bool inGo = false;
	tpie::array<char> mem; std::unique_ptr<tpie::file_stream<int>> stream;
	Node(World * w, int id, bool evac) : w(w), id(id), evac(evac) { early(); }
	Node(World * w, int id, bool evac, const pl::node_token & t) : pl::node(t), w(w), id(id), evac(evac) { early(); }
	tpie::array<char> made; // allocated when the node is made, and moved with it
	void early() { if (w->resources && id % 3 == 0) made = tpie::array<char>(200 + id, allocator(id % 2)); }
	Node(Node && o) = default;
	void look() {
		for (int k = 0; k < 4; ++k) {
			std::string key = fmt("k%d", k); int expect = 0; bool has = false;
			auto it = w->from[id].find(key);
			if (it != w->from[id].end()) { has = true; expect = w->current[{it->second, key}]; }
			else { auto g = w->global.find(key); if (g != w->global.end()) { has = true; expect = g->second; } }
			VF_CHECK(w->c, can_fetch(key) == has, "fetch", "node %d %s fetch key %s in state %d", id, has ? "cannot" : "can", key.c_str(), (int)get_state());
			if (has) { int got = fetch<int>(key); VF_CHECK(w->c, got == expect, "fetched", "node %d fetched %d for key %s, it was forwarded %d", id, got, key.c_str(), expect); ++w->found; }
			++w->fetches;
		}
	}
	void note_forward(Planned & p) {
		p.value = w->nextValue++; w->current[{id, p.key}] = p.value;
		for (size_t j = 0; j < w->dist[id].size(); ++j)
			if (w->dist[id][j] >= 0 && (size_t)w->dist[id][j] <= p.k) w->from[j][p.key] = id;
	}
	void event(int kind) {
		VF_CHECK(w->c, !w->thrown, "after_throw", "node %d was told to %s after a node threw", id, kindName[kind]);
		w->ev.push_back({kind, id});
		static const int st[] = {STATE_IN_PREPARE, STATE_IN_PROPAGATE, STATE_IN_BEGIN, STATE_IN_GO, STATE_IN_END, -1};
		if (st[kind] >= 0) VF_CHECK(w->c, get_state() == st[kind], "state", "node %d is in state %d in %s", id, (int)get_state(), kindName[kind]);
		look();
		VF_CHECK(w->c, get_used_memory() >= made.size() + mem.size() && (made.size() + mem.size() == 0) == (get_used_memory() == 0), "used_memory", "node %d uses %zu bytes, %llu are counted", id, (size_t)(made.size() + mem.size()), (unsigned long long)get_used_memory());
		if (kind == BEGIN && w->steps && (w->began.empty() || w->began.back() != phase)) { w->began.push_back(phase); w->base[phase] = w->root->get_current(); }
		if (kind == BEGIN && w->resources) {
			mem = tpie::array<char>(100 + 10 * id, allocator());
			stream.reset(new tpie::file_stream<int>); stream->open(); stream->write(id);
		}
		for (auto & p : w->plan) if (p.source == id && p.when == kind) { note_forward(p); forward(p.key, p.value, p.k == SIZE_MAX ? std::numeric_limits<tpie::memory_size_type>::max() : p.k); look(); count("forwards"); }
		if (w->throwKind == kind && w->throwNode == id) { w->thrown = true; throw Boom{id}; }
		if (kind == PROPAGATE && w->steps) { set_steps(steps); w->total[phase] += steps; }
		if (kind == GO && w->steps) { inGo = true; advance(); }
		if (kind == END && w->steps && !inGo) advance();
		if (kind == END) { mem.resize(0); stream.reset(); }
	}
	void advance() {
		for (uint64_t left = steps; left; ) {
			uint64_t d = steps < 20 ? 1 : std::min(left, steps / 3); left -= d;
			step(d); w->taken[phase] += d; w->prog.push_back({phase, w->taken[phase], w->root->get_current()});
		}
	}
	void prepare() override { event(PREPARE); }
	void propagate() override { event(PROPAGATE); }
	void begin() override { event(BEGIN); }
	void go() override { event(GO); }
	void end() override { event(END); }
	bool can_evacuate() override { return evac; }
	void evacuate() override { event(EVACUATE); }
};
struct Root : tpie::progress_indicator_base {
	Ctx & c; uint64_t last = 0; int dones = 0;
	Root(Ctx & c) : progress_indicator_base(1), c(c) {}
	void refresh() override { VF_CHECK(c, get_current() <= get_range(), "progress", "progress %llu of %llu", (unsigned long long)get_current(), (unsigned long long)get_range()); }
	void done() override { ++dones; }
};

enum Rel { PUSH, PULL, DEP, SHARE, BLOCK };
struct Edge { int a, b; Rel rel; int set = -1; }; // a pushes to b, a pulls from b, a depends on b, a shares memory with b, a depends on b without seeing its forwards
static bool acyclic(int n, const std::vector<std::pair<int, int>> & e) {
	std::vector<int> in(n, 0), q; for (auto & x : e) { if (x.first == x.second) return false; ++in[x.second]; }
	for (int i = 0; i < n; ++i) if (!in[i]) q.push_back(i);
	for (size_t i = 0; i < q.size(); ++i) for (auto & x : e) if (x.first == q[i] && !--in[x.second]) q.push_back(x.second);
	return (int)q.size() == n;
}
struct Shape {
	struct Set { std::vector<int> members; std::vector<std::pair<int, Rel>> users; };
	int n; std::vector<Set> sets; std::vector<Edge> edges; std::vector<char> evac;
	std::vector<int> phase; int phases = 0; std::vector<std::vector<int>> members;
	void number() {
		phase.assign(n, -1); phases = 0; members.clear();
		for (int i = 0; i < n; ++i) if (phase[i] < 0) {
			std::vector<int> q{i}; phase[i] = phases; 
			for (size_t k = 0; k < q.size(); ++k) for (auto & e : edges) if (e.rel <= PULL) {
				if (e.a == q[k] && phase[e.b] < 0) { phase[e.b] = phases; q.push_back(e.b); }
				if (e.b == q[k] && phase[e.a] < 0) { phase[e.a] = phases; q.push_back(e.a); }
			}
			members.push_back(q); ++phases;
		}
	}
	std::vector<std::pair<int, int>> flow(int what) const { // 0 item flow, 1 actor, 2 phases
		std::vector<std::pair<int, int>> r;
		for (auto & e : edges) {
			if (what == 2) { if (e.rel > PULL) r.push_back({phase[e.b], phase[e.a]}); }
			else if (e.rel == PUSH) r.push_back({e.a, e.b});
			else if (e.rel == PULL) { if (what == 0) r.push_back({e.b, e.a}); else r.push_back({e.a, e.b}); }
		}
		return r;
	}
	std::vector<std::pair<int, int>> green() const { std::vector<std::pair<int, int>> r; for (auto & e : edges) if (e.rel == SHARE && !evac[e.b]) r.push_back({phase[e.b], phase[e.a]}); return r; }
	// Is there an order of the phases in which every memory share without evacuation is between neighbours?
	bool arrange(std::vector<int> & order, std::vector<char> & used, const std::vector<std::pair<int, int>> & dep, const std::vector<std::pair<int, int>> & g) const {
		if ((int)order.size() == phases) return true;
		for (int p = 0; p < phases; ++p) if (!used[p]) {
			bool ok = true;
			for (auto & d : dep) if (d.second == p && !used[d.first]) ok = false;
			for (auto & x : g) {
				if (x.second == p && (order.empty() || order.back() != x.first)) ok = false;
				if (!order.empty() && x.first == order.back() && x.second != p) ok = false;
			}
			if (!ok) continue;
			used[p] = 1; order.push_back(p);
			if (arrange(order, used, dep, g)) return true;
			used[p] = 0; order.pop_back();
		}
		return false;
	}
	bool satisfiable() const { std::vector<int> o; std::vector<char> u(phases, 0); return arrange(o, u, flow(2), green()); }
};

static Shape shape_of(Ctx & c, bool ill) {
	Rng & r = c.rng; Shape s; int P = 1 + (int)r.below(6);
	if (r.chance(25)) P = 2 + (int)r.below(6);
	std::vector<std::vector<int>> groups(P); s.n = 0;
	for (auto & g : groups) for (int k = 1 + (int)r.below(4); k; --k) g.push_back(s.n++);
	// shuffle the names, so that identities say nothing about the order
	std::vector<int> name(s.n); for (int i = 0; i < s.n; ++i) name[i] = i;
	r.shuffle(name.begin(), name.end());
	s.evac.resize(s.n); int evacPct = (int)r.pick({0, 50, 90, 100}); for (auto & e : s.evac) e = r.chance(evacPct);
	std::set<std::pair<int, int>> seen;
	for (auto & g : groups) {
		for (auto & x : g) x = name[x];
		std::vector<int> rank(g.size()); for (size_t i = 0; i < g.size(); ++i) rank[i] = (int)i;
		r.shuffle(rank.begin(), rank.end());
		auto connect = [&](size_t i, size_t j) { // items flow from i to j
			if (!seen.insert({g[i], g[j]}).second) return;
			if (rank[i] < rank[j]) s.edges.push_back({g[i], g[j], PUSH}); else s.edges.push_back({g[j], g[i], PULL});
		};
		for (size_t j = 1; j < g.size(); ++j) { connect(r.below(j), j); while (r.chance(20)) connect(r.below(j), j); }
	}
	int sharePct = (int)r.pick({0, 30, 70, 100});
	for (int k = 1; k < P; ++k) {
		int m = (int)r.below(3) + (r.chance(50) ? 1 : 0);
		for (; m; --m) {
			int q = r.chance(70) ? k - 1 : (int)r.below(k);
			s.edges.push_back({(int)r.pick_from(groups[k]), (int)r.pick_from(groups[q]), r.chance(sharePct) ? SHARE : DEP});
		}
	}
	// sets of nodes that others depend on, as pipes declare them
	if (P > 1) for (int m = r.chance(40) ? 1 + (int)r.below(3) : 0; m; --m) {
		Shape::Set set; int lo = (int)r.below(P - 1); std::set<int> mem, use;
		for (int k = 1 + (int)r.below(3); k; --k) mem.insert(r.pick_from(groups[r.below(lo + 1)]));
		for (int k = 1 + (int)r.below(3); k; --k) use.insert(r.pick_from(groups[lo + 1 + r.below(P - lo - 1)]));
		set.members.assign(mem.begin(), mem.end());
		for (int u : use) { set.users.push_back({u, r.chance(50) ? DEP : BLOCK}); for (int b : mem) s.edges.push_back({u, b, set.users.back().second, (int)s.sets.size()}); }
		s.sets.push_back(set);
	}
	if (ill) for (int k = 1 + (int)r.below(2); k; --k) { // any edge at all
		int a = (int)r.below(s.n), b = (int)r.below(s.n);
		if (r.chance(60)) { auto & g = r.pick_from(groups); a = (int)r.pick_from(g); b = (int)r.pick_from(g); }
		s.edges.push_back({a, b, (Rel)r.below(4)});
	}
	r.shuffle(s.edges.begin(), s.edges.end());
	s.number();
	return s;
}

static void one(Ctx & c, int mode) { // 0 run, 1 perhaps ill-formed, 2 a stage throws, 3 stop at a node and continue
	Rng & r = c.rng; Shape s = shape_of(c, mode == 1);
	static const char * rel[] = {"pushes to", "pulls from", "depends on", "shares memory with", "depends, without forwards, on"};
	for (auto & e : s.edges) c.op("%d %s %d", e.a, rel[e.rel], e.b);
	for (int i = 0; i < s.n; ++i) if (s.evac[i]) c.op("%d can evacuate", i);
	bool okFlow = acyclic(s.n, s.flow(0)), okActor = acyclic(s.n, s.flow(1)), okPhases = acyclic(s.phases, s.flow(2));
	bool ok = okFlow && okActor && okPhases && s.satisfiable();
	bool unowned = mode == 1 && r.chance(10); if (unowned) ok = false;
	auto usedMem = tpie::get_memory_manager().used(); auto usedFiles = tpie::get_file_manager().used(); auto usedTemp = tpie::get_temp_file_usage();
	World w(c); w.from.resize(s.n); w.steps = r.chance(50); w.resources = mode == 2 || r.chance(30);
	// how far each node's forwards reach
	std::vector<char> noThrough(s.n, 0); for (auto & x : noThrough) x = r.chance(8);
	w.dist.assign(s.n, std::vector<int>(s.n, -1));
	for (int i = 0; i < s.n; ++i) {
		std::vector<int> q{i}; w.dist[i][i] = 0;
		for (size_t k = 0; k < q.size(); ++k) {
			int v = q[k]; if (v != i && noThrough[v]) continue;
			for (auto & e : s.edges) { int to = -1; if (e.rel == BLOCK) continue; if (e.rel == PUSH) { if (e.a == v) to = e.b; } else if (e.b == v) to = e.a; if (to >= 0 && w.dist[i][to] < 0) { w.dist[i][to] = w.dist[i][v] + 1; q.push_back(to); } }
		}
	}
	{ std::set<std::pair<int, std::string>> seen;
	for (int k = (int)r.below(5); k; --k) {
		Planned p; p.source = (int)r.below(s.n); p.key = fmt("k%d", (int)r.below(3)); p.k = r.chance(70) ? SIZE_MAX : r.below(4);
		for (auto & o : w.plan) if (o.source == p.source && o.key == p.key) p.k = o.k;
		p.when = (int)r.pick({-1, (int)PREPARE, (int)PREPARE, (int)PROPAGATE, (int)PROPAGATE, (int)END, (int)END, (int)GO});
		w.plan.push_back(p);
	} }
	if (mode == 2) { w.throwKind = (int)r.below(5); w.throwNode = (int)r.below(s.n); }
	std::string what; bool threw = false; int ran = 0; Root root(c); int stopAt = -1; bool big = r.chance(50);
	w.root = &root; w.total.assign(s.phases, 0); w.taken = w.base = w.total;
	{
		std::list<Node> nodes; std::vector<Node *> at(s.n, nullptr); std::vector<pl::node_token> tokens;
		std::vector<std::unique_ptr<pl::node_token>> tok(s.n);
		for (int i = 0; i < s.n; ++i) if (r.chance(15)) tok[i].reset(new pl::node_token);
		std::vector<Edge> later;
		auto relate = [&](const Edge & e) {
			Node * a = at[e.a];
			if (tok[e.b]) { // through the token, which may not have its node yet
				switch (e.rel) { case PUSH: a->add_push_destination(*tok[e.b]); break; case PULL: a->add_pull_source(*tok[e.b]); break; case DEP: a->add_dependency(*tok[e.b]); break; default: a->add_memory_share_dependency(*tok[e.b]); }
			} else {
				Node & b = *at[e.b];
				switch (e.rel) { case PUSH: a->add_push_destination(b); break; case PULL: a->add_pull_source(b); break; case DEP: a->add_dependency(b); break; default: a->add_memory_share_dependency(b); }
			}
		};
		std::vector<int> order(s.n); for (int i = 0; i < s.n; ++i) order[i] = i;
		r.shuffle(order.begin(), order.end());
		std::vector<char> done(s.edges.size(), 0); for (size_t e = 0; e < s.edges.size(); ++e) done[e] = s.edges[e].set >= 0;
		std::vector<pl::node_set> sets; for (size_t k = 0; k < s.sets.size(); ++k) sets.push_back(pl::make_node_set());
		// Nodes are constructed one by one, related to what exists, and moved about on the way.
		for (int i : order) {
			std::list<Node> tmp;
			if (tok[i]) tmp.emplace_back(&w, i, s.evac[i], *tok[i]); else tmp.emplace_back(&w, i, s.evac[i]);
			at[i] = &tmp.front(); tmp.front().phase = s.phase[i]; tmp.front().steps = big ? r.below(3000000) : r.below(20);
			if (!sets.empty()) {
				pl::factory_base f; bool in = false;
				for (size_t k = 0; k < sets.size(); ++k) {
					for (int m : s.sets[k].members) if (m == i) { f.add_to_set(sets[k]); in = true; }
					for (auto & u : s.sets[k].users) if (u.first == i) { if (u.second == BLOCK) f.add_dependencies(sets[k]); else f.add_forwarding_dependencies(sets[k]); in = true; }
				}
				if (in) { f.add_node_set_edges(*at[i]); count("in_node_sets"); }
			}
			for (size_t e = 0; e < s.edges.size(); ++e) {
				auto & x = s.edges[e];
				if (!done[e] && at[x.a] && (at[x.b] || tok[x.b])) { relate(x); done[e] = 1; }
			}
			if (noThrough[i]) at[i]->no_forward_through();
			if (r.chance(50)) { nodes.emplace_back(std::move(tmp.front())); at[i] = &nodes.back(); count("moved_nodes"); }
			else nodes.splice(nodes.end(), tmp);
		}
		for (int i = 1; i < s.n; ++i) // one map for all, by a relation that orders nothing
			{ pl::node_token a(at[0]->get_token(), at[0]); a.map_union(at[i]->get_token()); }
		if (unowned) { pl::node_token t; at[r.below(s.n)]->add_push_destination(t); }
		auto map = at[0]->get_node_map()->find_authority();
		if (!unowned) for (auto & p : w.plan) if (p.when == -1) { at[p.source]->note_forward(p); at[p.source]->forward(p.key, p.value, p.k == SIZE_MAX ? std::numeric_limits<tpie::memory_size_type>::max() : p.k); count("forwards"); }
		// and some nodes move with what they forwarded
		for (int i = 0; i < s.n; ++i) if (r.chance(20)) { nodes.emplace_back(std::move(*at[i])); for (auto it = nodes.begin(); it != nodes.end(); ++it) if (&*it == at[i]) { nodes.erase(it); break; } at[i] = &nodes.back(); }
		if (r.chance(30)) { w.global["k3"] = 77; map->forward("k3", pl::any_noncopyable(77)); }
		if (r.chance(30)) { w.global["k0"] = 99; map->forward("k0", pl::any_noncopyable(99)); }
		try {
			pl::bits::runtime rt(map);
			const char * file = r.chance(50) ? nullptr : "harness"; const char * fn = file ? "case" : nullptr;
			if (mode == 3) {
				stopAt = (int)r.below(s.n);
				auto gc = rt.go_init(s.n, root, 1000, 1 << 20, file, fn);
				rt.go_until(gc.get(), at[stopAt]);
				ran = (int)w.ev.size();
				int begins = 0; for (auto & e : w.ev) { if (e.kind == BEGIN && s.phase[e.node] == s.phase[stopAt]) ++begins; VF_CHECK(c, !(e.kind == GO && s.phase[e.node] == s.phase[stopAt]), "went", "go was called in the phase to stop at"); }
				VF_CHECK(c, begins == (int)s.members[s.phase[stopAt]].size(), "stopped_early", "%d of %zu nodes had begun", begins, s.members[s.phase[stopAt]].size());
				rt.go_until(gc.get(), nullptr);
				if (r.chance(50)) rt.go_until(gc.get(), nullptr);
			} else rt.go(s.n, root, 1000, 1 << 20, file, fn);
		} catch (const Boom & b) { threw = true; what = "boom"; VF_CHECK(c, w.thrown && b.id == w.throwNode, "other_exception", "another exception came out"); }
		catch (const tpie::exception & e) { threw = true; what = e.what(); }
	}
	c.nontrivial = true; count("fetches", w.fetches); count("values_fetched", w.found); count("events", w.ev.size());
	count_max("phases", s.phases); count_max("nodes", s.n);
	for (auto & n : s.green()) { (void)n; count("shares_without_evacuation"); }
	// released, whatever happened
	VF_CHECK(c, tpie::get_memory_manager().used() == usedMem, "memory_leak", "%lld bytes are still accounted", (long long)(tpie::get_memory_manager().used() - usedMem));
	VF_CHECK(c, tpie::get_file_manager().used() == usedFiles, "file_leak", "%lld files are still accounted", (long long)(tpie::get_file_manager().used() - usedFiles));
	VF_CHECK(c, tpie::get_temp_file_usage() == usedTemp, "temp_leak", "temporary space is still accounted");
	for (boost::filesystem::recursive_directory_iterator it(scratch("tmp")), end; it != end; ++it)
		VF_CHECK(c, !boost::filesystem::is_regular_file(it->path()), "temp_left", "a temporary file is left: %s", it->path().c_str());
	if (!ok) {
		count(unowned ? "unowned_tokens" : !okFlow ? "cyclic_item_flow" : !okActor ? "cyclic_actors" : !okPhases ? "cyclic_phases" : "shares_impossible");
		VF_CHECK(c, threw, "accepted", "an arrangement was accepted that %s", unowned ? "has a token without a node" : !okFlow ? "has a cycle of items" : !okActor ? "has a cycle of calls" : !okPhases ? "has a cycle of dependencies" : "cannot share memory as asked");
		for (auto & e : w.ev) VF_CHECK(c, e.kind == PREPARE, "ran_before_rejection", "node %d was told to %s before the arrangement was rejected: %s", e.node, kindName[e.kind], what.c_str());
		return;
	}
	VF_CHECK(c, threw == w.thrown, threw ? "rejected" : "swallowed", threw ? "an arrangement that is well-formed was rejected: %s" : "an exception was lost%s", threw ? what.c_str() : "");
	// once each
	std::vector<std::array<int, 6>> time(s.n); for (auto & t : time) t.fill(-1);
	for (size_t i = 0; i < w.ev.size(); ++i) {
		auto & e = w.ev[i];
		VF_CHECK(c, time[e.node][e.kind] < 0, "twice", "node %d was told to %s twice", e.node, kindName[e.kind]);
		time[e.node][e.kind] = (int)i;
	}
	if (threw) count("exceptions"); 
	std::vector<char> initiator(s.n, 1); for (auto & e : s.edges) if (e.rel <= PULL) initiator[e.b] = 0;
	auto before = [&](int a, int ka, int b, int kb, const char * why) {
		int ta = time[a][ka], tb = time[b][kb];
		if (tb < 0) return;
		VF_CHECK(c, ta >= 0 && ta < tb, "order", "%s of %d came before %s of %d (%s)", kindName[kb], b, kindName[ka], a, why);
		count("orders_checked");
	};
	for (int i = 0; i < s.n; ++i) {
		bool goHere = initiator[i] && !(stopAt >= 0 && s.phase[i] == s.phase[stopAt]);
		if (!threw) for (int k = PREPARE; k <= END; ++k) if (k != GO || goHere) VF_CHECK(c, time[i][k] >= 0, "missing", "node %d was never told to %s", i, kindName[k]);
		VF_CHECK(c, time[i][GO] < 0 || initiator[i], "go", "node %d is no initiator but was told to go", i);
		for (int j = 0; j < s.n; ++j) {
			if (time[j][PROPAGATE] >= 0) before(i, PREPARE, j, PROPAGATE, "all are prepared first");
			if (s.phase[i] == s.phase[j]) {
				before(i, PROPAGATE, j, BEGIN, "one phase"); before(i, BEGIN, j, GO, "one phase"); before(i, BEGIN, j, END, "one phase");
				if (goHere) before(i, GO, j, END, "one phase");
			}
		}
	}
	for (auto & e : s.edges) {
		int from = e.rel == PULL ? e.b : e.a, to = e.rel == PULL ? e.a : e.b;
		if (e.rel <= PULL) {
			before(from, PREPARE, to, PREPARE, "item flow"); before(from, PROPAGATE, to, PROPAGATE, "item flow");
			before(e.b, BEGIN, e.a, BEGIN, "the one that is called begins first"); before(e.a, END, e.b, END, "the caller ends first");
		} else for (int i : s.members[s.phase[e.b]]) for (int j : s.members[s.phase[e.a]]) before(i, END, j, PROPAGATE, "dependency");
	}
	// phases do not interleave
	std::vector<int> order; for (auto & e : w.ev) if (e.kind == PROPAGATE && (order.empty() || order.back() != s.phase[e.node])) order.push_back(s.phase[e.node]);
	{ std::set<int> u(order.begin(), order.end()); VF_CHECK(c, u.size() == order.size(), "interleaved", "phases interleave"); }
	for (size_t i = 1; i < order.size(); ++i) for (int a : s.members[order[i - 1]]) for (int b : s.members[order[i]]) before(a, END, b, PROPAGATE, "one phase at a time");
	// evacuation exactly when the next phase is another one
	std::vector<int> pos(s.phases, 1 << 20); for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = (int)i;
	std::vector<char> must(s.n, 0);
	for (auto & e : s.edges) if (e.rel == SHARE) {
		int a = pos[s.phase[e.b]], b = pos[s.phase[e.a]];
		if (a + 1 != b) must[e.b] = 1;
		if (!threw && !s.evac[e.b]) VF_CHECK(c, a + 1 == b, "not_consecutive", "%d shares memory with %d, which cannot evacuate, but they run as number %d and %d", e.a, e.b, b, a);
	}
	if (!threw) for (int i = 0; i < s.n; ++i) {
		VF_CHECK(c, (time[i][EVACUATE] >= 0) == (must[i] != 0), "evacuation", "node %d was %sevacuated", i, must[i] ? "not " : "");
		if (must[i]) {
			count("evacuations"); VF_CHECK(c, time[i][EVACUATE] > time[i][END], "evacuation_time", "node %d was evacuated before it ended", i);
			int nx = pos[s.phase[i]] + 1; if (nx < (int)order.size()) for (int j : s.members[order[nx]]) before(i, EVACUATE, j, PROPAGATE, "evacuation");
		}
	}
	// progress within a phase is never ahead of the steps its nodes took
	if (w.steps) for (auto & p : w.prog) {
		size_t i = 0; while (i < w.began.size() && w.began[i] != p.phase) ++i;
		if (i == w.began.size() || (threw && i + 1 >= w.began.size())) continue;
		uint64_t c0 = w.base[p.phase], c1 = i + 1 < w.began.size() ? w.base[w.began[i + 1]] : root.get_current(), S = w.total[p.phase];
		VF_CHECK(c, (long double)(p.cur - c0) <= (long double)(c1 - c0) * p.k / S + 2, "progress_ahead", "after %llu of the %llu steps of a phase, %llu of %llu is shown", (unsigned long long)p.k, (unsigned long long)S, (unsigned long long)(p.cur - c0), (unsigned long long)(c1 - c0));
		count("progress_judged"); if (c1 > c0) count("progress_moved");
	}
	if (mode == 3) count("stopped_and_continued");
	if (!threw) count("completed");
}

// Pipelines put together from pieces whose factories are written by hand. A piece that does not tell which
// node follows it leaves the pipeline in two halves, one of which would never run: it must be refused.
struct Chain { Ctx & c; int n = 0, calls = 0; int forget = -1; std::vector<int> begun, ended; std::vector<uint64_t> out; uint64_t items = 0; };
template <typename dest_t> struct Link : pl::node {
	typedef uint64_t item_type; Chain * w; int id; dest_t dest;
	Link(Chain * w, int id, dest_t d) : w(w), id(id), dest(std::move(d)) { if (id != w->forget) add_push_destination(dest); }
	void begin() override { ++w->calls; ++w->begun[id]; }
	void end() override { ++w->ended[id]; }
	void push(const uint64_t & v) { dest.push(v + (uint64_t)id); }
	void go() override { for (uint64_t i = 0; i < w->items; ++i) push(i); }
};
struct Last : pl::node {
	typedef uint64_t item_type; Chain * w; int id;
	Last(Chain * w, int id) : w(w), id(id) {}
	void begin() override { ++w->calls; ++w->begun[id]; }
	void end() override { ++w->ended[id]; }
	void push(const uint64_t & v) { w->out.push_back(v); }
};
struct LinkFactory : pl::factory_base {
	Chain * w; int id; LinkFactory(Chain * w, int id) : w(w), id(id) {}
	template <typename dest_t> using constructed_type = Link<dest_t>;
	template <typename dest_t> Link<dest_t> construct(dest_t d) { Link<dest_t> r(w, id, std::move(d)); init_node(r); return r; }
};
struct LastFactory : pl::factory_base {
	Chain * w; int id; LastFactory(Chain * w, int id) : w(w), id(id) {}
	typedef Last constructed_type; Last construct() { Last r(w, id); init_node(r); return r; }
};
static void built(Ctx & c) {
	Rng & r = c.rng; Chain w{c}; auto B = [&] { w.n++; return pl::pipe_begin<LinkFactory>(&w, 0); };
	auto M = [&](int id) { w.n++; return pl::pipe_middle<LinkFactory>(&w, id); }; auto E = [&](int id) { w.n++; return pl::pipe_end<LastFactory>(&w, id); };
	int shape = (int)r.below(10); static const int len[] = {1, 2, 5, 5, 6, 5, 6, 6, 4, 7}; int last = len[shape];
	w.forget = r.chance(60) ? (int)r.below(last) : -1; w.items = r.below(20); w.begun.assign(last + 1, 0); w.ended.assign(last + 1, 0);
	c.op("a pipeline of shape %d, %d nodes, %llu items, node %d forgets what follows it", shape, last + 1, (unsigned long long)w.items, w.forget);
	bool threw = false; std::string what;
	try {
		pl::pipeline p;
		switch (shape) {
		case 0: p = B() | E(1); break;
		case 1: p = B() | M(1) | E(2); break;
		case 2: p = B() | M(1) | M(2) | M(3) | M(4) | E(5); break;
		case 3: p = B() | (M(1) | (M(2) | (M(3) | (M(4) | E(5))))); break;
		case 4: p = B() | (M(1) | ((M(2) | (M(3) | M(4))) | (M(5) | E(6)))); break;
		case 5: p = (B() | M(1)) | ((M(2) | M(3)) | (M(4) | E(5))); break;
		case 6: p = (B() | ((M(1) | M(2)) | (M(3) | (M(4) | M(5))))) | E(6); break;
		case 7: p = (B() | (M(1) | (M(2) | M(3)))) | (M(4) | (M(5) | E(6))); break;
		case 8: { auto m1 = M(7); m1 = LinkFactory(&w, 1); auto m = M(1) | M(2); m = std::move(m1) | M(2); auto t = M(3) | E(4); t = M(3) | E(4); p = B() | (std::move(m) | std::move(t)); break; } // pieces may be given a new value
		default: p = B() | (M(1) | (((M(2) | M(3)) | (M(4) | M(5))) | (M(6) | E(7)))); break;
		}
		tpie::progress_indicator_null pi; p(w.items, pi, 1 << 20, nullptr, nullptr);
	} catch (const tpie::exception & e) { threw = true; what = e.what(); }
	c.nontrivial = true; count("pipelines_built");
	if (w.forget >= 0) {
		count("pipelines_in_halves");
		VF_CHECK(c, threw, "halves_accepted", "a pipeline in two halves was run: %zu of %llu items came out, the last node began %d times", w.out.size(), (unsigned long long)w.items, w.begun[last]);
		VF_CHECK(c, w.calls == 0, "ran_before_rejection", "nodes began before the pipeline was rejected: %s", what.c_str());
		return;
	}
	VF_CHECK(c, !threw, "rejected", "a well-formed pipeline was rejected: %s", what.c_str());
	for (int i = 0; i <= last; ++i) VF_CHECK(c, w.begun[i] == 1 && w.ended[i] == 1, "once", "node %d began %d times and ended %d times", i, w.begun[i], w.ended[i]);
	VF_CHECK(c, w.out.size() == w.items, "items", "%zu of %llu items came out", w.out.size(), (unsigned long long)w.items);
	uint64_t add = (uint64_t)last * (last - 1) / 2;
	for (uint64_t i = 0; i < w.items; ++i) VF_CHECK(c, w.out[i] == i + add, "item", "item %llu is %llu", (unsigned long long)i, (unsigned long long)w.out[i]);
}

void vf_case(Ctx & c) {
	boost::filesystem::create_directories(scratch("tmp")); tpie::tempname::set_default_path(scratch("tmp"), "");
	Rng & r = c.rng; int m = (int)r.below(11);
	if (m == 10) return built(c);
	one(c, m < 4 ? 0 : m < 6 ? 1 : m < 9 ? 2 : 3);
}
