// C27: progress is monotone, bounded and complete, for trees of sub-indicators.
#include "common.h"
#include <tpie/progress_indicator_base.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/progress_indicator_arrow.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/fractional_progress.h>
#include <sstream>
using namespace vf;
namespace tpie { TPIE_EXPORT void update_fractions(const char * name, float frac, stream_size_type n); }
typedef tpie::progress_indicator_base Base;
typedef tpie::progress_indicator_subindicator Sub;

// The root of every tree: watches each value it is told.
struct Root : Base {
	Ctx & c; uint64_t last = 0, refreshes = 0; bool sawDecrease = false; long crumbs = 0; int dones = 0;
	Root(Ctx & c, uint64_t range) : Base(range), c(c) {}
	void refresh() override { look("refresh"); ++refreshes; }
	void done() override { ++dones; m_current = m_range; refresh(); }
	void push_breadcrumb(const char *, tpie::description_importance) override { ++crumbs; }
	void pop_breadcrumb() override { --crumbs; VF_CHECK(c, crumbs >= 0, "breadcrumbs", "a breadcrumb was popped that was never pushed"); }
	void restart() { last = 0; }
	void look(const char * when) {
		uint64_t v = get_current();
		VF_CHECK(c, v >= last, "decrease", "the root's progress went from %llu to %llu of %llu (%s)", (unsigned long long)last, (unsigned long long)v, (unsigned long long)get_range(), when);
		VF_CHECK(c, v <= get_range(), "beyond_range", "the root's progress is %llu of %llu (%s)", (unsigned long long)v, (unsigned long long)get_range(), when);
		last = v; count("values_seen");
	}
};
// Also watches what an inner node is told.
struct Watch {
	uint64_t last = 0;
	void look(Ctx & c, Base & b, uint64_t sum) {
		uint64_t v = b.get_current();
		VF_CHECK(c, v >= last, "decrease", "an inner indicator went from %llu to %llu", (unsigned long long)last, (unsigned long long)v);
		VF_CHECK(c, v <= sum, "beyond_range", "an inner indicator is at %llu, its parts amount to %llu", (unsigned long long)v, (unsigned long long)sum);
		last = v;
	}
};
static uint64_t range_of(Rng & r) {
	switch (r.below(8)) {
	case 0: return r.below(4);
	case 1: return r.range(1, 100);
	case 2: return 23000;
	case 3: return r.range(1, 1000000);
	case 4: return (1ull << r.range(30, 62)) + r.below(5);
	case 5: return (uint64_t)-1 >> r.range(0, 3);
	default: return r.range(1, 5000);
	}
}
static uint64_t step_of(Rng & r, uint64_t range) {
	switch (r.below(7)) {
	case 0: return 0;
	case 1: case 2: return 1;
	case 3: return r.below(range / 4 + 2);
	case 4: return r.below(20);
	case 5: return range / (1 + r.below(9));
	default: return r.below(std::min<uint64_t>(range, 1ull << 40) + 1);
	}
}
static std::vector<uint64_t> split(Rng & r, uint64_t total, size_t n) { // non-negative parts with this sum
	std::vector<uint64_t> cut{0, total}, out;
	for (size_t i = 1; i < n; ++i) cut.push_back(total == (uint64_t)-1 ? r.next() : r.chance(15) ? total : r.below(total + 1));
	std::sort(cut.begin(), cut.end());
	for (size_t i = 1; i < cut.size(); ++i) out.push_back(cut[i] - cut[i - 1]);
	r.shuffle(out.begin(), out.end());
	return out;
}
static const char * crumb_of(Rng & r) { return r.pick({(const char *)0, "a", "part", ""}); }

// Drives one indicator (whose parent gives it a share) to completion, a bit at a time:
// every call of next() does one action, and returns false when the indicator is done.
struct Driver {
	virtual ~Driver() {}
	virtual bool next() = 0;
};
static std::unique_ptr<Driver> drive(Ctx & c, Root & root, std::unique_ptr<Sub> s, int depth, Base * parent, uint64_t share);

struct Leaf : Driver {
	Ctx & c; Root & root; std::unique_ptr<Sub> s; uint64_t range, given = 0; int budget; int state = 0; bool over;
	Base * parent; uint64_t share, told = 0; // the indicator it reports to, its share there, and how much of it was reported
	Leaf(Ctx & c, Root & root, std::unique_ptr<Sub> s, Base * parent, uint64_t share) : c(c), root(root), s(std::move(s)), range(range_of(c.rng)), budget(c.rng.pick({0, 1, 5, 40, 200})), over(c.rng.chance(25)), parent(parent), share(share) {}

	void maybe_move() {
		Rng & r = c.rng;
		if (!r.chance(2)) return;
		count("moved");
		c.op("move at %llu", (unsigned long long)given);
		if (r.chance(50)) { std::unique_ptr<Sub> t(new Sub(std::move(*s))); s = std::move(t); }
		else { std::unique_ptr<Sub> t(new Sub()); *t = std::move(*s); s = std::move(t); }
	}
	// What was reported is in proportion to the steps taken.
	void proportion(bool exact) {
		if (!parent) return;
		VF_CHECK(c, told <= share, "beyond_range", "a part told its parent %llu of its share of %llu", (unsigned long long)told, (unsigned long long)share);
		if (!exact || range == 0) return;
		long double want = (long double)std::min(given, range) / (long double)range * (long double)share, off = want > (long double)told ? want - (long double)told : (long double)told - want;
		VF_CHECK(c, off <= 1.0L + want * 1e-6L, "proportion", "after %llu of %llu steps, %llu of a share of %llu is reported", (unsigned long long)given, (unsigned long long)range, (unsigned long long)told, (unsigned long long)share);
		count("proportions");
	}
	bool next() override {
		uint64_t before = parent ? parent->get_current() : 0; exact = false; bool more = act();
		if (parent) { uint64_t now = parent->get_current(); VF_CHECK(c, now >= before, "decrease", "a part took its parent from %llu to %llu", (unsigned long long)before, (unsigned long long)now); told += now - before; }
		proportion(exact);
		if (!more && parent) VF_CHECK(c, told == share, "incomplete", "a part that is done told its parent %llu of its share of %llu", (unsigned long long)told, (unsigned long long)share);
		return more;
	}
	bool exact = false; // the last action made it report
	bool act() {
		Rng & r = c.rng;
		if (state == 0) {
			if (r.chance(15)) { s->set_range(range); c.op("init() range %llu", (unsigned long long)range); ((Base &)*s).init(); }
			else { c.op("init %llu", (unsigned long long)range); s->init(range); }
			state = 1; count("leaves"); if (range == 0) count("leaves_of_no_steps");
			return true;
		}
		maybe_move();
		if (budget-- > 0) {
			uint64_t k = step_of(r, range);
			if (!over && k > range - given) k = range - given;
			if (k > (1ull << 62)) k = 1ull << 62;
			if (given > (1ull << 62)) k = 0; // the counter itself is not to wrap around
			given += k;
			if (given > range) count("over_stepped");
			c.op("step %llu", (unsigned long long)k);
			if (k == 1 && r.chance(50)) s->step(); else s->step(k);
			if (r.chance(20)) { s->refresh(); exact = true; }
			if (r.chance(3)) s->estimated_remaining_time();
			count("steps");
			return true;
		}
		c.op("done at %llu of %llu", (unsigned long long)given, (unsigned long long)range);
		s->done();
		if (given < range) count("under_stepped");
		return false;
	}
};
struct Group : Driver { // parts with shares that add up to the whole
	Ctx & c; Root & root; std::unique_ptr<Sub> s; std::vector<std::unique_ptr<Driver>> kids; int depth; uint64_t range; int state = 0; Watch w; bool parallel;
	Group(Ctx & c, Root & root, std::unique_ptr<Sub> s, int depth) : c(c), root(root), s(std::move(s)), depth(depth), range(range_of(c.rng)), parallel(c.rng.chance(50)) {}
	bool next() override {
		Rng & r = c.rng;
		if (state == 0) {
			c.op("group init %llu", (unsigned long long)range); s->init(range); state = 1; count("groups");
			for (uint64_t share : split(r, range, r.range(1, 5))) {
				std::unique_ptr<Sub> k(r.chance(60) ? new Sub(s.get(), share, crumb_of(r), tpie::IMPORTANCE_MAJOR, r.chance(50) ? tpie::log_group_mode::enabled : tpie::log_group_mode::disabled) : new Sub());
				if (k->get_range() == 0) k->setup(s.get(), share, crumb_of(r), tpie::IMPORTANCE_MINOR, tpie::log_group_mode::disabled);
				kids.push_back(drive(c, root, std::move(k), depth - 1, s.get(), share));
			}
			return true;
		}
		if (!kids.empty()) {
			size_t i = parallel ? r.below(kids.size()) : 0;
			if (!kids[i]->next()) kids.erase(kids.begin() + i);
			w.look(c, *s, range);
			if (kids.empty()) VF_CHECK(c, s->get_current() == range, "incomplete", "all parts are done but the whole is at %llu of %llu", (unsigned long long)s->get_current(), (unsigned long long)range);
			return true;
		}
		s->done();
		return false;
	}
};
// What __FUNCTION__ can be, for one compiler or another.
static std::string function_name(Rng & r) {
	switch (r.below(9)) {
	case 0: return r.pick({"operator>", "operator>>", "operator->", "operator<=>", "operator ()", "operator<", "operator<<"});
	case 1: return "ns::f<std::vector<int, a<b> > >";
	case 2: return std::string((size_t)r.range(250, 700), 'f');
	case 3: return r.pick({"", ":", ">", "<>", "a::", "<lambda>"});
	case 4: return "ns::fun";
	default: return "fun";
	}
}
struct Fractions : Driver { // shares decided by the fraction database
	Ctx & c; Root & root; std::unique_ptr<Sub> s; std::unique_ptr<tpie::fractional_progress> fp; int state = 0; Watch w; uint64_t range = 0;
	std::vector<std::unique_ptr<tpie::fractional_subindicator>> fs; std::vector<uint64_t> left; std::vector<int> st;
	Fractions(Ctx & c, Root & root, std::unique_ptr<Sub> s) : c(c), root(root), s(std::move(s)) {}
	bool next() override {
		Rng & r = c.rng;
		if (state == 0) {
			fp.reset(new tpie::fractional_progress(s.get()));
			size_t n = r.range(1, 6);
			for (size_t i = 0; i < n; ++i) {
				std::string id = fmt("p%d", (int)r.below(6));
				if (r.chance(50)) tpie::update_fractions(fmt("file.h:fun:%s", id.c_str()).c_str(), r.chance(20) ? 0.0f : (float)r.below(1000) / 1000.f, 1000000 + r.below(1000));
				bool enabled = r.chance(80);
				if (r.chance(50)) fs.emplace_back(new tpie::fractional_subindicator(*fp, id.c_str(), "some/dir/file.h", function_name(r).c_str(), r.below(100000), crumb_of(r), tpie::IMPORTANCE_MAJOR, enabled));
				else { fs.emplace_back(new tpie::fractional_subindicator(*fp)); fs.back()->setup(id.c_str(), "some\\file.h", function_name(r).c_str(), r.below(100000), crumb_of(r), tpie::IMPORTANCE_LOG, enabled); }
				left.push_back(range_of(r)); st.push_back(0);
			}
			c.op("fractions over %zu", n);
			fp->init(); range = s->get_range(); state = 1; count("fraction_groups");
			return true;
		}
		if (!fs.empty()) {
			size_t i = r.below(fs.size());
			if (st[i] == 0) { fs[i]->init(left[i]); st[i] = 1; }
			else if (r.chance(10)) { fs[i]->done(); fs.erase(fs.begin() + i); st.erase(st.begin() + i); left.erase(left.begin() + i); }
			else { uint64_t k = std::min(left[i], step_of(r, left[i])); left[i] -= k; fs[i]->step(k); if (r.chance(20)) fs[i]->refresh(); count("steps"); }
			w.look(c, *s, range);
			return true;
		}
		fp->done(); fp.reset();
		VF_CHECK(c, s->get_current() == s->get_range(), "incomplete", "all fractions are done but the whole is at %llu of %llu", (unsigned long long)s->get_current(), (unsigned long long)s->get_range());
		return false;
	}
};
static std::unique_ptr<Driver> drive(Ctx & c, Root & root, std::unique_ptr<Sub> s, int depth, Base * parent, uint64_t share) {
	int k = depth <= 0 ? 0 : c.rng.below(3);
	if (k == 0) return std::unique_ptr<Driver>(new Leaf(c, root, std::move(s), parent, share));
	if (k == 1) return std::unique_ptr<Driver>(new Group(c, root, std::move(s), depth));
	return std::unique_ptr<Driver>(new Fractions(c, root, std::move(s)));
}
static void tree(Ctx & c) {
	Rng & r = c.rng;
	uint64_t range = range_of(r);
	size_t parts = r.range(1, 5); int depth = r.range(0, 3);
	bool parallel = r.chance(50);
	c.describe("tree range=%llu parts=%zu depth=%d%s", (unsigned long long)range, parts, depth, parallel ? " interleaved" : "");
	Root root(c, range);
	root.init(r.chance(50) ? range : 0);
	std::vector<std::unique_ptr<Driver>> kids;
	auto shares = split(r, range, parts);
	bool complete = true;
	for (uint64_t share : shares) {
		Base * parent = r.chance(97) ? &root : nullptr;
		std::unique_ptr<Sub> s(new Sub(parent, share, crumb_of(r)));
		kids.push_back(drive(c, root, std::move(s), depth, parent, share));
	}
	// an indicator without a parent reports nothing
	if (r.chance(10)) { Sub lone(0, 100, "lone"); lone.init(10); lone.step(20); lone.done(); }
	uint64_t n = 0;
	complete = true;
	while (!kids.empty()) {
		size_t i = parallel ? r.below(kids.size()) : 0;
		bool more = kids[i]->next(); ++n;
		root.look("after an action");
		if (!more) kids.erase(kids.begin() + i);
	}
	(void)complete;
	count_max("actions", n);
	c.nontrivial = n > 3;
	VF_CHECK(c, root.crumbs == 0, "breadcrumbs", "%ld breadcrumbs are left", root.crumbs);
	root.done();
	root.look("at the end");
	VF_CHECK(c, root.get_current() == root.get_range(), "incomplete", "the root is at %llu of %llu", (unsigned long long)root.get_current(), (unsigned long long)root.get_range());
}
// as tree(), but with every part attached to the root, which must then be at exactly the end
static void complete(Ctx & c) {
	Rng & r = c.rng;
	uint64_t range = range_of(r); int depth = r.range(0, 3);
	bool parallel = r.chance(50);
	Root root(c, range);
	root.init(range);
	std::vector<std::unique_ptr<Driver>> kids;
	for (uint64_t share : split(r, range, r.range(1, 6)))
		kids.push_back(drive(c, root, std::unique_ptr<Sub>(new Sub(&root, share, crumb_of(r))), depth, &root, share));
	c.describe("complete range=%llu parts=%zu depth=%d", (unsigned long long)range, kids.size(), depth);
	while (!kids.empty()) {
		size_t i = parallel ? r.below(kids.size()) : 0;
		if (!kids[i]->next()) kids.erase(kids.begin() + i);
		root.look("after an action");
	}
	c.nontrivial = true;
	VF_CHECK(c, root.get_current() == range, "incomplete", "all parts are done but the root is at %llu of %llu", (unsigned long long)root.get_current(), (unsigned long long)range);
	VF_CHECK(c, root.crumbs == 0, "breadcrumbs", "%ld breadcrumbs are left", root.crumbs);
	count("trees_completed");
}
// the two indicators that draw: what they print is bounded and ends at 100 %
static void terminal(Ctx & c) {
	Rng & r = c.rng;
	std::ostringstream os; std::string title(r.pick({0, 3, 20, 97, 98, 99, 150}), 't');
	uint64_t range = range_of(r);
	bool arrow = r.chance(60);
	std::unique_ptr<tpie::progress_indicator_terminal> p;
	c.describe("%s range=%llu title=%zu", arrow ? "arrow" : "terminal", (unsigned long long)range, title.size());
	if (arrow) {
		auto * a = new tpie::progress_indicator_arrow(title.c_str(), range, os); p.reset(a);
		if (r.chance(50)) a->set_indicator_length((int)r.below(80));
	} else p.reset(new tpie::progress_indicator_terminal(title.c_str(), range, os));
	c.op("init");
	p->init(r.chance(50) ? range : 0);
	uint64_t given = 0, last = 0;
	auto percent = [&] { // of the status line printed last
		std::string s = os.str(); size_t e = s.rfind('%'); if (e == std::string::npos) return (uint64_t)0;
		size_t b = e; while (b > 0 && (isdigit((unsigned char)s[b - 1]) || s[b - 1] == '.')) --b;
		return (uint64_t)strtoull(s.substr(b, e - b).c_str(), 0, 10);
	};
	int n = r.pick({0, 3, 30});
	if (arrow && r.chance(50)) { p->push_breadcrumb("x", tpie::IMPORTANCE_MAJOR); }
	for (int i = 0; i < n; ++i) {
		uint64_t k = std::min(step_of(r, range), range - given); given += k;
		c.op("step %llu", (unsigned long long)k);
		p->step(k); p->refresh();
		uint64_t now = percent();
		VF_CHECK(c, now >= last && now <= 100, "percentage", "the percentage shown went from %llu to %llu", (unsigned long long)last, (unsigned long long)now);
		last = now; count("drawn");
	}
	p->done();
	if (range > 0) VF_CHECK(c, percent() == 100, "percentage", "%llu %% are shown when done", (unsigned long long)percent());
	VF_CHECK(c, os.str().size() < 400u * (2 * n + 6), "status_length", "%zu bytes of status were printed", os.str().size());
	c.nontrivial = n > 0; count("terminals");
}
void vf_case(Ctx & c) {
	switch (c.rng.below(8)) { case 0: terminal(c); break; case 1: case 2: tree(c); break; default: complete(c); }
}
