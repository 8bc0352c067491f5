// C33: predictions of execution times follow what was recorded, survive restarts, and no damage to
// their file reaches further than the predictions.
// The predictor is an option that is off by default: it is compiled here, with the option on.
#define VF_IO_SHIM_IMPL
#define VF_CUSTOM_SETUP
#define TPIE_EXECUTION_TIME_PREDICTOR
#include "stream_model.h"
#include <chrono>
#include <csignal>
#include <sys/resource.h>
#include <tpie/execution_time_predictor.cpp>
#include <tpie/fractional_progress.h>
#include <tpie/progress_indicator_null.h>
using namespace vf;

// The clock stands still but for what the test lets pass.
static std::chrono::nanoseconds virtualNow(1000000000000ll);
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return std::chrono::steady_clock::time_point(virtualNow); }
static void pass(uint64_t ms) { virtualNow += std::chrono::milliseconds(ms); }

typedef tpie::execution_time_predictor Pred;
typedef uint64_t T;
static const T NONE = (T)-1;

struct Model {
	std::map<uint64_t, T> pts; // exact while few; afterwards only the extremes are certain
	std::set<uint64_t> sizes;
	T lo = NONE, hi = 0;
	bool exact() const { return sizes.size() <= 10; }
};
struct World {
	Ctx & c; Rng & r;
	std::string home, file;
	std::vector<std::string> ids;
	std::vector<Model> m;
	World(Ctx & c) : c(c), r(c.rng) {}

	T ask(const std::string & id, uint64_t n, double & conf) { Pred p(id); conf = -7; return p.estimate_execution_time(n, conf); }
	void record(size_t i, uint64_t n, uint64_t ms) {
		c.op("record %zu: %llu items in %llu ms", i, (unsigned long long)n, (unsigned long long)ms);
		Pred p(ids[i]);
		p.start_execution(n);
		uint64_t paused = r.chance(30) ? r.below(5000) : 0;
		if (paused) { pass(ms / 2); Pred::start_pause(); pass(paused); Pred::end_pause(); pass(ms - ms / 2); count("pauses"); }
		else pass(ms);
		if (r.chance(30)) for (int k = 0; k < 3; ++k) { double f = r.below(1001) / 1000.0; std::string s = p.estimate_remaining_time(f); VF_CHECK(c, !s.empty(), "remaining", "no remaining time"); }
		T got = p.end_execution();
		if (ids[i].empty()) { VF_CHECK(c, got == 0, "nameless", "%llu ms measured for no task", (unsigned long long)got); return; }
		Model & x = m[i];
		VF_CHECK(c, got == ms, "measured", "%llu ms measured, %llu passed (%llu paused)", (unsigned long long)got, (unsigned long long)ms, (unsigned long long)paused);
		auto it = x.pts.find(n);
		T was = 0; bool known = it != x.pts.end();
		if (known) was = it->second;
		x.sizes.insert(n);
		double conf; T e = ask(ids[i], n, conf);
		T avg = (was + ms) / 2;
		if (x.exact() || (known && (n == *x.sizes.begin() || n == *x.sizes.rbegin()))) {
			T want = known ? avg : ms;
			VF_CHECK(c, conf == 1.0 && e == want, "recorded", "the time for %llu items is predicted as %llu (confidence %g), %llu recorded", (unsigned long long)n, (unsigned long long)e, conf, (unsigned long long)want);
		} else VF_CHECK(c, conf == 1.0 && (e == ms || (known && e == avg) || known), "recorded", "the time for %llu items is predicted as %llu (confidence %g), %llu recorded", (unsigned long long)n, (unsigned long long)e, conf, (unsigned long long)ms);
		x.pts[n] = e;
		x.lo = std::min(x.lo, std::min(ms, e)); x.hi = std::max(x.hi, std::max(ms, e));
		count("recorded");
	}
	void probe(size_t i, uint64_t n) {
		Model & x = m[i];
		double conf; T e = ask(ids[i], n, conf);
		auto bad = [&](const char * what, double want) { c.fail("prediction", "%s: %llu items predicted to take %llu ms (confidence %g), expected about %g, of %zu sizes", what, (unsigned long long)n, (unsigned long long)e, conf, want, x.sizes.size()); };
		count("predictions");
		if (x.pts.empty() || ids[i].empty()) { if (e != NONE || conf != 0.0) bad("nothing is known", -1); return; }
		uint64_t first = *x.sizes.begin(), last = *x.sizes.rbegin();
		auto close = [&](double want) { return std::abs((double)e - want) <= 2 + want * 1e-9; };
		if (n > last) {
			if (last == 0) { if (e != NONE || conf != 0.0) bad("only size zero is known", -1); return; }
			double want = std::min((double)x.pts[last] * n / last, 4e18);
			if (!close(want) || !(conf > 0 && conf <= 1)) bad("beyond the largest", want);
			count("extrapolated"); return;
		}
		if (n < first) {
			double want = (double)x.pts[first] * n / first;
			if (!close(want) || conf != 1.0) bad("below the smallest", want);
			return;
		}
		if (x.exact()) {
			auto b = x.pts.lower_bound(n);
			if (b->first == n) { if (e != b->second || conf != 1.0) bad("a known size", (double)b->second); return; }
			auto a = std::prev(b);
			double t = (double)(n - a->first) / (b->first - a->first), want = a->second * (1 - t) + b->second * t;
			if (!close(want) || conf != 1.0) bad("between two sizes", want);
			count("interpolated"); return;
		}
		if (e > x.hi || e + 2 < x.lo || conf != 1.0) bad("among many sizes", (double)x.hi);
		if ((n == first || n == last) && e != x.pts[n]) bad("the first or last size", (double)x.pts[n]);
	}
	uint64_t size() { return r.pick({(uint64_t)r.below(4), (uint64_t)r.below(50), (uint64_t)r.below(1000), (uint64_t)r.below(100000), (uint64_t)r.next() >> 30, (uint64_t)r.next() >> 16}); }
	std::vector<std::pair<T, double>> all(const std::vector<uint64_t> & at) {
		std::vector<std::pair<T, double>> v;
		for (auto & id : ids) for (auto n : at) { double conf; T e = ask(id, n, conf); v.push_back({e, conf}); }
		return v;
	}
	std::vector<std::string> left() { std::vector<std::string> v; for (auto & n : list_dir(home)) if (n != ".tpie_time_estimation_db" && n != ".tpie_time_estimation_db_debug") v.push_back(n); return v; }
	void stop() { tpie::finish_execution_time_db(); }
	void start() { tpie::init_execution_time_db(); }
	void restart() {
		std::vector<uint64_t> at; for (int i = 0; i < 30; ++i) at.push_back(size());
		for (auto & x : m) for (auto & p : x.pts) at.push_back(p.first);
		c.op("restart");
		auto before = all(at);
		stop(); start();
		VF_CHECK(c, all(at) == before, "restart", "predictions differ after a restart");
		VF_CHECK(c, left().empty(), "left", "%s is left beside the database", left().front().c_str());
		count("restarts");
	}
	std::string path() { std::string p = home + "/.tpie_time_estimation_db"; return access(p.c_str(), F_OK) == 0 ? p : p + "_debug"; }
	// The database cannot be written: what was stored before remains.
	void failing() {
		std::vector<uint64_t> at; for (int i = 0; i < 30; ++i) at.push_back(size());
		stop(); start();
		auto before = all(at);
		auto models = m;
		for (int i = r.below(20); i >= 0; --i) record(r.below(ids.size()), size(), r.below(100000));
		std::string old = slurp(path());
		struct rlimit rl, small; getrlimit(RLIMIT_FSIZE, &rl); small = rl; small.rlim_cur = r.below(std::max<size_t>(old.size(), 2));
		c.op("stop with files limited to %zu bytes", (size_t)small.rlim_cur);
		setrlimit(RLIMIT_FSIZE, &small); stop(); setrlimit(RLIMIT_FSIZE, &rl);
		VF_CHECK(c, slurp(path()) == old, "lost", "a database that could not be written replaced the one before (%zu of %zu bytes)", slurp(path()).size(), old.size());
		VF_CHECK(c, left().empty(), "left", "%s is left of a database that could not be written", left().front().c_str());
		start();
		VF_CHECK(c, all(at) == before, "lost", "predictions are lost when the database cannot be written");
		m = models;
		count("failed_saves");
	}
	void damage() {
		stop();
		std::string p = path(), old = slurp(p), s = old;
		int how = r.below(6);
		switch (how) {
		case 0: s.resize(r.below(s.size())); break; // cut short
		case 1: for (int i = 1 + r.below(8); i > 0 && !s.empty(); --i) s[r.below(s.size())] = (char)r.next(); break;
		case 2: { s.clear(); for (int i = r.below(200); i > 0; --i) s += (char)r.next(); break; }
		case 3: if (s.size() >= 16) { uint64_t v = r.pick({(uint64_t)0, (uint64_t)1, (uint64_t)-1, (uint64_t)r.next()}); size_t at = r.below(s.size() / 8) * 8; if (at >= 8) memcpy(&s[at], &v, 8); } break;
		case 4: s += std::string(r.below(100), 'x'); break;
		default: s.clear();
		}
		c.op("damage %d: %zu bytes of %zu", how, s.size(), old.size());
		spit(p, s);
		start();
		std::vector<uint64_t> at; for (int i = 0; i < 30; ++i) at.push_back(size());
		auto v = all(at);
		for (auto & x : v) VF_CHECK(c, x.second >= 0 && x.second <= 1, "confidence", "a confidence of %g from a damaged database", x.second);
		if (how == 0 || how == 2 || how == 5) for (auto & x : v) VF_CHECK(c, x.first == NONE && x.second == 0.0, "damaged_used", "a prediction of %llu from a database cut to %zu of %zu bytes", (unsigned long long)x.first, s.size(), old.size());
		// it is replaced by a good one
		stop(); start();
		stop(); spit(p, old); start();
		count("damaged");
	}
	void run() {
		stop();
		home = scratch("home"); wipe(home); mkdir(home.c_str(), 0700);
		setenv("HOME", home.c_str(), 1);
		start();
		for (int i = 1 + r.below(4); i > 0; --i) ids.push_back(r.chance(5) ? "" : fmt("task%d", i));
		m.resize(ids.size());
		c.describe("%zu tasks", ids.size());
		for (int i = r.pick({5, 20, 60}); i > 0; --i) {
			switch (r.below(9)) {
			case 0: case 1: case 2: case 3: { size_t k = r.below(ids.size()); if (ids[k].empty()) break; uint64_t n = size(); if (!m[k].pts.empty() && r.chance(20)) { auto it = m[k].pts.begin(); std::advance(it, r.below(m[k].pts.size())); n = it->first; } record(k, n, r.pick({(uint64_t)0, (uint64_t)r.below(1000), (uint64_t)r.below(100000000)})); break; }
			case 4: case 5: case 6: for (int q = 0; q < 10; ++q) probe(r.below(ids.size()), size()); break;
			case 7: restart(); break;
			default: if (r.chance(50)) failing(); else { restart(); damage(); }
			}
		}
		for (size_t k = 0; k < ids.size(); ++k) { for (auto & p : m[k].sizes) probe(k, p); for (int q = 0; q < 20; ++q) probe(k, size()); }
		if (r.chance(20)) { // no directory to write to
			stop(); setenv("HOME", (home + "/none").c_str(), 1); start(); stop(); start(); count("no_home");
		}
		c.nontrivial = true;
	}
};

void vf_case(Ctx & c) { World w(c); w.run(); }

void vf_setup() {
	signal(SIGXFSZ, SIG_IGN);
	setenv("HOME", G().scratch.c_str(), 1);
	tpie::tpie_init();
}
void vf_teardown() { tpie::tpie_finish(); }
