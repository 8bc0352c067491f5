// C32: log messages arrive at every target, whole, once and in order, from any number of threads.
#define VF_CUSTOM_SETUP
#include "common.h"
#include <tpie/tpie_log.h>
#include <tpie/resource_manager.h>
#include <tpie/tempname.h>
using namespace vf;
static const tpie::log_level levels[] = {tpie::LOG_FATAL, tpie::LOG_ERROR, tpie::LOG_WARNING, tpie::LOG_INFORMATIONAL, tpie::LOG_APP_DEBUG, tpie::LOG_DEBUG, tpie::LOG_MEM_DEBUG, tpie::LOG_PIPE_DEBUG, tpie::LOG_USER1, tpie::LOG_USER2, tpie::LOG_USER3};
static const int NL = 11;
static const size_t whole = 2046; // messages of at most this length come in one piece

// Written to by whichever thread logs, and not synchronised itself: the
// library calls a target from one thread at a time.
struct Recorder : tpie::log_target {
	struct Event { int kind; int level; std::string text; }; // 0 text, 1 group begins, 2 group ends
	std::vector<Event> events; size_t unterminated = 0;
	void log(tpie::log_level l, const char * m, size_t n) override { if (m[n] != 0) ++unterminated; events.push_back(Event{0, (int)l, std::string(m, n)}); }
	void begin_group(const std::string & s) override { events.push_back(Event{1, 0, s}); }
	void end_group() override { events.push_back(Event{2, 0, ""}); }
};
static Recorder * always; // so that there always is a target; without any, messages go to stderr

void vf_setup() { tpie::tpie_init(tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE | tpie::JOB_MANAGER); always = new Recorder; tpie::add_log_target(always); }
void vf_teardown() { tpie::remove_log_target(always); delete always; tpie::tpie_finish(tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE | tpie::JOB_MANAGER); }

static std::string text(Rng & r, size_t n) { std::string s; while (s.size() < n) s += (char)("abcdefghijklmnopqrstuvwxyz 0123456789\n"[r.below(38)]); return s; }
static void put(Rng & r, tpie::logstream & o, const std::string & s) { // in pieces
	size_t i = 0;
	while (i < s.size()) { size_t n = r.chance(30) ? 1 + r.below(s.size() - i) : s.size() - i; if (n == 1) o << s[i]; else if (r.chance(50)) o << s.substr(i, n); else o.write(s.data() + i, n); i += n; }
}
typedef std::vector<Recorder::Event> Events;
static Events merged(const Events & e) { Events m; for (auto & x : e) if (x.kind == 0 && !m.empty() && m.back().kind == 0 && m.back().level == x.level) m.back().text += x.text; else m.push_back(x); return m; }
static void compare(Ctx & c, const char * who, const Recorder & t, const Events & want) {
	Events a = merged(t.events), b = merged(want);
	for (size_t i = 0; i < std::max(a.size(), b.size()); ++i) {
		VF_CHECK(c, i < a.size(), "lost", "%s: %zu events arrived, %zu were expected; the next is kind %d '%s'", who, a.size(), b.size(), b[i].kind, b[i].text.substr(0, 60).c_str());
		VF_CHECK(c, i < b.size(), "extra", "%s: an event of kind %d '%s' that was not logged", who, a[i].kind, a[i].text.substr(0, 60).c_str());
		VF_CHECK(c, a[i].kind == b[i].kind && a[i].level == b[i].level && a[i].text == b[i].text, "differs", "%s: event %zu is kind %d level %d '%s' (%zu), expected kind %d level %d '%s' (%zu)", who, i, a[i].kind, a[i].level, a[i].text.substr(0, 60).c_str(), a[i].text.size(), b[i].kind, b[i].level, b[i].text.substr(0, 60).c_str(), b[i].text.size());
	}
	VF_CHECK(c, t.unterminated == 0, "unterminated", "%s: %zu messages do not end in a zero", who, t.unterminated);
}

static void history(Ctx & c) {
	Rng & r = c.rng; c.describe("one thread");
	struct Target { std::unique_ptr<Recorder> t; Events want; };
	std::vector<Target> ts; Events total; always->events.clear(); always->unterminated = 0;
	struct Cleanup { std::vector<Target> & ts; ~Cleanup() { tpie::log_bits::flush_logs(); for (auto & t : ts) tpie::remove_log_target(t.t.get()); } } cleanup{ts};
	std::string pending[NL]; std::vector<std::unique_ptr<tpie::log_group>> groups; std::vector<std::string> names;
	auto event = [&](const Recorder::Event & e) { total.push_back(e); for (auto & t : ts) t.want.push_back(e); };
	auto flushed = [&](int l) { if (!pending[l].empty()) { event({0, l, pending[l]}); pending[l].clear(); } };
	auto flushAll = [&] { for (int l = 0; l < NL; ++l) flushed(l); };
	for (int ops = r.pick({5, 30, 100}); ops > 0; --ops) {
		switch (r.below(10)) {
		default: {
			int l = (int)r.below(NL); size_t n = r.pick({(size_t)0, (size_t)5, (size_t)40, (size_t)r.below(300), (size_t)r.range(2000, 2100), (size_t)r.below(7000)});
			std::string s = text(r, n); c.op("level %d, %zu bytes", l, n); size_t before = always->events.size(); bool fresh = pending[l].empty(); bool flush = r.chance(80);
			auto & o = tpie::get_log_by_level(levels[l]);
			put(r, o, s); count("messages"); if (n > whole) count("long_messages");
			// what does not fit in the buffer goes out early
			if (!flush && pending[l].size() + n > whole / 2) flush = true;
			pending[l] += s;
			if (flush) { if (r.chance(70)) { o << std::endl; pending[l] += '\n'; } else o << std::flush; flushed(l); }
			if (flush && fresh && n > 0 && n < whole) VF_CHECK(c, always->events.size() == before + 1, "pieces", "a message of %zu bytes came in %zu pieces", n, always->events.size() - before);
			break; }
		case 5: { // not logged at all
			c.op("disabled"); tpie::log_bits::flush_logs(); flushAll();
			tpie::scoped_log_enabler e(false); int l = (int)r.below(NL); put(r, tpie::get_log_by_level(levels[l]), text(r, r.pick({5, 3000}))); tpie::get_log_by_level(levels[l]) << std::endl;
			if (r.chance(30)) { const char x[] = "nothing"; tpie::log_to_targets(levels[l], x, sizeof x - 1); }
			if (r.chance(30)) { tpie::scoped_log_enabler on(true); tpie::get_log_by_level(levels[l]) << "on" << std::endl; event({0, l, "on\n"}); }
			count("messages_disabled"); break; }
		case 6: {
			if (ts.size() > 4) break;
			c.op("add a target"); ts.emplace_back(); ts.back().t.reset(new Recorder); tpie::add_log_target(ts.back().t.get()); count("targets_added"); break; }
		case 7: {
			if (ts.empty()) break;
			size_t i = r.below(ts.size()); c.op("remove target %zu", i); tpie::remove_log_target(ts[i].t.get()); flushAll();
			compare(c, "a removed target", *ts[i].t, ts[i].want); ts.erase(ts.begin() + i); count("targets_removed"); break; }
		case 8: { c.op("direct"); int l = (int)r.below(NL); std::string s = text(r, r.below(5000)); tpie::log_to_targets(levels[l], s.data(), s.size()); if (true) event({0, l, s}); break; }
		case 9: {
			if (groups.size() < 5 && r.chance(60)) { std::string n = fmt("g%d", (int)r.below(100)); c.op("begin %s", n.c_str()); groups.emplace_back(new tpie::log_group(n)); event({1, 0, n}); count("groups"); }
			else if (!groups.empty()) { c.op("end"); groups.pop_back(); event({2, 0, ""}); }
			break; }
		}
	}
	while (!groups.empty()) { groups.pop_back(); event({2, 0, ""}); }
	tpie::log_bits::flush_logs(); flushAll();
	compare(c, "the first target", *always, total);
	for (auto & t : ts) compare(c, "a target", *t.t, t.want);
	c.nontrivial = total.size() > 2;
}

static void threads(Ctx & c) {
	Rng & r = c.rng; int n = 2 + (int)r.below(5); c.describe("%d threads", n);
	always->events.clear(); always->unterminated = 0;
	std::vector<std::vector<std::pair<int, std::string>>> sent(n);
	bool targets = r.chance(50), lasts = r.chance(50);
	std::vector<std::function<void(Ctx &)>> b;
	for (int i = 0; i < n; ++i) b.push_back([&, i](Ctx & t) {
		int m = t.rng.pick({3, 20, 60});
		for (int k = 0; k < m; ++k) {
			int l = (int)t.rng.below(NL); std::string s = fmt("<%d:%d:", i, k); std::string body; size_t z = t.rng.pick({(size_t)3, (size_t)50, (size_t)t.rng.below(1900)}); while (body.size() < z) body += (char)('a' + t.rng.below(26));
			s += body + ">\n"; sent[i].push_back({l, s});
			auto & o = tpie::get_log_by_level(levels[l]); put(t.rng, o, s);
			if (lasts && k == m - 1) break; // a thread that ends leaves nothing behind
			o << std::flush; count("messages");
			if (t.rng.chance(10)) std::this_thread::yield();
		}
	});
	if (targets) b.push_back([&](Ctx & t) { // targets come and go
		for (int k = 0; k < 10; ++k) {
			Recorder x; tpie::add_log_target(&x); if (t.rng.chance(50)) std::this_thread::sleep_for(std::chrono::microseconds(t.rng.below(200))); tpie::log_group g("g"); tpie::remove_log_target(&x);
			for (auto & e : x.events) if (e.kind == 0) VF_CHECK(t, e.text.size() > 2 && e.text[0] == '<' && e.text.substr(e.text.size() - 2) == ">\n", "torn", "a target saw '%s'", e.text.substr(0, 80).c_str());
			count("targets_added"); count("targets_removed");
		}
	});
	run_threads(c, b);
	// every message in one piece, once, in the order of its thread
	std::vector<size_t> next(n); uint64_t order = 0;
	for (auto & e : always->events) {
		if (e.kind) continue;
		int i = -1, k = -1;
		VF_CHECK(c, sscanf(e.text.c_str(), "<%d:%d:", &i, &k) == 2 && i >= 0 && i < n, "torn", "'%s' is no message", e.text.substr(0, 80).c_str());
		VF_CHECK(c, next[i] < sent[i].size() && e.text == sent[i][next[i]].second && e.level == sent[i][next[i]].first, "order", "thread %d's message %zu arrived as '%s' at level %d", i, next[i], e.text.substr(0, 80).c_str(), e.level);
		++next[i]; order = mix(order ^ i);
	}
	for (int i = 0; i < n; ++i) VF_CHECK(c, next[i] == sent[i].size(), "lost", "%zu of the %zu messages of thread %d arrived", next[i], sent[i].size(), i);
	VF_CHECK(c, always->unterminated == 0, "unterminated", "%zu messages do not end in a zero", always->unterminated);
	c.mark(order); count("threaded"); c.nontrivial = true;
}

// A resource whose limit is exceeded: complaints go to the log.
struct Resource : tpie::resource_manager {
	struct Refused : std::runtime_error { using runtime_error::runtime_error; };
	Resource() : resource_manager(tpie::MEMORY) {}
	void throw_out_of_resource_error(const std::string & s) override { throw Refused(s); }
};
static void resources(Ctx & c) {
	Rng & r = c.rng; bool many = r.chance(60); bool debug = r.chance(40); size_t limit = r.pick({0, 1, 100, 5000});
	c.describe("a resource limited to %zu, %s", limit, many ? "threads" : "one thread");
	always->events.clear();
	Resource m; m.set_limit(limit); m.set_enforcement(debug ? Resource::ENFORCE_DEBUG : Resource::ENFORCE_WARN);
	std::atomic<uint64_t> exceeded{0}; std::atomic<bool> alone{!many};
	auto body = [&](Ctx & t) {
		size_t held = 0;
		for (int k = t.rng.pick({5, 40}); k > 0; --k) {
			size_t n = t.rng.below(2 * limit / 3 + 50), logged = alone ? always->events.size() : 0;
			if (held < limit && t.rng.chance(20)) n = limit - held; // exactly full
			if (t.rng.chance(70)) { m.register_increased_usage(n); held += n; if (alone && limit && (held <= limit || !exceeded)) { VF_CHECK(t, (always->events.size() > logged) == (held > limit), "complained", "%zu of %zu in use: %s", held, limit, held > limit ? "no complaint" : "a complaint"); count("complaints_judged"); } if (limit && held > limit) exceeded.fetch_add(1, std::memory_order_relaxed); }
			else if (held) { n = t.rng.below(held + 1); m.register_decreased_usage(n); held -= n; }
			if (alone) { VF_CHECK(t, m.used() == held, "used", "%zu in use, %zu are held", m.used(), held); VF_CHECK(t, m.available() == (held < limit ? limit - held : 0), "available", "%zu of %zu available while %zu are held", m.available(), limit, held); }
			if (!alone && t.rng.chance(3)) m.set_limit(limit); // to the same
		}
		m.register_decreased_usage(held);
	};
	if (many) { std::vector<std::function<void(Ctx &)>> b; for (int i = 2 + (int)r.below(4); i > 0; --i) b.push_back(body); run_threads(c, b); if (exceeded) count("limits_exceeded_threaded"); } else body(c);
	VF_CHECK(c, m.used() == 0, "used", "%zu in use after everything was given back", m.used());
	size_t complaints = 0;
	for (auto & e : always->events) {
		VF_CHECK(c, e.kind == 0 && e.text.substr(0, 9) == "Resource " && e.text.back() == '\n' && std::count(e.text.begin(), e.text.end(), '\n') == 1, "complaint", "'%s' is no complaint", e.text.substr(0, 100).c_str());
		VF_CHECK(c, e.level == (debug ? tpie::LOG_DEBUG : tpie::LOG_WARNING), "complaint_level", "a complaint at level %d", e.level);
		++complaints;
	}
	if (exceeded) VF_CHECK(c, complaints > 0, "silent", "the limit was exceeded and nothing was logged");
	if (!limit) VF_CHECK(c, complaints == 0, "unlimited", "a complaint without a limit");
	if (!many && !exceeded) VF_CHECK(c, complaints == 0, "spurious", "a complaint though the limit was kept");
	count("complaints", complaints); c.nontrivial = complaints > 0;
}

// The targets of the library itself.
static void files(Ctx & c) {
	Rng & r = c.rng; tpie::log_level th = levels[r.below(NL)]; c.describe("file target, threshold %d", (int)th);
	always->events.clear();
	std::string dir = scratch("l"); wipe(dir); boost::filesystem::create_directories(dir); tpie::tempname::set_default_path(dir, "");
	bool outer = r.chance(30); std::unique_ptr<tpie::log_group> g; if (outer) g.reset(new tpie::log_group("before"));
	std::string path; std::vector<std::string> in, out;
	{
		tpie::file_log_target f(th); path = f.m_path; tpie::add_log_target(&f);
		std::vector<std::unique_ptr<tpie::log_group>> gs;
		for (int k = 0; k < 30; ++k) {
			if (r.chance(15)) { gs.emplace_back(new tpie::log_group(fmt("G%d-", k))); if (th >= tpie::LOG_DEBUG) in.push_back(fmt("G%d-", k)); else out.push_back(fmt("G%d-", k)); count("groups"); }
			else if (r.chance(15) && !gs.empty()) gs.pop_back();
			else if (outer && r.chance(5)) { g.reset(); outer = false; }
			else { int l = (int)r.below(NL); std::string s = fmt("<m%d-%zu>", k, (size_t)r.next()) + std::string(r.below(100), 'x'); tpie::get_log_by_level(levels[l]) << s << std::endl; (levels[l] <= th ? in : out).push_back(s + "\n"); count("messages"); }
		}
		while (!gs.empty()) gs.pop_back();
		if (r.chance(50)) g.reset();
		tpie::remove_log_target(&f);
	}
	g.reset();
	std::string s = slurp(path); size_t at = 0;
	for (auto & x : in) { size_t p = s.find(x, at); VF_CHECK(c, p != std::string::npos, "file_lost", "'%s' is not in the log file, or not in order", x.substr(0, 60).c_str()); at = p + x.size(); }
	for (auto & x : out) VF_CHECK(c, s.find(x) == std::string::npos, "file_threshold", "'%s' is in the log file though it is below the threshold", x.substr(0, 60).c_str());
	boost::filesystem::remove(path);
	count("file_targets"); c.nontrivial = true;
}

void vf_case(Ctx & c) {
	switch (c.rng.below(8)) { case 0: case 1: resources(c); break; case 2: files(c); break; case 3: case 4: case 5: threads(c); break; default: history(c); }
}
