// Shared runtime for all monitors in /verif/harness.
//
// A harness defines   void vf_case(vf::Ctx &)   and optionally vf_setup(),
// vf_teardown().  The main() below runs a range of cases, one PRNG per case,
// and reports on stdout in a line protocol run.py understands:
//   B <idx>                  case started
//   V <idx>\t<key>\t<msg>    oracle violation in this case
//   S <hex>                  signature of a non-trivial case (for distinctness)
//   C <name> <n>             counter (summed over processes)
//   X <text>                 sample case description
//   DONE <n>
#pragma once
#include <sys/prctl.h>
#include <signal.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <algorithm>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <exception>
#include <atomic>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <chrono>
#include <memory>
#include <cxxabi.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <boost/filesystem.hpp>
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
#include <tpie/tpie_log.h>

namespace vf {

inline uint64_t mix(uint64_t z) {
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
	uint64_t operator()() { return next(); }
	typedef uint64_t result_type;
	static constexpr uint64_t min() { return 0; }
	static constexpr uint64_t max() { return ~0ull; }
	// uniform in [0, n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	// uniform in [a, b]
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
	bool chance(int percent) { return below(100) < (uint64_t)percent; }
	template <typename T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
	template <typename V> const typename V::value_type & pick_from(const V & v) { return v[below(v.size())]; }
	template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
	// size-ish distribution: often tiny, sometimes big (up to max)
	uint64_t size(uint64_t mx) {
		switch (below(8)) {
		case 0: return below(std::min<uint64_t>(mx, 3) + 1);
		case 1: case 2: return below(std::min<uint64_t>(mx, 20) + 1);
		case 3: case 4: return below(std::min<uint64_t>(mx, mx / 8 + 20) + 1);
		default: return below(mx + 1);
		}
	}
	template <typename It> void shuffle(It a, It b) {
		size_t n = b - a;
		for (size_t i = n; i > 1; --i) std::swap(a[i - 1], a[below(i)]);
	}
};

struct Violation : public std::runtime_error {
	std::string key;
	Violation(std::string k, std::string m) : std::runtime_error(m), key(std::move(k)) {}
};

inline std::string fmt(const char * f, ...) {
	char buf[2048];
	va_list ap; va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

struct Ctx {
	uint64_t idx;
	uint64_t seed;
	Rng rng;
	uint64_t sig = 0;
	bool nontrivial = false;
	std::string desc;           // one-line description of the case (sample)
	std::vector<std::string> log; // op trace, printed on violation
	bool tracing = false;
	Ctx(uint64_t i, uint64_t s) : idx(i), seed(s), rng(s) {}
	void mark(uint64_t v) { sig = mix(sig ^ v); }
	void op(const char * f, ...) {
		char buf[512];
		va_list ap; va_start(ap, f);
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		log.emplace_back(buf);
		uint64_t h = 1469598103934665603ull;
		for (const char * p = buf; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
		mark(h);
		if (tracing) fprintf(stderr, "  op %zu: %s\n", log.size(), buf);
	}
	void describe(const char * f, ...) {
		char buf[1024];
		va_list ap; va_start(ap, f);
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		desc = buf;
		if (tracing) fprintf(stderr, "case: %s\n", buf);
	}
	[[noreturn]] void fail(const std::string & key, const char * f, ...) __attribute__((format(printf, 3, 4))) {
		char buf[1024];
		va_list ap; va_start(ap, f);
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		throw Violation(key, buf);
	}
};

struct Globals {
	std::map<std::string, uint64_t> counters;
	std::string scratch;
	std::string tier = "quick";
	uint64_t seed = 1;
	bool tracing = false;
};
inline Globals & G() { static Globals g; return g; }
// Counters are per thread, so that counting orders nothing for the race detector.
inline std::mutex & counter_mutex() { static std::mutex m; return m; }
struct LocalCounters {
	std::map<std::string, uint64_t> m;
	void flush() {
		std::lock_guard<std::mutex> l(counter_mutex());
		for (auto & x : m) {
			uint64_t & y = G().counters[x.first];
			if (x.first.compare(0, 4, "max_") == 0) y = std::max(y, x.second); else y += x.second;
		}
		m.clear();
	}
	~LocalCounters() { flush(); }
};
inline LocalCounters & local_counters() { static thread_local LocalCounters c; return c; }
inline void count(const std::string & name, uint64_t n = 1) { local_counters().m[name] += n; }
inline void count_max(const std::string & name, uint64_t n) { // names starting with max_ are combined by max
	uint64_t & x = local_counters().m["max_" + name];
	if (n > x) x = n;
}
inline bool thorough() { return G().tier == "thorough"; }

inline std::string type_name(const std::exception & e) {
	int st = 0;
	char * n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
	std::string r = n ? n : typeid(e).name();
	free(n);
	return r;
}

inline size_t open_fds() {
	size_t n = 0;
	DIR * d = opendir("/proc/self/fd");
	if (!d) return 0;
	while (readdir(d)) ++n;
	closedir(d);
	return n;
}

inline std::vector<std::string> list_dir(const std::string & p) {
	std::vector<std::string> r;
	DIR * d = opendir(p.c_str());
	if (!d) return r;
	while (dirent * e = readdir(d)) {
		std::string n = e->d_name;
		if (n != "." && n != "..") r.push_back(n);
	}
	closedir(d);
	std::sort(r.begin(), r.end());
	return r;
}

inline std::string scratch(const std::string & name) { return G().scratch + "/" + name; }
inline void wipe(const std::string & p) { boost::system::error_code ec; boost::filesystem::remove_all(p, ec); }

inline std::string slurp(const std::string & p) {
	std::string r; FILE * f = fopen(p.c_str(), "rb");
	if (!f) return r;
	char buf[65536]; size_t n;
	while ((n = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, n);
	fclose(f);
	return r;
}
inline void spit(const std::string & p, const std::string & d) {
	FILE * f = fopen(p.c_str(), "wb");
	if (!f) { perror("spit"); exit(99); }
	fwrite(d.data(), 1, d.size(), f);
	fclose(f);
}

} // namespace vf

#define VF_CHECK(ctx, cond, key, ...) do { if (!(cond)) (ctx).fail((key), __VA_ARGS__); } while (0)

namespace vf {
// Runs bodies in threads of their own, each with its own Ctx, and rethrows
// the first violation.
inline void run_threads(Ctx & c, std::vector<std::function<void(Ctx &)>> bodies) {
	size_t n = bodies.size();
	std::vector<std::unique_ptr<Ctx>> ctx;
	std::vector<std::exception_ptr> err(n);
	for (size_t i = 0; i < n; ++i) { ctx.emplace_back(new Ctx(c.idx, c.rng.next())); ctx.back()->tracing = c.tracing; }
	std::vector<std::thread> ts;
	std::atomic<size_t> ready{0};
	for (size_t i = 0; i < n; ++i)
		ts.emplace_back([&, i] {
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
			try { bodies[i](*ctx[i]); } catch (...) { err[i] = std::current_exception(); }
		});
	for (auto & t : ts) t.join();
	for (size_t i = 0; i < n; ++i) {
		c.mark(ctx[i]->sig);
		c.nontrivial = c.nontrivial || ctx[i]->nontrivial;
		if (err[i]) {
			c.log = ctx[i]->log;
			c.desc += fmt(" [thread %zu of %zu] ", i, n) + ctx[i]->desc;
			std::rethrow_exception(err[i]);
		}
	}
	if (n && c.log.empty()) c.log = ctx[0]->log;
}
} // namespace vf

void vf_case(vf::Ctx &);
void vf_setup();
void vf_teardown();

#ifndef VF_NO_MAIN
#ifndef VF_CUSTOM_SETUP
void vf_setup() {
	tpie::tpie_init();
	tpie::get_memory_manager().set_limit(512 << 20);
	tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE);
}
void vf_teardown() { tpie::tpie_finish(); }
#endif

int main(int argc, char ** argv) {
	using namespace vf;
	uint64_t start = 0, step = 1, count_ = 1, propHash = 0;
	prctl(PR_SET_PDEATHSIG, SIGKILL); // never outlive the driver
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--seed") G().seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--prop") { std::string p = val(); for (char c : p) propHash = propHash * 131 + (unsigned char)c; }
		else if (a == "--start") start = strtoull(val().c_str(), 0, 10);
		else if (a == "--step") step = strtoull(val().c_str(), 0, 10);
		else if (a == "--count") count_ = strtoull(val().c_str(), 0, 10);
		else if (a == "--scratch") G().scratch = val();
		else if (a == "--tier") G().tier = val();
		else if (a == "--trace") G().tracing = true;
	}
	if (G().scratch.empty()) { fprintf(stderr, "no scratch\n"); return 99; }
	mkdir(G().scratch.c_str(), 0700);
	setenv("TMPDIR", G().scratch.c_str(), 1);
	setvbuf(stdout, 0, _IOLBF, 0);
	{ // no runaway file may fill the disk
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 4ull << 30;
		setrlimit(RLIMIT_FSIZE, &rl);
	}
	vf_setup();
	uint64_t done = 0, samples = 0;
	uint64_t last = 0;
	for (uint64_t i = start; done < count_; i += step, ++done) {
		last = i;
		printf("B %llu\n", (unsigned long long)i);
		Ctx ctx(i, mix(mix(G().seed * 1000003 + propHash) ^ (i * 0x632BE59BD9B4E019ull)));
		ctx.tracing = G().tracing;
		std::string key, msg;
		try {
			vf_case(ctx);
		} catch (const Violation & v) {
			key = v.key; msg = v.what();
		} catch (const std::exception & e) {
			key = "exception:" + type_name(e);
			msg = std::string("unexpected exception: ") + e.what();
		}
		if (!key.empty()) {
			std::string t = msg + " | case: " + ctx.desc;
			size_t from = ctx.log.size() > 40 ? ctx.log.size() - 40 : 0;
			t += " | last ops:";
			for (size_t k = from; k < ctx.log.size(); ++k) t += " [" + ctx.log[k] + "]";
			for (char & c : t) if (c == '\n' || c == '\t') c = ' ';
			for (char & c : key) if (c == '\n' || c == '\t') c = ' ';
			printf("V %llu\t%s\t%s\n", (unsigned long long)i, key.c_str(), t.c_str());
		} else {
			if (ctx.nontrivial) printf("S %016llx\n", (unsigned long long)(ctx.sig ^ mix(std::hash<std::string>()(ctx.desc))));
			if (samples < 3 && ctx.nontrivial && !ctx.desc.empty()) {
				std::string t = ctx.desc;
				if (!ctx.log.empty()) {
					t += " ops:";
					for (size_t k = 0; k < ctx.log.size() && k < 12; ++k) t += " [" + ctx.log[k] + "]";
					if (ctx.log.size() > 12) t += fmt(" ... (%zu ops)", ctx.log.size());
				}
				printf("X #%llu %s\n", (unsigned long long)i, t.c_str());
				++samples;
			}
		}
	}
	printf("T\n");
	vf_teardown();
	local_counters().flush();
	for (auto & c : G().counters) printf("C %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
	printf("DONE %llu %llu\n", (unsigned long long)done, (unsigned long long)last);
	fflush(stdout);
	return 0;
}
#endif
