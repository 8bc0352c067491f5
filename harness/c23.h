// C23: what the parts of the harness share. A stage is a piece of a real pipeline, what it must turn a
// given sequence into, and a check of what it left beside the pipeline.
#pragma once
#include <tpie/tpie.h>
#include <tpie/pipelining.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/file_stream.h>
#include <deque>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace pl = tpie::pipelining;
typedef uint64_t It;
typedef std::vector<It> Seq;

inline uint64_t h64(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }

struct World { // what outlives the pipeline
	std::deque<Seq> seqs; std::deque<tpie::file_stream<It>> streams; std::deque<std::shared_ptr<void>> keep; std::deque<std::string> texts;
	std::vector<pl::pipeline> others; // pipelines that share the graph with the main one
	std::deque<std::function<std::string()>> checks; // run after the pipeline; a message when something is wrong
	std::vector<std::string> seen; // kinds used
	std::string dir; int files = 0; int jobs = 0;
	size_t memory = 0, bufferings = 0; // at least so much is needed per stage
	Seq & seq(Seq s = Seq()) { seqs.push_back(std::move(s)); return seqs.back(); }
	template <typename T, typename... A> T & make(A &&... a) { auto p = std::make_shared<T>(std::forward<A>(a)...); keep.push_back(p); return *p; }
	tpie::file_stream<It> & stream(const Seq & s = Seq()) { streams.emplace_back(); auto & f = streams.back(); f.open(); for (auto v : s) f.write(v); f.seek(0); return f; }
	std::string path() { return dir + "/f" + std::to_string(files++); }
	void same(const char * what, const Seq & got, const Seq & want) { std::string w = what; checks.push_back([w, &got, want] { return differ(w, got, want); }); }
	void stream_same(const char * what, tpie::file_stream<It> & f, const Seq & want) { std::string w = what; checks.push_back([w, &f, want] { Seq got; f.seek(0); while (f.can_read()) got.push_back(f.read()); return differ(w, got, want); }); }
	static std::string differ(const std::string & what, const Seq & got, const Seq & want) {
		size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
		if (i == got.size() && i == want.size()) return "";
		return what + ": " + std::to_string(got.size()) + " items instead of " + std::to_string(want.size()) + ", the first difference is at " + std::to_string(i) + " (" + (i < got.size() ? std::to_string(got[i]) : "end") + " instead of " + (i < want.size() ? std::to_string(want[i]) : "end") + ")";
	}
	void probe(const char * what, int64_t expected); // expected number forwarded as "items"
};
constexpr int64_t UNKNOWN = -1; // what "items" is

struct Par { uint64_t a, b; };
struct Push { pl::virtual_chunk<It> chunk; Seq out; int64_t items; const char * name; };
struct Begin { pl::virtual_chunk_begin<It> chunk; Seq out; int64_t items; const char * name; };
struct End { pl::virtual_chunk_end<It> chunk; const char * name; };
struct Pull { pl::virtual_chunk_pull<It> chunk; Seq out; int64_t items; const char * name; };
struct PullBegin { pl::virtual_chunk_pull_begin<It> chunk; Seq out; int64_t items; const char * name; };
struct PullEnd { pl::virtual_chunk_pull_end<It> chunk; const char * name; };
struct Static { pl::pipeline pipe; const char * name; };

enum { SIMPLE_KINDS = 24, BUFFER_KINDS = 20, PULL_KINDS = 8, BEGIN_KINDS = 9, END_KINDS = 9, PULL_BEGIN_KINDS = 9, PULL_END_KINDS = 3, STATIC_KINDS = 16 };
Push simple_stage(int kind, Par p, const Seq & in, int64_t items, World & w);
Push buffer_stage(int kind, Par p, const Seq & in, int64_t items, World & w);
Begin begin_stage(int kind, Par p, const Seq & in, World & w);
End end_stage(int kind, Par p, const Seq & in, World & w);
Pull pull_stage(int kind, Par p, const Seq & in, int64_t items, World & w);
PullBegin pull_begin_stage(int kind, Par p, const Seq & in, World & w);
PullEnd pull_end_stage(int kind, Par p, const Seq & in, World & w);
Begin pull_to_push(pl::virtual_chunk_pull_begin<It> from, const Seq & in, int64_t items);
Static static_pipeline(int kind, Par p, const Seq & in, World & w);

// Reports what "items" says at a point of the pipeline.
struct Probe { World * w; int64_t expected; std::shared_ptr<std::string> err = std::make_shared<std::string>(); };
std::string misuse(uint64_t how);
pl::virtual_chunk<It> probe(int64_t expected, World & w);

struct GenericMap { uint64_t a; template <typename T> It operator()(const T & v) const { return h64(v ^ a); } };
inline bool keep_item(It v, uint64_t a) { return a % 5 == 0 ? true : a % 5 == 1 ? false : h64(v ^ a) % (a % 5) != 0; }
template <typename F> Seq mapped(const Seq & s, F f) { Seq r; for (auto v : s) r.push_back(f(v)); return r; }
inline Seq reversed(const Seq & s) { return Seq(s.rbegin(), s.rend()); }
struct Cmp { uint64_t how; It rank(It v) const { return how % 4 == 0 ? v : how % 4 == 1 ? ~v : how % 4 == 2 ? (v >> 5 | v << 59) : v ^ 0x5555555555555555ull; } bool operator()(It a, It b) const { return rank(a) < rank(b); } };
inline Seq sorted(Seq s, Cmp c) { std::sort(s.begin(), s.end(), c); return s; }
template <typename E> Seq deduped(const Seq & s, E e) { Seq r; for (auto v : s) if (r.empty() || !e(r.back(), v)) r.push_back(v); return r; }
struct Equal { uint64_t shift; bool operator()(It a, It b) const { return (a >> shift % 64) == (b >> shift % 64); } };
