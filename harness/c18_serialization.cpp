// C18: serialization streams and byte serialization give back what was written.
#define VF_IO_SHIM_IMPL
#include "io_shim.h"
#include <tpie/serialization2.h>
#include <tpie/serialization_stream.h>
#include <tpie/array.h>
#include <list>
#include <array>
#include <tuple>
#include <new>
using namespace vf;

// Allocations above the cap are refused: a reader that finds an absurd length
// must cope, and the machine must not run out of memory.
static thread_local size_t newCap = ~(size_t)0;
void * operator new(size_t n) { void * p = n > newCap ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept { free(p); }
void operator delete[](void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
void operator delete[](void * p, size_t) noexcept { free(p); }

// In namespace tpie, so that the overloads for standard types are found by argument-dependent lookup.
namespace tpie {
struct Bytes { std::string s; void write(const void * p, size_t n) { if (n) s.append((const char *)p, n); } };
struct ByteIn {
	const std::string & s; size_t at = 0;
	ByteIn(const std::string & s) : s(s) {}
	void read(void * p, size_t n) { if (n > s.size() - at) throw tpie::end_of_stream_exception(); memcpy(p, s.data() + at, n); at += n; }
};
}
using tpie::Bytes; using tpie::ByteIn;

#pragma pack(push, 1)
struct Odd { char a; uint64_t b; uint16_t c; bool operator==(const Odd & o) const { return !memcmp(this, &o, sizeof o); } };
#pragma pack(pop)
struct Mine { std::string name; std::vector<uint16_t> v; std::unique_ptr<Mine> next; };
template <typename D> void serialize(D & d, const Mine & m) { using tpie::serialize; serialize(d, m.name); serialize(d, m.v); serialize(d, (char)(m.next ? 1 : 0)); if (m.next) serialize(d, *m.next); }
template <typename S> void unserialize(S & s, Mine & m) { using tpie::unserialize; unserialize(s, m.name); unserialize(s, m.v); char more; unserialize(s, more); m.next.reset(); if (more == 1) { m.next.reset(new Mine); unserialize(s, *m.next); } }

// ---- random values of every supported type ----
static size_t wantBytes; // when nonzero, the next variable-size part takes about this many bytes
static size_t len(Rng & r, size_t unit) { if (wantBytes) { size_t n = wantBytes / unit; wantBytes = 0; return n; } return r.chance(60) ? r.below(6) : r.below(60); }
static void gen(Rng & r, uint8_t & x) { x = r.next(); }
static void gen(Rng & r, char & x) { x = r.next(); }
static void gen(Rng & r, bool & x) { x = r.next() & 1; }
static void gen(Rng & r, uint16_t & x) { x = r.next(); }
static void gen(Rng & r, uint32_t & x) { x = r.next(); }
static void gen(Rng & r, uint64_t & x) { x = r.next(); }
static void gen(Rng & r, char32_t & x) { x = r.next(); }
static void gen(Rng & r, double & x) { x = (double)r.next() / 3; }
static void gen(Rng & r, Odd & x) { x.a = r.next(); x.b = r.next(); x.c = r.next(); }
template <typename T> void gen(Rng & r, std::basic_string<T> & x) { x.resize(len(r, sizeof(T))); uint64_t k = r.next(); for (auto & y : x) y = (T)(k = k * 6364136223846793005ull + 1442695040888963407ull, k >> 33); }
template <typename A, typename B> void gen(Rng & r, std::pair<A, B> & x);
template <typename... T> void gen(Rng & r, std::tuple<T...> & x);
template <typename T, size_t n> void gen(Rng & r, std::array<T, n> & x);
template <typename T> void gen(Rng & r, tpie::array<T> & x);
static void gen(Rng & r, Mine & x);
template <typename T, typename A> void gen(Rng & r, std::vector<T, A> & x) { x.resize(len(r, sizeof(T))); for (auto & y : x) gen(r, y); }
template <typename A, typename B> void gen(Rng & r, std::pair<A, B> & x) { gen(r, x.first); gen(r, x.second); }
template <typename... T> void gen(Rng & r, std::tuple<T...> & x) { tpie::tuple_for_each([&](auto & e) { gen(r, e); }, x); }
template <typename T, size_t n> void gen(Rng & r, std::array<T, n> & x) { for (auto & y : x) gen(r, y); }
template <typename T> void gen(Rng & r, tpie::array<T> & x) { x.resize(len(r, sizeof(T))); for (auto & y : x) gen(r, y); }
static void gen(Rng & r, Mine & x) { gen(r, x.name); gen(r, x.v); x.next.reset(); if (r.chance(40)) { x.next.reset(new Mine); gen(r, *x.next); } }
template <typename T, size_t n> struct CArr { T a[n]; };
template <typename T, size_t n> void gen(Rng & r, CArr<T, n> & x) { for (auto & y : x.a) gen(r, y); }
template <typename T> bool eq(const T & a, const T & b) { return a == b; }
template <typename T> bool eq(const tpie::array<T> & a, const tpie::array<T> & b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
static bool eq(const Mine & a, const Mine & b) { return a.name == b.name && a.v == b.v && !a.next == !b.next && (!a.next || eq(*a.next, *b.next)); }
template <typename T, size_t n> bool eq(const CArr<T, n> & a, const CArr<T, n> & b) { for (size_t i = 0; i < n; ++i) if (!(a.a[i] == b.a[i])) return false; return true; }
template <typename T> const T & in(const T & x) { return x; }
template <typename T> T & in(T & x) { return x; }
template <typename T, size_t n> const T (&in(const CArr<T, n> & x))[n] { return x.a; }
template <typename T, size_t n> T (&in(CArr<T, n> & x))[n] { return x.a; }

typedef tpie::serialization_writer W; typedef tpie::serialization_reverse_writer RW;
typedef tpie::serialization_reader FR; typedef tpie::serialization_reverse_reader RR;
struct Val {
	std::string bytes; // its serialized form, by the byte serializer
	virtual ~Val() {}
	virtual void put(W &) = 0; virtual void put(RW &) = 0; virtual void put(Bytes &) = 0;
	virtual bool get(FR &, Rng &) = 0; virtual bool get(RR &, Rng &) = 0; virtual bool get(ByteIn &, Rng &) = 0;
	virtual size_t size() = 0;
	virtual const char * name() = 0;
};
// serialized_size and the readers' member functions do not compile for containers of non-trivial standard types
template <typename T> struct Plain { static const bool value = true; };
template <typename T> struct Plain<std::vector<T>> { static const bool value = std::is_trivially_copyable<T>::value; };
template <typename T> struct Plain<tpie::array<T>> { static const bool value = std::is_trivially_copyable<T>::value; };
template <typename T, size_t n> struct Plain<std::array<T, n>> { static const bool value = std::is_trivially_copyable<T>::value; };
template <typename T, size_t n> struct Plain<CArr<T, n>> { static const bool value = std::is_trivially_copyable<T>::value; };
template <typename T> size_t ssize(const T & v, size_t, std::true_type) { return tpie::serialized_size(v); }
template <typename T> size_t ssize(const T &, size_t n, std::false_type) { return n; }
template <typename T> struct V1 : Val {
	T v; const char * n; bool range;
	V1(Rng & r, const char * n) : v(), n(n), range(false) { gen(r, v); Bytes b; put(b); bytes = b.s; }
	void put(W & w) override { w.serialize(in(v)); } void put(RW & w) override { w.serialize(in(v)); }
	void put(Bytes & w) override { using tpie::serialize; serialize(w, in(v)); }
	bool get(FR & b, Rng & r) override { return get1(b, r); } bool get(RR & b, Rng & r) override { return get1(b, r); } bool get(ByteIn & b, Rng & r) override { return get1(b, r); }
	template <typename S> bool get1(S & b, Rng & r) { T x = T(); if (r.chance(50)) { wantBytes = 0; gen(r, x); } using tpie::unserialize; unserialize(b, in(x)); return eq(x, v); }
	size_t size() override { return ssize(in(v), bytes.size(), std::integral_constant<bool, Plain<T>::value>()); }
	const char * name() override { return n; }
};
// A range [a, b) of items in a container: no length is stored.
template <typename C> struct VR : Val {
	C v; const char * n; typedef typename C::value_type T;
	VR(Rng & r, const char * n, size_t unit) : n(n) { size_t k = len(r, unit); for (size_t i = 0; i < k; ++i) { T x = T(); gen(r, x); v.push_back(x); } Bytes b; put(b); bytes = b.s; }
	void put(W & w) override { w.serialize(v.begin(), v.end()); } void put(RW & w) override { w.serialize(v.begin(), v.end()); }
	void put(Bytes & w) override { using tpie::serialize; serialize(w, v.begin(), v.end()); }
	bool get(FR & b, Rng &) override { return get1(b); } bool get(RR & b, Rng &) override { return get1(b); } bool get(ByteIn & b, Rng &) override { return get1(b); }
	template <typename S> bool get1(S & b) { C x(v.size(), T()); using tpie::unserialize; unserialize(b, x.begin(), x.end()); return x == v; }
	size_t size() override { return bytes.size(); }
	const char * name() override { return n; }
};
static Val * make(Rng & r) {
	switch (r.below(28)) {
	case 0: return new V1<uint8_t>(r, "u8"); case 1: return new V1<uint64_t>(r, "u64"); case 2: return new V1<double>(r, "double"); case 3: return new V1<Odd>(r, "pod11");
	case 4: case 5: return new V1<std::string>(r, "string"); case 6: return new V1<std::u32string>(r, "u32string"); case 7: return new V1<std::vector<uint8_t>>(r, "vector<u8>");
	case 8: return new V1<std::vector<Odd>>(r, "vector<pod11>"); case 9: return new V1<std::vector<std::string>>(r, "vector<string>");
	case 10: return new V1<std::vector<std::vector<std::string>>>(r, "vector<vector<string>>"); case 11: return new V1<std::pair<uint32_t, std::string>>(r, "pair<u32,string>");
	case 12: return new V1<std::tuple<uint8_t, std::string, std::vector<uint16_t>, std::pair<char, double>>>(r, "tuple"); case 13: return new V1<std::array<std::string, 3>>(r, "std::array<string,3>");
	case 14: return new V1<std::array<uint32_t, 7>>(r, "std::array<u32,7>"); case 15: return new V1<CArr<std::string, 2>>(r, "string[2]"); case 16: return new V1<CArr<uint16_t, 5>>(r, "u16[5]");
	case 17: return new V1<tpie::array<uint64_t>>(r, "tpie::array<u64>"); case 18: return new V1<tpie::array<std::string>>(r, "tpie::array<string>"); case 19: return new V1<Mine>(r, "user type");
	case 20: return new V1<std::vector<std::pair<std::string, uint8_t>>>(r, "vector<pair<string,u8>>"); case 21: return new V1<std::tuple<>>(r, "tuple<>");
	case 22: return new VR<std::vector<uint32_t>>(r, "range of u32", 4); case 23: return new VR<std::list<uint16_t>>(r, "list range of u16", 2); case 24: return new VR<std::deque<std::string>>(r, "deque range of string", 12);
	case 25: return new VR<std::list<std::string>>(r, "list range of string", 40); case 26: return new V1<std::u16string>(r, "u16string"); default: return new V1<std::vector<std::array<uint8_t, 3>>>(r, "vector<array<u8,3>>");
	}
}

template <typename R> void wrong_type(R & rd, Rng & r) {
	newCap = 8 << 20;
	struct Restore { ~Restore() { newCap = ~(size_t)0; } } restore;
	try {
		switch (r.below(7)) {
		case 0: { std::string x; rd.unserialize(x); break; } case 1: { std::vector<std::string> x; tpie::unserialize(rd, x); break; }
		case 2: { std::vector<uint64_t> x; rd.unserialize(x); break; } case 3: { tpie::array<uint16_t> x; rd.unserialize(x); break; }
		case 4: { std::tuple<char, std::u32string, std::vector<Odd>> x; rd.unserialize(x); break; } case 5: { Mine x; rd.unserialize(x); break; }
		default: { std::array<std::vector<char>, 4> x; tpie::unserialize(rd, x); break; }
		}
		count("wrong_type_values");
	} catch (const tpie::end_of_stream_exception &) { count("wrong_type_end");
	} catch (const std::bad_alloc &) { count("wrong_type_refused");
	} catch (const std::length_error &) { count("wrong_type_refused"); }
}

typedef std::vector<std::unique_ptr<Val>> Vals;
struct File { std::string path; std::unique_ptr<tpie::temp_file> tf; bool rev; Vals vals; std::string content; bool written = false; };

template <typename R> void read_file(Ctx & c, R & rd, File & f, bool fresh) {
	Rng & r = c.rng;
	size_t n = f.vals.size();
	c.op("read %s%s", f.rev ? "reverse" : "forward", fresh ? "" : " with a used reader");
	if (f.tf) rd.open(*f.tf); else rd.open(f.path);
	VF_CHECK(c, rd.size() == f.content.size(), "size", "size() is %llu, expected %zu", (unsigned long long)rd.size(), f.content.size());
	struct stat st; VF_CHECK(c, !stat(f.path.c_str(), &st) && rd.file_size() == (tpie::stream_size_type)st.st_size, "file_size", "file_size() is %llu but the file has %llu bytes", (unsigned long long)rd.file_size(), (unsigned long long)st.st_size);
	size_t stop = r.chance(70) ? n + 1 : r.below(n + 1), at = 0;
	auto state = [&](const char * when) {
		VF_CHECK(c, rd.offset() == at, "offset", "%s: offset() is %llu, expected %zu of %zu", when, (unsigned long long)rd.offset(), at, f.content.size());
		VF_CHECK(c, rd.can_read() == (at < f.content.size()), "can_read", "%s: can_read() is %d at offset %zu of %zu", when, (int)rd.can_read(), at, f.content.size());
	};
	state("after open");
	// the file's own bytes, in the order they are read
	auto expect = [&](size_t i) -> Val & { return *f.vals[f.rev ? n - 1 - i : i]; };
	for (size_t i = 0; i < n && i < stop; ++i) {
		Val & v = expect(i);
		if (r.chance(6)) { // byte-wise
			std::string b(v.bytes.size(), 0); size_t k = 0;
			while (k < b.size()) { size_t m = 1 + r.below(r.chance(50) ? 8 : b.size() - k); m = std::min(m, b.size() - k); rd.read(&b[k], m); k += m; }
			VF_CHECK(c, b == v.bytes, "bytes", "item %zu of %zu (%s, %zu bytes at offset %zu): raw bytes differ", i, n, v.name(), v.bytes.size(), at);
		} else VF_CHECK(c, v.get(rd, r), "value", "item %zu of %zu (%s, %zu bytes at offset %zu) is not what was written", i, n, v.name(), v.bytes.size(), at);
		at += v.bytes.size();
		state("after an item");
		count("values_compared");
	}
	if (stop > n) {
		for (int k = 1 + r.below(3); k; --k) {
			bool threw = false;
			try { char buf[9] = {}; size_t m = 1 + r.below(9); if (r.chance(50)) rd.read(buf, m); else { uint64_t x; rd.unserialize(x); } } catch (const tpie::end_of_stream_exception &) { threw = true; }
			VF_CHECK(c, threw, "end", "reading at the end did not throw");
			state("after reading past the end");
			count("ends_detected");
		}
	} else if (r.chance(50)) { wrong_type(rd, r); if (r.chance(50)) wrong_type(rd, r); }
	else if (r.chance(50) && at < f.content.size()) { // past the end from the middle
		std::string big(f.content.size() - at + 1 + r.below(10), 0); bool threw = false;
		try { rd.read(&big[0], big.size()); } catch (const tpie::end_of_stream_exception &) { threw = true; }
		VF_CHECK(c, threw, "end", "reading %zu bytes at %zu of %zu did not throw", big.size(), at, f.content.size());
		at = f.content.size(); state("after a long read past the end"); count("ends_detected");
	}
	if (r.chance(70)) rd.close();
}

// A failed read is reported and nothing but the file's bytes is ever delivered afterwards.
template <typename R> void failing_read(Ctx & c, File & f) {
	Rng & r = c.rng; R rd;
	std::string all; for (size_t i = 0; i < f.vals.size(); ++i) all += f.vals[f.rev ? f.vals.size() - 1 - i : i]->bytes;
	if (f.tf) rd.open(*f.tf); else rd.open(f.path);
	c.op("read with failures"); io().shortPermille = io().eintrPermille = 0; io().injected = 0;
	size_t at = 0, fails = 0;
	while (at < all.size()) {
		size_t m = std::min<size_t>(all.size() - at, 1 + r.below(r.chance(30) ? 100 : 1500000));
		std::string b(m, 0);
		if (fails < 5 && r.chance(60)) { io().failErrno = EIO; io().failReadAt = 1; if (c.tracing) fprintf(stderr, "ARM %zu %zu\n", at, m); }
		try { rd.read(&b[0], m); }
		catch (const Violation &) { throw; }
		catch (const std::exception & e) {
			VF_CHECK(c, io().injected > 0, "exception", "read at %zu of %zu failed without an injected failure: %s", at, all.size(), e.what());
			io().failReadAt = 0; io().injected = 0; ++fails; count("failed_reads"); if (c.tracing) fprintf(stderr, "FAILED READ %zu\n", at);
			size_t o = rd.offset();
			VF_CHECK(c, o >= at && o <= at + m, "offset", "after a failed read at %zu the offset is %zu", at, o);
			at = o; continue;
		}
		io().failReadAt = 0;
		VF_CHECK(c, io().injected == 0, "unreported", "a failed read of the file at %zu was not reported", at);
		VF_CHECK(c, !memcmp(b.data(), all.data() + at, m), "stale", "bytes at %zu of %zu are not those of the file after a failed read", at, all.size());
		at += m;
	}
	VF_CHECK(c, !rd.can_read(), "can_read", "can_read() at the end");
}

template <typename WR> void write_file(Ctx & c, WR & w, File & f, bool fresh) {
	Rng & r = c.rng; const size_t B = 2 << 20;
	f.vals.clear(); f.content.clear(); f.written = true;
	c.op("write %s%s%s", f.rev ? "reverse" : "forward", f.tf ? " temporary" : "", fresh ? "" : " with a used writer");
	if (f.tf) w.open(*f.tf); else w.open(f.path);
	size_t n = r.size(40), cur = 0; int big = r.chance(60) ? 0 : 1 + r.below(3);
	for (size_t i = 0; i < n; ++i) {
		wantBytes = 0;
		if (big && r.chance(25)) { // land near a block boundary
			size_t goal = (cur / B + 1 + r.below(2)) * B; int64_t w = (int64_t)(goal - cur) + r.range(-40, 40) - (r.chance(50) ? 8 : 0); wantBytes = w > 0 ? w : 1; --big;
		}
		std::unique_ptr<Val> v(make(r)); wantBytes = 0;
		VF_CHECK(c, v->size() == v->bytes.size(), "serialized_size", "serialized_size of %s is %zu, but %zu bytes were written", v->name(), v->size(), v->bytes.size());
		c.op("%s %zu", v->name(), v->bytes.size());
		v->put(w); cur += v->bytes.size(); f.content += v->bytes; f.vals.push_back(std::move(v));
		if (cur % B < 64 || cur % B > B - 64) count("near_boundary");
	}
	if (r.chance(10) && cur > 0 && cur < 3 * B) { // exactly to the boundary
		size_t rest = (B - cur % B) % B; std::vector<uint8_t> x(rest);
		struct Raw : Val { std::vector<uint8_t> v; void put(W & w) { w.serialize(v.begin(), v.end()); } void put(RW & w) { w.serialize(v.begin(), v.end()); } void put(Bytes & b) { b.write(v.data(), v.size()); } bool get(FR & rd, Rng &) { std::vector<uint8_t> x(v.size()); rd.unserialize(x.begin(), x.end()); return x == v; } bool get(RR & rd, Rng &) { std::vector<uint8_t> x(v.size()); rd.unserialize(x.begin(), x.end()); return x == v; } bool get(ByteIn & b, Rng &) { std::vector<uint8_t> x(v.size()); b.read(x.data(), x.size()); return x == v; } size_t size() { return v.size(); } const char * name() { return "fill"; } };
		std::unique_ptr<Raw> v(new Raw); for (auto & y : x) y = r.next(); v->v = x; v->bytes.assign((const char *)x.data(), x.size());
		v->put(w); f.content += v->bytes; f.vals.push_back(std::move(v)); count("exact_boundary"); c.op("fill to the boundary");
	}
	if (r.chance(3)) { // not closed: must be refused
		bool threw = false; try { if (f.rev) { RW x; tpie::serialization_reverse_reader rd; if (f.tf) rd.open(*f.tf); else rd.open(f.path); } else { tpie::serialization_reader rd; if (f.tf) rd.open(*f.tf); else rd.open(f.path); } } catch (const tpie::stream_exception &) { threw = true; }
		VF_CHECK(c, threw, "unclosed", "a stream still being written was opened for reading"); count("unclosed_refused");
	}
	w.close();
	struct stat st; VF_CHECK(c, !stat(f.path.c_str(), &st) && w.file_size() == (tpie::stream_size_type)st.st_size, "file_size", "the writer's file_size() is %llu but the file has %llu bytes", (unsigned long long)w.file_size(), (unsigned long long)st.st_size);
	count_max("blocks", (f.content.size() + B - 1) / B);
	count("values_written", f.vals.size()); count(f.rev ? "reverse_files" : "forward_files");
	if (f.vals.size() > 3) c.nontrivial = true;
}

static void bytes_case(Ctx & c) {
	Rng & r = c.rng; Vals v; Bytes b; size_t n = r.size(30);
	for (size_t i = 0; i < n; ++i) { wantBytes = r.chance(5) ? r.below(5000) : 0; v.emplace_back(make(r)); wantBytes = 0; v.back()->put(b); c.op("%s %zu", v.back()->name(), v.back()->bytes.size()); VF_CHECK(c, v.back()->size() == v.back()->bytes.size(), "serialized_size", "serialized_size of %s", v.back()->name()); }
	ByteIn i(b.s);
	for (auto & x : v) { VF_CHECK(c, x->get(i, r), "value", "%s of %zu bytes is not what was written to a byte stream", x->name(), x->bytes.size()); count("byte_values_compared"); }
	VF_CHECK(c, i.at == b.s.size(), "size", "%zu of %zu bytes read back", i.at, b.s.size());
	c.nontrivial = n > 3; count("byte_cases");
}

void vf_case(Ctx & c) {
	Rng & r = c.rng; io().reset(r.next()); wantBytes = 0;
	if (r.chance(50)) { c.describe("byte stream"); bytes_case(c); return; }
	std::string dir = scratch("c18"); wipe(dir); mkdir(dir.c_str(), 0700);
	c.describe("serialization streams");
	File f[3]; for (int i = 0; i < 3; ++i) { if (r.chance(30)) { f[i].tf.reset(new tpie::temp_file); f[i].path = f[i].tf->path(); } else f[i].path = dir + "/" + std::to_string(i); }
	if (r.chance(15)) { io().shortPermille = 300; io().eintrPermille = 200; }
	std::unique_ptr<W> w(new W); std::unique_ptr<RW> rw(new RW); std::unique_ptr<tpie::serialization_reader> rd(new tpie::serialization_reader); std::unique_ptr<tpie::serialization_reverse_reader> rr(new tpie::serialization_reverse_reader);
	for (int steps = 2 + r.below(4), k = 0; k < steps; ++k) {
		File & x = f[r.below(3)];
		if (!x.written || r.chance(25)) {
			// the readers may still hold the file
			rd->close(); rr->close();
			x.rev = r.chance(50);
			if (x.rev) { bool fresh = r.chance(40); if (fresh) rw.reset(new RW); write_file(c, *rw, x, fresh); } else { bool fresh = r.chance(40); if (fresh) w.reset(new W); write_file(c, *w, x, fresh); }
		}
		if (r.chance(5)) { // the wrong direction is refused
			bool threw = false; try { if (x.rev) { tpie::serialization_reader y; y.open(x.path); } else { tpie::serialization_reverse_reader y; y.open(x.path); } } catch (const tpie::stream_exception &) { threw = true; }
			VF_CHECK(c, threw, "direction", "a stream was opened in the wrong direction"); count("direction_refused");
		}
		if (x.rev) { bool fresh = r.chance(40); if (fresh) rr.reset(new tpie::serialization_reverse_reader); read_file(c, *rr, x, fresh); } else { bool fresh = r.chance(40); if (fresh) rd.reset(new tpie::serialization_reader); read_file(c, *rd, x, fresh); }
		if (r.chance(15)) { if (x.rev) failing_read<tpie::serialization_reverse_reader>(c, x); else failing_read<tpie::serialization_reader>(c, x); }
	}
	w.reset(); rw.reset(); rd.reset(); rr.reset();
	for (auto & x : f) x.tf.reset();
	wipe(dir);
}
