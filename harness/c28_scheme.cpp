// C28: compression schemes round-trip, stay within their bounds and reject what is not theirs.
// Oracle: the block itself, and a decoder of the snappy format written here from its description.
#include "common.h"
#include <tpie/compressed/scheme.h>
#include <tpie/exception.h>
#include <thread>
using namespace vf;
typedef tpie::compression_scheme S;
typedef std::vector<unsigned char> Bytes;

// A destination with guards around it.
struct Guarded {
	static const size_t G = 96;
	Bytes b; size_t n;
	explicit Guarded(size_t n) : b(n + 2 * G, 0xA5), n(n) {}
	char * p() { return (char *)b.data() + G; }
	void intact(Ctx & c, const char * what, size_t used) {
		for (size_t i = 0; i < G; ++i)
			VF_CHECK(c, b[i] == 0xA5 && b[G + n + i] == 0xA5, "outside", "%s wrote outside its destination of %zu bytes", what, n);
		(void)used;
	}
};

// What a snappy block means. Returns false when it is malformed.
static bool ref_length(const Bytes & s, size_t & pos, uint64_t & len) {
	len = 0; pos = 0;
	for (int shift = 0; shift < 35; shift += 7) {
		if (pos >= s.size()) return false;
		unsigned v = s[pos++];
		if (shift == 28 && v > 15) return false;
		len |= (uint64_t)(v & 127) << shift;
		if (!(v & 128)) return true;
	}
	return false;
}
static bool ref_decode(const Bytes & s, Bytes & out) {
	size_t p; uint64_t len; out.clear();
	if (!ref_length(s, p, len)) return false;
	while (p < s.size()) {
		unsigned tag = s[p++]; uint64_t n, off;
		if ((tag & 3) == 0) {
			n = (tag >> 2) + 1;
			if (n > 60) {
				size_t extra = n - 60; if (p + extra > s.size()) return false;
				n = 0; for (size_t i = 0; i < extra; ++i) n |= (uint64_t)s[p + i] << (8 * i);
				n += 1; p += extra;
			}
			if (n > s.size() - p || n > len - out.size()) return false;
			out.insert(out.end(), s.begin() + p, s.begin() + p + n); p += n;
			continue;
		}
		size_t extra = (tag & 3) == 1 ? 1 : (tag & 3) == 2 ? 2 : 4;
		if (p + extra > s.size()) return false;
		off = 0; for (size_t i = 0; i < extra; ++i) off |= (uint64_t)s[p + i] << (8 * i);
		p += extra;
		if ((tag & 3) == 1) { n = ((tag >> 2) & 7) + 4; off |= (uint64_t)(tag >> 5) << 8; }
		else n = (tag >> 2) + 1;
		if (off == 0 || off > out.size() || n > len - out.size()) return false;
		for (uint64_t i = 0; i < n; ++i) out.push_back(out[out.size() - off]);
	}
	return out.size() == len;
}

static Bytes block_of(Ctx & c, size_t n) {
	Rng & r = c.rng; Bytes b(n);
	switch (r.below(6)) {
	case 0: for (auto & x : b) x = (unsigned char)r.next(); break;
	case 1: { unsigned char v = (unsigned char)r.next(); for (auto & x : b) x = v; break; }
	case 2: { size_t per = 1 + r.below(300); for (size_t i = 0; i < n; ++i) b[i] = i < per ? (unsigned char)r.next() : b[i - per]; break; }
	case 3: for (auto & x : b) x = "ab "[r.below(3)]; break;
	case 4: for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)(i % 8 == 0 ? i / 8 : i % 8 == 1 ? i / 2048 : 0); break;
	default:
		for (size_t i = 0; i < n;) {
			size_t run = 1 + r.below(100), back = i ? 1 + r.below(std::min<size_t>(i, 70000)) : 0;
			bool lit = !i || r.chance(40); unsigned char v = (unsigned char)r.next();
			for (; run && i < n; --run, ++i) b[i] = lit ? (unsigned char)(v += 17) : b[i - back];
		}
	}
	return b;
}
static size_t size_of(Rng & r) {
	switch (r.below(10)) {
	case 0: return 0;
	case 1: return 1 + r.below(20);
	case 2: return 1ull << r.below(17);
	case 3: return (1ull << r.range(1, 16)) - 1 + r.below(3);
	case 4: return 65536 + r.below(5) - 2;
	case 5: return 65536 * r.range(1, 3) + r.below(100);
	case 6: return r.below(200000);
	default: return r.below(5000);
	}
}

static const S & scheme_of(bool snappy) { return tpie::get_compression_scheme(snappy ? S::snappy : S::none); }

static Bytes round_trip(Ctx & c, bool snappy, const Bytes & src) {
	const S & s = scheme_of(snappy);
	size_t bound = s.max_compressed_length(src.size());
	VF_CHECK(c, bound >= src.size(), "bound", "the bound for %zu bytes is %zu", src.size(), bound);
	Bytes in(src); in.reserve(1); Guarded d(bound);
	size_t len = 0x5EADBEEF;
	s.compress(d.p(), (const char *)in.data(), in.size(), &len);
	VF_CHECK(c, in == src, "source_changed", "compressing changed the source");
	VF_CHECK(c, len <= bound, "bound", "%zu bytes compressed to %zu, the bound is %zu", src.size(), len, bound);
	d.intact(c, "compress", len);
	// an exact copy of the compressed block: reading past it is seen
	Bytes packed(d.p(), d.p() + len); // (its address is never null)
	 packed.shrink_to_fit(); packed.reserve(1);
	size_t ul = s.uncompressed_length((const char *)packed.data(), packed.size());
	VF_CHECK(c, ul == src.size(), "length", "the length of %zu bytes is reported as %zu", src.size(), ul);
	Guarded o(ul);
	s.uncompress(o.p(), (const char *)packed.data(), packed.size());
	o.intact(c, "uncompress", ul);
	VF_CHECK(c, std::equal(src.begin(), src.end(), (unsigned char *)o.p()), "round_trip", "%zu bytes did not come back", src.size());
	if (snappy) {
		Bytes ref;
		VF_CHECK(c, ref_decode(packed, ref) && ref == src, "format", "the block of %zu bytes does not decode by the format's rules", src.size());
	}
	count(snappy ? "round_trips_snappy" : "round_trips_none"); count("bytes", src.size());
	if (snappy && len < src.size()) count("compressed_smaller");
	if (snappy && len > src.size()) count("compressed_larger");
	if (snappy && src.size() > 65536) count("several_fragments");
	if (src.empty()) count("empty_blocks");
	return packed;
}

static void damaged(Ctx & c, Bytes b) {
	const S & s = scheme_of(true); b.shrink_to_fit(); b.reserve(1);
	size_t p; uint64_t len; bool okLen = ref_length(b, p, len);
	uint64_t got = 0; bool threw = false;
	try { got = s.uncompressed_length((const char *)b.data(), b.size()); }
	catch (const tpie::stream_exception &) { threw = true; }
	if (!okLen) { VF_CHECK(c, threw, "accepted_length", "a length was read from a malformed header"); count("bad_headers"); return; }
	VF_CHECK(c, !threw && got == len, "length", "the announced length %llu is reported as %llu", (unsigned long long)len, (unsigned long long)got);
	if (len > (4u << 20)) { count("huge_announced"); return; }
	Bytes ref; bool ok = ref_decode(b, ref);
	Guarded o(len); threw = false;
	try { s.uncompress(o.p(), (const char *)b.data(), b.size()); }
	catch (const tpie::stream_exception &) { threw = true; }
	o.intact(c, "uncompress of malformed data", len);
	VF_CHECK(c, threw == !ok, threw ? "rejected" : "accepted", threw ? "a well-formed block of %zu bytes was rejected" : "a malformed block of %zu bytes was accepted", b.size());
	if (ok) VF_CHECK(c, std::equal(ref.begin(), ref.end(), (unsigned char *)o.p()), "wrong_data", "a block did not decode to its meaning");
	count(ok ? "altered_still_valid" : "malformed_rejected");
}

static void one(Ctx & c) {
	Rng & r = c.rng; bool snappy = r.chance(75);
	size_t n = size_of(r); Bytes src = block_of(c, n);
	c.op("%s %zu bytes", snappy ? "snappy" : "none", n);
	c.nontrivial = true;
	Bytes packed = round_trip(c, snappy, src);
	if (!snappy) return;
	int tries = 1 + (int)r.below(12);
	for (int t = 0; t < tries; ++t) {
		Bytes b = packed;
		int kind = (int)r.below(8); c.op("damage %d", kind);
		switch (kind) {
		case 0: if (!b.empty()) b.resize(r.below(b.size())); break;
		case 1: for (int k = 1 + (int)r.below(3); k && !b.empty(); --k) b[r.below(std::min<size_t>(b.size(), r.chance(50) ? 12 : ~0ul))] ^= 1u << r.below(8); break;
		case 2: if (!b.empty()) b.erase(b.begin() + r.below(b.size())); break;
		case 3: b.insert(b.begin() + r.below(b.size() + 1), (unsigned char)r.next()); break;
		case 4: { Bytes t2 = block_of(c, r.below(40)); b.insert(b.end(), t2.begin(), t2.end()); break; }
		case 5: b.resize(r.below(60)); for (auto & x : b) x = (unsigned char)r.next(); if (b.size() > 1 && r.chance(70)) b[0] &= 127; break;
		case 6: b.resize(r.below(8)); for (auto & x : b) x = (unsigned char)(0x80 | r.next()); break;
		default: // another length, the same data
			if (!b.empty()) {
				size_t p; uint64_t len; ref_length(b, p, len); b.erase(b.begin(), b.begin() + p);
				uint64_t v = r.chance(50) ? len + r.below(5) - 2 : r.below(2 * len + 3); v &= 0xffffffffu;
				Bytes h; while (v > 127) { h.push_back((unsigned char)(v | 128)); v >>= 7; } h.push_back((unsigned char)v);
				b.insert(b.begin(), h.begin(), h.end());
			}
		}
		damaged(c, b);
	}
}

void vf_case(Ctx & c) {
	Rng & r = c.rng;
	if (r.chance(96)) { one(c); return; }
	// the schemes are shared objects: several threads use them at once
	std::vector<std::function<void(Ctx &)>> v;
	for (int t = 2 + (int)r.below(3); t; --t) v.push_back([](Ctx & k) { one(k); one(k); });
	run_threads(c, v); count("threaded");
}
