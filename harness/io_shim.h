// Linker-level interposition (-Wl,--wrap=...) of the system calls TPIE's file
// accessor makes.  Only descriptors of files below the scratch directory are
// touched; everything else goes straight through.
#pragma once
#include "common.h"
#include <fcntl.h>
#include <errno.h>
#include <mutex>
#include <thread>
#include <chrono>

extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_ftruncate64(int, off_t);
int __real_close(int);
int __real_ftruncate(int, off_t);
}

namespace vf {
struct IoShim {
	std::mutex mu;
	std::map<int, std::string> fds; // scratch descriptors opened through the shim
	std::atomic<bool> own[4096] = {}; // the same as flags; relaxed, so that the shim orders nothing for the race detector
	std::atomic<uint64_t> reads{0}, writes{0}, bytesRead{0}, bytesWritten{0}, opens{0}, closes{0}, truncates{0};
	std::atomic<uint64_t> injected{0}, lost{0};
	std::atomic<int> delayPermille{0}; // probability of a short sleep before a transfer
	std::atomic<int> shortPermille{0}; // probability of transferring less than asked
	std::atomic<int> eintrPermille{0};
	// fail the n-th call (1-based) of a kind from now on; 0 = never
	std::atomic<int64_t> failWriteAt{0}, failReadAt{0}, failOpenAt{0}, failTruncAt{0}, failCloseAt{0};
	std::atomic<int> failErrno{ENOSPC};
	std::atomic<int> failSticky{0};
	std::function<void(const char *, int, const std::string &)> onEvent; // called before the call, under no lock
	std::atomic<uint64_t> rs{88172645463325252ull};
	uint64_t rnd() { uint64_t x = rs.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed); return mix(x); }
	static const auto rlx = std::memory_order_relaxed;
	bool dice(const std::atomic<int> & permille) { int p = permille.load(rlx); return p && (int)(rnd() % 1000) < p; }
	// Where each descriptor was last written to.
	struct Last { off_t at; size_t n; };
	std::map<int, Last> last;
	void wrote(int fd, size_t n) { off_t e = lseek(fd, 0, SEEK_CUR); if (e >= (off_t)n) { std::lock_guard<std::mutex> l(mu); last[fd] = Last{e - (off_t)n, n}; } }
	void lose_last(int fd) {
		Last x; { std::lock_guard<std::mutex> l(mu); auto i = last.find(fd); if (i == last.end()) return; x = i->second; }
		std::string junk(x.n, (char)0x5a);
		if (pwrite(fd, junk.data(), x.n, x.at) < 0) {}
		++lost;
	}
	void reset(uint64_t seed) {
		rs = seed; delayPermille = 0; shortPermille = 0; eintrPermille = 0;
		failWriteAt = failReadAt = failOpenAt = failTruncAt = failCloseAt = 0; failSticky = 0; injected = 0;
		onEvent = nullptr;
	}
	bool mine(int fd) { return fd >= 0 && fd < 4096 && own[fd].load(rlx); }
	std::string path(int fd) { std::lock_guard<std::mutex> l(mu); auto i = fds.find(fd); return i == fds.end() ? "" : i->second; }
	size_t open_count() { std::lock_guard<std::mutex> l(mu); return fds.size(); }
	void delay() {
		if (dice(delayPermille)) {
			uint64_t r = rnd();
			if (r % 4) std::this_thread::yield();
			else std::this_thread::sleep_for(std::chrono::microseconds(r / 4 % 200));
		}
	}
	bool trip(std::atomic<int64_t> & at) {
		int64_t v = at.load(rlx);
		while (v > 0) {
			if (at.compare_exchange_weak(v, v - 1, rlx)) {
				if (v == 1) { if (failSticky) at = 1; ++injected; return true; }
				return false;
			}
		}
		return false;
	}
};
inline IoShim & io() { static IoShim s; return s; }
// Non-zero while this thread runs shim code: allocation failures are not injected there.
inline thread_local int in_shim = 0;
struct InShim { InShim() { ++in_shim; } ~InShim() { --in_shim; } };
} // namespace vf

#ifdef VF_IO_SHIM_IMPL
extern "C" {
int __wrap_open(const char * path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	vf::InShim inShim;
	auto & s = vf::io();
	bool ours = !vf::G().scratch.empty() && strncmp(path, vf::G().scratch.c_str(), vf::G().scratch.size()) == 0;
	if (!ours) return __real_open(path, flags, mode);
	if (s.onEvent) s.onEvent("open", flags, path);
	s.delay();
	if (s.trip(s.failOpenAt)) { errno = s.failErrno; return -1; }
	int fd = __real_open(path, flags, mode);
	if (fd >= 0) { std::lock_guard<std::mutex> l(s.mu); s.fds[fd] = path; ++s.opens; s.last.erase(fd); if (fd < 4096) s.own[fd].store(true, s.rlx); }
	return fd;
}
int __wrap_close(int fd) {
	vf::InShim inShim;
	auto & s = vf::io();
	bool ours;
	std::string p;
	{ std::lock_guard<std::mutex> l(s.mu); auto i = s.fds.find(fd); ours = i != s.fds.end(); if (ours) { p = i->second; s.fds.erase(i); ++s.closes; if (fd < 4096) s.own[fd].store(false, s.rlx); } }
	if (ours && s.onEvent) s.onEvent("close", fd, p);
	// Closed, but reporting a late write error as NFS does: what was written last is lost.
	bool fails = ours && s.trip(s.failCloseAt);
	if (fails) s.lose_last(fd);
	int r = __real_close(fd);
	if (fails) { errno = s.failErrno; return -1; }
	return r;
}
// The library is compiled with 64-bit file offsets, the harness is not: both names occur.
int __wrap_open64(const char * path, int flags, ...) {
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	return __wrap_open(path, flags, mode);
}
ssize_t __wrap_read(int fd, void * b, size_t n) {
	vf::InShim inShim;
	auto & s = vf::io();
	if (!s.mine(fd)) return __real_read(fd, b, n);
	if (s.onEvent) s.onEvent("read", fd, s.path(fd));
	s.delay();
	if (s.trip(s.failReadAt)) { errno = s.failErrno; return -1; }
	if (s.dice(s.eintrPermille)) { ++s.injected; errno = EINTR; return -1; }
	if (n > 1 && s.dice(s.shortPermille)) { n = 1 + s.rnd() % (n - 1); ++s.injected; }
	ssize_t r = __real_read(fd, b, n);
	s.reads.fetch_add(1, s.rlx); if (r > 0) s.bytesRead.fetch_add(r, s.rlx);
	return r;
}
ssize_t __wrap_write(int fd, const void * b, size_t n) {
	vf::InShim inShim;
	auto & s = vf::io();
	if (!s.mine(fd)) return __real_write(fd, b, n);
	if (s.onEvent) s.onEvent("write", fd, s.path(fd));
	s.delay();
	if (s.trip(s.failWriteAt)) { errno = s.failErrno; return -1; }
	if (s.dice(s.eintrPermille)) { ++s.injected; errno = EINTR; return -1; }
	if (n > 1 && s.dice(s.shortPermille)) { n = 1 + s.rnd() % (n - 1); ++s.injected; }
	ssize_t r = __real_write(fd, b, n);
	if (r > 0 && s.failCloseAt.load(s.rlx) > 0) s.wrote(fd, (size_t)r);
	s.writes.fetch_add(1, s.rlx); if (r > 0) s.bytesWritten.fetch_add(r, s.rlx);
	return r;
}
int __wrap_ftruncate(int fd, off_t n) {
	vf::InShim inShim;
	auto & s = vf::io();
	if (!s.mine(fd)) return __real_ftruncate(fd, n);
	if (s.onEvent) s.onEvent("ftruncate", fd, s.path(fd));
	s.delay();
	if (s.trip(s.failTruncAt)) { errno = s.failErrno; return -1; }
	++s.truncates;
	return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
}
#endif
