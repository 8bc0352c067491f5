// Spurious wakeups: POSIX and C++ allow a wait on a condition variable to
// return without a notification, so a waiter has to look at its condition
// again.  Now and then a wait here does just that: it gives up the mutex for a
// moment, without waiting, and returns.
#pragma once
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
namespace vf {
inline std::atomic<unsigned> spuriousPercent{0};
inline std::atomic<uint64_t> spuriousWakeups{0}, condWaits{0};
inline thread_local uint32_t spuriousState = 0;
inline bool spurious_now() {
	unsigned p = spuriousPercent.load(std::memory_order_relaxed); if (!p) return false;
	if (!spuriousState) spuriousState = 0x9e3779b9u ^ (uint32_t)(uintptr_t)&spuriousState;
	spuriousState ^= spuriousState << 13; spuriousState ^= spuriousState >> 17; spuriousState ^= spuriousState << 5;
	return spuriousState % 100 < p;
}
}
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VF_TSAN_COND 1
#endif
#endif
#ifdef VF_TSAN_COND
extern "C" int __interceptor_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
#endif
extern "C" __attribute__((visibility("default"))) int pthread_cond_wait(pthread_cond_t * cond, pthread_mutex_t * m) {
	vf::condWaits.fetch_add(1, std::memory_order_relaxed);
	if (vf::spurious_now()) {
		vf::spuriousWakeups.fetch_add(1, std::memory_order_relaxed);
		pthread_mutex_unlock(m);
		if (vf::spuriousState & 0x30000) sched_yield(); else usleep(20 + (vf::spuriousState >> 20) % 100);
		pthread_mutex_lock(m);
		return 0;
	}
#ifdef VF_TSAN_COND
	return __interceptor_pthread_cond_wait(cond, m);
#else
	using F = int (*)(pthread_cond_t *, pthread_mutex_t *);
	static std::atomic<F> real{nullptr};
	F f = real.load(std::memory_order_acquire);
	if (!f) { f = (F)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); if (!f) f = (F)dlsym(RTLD_NEXT, "pthread_cond_wait"); real.store(f, std::memory_order_release); }
	return f(cond, m);
#endif
}
#include "common.h"
namespace vf {
struct Spurious { // for the length of a case
	uint64_t before = spuriousWakeups, waits = condWaits;
	Spurious(Rng & r) { spuriousPercent = (unsigned)r.pick({0, 0, 20, 60}); }
	~Spurious() { spuriousPercent = 0; count("spurious_wakeups", spuriousWakeups - before); count("waits", condWaits - waits); }
};
}
