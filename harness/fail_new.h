// Injected failures of operator new in the calling thread (link with wraps of _Znwm and _Znam).
#pragma once
#include <new>
#include <cstddef>
static thread_local long failNewAt = 0;
static thread_local bool newFailed = false;
extern "C" void * __real__Znwm(size_t); extern "C" void * __real__Znam(size_t);
static inline void fail_tick() { if (failNewAt > 0 && --failNewAt == 0) { newFailed = true; throw std::bad_alloc(); } }
extern "C" void * __wrap__Znwm(size_t n) { fail_tick(); return __real__Znwm(n); }
extern "C" void * __wrap__Znam(size_t n) { fail_tick(); return __real__Znam(n); }
struct FailNew {
	FailNew(long n) { newFailed = false; failNewAt = n; }
	~FailNew() { failNewAt = 0; }
};
