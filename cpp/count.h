// Included in front of the extension: every native allocation of the extension is counted (link with --wrap=malloc,calloc,realloc,free).
#pragma once
#include <cstdlib>
#include <new>
extern "C"
{
	__attribute__((visibility("default"))) long vf_live = 0, vf_total = 0;
	void *__real_malloc(size_t);
	void *__real_calloc(size_t, size_t);
	void *__real_realloc(void *, size_t);
	void __real_free(void *);
	void *__wrap_malloc(size_t n)
	{
		void *p = __real_malloc(n ? n : 1);
		if (p) vf_live++, vf_total++;
		return p;
	}
	void *__wrap_calloc(size_t n, size_t m)
	{
		void *p = __real_calloc(n ? n : 1, m ? m : 1);
		if (p) vf_live++, vf_total++;
		return p;
	}
	void *__wrap_realloc(void *q, size_t n)
	{
		void *p = __real_realloc(q, n ? n : 1);
		if (p && !q) vf_live++, vf_total++;
		return p;
	}
	void __wrap_free(void *p)
	{
		if (p) vf_live--;
		__real_free(p);
	}
}
static void *vf_new(size_t n)
{
	void *p = __wrap_malloc(n);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return vf_new(n); }
void *operator new[](size_t n) { return vf_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
