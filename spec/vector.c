/* The growable-array macros of core/include/c_include/vector.h, instantiated (probe functions use the repository's
   macros as they stand) and defined independently (spec_ functions).  Never run. */
#include "spec.h"
#include "c_include/vector.h"


#define HDR(v) ((size_t *)(v))
#define CAP(v) (HDR(v)[-1])
#define LEN(v) (HDR(v)[-2])

#define PROBE(T, N)                                                                                  \
	T *vector_grow__##N(T *v, size_t n) { vector_grow(v, n); return v; }                             \
	T *spec_vector_grow__##N(T *v, size_t n)                                                         \
	{                                                                                                \
		size_t *p;                                                                                   \
		if (v == NULL) {                                                                             \
			p = (size_t *)malloc(n * sizeof(T) + 16);                                                \
			if (p == NULL) abort();                                                                  \
			p[1] = n;                                                                                \
			p[0] = 0;                                                                                \
		} else {                                                                                     \
			p = (size_t *)realloc(HDR(v) - 2, n * sizeof(T) + 16);                                   \
			if (p == NULL) abort();                                                                  \
			p[1] = n;                                                                                \
		}                                                                                            \
		return (T *)(p + 2);                                                                         \
	}                                                                                                \
	T *vector_push_back__##N(T *v, T x) { vector_push_back(v, x); return v; }                        \
	T *spec_vector_push_back__##N(T *v, T x)                                                            \
	{                                                                                                   \
		size_t cap = v == NULL ? 0 : CAP(v), len = v == NULL ? 0 : LEN(v);                                 \
		if (cap <= len)                                                                                    \
		{                                                                                                  \
			size_t c = cap == 0 ? cap + 1 : 2 * cap, *p;                                                          \
			if (v == NULL) {                                                                                  \
				p = (size_t *)malloc(c * sizeof(T) + 16);                                                        \
				if (p == NULL) abort();                                                                          \
				p[1] = c;                                                                                        \
				p[0] = 0;                                                                                        \
			} else {                                                                                          \
				p = (size_t *)realloc(HDR(v) - 2, c * sizeof(T) + 16);                                           \
				if (p == NULL) abort();                                                                          \
				p[1] = c;                                                                                        \
			}                                                                                                 \
			v = (T *)(p + 2);                                                                                 \
		}                                                                                                  \
		v[LEN(v)] = x;                                                                                     \
		LEN(v) = LEN(v) + 1;                                                                               \
		return v;                                                                                          \
	}                                                                                                   \
	size_t vector_size__##N(T *v) { return vector_size(v); }                                         \
	size_t spec_vector_size__##N(T *v) { return v == NULL ? 0 : LEN(v); }                            \
	size_t vector_capacity__##N(T *v) { return vector_capacity(v); }                                 \
	size_t spec_vector_capacity__##N(T *v) { return v == NULL ? 0 : CAP(v); }                        \
	int vector_empty__##N(T *v) { return vector_empty(v); }                                          \
	int spec_vector_empty__##N(T *v) { return v == NULL || LEN(v) == 0; }                            \
	T *vector_begin__##N(T *v) { return vector_begin(v); }                                           \
	T *spec_vector_begin__##N(T *v) { return v; }                                                    \
	T *vector_end__##N(T *v) { return vector_end(v); }                                               \
	T *spec_vector_end__##N(T *v) { return v == NULL ? NULL : v + LEN(v); }                          \
	void vector_pop_back__##N(T *v) { vector_pop_back(v); }                                          \
	void spec_vector_pop_back__##N(T *v) { if (v != NULL) LEN(v) = LEN(v) - 1; }                     \
	void vector_erase__##N(T *v, size_t k) { vector_erase(v, k); }                                   \
	void spec_vector_erase__##N(T *v, size_t k)                                                      \
	{                                                                                                \
		if (v == NULL || k >= LEN(v))                                                                \
			return;                                                                                  \
		size_t n = LEN(v) - 1;                                                                       \
		LEN(v) = n;                                                                                  \
		for (size_t i = k; i < n; i++)                                                               \
			v[i] = v[i + 1];                                                                         \
	}                                                                                                \
	T *vector_init__##N(T *v, T x, size_t n) { vector_init(v, x, n); return v; }                        \
	T *spec_vector_init__##N(T *v, T x, size_t n)                                                       \
	{                                                                                                   \
		if (v != NULL)                                                                                     \
			free(HDR(v) - 2);                                                                                 \
		v = NULL;                                                                                          \
		for (size_t i = 0; i < n; i++)                                                                     \
			v = spec_vector_push_back__##N(v, x);                                                              \
		return v;                                                                                          \
	}                                                                                                   \
	T *vector_free__##N(T *v) { vector_free(v); return v; }                                          \
	T *spec_vector_free__##N(T *v) { if (v != NULL) free(HDR(v) - 2); return NULL; }

PROBE(int, int)
PROBE(double, double)
PROBE(char, char)
