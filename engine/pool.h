// Small blocks for GMP from per-thread free lists.
#pragma once
#include <gmp.h>
#include <cstdlib>
#include <cstring>
namespace pool {
	struct Node { Node* next; };
	static const size_t MAXB = 256;
	static thread_local Node* fl[MAXB / 16 + 1];
	static thread_local char* cur; static thread_local size_t left;
	static inline size_t cls(size_t n) { return (n + 15) / 16; }
	static void* get(size_t n) {
		if (n > MAXB) { void* p = malloc(n); if (!p) abort(); return p; }
		size_t c = cls(n); if (!c) c = 1; Node* x = fl[c]; if (x) { fl[c] = x->next; return x; }
		size_t b = c * 16; if (left < b) { cur = (char*)malloc(1 << 16); if (!cur) abort(); left = 1 << 16; }
		void* p = cur; cur += b; left -= b; return p;
	}
	static void put(void* p, size_t n) { if (n > MAXB) { free(p); return; } size_t c = cls(n); if (!c) c = 1; Node* x = (Node*)p; x->next = fl[c]; fl[c] = x; }
	static void* re(void* p, size_t o, size_t n) { if (o <= MAXB && n <= MAXB && cls(o) == cls(n) && o) return p; if (o > MAXB && n > MAXB) { void* q = realloc(p, n); if (!q) abort(); return q; } void* q = get(n); memcpy(q, p, o < n ? o : n); put(p, o); return q; }
	static inline void install() { mp_set_memory_functions(get, re, put); }
}
