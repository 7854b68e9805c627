/* Contract model of uthash (insertion-ordered finite map with byte-string keys)
 * for the symbolic build only; the native replay uses the real uthash.h. */
#ifndef UTHASH_H
#define UTHASH_H
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#ifndef VF_HMAX
#define VF_HMAX 8
#endif
typedef struct UT_hash_handle { void *next, *prev; const void *key; unsigned keylen; unsigned n; } UT_hash_handle;
static inline int vf_keyeq(const char *a, unsigned la, const char *b, unsigned lb)
{
	if (la != lb) return 0;
	for (unsigned i = 0; i < la; i++) if (a[i] != b[i]) return 0;
	return 1;
}
#define HASH_FIND(hh, head, keyptr, klen, out) do { \
	const char *vf_k = (const char *)(keyptr); unsigned vf_l = (unsigned)(klen); \
	(out) = (head); \
	for (unsigned vf_i = 0; vf_i < VF_HMAX; vf_i++) { \
		if (!(out)) break; \
		if (vf_keyeq((const char *)(out)->hh.key, (out)->hh.keylen, vf_k, vf_l)) break; \
		(out) = (__typeof__(out))(out)->hh.next; \
		if (vf_i + 1 == VF_HMAX) __CPROVER_assert(!(out), "B:hash table larger than the model bound"); \
	} \
} while (0)
#define HASH_FIND_STR(head, s, out) HASH_FIND(hh, head, s, strlen(s), out)
#define HASH_ADD_KEYPTR(hh, head, keyptr, klen, add) do { \
	(add)->hh.key = (keyptr); (add)->hh.keylen = (unsigned)(klen); (add)->hh.next = 0; (add)->hh.prev = 0; \
	if (!(head)) { (head) = (add); (add)->hh.n = 1; } else { \
		__typeof__(head) vf_t = (head); \
		for (unsigned vf_i = 0; vf_i < VF_HMAX; vf_i++) { \
			if (!vf_t->hh.next) break; \
			vf_t = (__typeof__(head))vf_t->hh.next; \
			if (vf_i + 1 == VF_HMAX) __CPROVER_assert(!vf_t->hh.next, "B:hash table larger than the model bound"); \
		} \
		vf_t->hh.next = (add); (add)->hh.prev = vf_t; (head)->hh.n++; } \
} while (0)
#define HASH_CNT(hh, head) ((head) ? (head)->hh.n : 0u)
#define HASH_COUNT(head) HASH_CNT(hh, head)
#define HASH_ITER(hh, head, el, tmp) \
	for ((el) = (head), (tmp) = (__typeof__(el))((head) ? (head)->hh.next : 0); (el); \
	     (el) = (tmp), (tmp) = (__typeof__(el))((tmp) ? (tmp)->hh.next : 0))
#define HASH_DELETE(hh, head, d) do { \
	__typeof__(head) vf_p = (__typeof__(head))(d)->hh.prev, vf_x = (__typeof__(head))(d)->hh.next; \
	if (vf_x) vf_x->hh.prev = vf_p; \
	if (vf_p) { vf_p->hh.next = vf_x; (head)->hh.n--; } \
	else { if (vf_x) vf_x->hh.n = (head)->hh.n - 1; (head) = vf_x; } \
} while (0)
#define HASH_DEL(head, d) HASH_DELETE(hh, head, d)
#endif
