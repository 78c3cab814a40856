/* the list of references (forward_reference.c): init_unresolved,
 * add_forward_ref, resize_unresolved and destroy_unresolved.  All places of
 * the list are projected on an arbitrary one, K. */
#include <stdlib.h>
#include <string.h>
static struct Unresolved *u;
static struct ForwardRef *r, *atK, **a;
long K, n0, z0;
static struct ForwardRef ref_o[1];
/* the contract of the list */
static _Bool list_ok(struct Unresolved *u)
{
	return u->curr >= 0 && u->size > u->curr && __CPROVER_rw_ok(u->refs, u->size * sizeof *u->refs) && __CPROVER_POINTER_OFFSET(u->refs) == 0;
}
#ifndef NOCUT
/* the loop that clears new places: place K, given that i places are cleared or old */
static struct ForwardRef **obj;
_Bool vp_cleared(long i)
{
	return i >= z0 && i <= 2 * z0 && (K >= i || obj[K] == (K < z0 ? atK : NULL));
}
void vp_world(int loop, int assume)
{
	INV("the list", u->size == 2 * z0 && u->curr == n0 && __CPROVER_rw_ok(u->refs, 2 * z0 * sizeof *u->refs) && u->refs == obj)
}
void vp_world_havoc(int loop, int mask)
{
	struct ForwardRef *x;
	obj = u->refs;
	__CPROVER_havoc_object(obj);
}
void vp_variant(int loop, int mask, int check) {}
void vp_enter(int loop, int mask) { obj = u->refs; }
void vp_step(int loop, int mask) {}
#endif
void harness(void)
{
	int n, z;
	long k;
	/* a new list is empty */
	struct Unresolved *f = init_unresolved();
	if (f) {
		__CPROVER_assert(list_ok(f) && f->curr == 0, "[C09,C13] a new list is empty");
		__CPROVER_assume(k >= 0 && k < f->size);
		__CPROVER_assert(f->refs[k] == NULL, "[C09,C13] a new list has only empty places");
		destroy_unresolved(f);
	}
	/* any list */
	u = malloc(sizeof *u);
	__CPROVER_assume(u != NULL);
	__CPROVER_assume(z >= 2 && z <= ZMAX && n >= 0 && n < z);
	a = malloc(z * sizeof *a);
	__CPROVER_assume(a != NULL);
	u->refs = a; u->size = z; u->curr = n;
	n0 = n; z0 = z; K = k;
	__CPROVER_assume(K >= 0 && K < 2 * (long)z);
	atK = K < z ? a[K] : NULL;
	__CPROVER_assume(K < n || K >= z || a[K] == NULL);
	struct ForwardRef *x = ref_o;
	int e = add_forward_ref(u, x);
	if (e < 0) {
		__CPROVER_assert(e == ERROR_MEMORY_ALLOCATION_FAIL, "[C11] running out of memory is reported");
		__CPROVER_assert(0, "REACH out of memory");
		return;
	}
	__CPROVER_assert(list_ok(u) && u->curr == n + 1, "[C09,C13] the list has one more reference");
	__CPROVER_assert(u->refs[n] == x, "[C09] a reference added is in the list");
	__CPROVER_assert(K == n || K >= u->size || u->refs[K] == (K < n ? atK : NULL), "[C09,C13] other places of the list are unchanged, and those after the last reference empty");
	__CPROVER_assert(0, "REACH added");
}
