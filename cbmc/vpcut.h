/* macros used by the heads loopcut.py inserts */
#ifndef VPCUT_H
#define VPCUT_H
#define VPC(n, m, e, t) { if (VPON_##n) { VPC_##m(e, t) } }
#define VPP(n, v, e) { if (VPON_##n) { if (vp_as_##v) __CPROVER_assume(v == e); else { v = e; vp_as_##v = 1; } } }
#define VPC_A(e, t) __CPROVER_assert(e, t);
#define VPC_S(e, t) __CPROVER_assume(e);
void vp_world(int loop, int assume), vp_world_havoc(int loop, int mask), vp_variant(int loop, int mask, int check);
/* VPMASK_<loop> is 0 for a loop that assigns only local variables */
#ifdef VP_STEPPING
void vp_enter(int loop, int mask), vp_step(int loop, int mask);
#else
#define vp_enter(loop, mask)
#define vp_step(loop, mask)
#endif
#define VP_ENTRY(l) { vp_enter(VPID_##l, VPMASK_##l); if (VPMASK_##l) vp_world(VPID_##l, 0); }
#define VP_MID(l)
#define VP_HAVOC(l) { if (VPMASK_##l) vp_world_havoc(VPID_##l, VPMASK_##l); }
#define VP_ASSUME(l) { if (VPMASK_##l) { vp_world(VPID_##l, 1); vp_variant(VPID_##l, VPMASK_##l, 0); } }
#define VP_STEP(l) { vp_step(VPID_##l, VPMASK_##l); if (VPMASK_##l) { vp_world(VPID_##l, 0); vp_variant(VPID_##l, VPMASK_##l, 1); } }
#define VP_CUT __CPROVER_assume(0);
/* one conjunct of the world invariant */
#ifdef FIRST
#define INV(name, e) { if (!assume) __CPROVER_assert(e, "invariant: " name); __CPROVER_assume(e); }
#else
#define INV(name, e) { if (assume) __CPROVER_assume(e); else __CPROVER_assert(e, "invariant: " name); }
#endif
#endif
