/* Primitives on whole sequences: replaceFrom:to:with:startingAt:, =, hash, indexOf:startingAt:,
   shallowCopy, new:, Character value:.
   SHP, SHP2: element shapes as in objaccess.c; FIX: fixed fields of the receiver.  */
#ifndef MAXEL
#define MAXEL 4
#endif
#ifndef SHP
#define SHP 1
#endif
#ifndef SHP2
#define SHP2 SHP
#endif
#ifndef FIX
#define FIX 0
#endif
#ifndef FIX2
#define FIX2 FIX
#endif
#define SZOF(s) ((s) < 3 ? 1 : (s) < 5 ? 2 : (s) < 8 || (s) == 11 ? 4 : 8)
#define SZ SZOF (SHP)
#define DATAW ((FIX > FIX2 ? FIX : FIX2) + MAXEL)
#define VP_WORDS (DATAW + 2 < 5 ? 5 : DATAW + 2)
#define VP_NOBJ 6
#define VP_SPLIT
#ifdef VP_CBMC
#define VP_DATAN (VP_WORDS - 2)
#include <stddef.h>
typedef __typeof__ (__builtin_choose_expr (SZ == 1, (unsigned char) 0, __builtin_choose_expr (SZ == 2, (unsigned short) 0, __builtin_choose_expr (SZ == 4, 0u, 0ul)))) vp_el;
static void *vp_memmove (void *a, const void *b, size_t n)
{
  vp_el t[MAXEL + FIX], *d = a; const vp_el *s = b; int i;
  __CPROVER_assert (n % SZ == 0 && n / SZ <= MAXEL + FIX, "VP: moves whole elements");
  for (i = 0; i < MAXEL + FIX; i++) if (i < n / SZ) t[i] = s[i];
  for (i = 0; i < MAXEL + FIX; i++) if (i < n / SZ) d[i] = t[i];
  return a;
}
static void *vp_memcpy (void *a, const void *b, size_t n)	/* of whole objects */
{
  unsigned long *d = a; const unsigned long *s = b; int i;
  __CPROVER_assert (n % 8 == 0 && n / 8 <= VP_WORDS, "VP: copies whole words");
  for (i = 0; i < VP_WORDS; i++) if (i < n / 8) d[i] = s[i];
  return a;
}
static int vp_memcmp (const void *a, const void *b, size_t n)
{
  const unsigned char *x = a, *y = b; int i;
  for (i = 0; i < VP_WORDS * 8; i++) if (i < n && x[i] != y[i]) return 1;
  return 0;
}
static void *vp_memchr (const void *a, int c, size_t n)
{
  const unsigned char *x = a; int i;
  for (i = 0; i < VP_WORDS * 8; i++) if (i < n && x[i] == (unsigned char) c) return (void *) &x[i];
  return NULL;
}
static void *vp_memset (void *a, int c, size_t n) { unsigned char *x = a; int i; for (i = 0; i < VP_WORDS * 8; i++) if (i < n) x[i] = c; return a; }
#include <string.h>
#define memmove vp_memmove
#define memcpy vp_memcpy
#define memcmp vp_memcmp
#define memchr vp_memchr
#define memset vp_memset
#endif
#include "gstpriv.h"
#include "dict.c"
#include "sym.c"
#include "interp.c"
#include "vp.h"
#undef memmove
#undef memcpy
#undef memcmp
#undef memchr
#undef memset
static struct oop_s objtab[VP_NOBJ + 1 - FIRST_OOP_INDEX];
#define vp_ot (objtab - FIRST_OOP_INDEX)
#include "vpheap.h"
static OOP stk[8];
#define SHAPEOF(s) ((s) == 12 ? GST_ISP_POINTER : GST_ISP_SCHAR + 2 * (s))
#ifdef VP_CBMC
const char _gst_log2_sizes[32] = { 0, -1, 0, -1, 0, -1, 1, -1, 1, -1, 2, -1, 2, -1, 2, -1, 3, -1, 3, -1, 3, -1, 2, -1, -1, -1, -1, -1, -1, -1, 3, -1 };
#endif
static intptr_t anyint (void) { return ND_RANGE (MIN_ST_INT, MAX_ST_INT); }
static uintptr_t *W (OOP o) { return (uintptr_t *) OOP_TO_OBJ (o); }
static OOP mk (int cls, int shp, int fix, int n)
{
  OOP c = vp_class (cls, SHAPEOF (shp), fix), o; int sz = SZOF (shp), i, tot = fix * 8 + n * sz, al = (tot + 7) / 8;
  o = vp_new (c, al);
  if (sz < 8) INIT_UNALIGNED_OBJECT (o, al * 8 - tot);
  for (i = 0; i < VP_WORDS - 2; i++)
    W (o)[2 + i] = shp == 12 ? (uintptr_t) FROM_INT (anyint ()) : (uintptr_t) ND ();
  return o;
}
/* element I (from 0) as raw bits */
static uint64_t el (uintptr_t *w, int shp, int fix, int i)
{
  int sz = SZOF (shp); uint64_t x; int b = i * sz;
  x = w[2 + fix + b / 8] >> (b % 8 * 8);
  return sz == 8 ? x : x & (((uint64_t) 1 << sz * 8) - 1);
}
static void save (OOP o, uintptr_t *w) { int i; for (i = 0; i < VP_WORDS; i++) w[i] = W (o)[i]; }
static int same (OOP o, uintptr_t *w) { int i; for (i = 0; i < VP_WORDS; i++) if (W (o)[i] != w[i]) return 0; return 1; }
static void init (void) { vp_init (); vp_nobj = 0; _gst_mem.ot = vp_ot; }
#define BOT ((OOP) 0x1234560)

/* ---- replaceFrom: A to: B with: src startingAt: C */
static uintptr_t d0[VP_WORDS], s0[VP_WORDS];
static void replace (int alias)
{
  OOP dst, src; intptr_t a = anyint (), b = anyint (), c = anyint (), len; int dn, sn, i, f, ro = ND_BOOL (), ok, compat;
  init ();
  dn = ND_RANGE (0, MAXEL); sn = ND_RANGE (0, MAXEL);
  dst = mk (VPC_USER, SHP, FIX, dn);
  src = alias ? dst : mk (VPC_USER2, SHP2, FIX2, sn);
  if (alias) sn = dn;
  if (ro) dst->flags |= F_READONLY;
  save (dst, d0); save (src, s0);
  stk[0] = BOT; stk[1] = dst; stk[2] = FROM_INT (a); stk[3] = FROM_INT (b); stk[4] = src; stk[5] = FROM_INT (c); sp = &stk[5];
  f = VMpr_ArrayedCollection_replaceFromToWithStartingAt (0, 4);
  len = b - a + 1;
  ok = len >= 0 && a >= 1 && b <= dn && (len == 0 || c >= 1) && c + len - 1 <= sn && !ro;
  compat = SZ == SZOF (SHP2) && (SHP == 12) == (SHP2 == 12) && !(FIX2 && !FIX);
  if (f)
    {
      CHECK (!(ok && compat && len), "a valid replacement is done");
      CHECK (sp == &stk[5] && stk[0] == BOT && stk[1] == dst && stk[2] == FROM_INT (a) && stk[3] == FROM_INT (b) && stk[4] == src && stk[5] == FROM_INT (c), "operands intact for the general method");
      CHECK (same (dst, d0), "a rejected replacement changes nothing");
    }
  else
    {
      CHECK (compat, "elements of different representation are not copied");
      CHECK (!ro || len <= 0, "a read-only receiver is rejected");
      CHECK (ok || len == 0, "positions outside the sequences are rejected");
      CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == dst, "answers the receiver");
      ASSUME (ok);
      for (i = 0; i < MAXEL; i++)
        {
          uint64_t was = el (d0, SHP, FIX, i), is = el (W (dst), SHP, FIX, i);
          if (i < dn)
            {
              if (i + 1 >= a && i + 1 <= b)
                { int k = i + 1 - a + c - 1; ASSUME (k >= 0 && k < MAXEL); CHECK (is == el (s0, SHP2, FIX2, k), "each position gets its element"); }
              else CHECK (is == was, "other positions keep theirs");
            }
        }
      for (i = 0; i < FIX + 2; i++) CHECK (W (dst)[i] == d0[i], "nothing else changes");
    }
  CHECK (alias || same (src, s0), "the source is left alone");
  WITNESS ();
}
void h_replace (void) { replace (0); }
void h_replace_self (void) { replace (1); }
void h_replace_args (void)
{
  OOP dst, src; int k = ND_RANGE (1, 4), f; init ();
  dst = mk (VPC_USER, SHP, FIX, 2); src = mk (VPC_USER2, SHP2, FIX2, 2); save (dst, d0);
  stk[0] = BOT; stk[1] = dst; stk[2] = FROM_INT (1); stk[3] = FROM_INT (2); stk[4] = src; stk[5] = FROM_INT (1); sp = &stk[5];
  if (k == 3) stk[4] = FROM_INT (anyint ()); else stk[k + 1] = vp_new (vp_class (VPC_USER3, GST_ISP_FIXED, 1), 1);
  f = VMpr_ArrayedCollection_replaceFromToWithStartingAt (0, 4);
  CHECK (f && sp == &stk[5] && same (dst, d0), "indices and sources of the wrong kind are rejected");
  WITNESS ();
}
/* ---- = and hash */
void h_equal (void)
{
  OOP a, b; int n, m, i, eq, f, k = ND_RANGE (0, 2); init ();
  n = ND_RANGE (0, MAXEL); m = ND_RANGE (0, MAXEL);
  a = mk (VPC_USER, SHP, FIX, n); b = mk (k == 1 ? VPC_USER2 : VPC_USER, SHP, FIX, m);
  if (k == 2) b = FROM_INT (anyint ());
  stk[0] = BOT; stk[1] = a; stk[2] = b; sp = &stk[2];
  f = VMpr_ArrayedCollection_equal (0, 1);
  eq = n == m;
  if (k != 2) for (i = 0; i < MAXEL; i++) if (i < n && i < m && el (W (a), SHP, FIX, i) != el (W (b), SHP, FIX, i)) eq = 0;
  if (f) { CHECK (k || FIX, "collections of one class are compared"); CHECK (sp == &stk[2] && stk[1] == a && stk[2] == b && stk[0] == BOT, "operands intact"); }
  else { CHECK (k == 0, "objects of different classes are left to the general method");
         CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == (eq ? _gst_true_oop : _gst_false_oop), "equal exactly when size and all elements are"); }
  WITNESS ();
}
#ifndef LEN
#define LEN 3
#endif
void h_hash (void)
{
  OOP a, b; int i, h1, h2; OOP r; init ();
  a = mk (VPC_USER, SHP, 0, LEN); b = mk (VPC_USER2, SHP, 0, LEN);
  for (i = 0; i < (LEN + 7) / 8; i++)
    { uintptr_t m = i * 8 + 8 <= LEN ? ~(uintptr_t) 0 : ((uintptr_t) 1 << LEN % 8 * 8) - 1;
      W (b)[2 + i] = (W (a)[2 + i] & m) | ((uintptr_t) ND () & ~m); }
  stk[0] = BOT; stk[1] = a; sp = &stk[1]; h1 = VMpr_String_hash (0, 0); r = stk[1];
  CHECK (!h1 && sp == &stk[1] && IS_INT (r) && stk[0] == BOT, "answers a SmallInteger");
  stk[1] = b; h2 = VMpr_String_hash (0, 0);
  CHECK (!h2 && stk[1] == r, "equal contents have equal hashes");
  WITNESS ();
}
/* ---- indexOf:startingAt: (ifAbsent:) */
static struct { OBJ_HEADER; OOP cp; } chobj;
void h_index (void)
{
  OOP a, t; int n, i, f, want = 0, k = ND_RANGE (0, 2), na = 2 + ND_BOOL (); intptr_t at = anyint (), v = anyint (), x; init ();
  n = ND_RANGE (0, MAXEL);
  a = mk (VPC_USER, SHP, FIX, n); save (a, s0);
  if (k == 1)
    { v = ND_RANGE (0, 255); t = CHAR_OOP_AT (v); t->object = (gst_object) &chobj; chobj.objClass = _gst_char_class; chobj.cp = FROM_INT (v); }
  else if (k == 2) t = vp_new (vp_class (VPC_USER3, GST_ISP_FIXED, 1), 1);
  else t = FROM_INT (v);
  for (i = MAXEL; i >= 1; i--)
    if (i <= n && i >= at)
      { x = el (s0, SHP, FIX, i - 1); if (SHP == 0) x = (int8_t) x;
        if (k == (SHP == 2) && x == v) want = i; }
  stk[0] = BOT; stk[1] = a; stk[2] = t; stk[3] = FROM_INT (at); stk[4] = BOT; sp = &stk[na + 1];
  f = VMpr_ArrayedCollection_indexOfStartingAt (0, na);
  if (f) { CHECK (!(want && at >= 1 && at <= n && SZ == 1 && !FIX), "an element that is there is found");
           CHECK (sp == &stk[na + 1] && stk[0] == BOT && stk[1] == a && stk[2] == t && stk[3] == FROM_INT (at), "operands intact"); }
  else { CHECK (at >= 1 && at <= n + 1, "a start outside the sequence is rejected");
         CHECK (want && sp == &stk[1] && stk[0] == BOT && stk[1] == FROM_INT (want), "the first position at or after the start that holds the object"); }
  CHECK (same (a, s0), "searching changes nothing");
  WITNESS ();
}
/* ---- shallowCopy */
void h_copy (void)
{
  OOP a, b; int n, i, k = ND_RANGE (0, 1); init ();
  n = ND_RANGE (0, MAXEL);
  a = mk (VPC_USER, SHP, FIX, n); save (a, s0);
  if (ND_BOOL ()) a->flags |= F_READONLY;
  stk[0] = BOT; stk[1] = k ? FROM_INT (anyint ()) : a; sp = &stk[1]; b = stk[1];
  CHECK (!VMpr_Object_shallowCopy (0, 0) && sp == &stk[1] && stk[0] == BOT, "answers");
  if (k) CHECK (stk[1] == b, "a SmallInteger is its own copy");
  else
    {
      b = stk[1];
      CHECK (b != a && OOP_CLASS (b) == OOP_CLASS (a) && !IS_OOP_READONLY (b), "a new, writable object of the same class");
      CHECK (TO_INT (OOP_TO_OBJ (b)->objSize) == TO_INT (OOP_TO_OBJ (a)->objSize) && (SZ == 8 || (b->flags & EMPTY_BYTES) == (a->flags & EMPTY_BYTES)), "of the same size");
      for (i = 0; i < FIX; i++) CHECK (W (b)[2 + i] == s0[2 + i], "with the same fields");
      for (i = 0; i < MAXEL; i++) if (i < n) CHECK (el (W (b), SHP, FIX, i) == el (s0, SHP, FIX, i), "with the same elements");
      CHECK (same (a, s0), "the original is left alone");
    }
  WITNESS ();
}
/* ---- new: */
void h_new (void)
{
  OOP c, o; intptr_t n = ND_RANGE (0, MAXEL); int i, f; init ();
  c = vp_class (VPC_USER, SHAPEOF (SHP), FIX);
  stk[0] = BOT; stk[1] = c; stk[2] = FROM_INT (n); sp = &stk[2];
  for (i = 0; i < VP_WORDS; i++) vp_s0[i] = ND ();
  f = VMpr_Behavior_basicNewColon (0, 1);
  CHECK (!f && sp == &stk[1] && stk[0] == BOT, "answers");
  o = stk[1];
  CHECK (OOP_CLASS (o) == c && NUM_INDEXABLE_FIELDS (o) == n, "an instance with that many elements");
  for (i = 0; i < FIX; i++) CHECK (W (o)[2 + i] == (uintptr_t) _gst_nil_oop, "fields are nil");
  for (i = 0; i < MAXEL; i++) if (i < n) CHECK (el (W (o), SHP, FIX, i) == (SHP == 12 ? (uintptr_t) _gst_nil_oop : 0), "elements are nil or zero");
  WITNESS ();
}
/* ---- Character value: */
void h_char (void)
{
  intptr_t v = anyint (); int f, k = ND_BOOL (); OOP c; init ();
  stk[0] = BOT; stk[1] = _gst_char_class; stk[2] = FROM_INT (v); sp = &stk[2];
  f = VMpr_Character_create (0, 1);
  if (f) { CHECK (v < 0 || v > 255, "every value of a byte has a Character"); CHECK (sp == &stk[2] && stk[1] == _gst_char_class && stk[2] == FROM_INT (v), "operands intact"); }
  else CHECK (v >= 0 && v <= 255 && sp == &stk[1] && stk[1] == CHAR_OOP_AT (v), "the Character with that value");
  WITNESS ();
}
#define VP_CASES(X) X(h_replace) X(h_replace_self) X(h_replace_args) X(h_equal) X(h_hash) X(h_index) X(h_copy) X(h_new) X(h_char)
#include "vpmain.h"
