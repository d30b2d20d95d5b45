/* LargeInteger primitives (prims.def) over mpz.c, decided against 256-bit two's complement
   arithmetic.  GMP's own mpn functions are represented by their specification.
   NA, NB: words of the operands' objects (0: a SmallInteger).  */
#include <gmp.h>
#include "interp.c"
#include "vp.h"
#ifndef NA
#define NA 1
#endif
#ifndef NB
#define NB 1
#endif
#define VP_NOBJ 4
#include "vpheap.h"
/* signs: 0 positive, 1 negative, 2 either */
#ifndef SA
#define SA 2
#endif
#ifndef SB
#define SB 2
#endif
#ifndef NW
#define NW 4
#endif
typedef struct { uint64_t w[NW]; } big;
static OOP stk[6];

static big b_small (int64_t v) { big r; int i; r.w[0] = v; for (i = 1; i < NW; i++) r.w[i] = v < 0 ? -1 : 0; return r; }
static int b_neg (big a) { return (int64_t) a.w[NW - 1] < 0; }
static big b_addc (big a, big b, int c)
{
  big r; int i; unsigned cy = c;
  for (i = 0; i < NW; i++) { uint64_t s = a.w[i] + b.w[i]; unsigned c1 = s < a.w[i]; r.w[i] = s + cy; cy = c1 | (r.w[i] < s); }
  return r;
}
static big b_not (big a) { int i; for (i = 0; i < NW; i++) a.w[i] = ~a.w[i]; return a; }
static big b_negate (big a) { return b_addc (b_not (a), b_small (0), 1); }
static big b_add (big a, big b) { return b_addc (a, b, 0); }
static big b_sub (big a, big b) { return b_addc (a, b_not (b), 1); }
static int b_eq (big a, big b) { int i; for (i = 0; i < NW; i++) if (a.w[i] != b.w[i]) return 0; return 1; }
static int b_zero (big a) { return b_eq (a, b_small (0)); }
static big b_abs (big a) { return b_neg (a) ? b_negate (a) : a; }
static int b_cmp (big a, big b)
{
  int i;
  if (b_neg (a) != b_neg (b)) return b_neg (a) ? -1 : 1;
  for (i = NW - 1; i >= 0; i--) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1;
  return 0;
}
/* a * m for a non-negative constant m of one limb */
static big b_mul1 (big a, uint64_t m)
{
  big r; int i; uint64_t cy = 0;
  for (i = 0; i < NW; i++) { unsigned __int128 p = (unsigned __int128) a.w[i] * m + cy; r.w[i] = (uint64_t) p; cy = (uint64_t) (p >> 64); }
  return r;
}
static big b_shl64 (big a) { int i; for (i = NW - 1; i > 0; i--) a.w[i] = a.w[i - 1]; a.w[0] = 0; return a; }
static big b_mul (big a, const uint64_t *m, int n)
{
  big r = b_small (0); int i;
  for (i = n - 1; i >= 0; i--) { r = b_shl64 (r); if (m[i]) r = b_add (r, b_mul1 (a, m[i])); }
  return r;
}
static big b_sar (big a, unsigned n)
{
  unsigned q = n / 64, s = n % 64; int i; uint64_t sg = b_neg (a) ? -1 : 0; big r;
  for (i = 0; i < NW; i++)
    {
      uint64_t lo = i + q < NW ? a.w[i + q] : sg, hi = i + q + 1 < NW ? a.w[i + q + 1] : sg;
      r.w[i] = s ? (lo >> s) | (hi << (64 - s)) : lo;
    }
  return r;
}
static big b_shl (big a, unsigned n)
{
  unsigned q = n / 64, s = n % 64; int i; big r;
  for (i = 0; i < NW; i++)
    {
      uint64_t hi = i >= (int) q ? a.w[i - q] : 0, lo = i >= (int) q + 1 ? a.w[i - q - 1] : 0;
      r.w[i] = s ? (hi << s) | (lo >> (64 - s)) : hi;
    }
  return r;
}
static int b_is_small (big a)
{
  int i; int64_t v = a.w[0];
  for (i = 1; i < NW; i++) if (a.w[i] != (v < 0 ? -1UL : 0)) return 0;
  return v >= MIN_ST_INT && v <= MAX_ST_INT;
}

/* ---- GMP by specification ---- */
static big gA, gB, gQ, gR, gP;    /* magnitudes handed to the current multiplication, division or gcd, and its exact answers */
static int limbs_are (const mp_limb_t *p, mp_size_t n, big v)
{
  int i;
  for (i = 0; i < NW; i++) if ((i < n ? p[i] : 0) != v.w[i]) return 0;
  return n <= NW;
}
static int b_limbs (big v) { int i; for (i = NW; i > 0; i--) if (v.w[i - 1]) return i; return 0; }
#ifdef VP_CBMC
#define MAXL 4
#define GMPSPEC(c) CHECK (c, "GMP function called within its specification")
mp_limb_t spec_add_n (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, const mp_limb_t *b, mp_size_t bn)
{
  mp_size_t i; mp_limb_t cy = 0;
  GMPSPEC (an >= bn && bn >= 0 && an <= MAXL);
  for (i = 0; i < MAXL; i++) if (i < an) { mp_limb_t y = i < bn ? b[i] : 0, s = a[i] + y, c1 = s < y, t = s + cy; cy = c1 | (t < s); r[i] = t; }
  return cy;
}
mp_limb_t spec_sub_n (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, const mp_limb_t *b, mp_size_t bn)
{
  mp_size_t i; mp_limb_t cy = 0;
  GMPSPEC (an >= bn && bn >= 0 && an <= MAXL);
  for (i = 0; i < MAXL; i++) if (i < an) { mp_limb_t x = a[i], y = i < bn ? b[i] : 0, s = x - y, c1 = x < y, t = s - cy; cy = c1 | (s < cy); r[i] = t; }
  return cy;
}
mp_limb_t spec_sub (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, const mp_limb_t *b, mp_size_t bn) { return spec_sub_n (r, a, an, b, bn); }
mp_limb_t spec_add_1 (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, mp_limb_t v) { return spec_add_n (r, a, an, &v, 1); }
mp_limb_t spec_sub_1 (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, mp_limb_t v) { return spec_sub_n (r, a, an, &v, 1); }
int spec_cmp (const mp_limb_t *a, const mp_limb_t *b, mp_size_t n)
{
  mp_size_t i;
  GMPSPEC (n >= 0 && n <= MAXL);
  for (i = MAXL - 1; i >= 0; i--) if (i < n && a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
mp_limb_t spec_lshift (mp_limb_t *r, const mp_limb_t *a, mp_size_t n, unsigned c)
{
  mp_size_t i; mp_limb_t out;
  GMPSPEC (n > 0 && n <= MAXL && c >= 1 && c < 64);
  out = a[n - 1] >> (64 - c);
  for (i = MAXL - 1; i >= 0; i--) if (i < n) r[i] = (a[i] << c) | (i ? a[i - 1] >> (64 - c) : 0);
  return out;
}
mp_limb_t spec_rshift (mp_limb_t *r, const mp_limb_t *a, mp_size_t n, unsigned c)
{
  mp_size_t i; mp_limb_t out;
  GMPSPEC (n > 0 && n <= MAXL && c >= 1 && c < 64);
  out = a[0] << (64 - c);
  for (i = 0; i < MAXL; i++) if (i < n) r[i] = (a[i] >> c) | (i + 1 < n ? a[i + 1] << (64 - c) : 0);
  return out;
}
static int tz64 (uint64_t v)
{
  int n = 0;
  if (!(v & 0xffffffffUL)) { n += 32; v >>= 32; }
  if (!(v & 0xffffUL)) { n += 16; v >>= 16; }
  if (!(v & 0xffUL)) { n += 8; v >>= 8; }
  if (!(v & 0xfUL)) { n += 4; v >>= 4; }
  if (!(v & 3UL)) { n += 2; v >>= 2; }
  return n + !(v & 1);
}
mp_bitcnt_t spec_scan1 (const mp_limb_t *a, mp_bitcnt_t from)
{
  int i;
  GMPSPEC (from == 0);
  for (i = 0; i < MAXL; i++) if (a[i]) return i * 64 + tz64 (a[i]);
  GMPSPEC (0);
  return 0;
}
static void putl (mp_limb_t *r, mp_size_t n, big v) { int i; for (i = 0; i < MAXL; i++) if (i < n) r[i] = v.w[i]; }
mp_limb_t spec_mul (mp_limb_t *r, const mp_limb_t *a, mp_size_t an, const mp_limb_t *b, mp_size_t bn)
{
  GMPSPEC (an >= bn && bn >= 1 && an + bn <= NW && ((limbs_are (a, an, gA) && limbs_are (b, bn, gB)) || (limbs_are (a, an, gB) && limbs_are (b, bn, gA))));
  putl (r, an + bn, gP);
  return gP.w[an + bn - 1];
}
void spec_tdiv_qr (mp_limb_t *q, mp_limb_t *r, mp_size_t qx, const mp_limb_t *n, mp_size_t nn, const mp_limb_t *d, mp_size_t dn)
{
  GMPSPEC (qx == 0 && nn >= dn && dn >= 1 && d[dn - 1] != 0 && limbs_are (n, nn, gA) && limbs_are (d, dn, gB));
  putl (q, nn - dn + 1, gQ); putl (r, dn, gR);
}
mp_limb_t spec_divrem_1 (mp_limb_t *q, mp_size_t qx, const mp_limb_t *n, mp_size_t nn, mp_limb_t d)
{
  GMPSPEC (qx == 0 && nn >= 1 && d != 0 && limbs_are (n, nn, gA) && limbs_are (&d, 1, gB));
  putl (q, nn, gQ);
  return gR.w[0];
}
void __gmpn_divexact (mp_limb_t *q, const mp_limb_t *n, mp_size_t nn, const mp_limb_t *d, mp_size_t dn)
{
  GMPSPEC (nn >= dn && dn >= 1 && d[dn - 1] != 0 && limbs_are (n, nn, gA) && limbs_are (d, dn, gB) && b_zero (gR));
  putl (q, nn - dn + 1, gQ);
}
static int b_tz (big v) { int i; for (i = 0; i < NW; i++) if (v.w[i]) return i * 64 + tz64 (v.w[i]); return 0; }
mp_limb_t spec_gcd_1 (const mp_limb_t *a, mp_size_t an, mp_limb_t b)
{
  GMPSPEC (an >= 1 && b != 0 && ((limbs_are (a, an, gA) && limbs_are (&b, 1, gB)) || (limbs_are (a, an, gB) && limbs_are (&b, 1, gA))));
  return gP.w[0];
}
mp_size_t spec_gcd (mp_limb_t *g, mp_limb_t *a, mp_size_t an, mp_limb_t *b, mp_size_t bn)
{
  big oa = b_sar (gA, b_tz (gA)), ob = b_sar (gB, b_tz (gB)), og = b_sar (gP, b_tz (gP));
  GMPSPEC (an >= bn && bn >= 1 && b[bn - 1] != 0 && (b[0] & 1) && ((limbs_are (a, an, oa) && limbs_are (b, bn, ob)) || (limbs_are (a, an, ob) && limbs_are (b, bn, oa))));
  putl (g, b_limbs (og), og);
  return b_limbs (og);
}
#undef mpn_add
#undef mpn_add_1
#undef mpn_sub
#undef mpn_sub_1
#undef mpn_cmp
#undef mpn_lshift
#undef mpn_rshift
#undef mpn_scan1
#undef mpn_mul
#undef mpn_tdiv_qr
#undef mpn_divrem_1
#undef mpn_gcd_1
#undef mpn_gcd
#undef mpn_add_n
#undef mpn_sub_n
#define mpn_add spec_add_n
#define mpn_add_n(r,a,b,n) spec_add_n (r, a, n, b, n)
#define mpn_sub_n(r,a,b,n) spec_sub_n (r, a, n, b, n)
#define mpn_add_1 spec_add_1
#define mpn_sub spec_sub
#define mpn_sub_1 spec_sub_1
#define mpn_cmp spec_cmp
#define mpn_lshift spec_lshift
#define mpn_rshift spec_rshift
#define mpn_scan1 spec_scan1
#define mpn_mul spec_mul
#define mpn_tdiv_qr spec_tdiv_qr
#define mpn_divrem_1 spec_divrem_1
#define mpn_gcd_1 spec_gcd_1
#define mpn_gcd spec_gcd
static void *vp_realloc (void *p, size_t n)
{
  uint64_t *q = malloc (sizeof (uint64_t) * (NW + 1)); int i;
  CHECK (n <= sizeof (uint64_t) * (NW + 1), "VP: harness limbs");
  if (p) for (i = 0; i <= NW; i++) q[i] = ((uint64_t *) p)[i];
  return q;
}
static void vp_free (void *p) { (void) p; }
#define xrealloc vp_realloc
#define xmalloc(n) vp_realloc (NULL, n)
#define xfree vp_free
#undef MPN_COPY
static void vp_copyl (void *d, const void *s, size_t n) { uint64_t *x = d; const uint64_t *y = s; uint64_t t[NW + 1]; int i; for (i = 0; i <= NW; i++) if (i * 8 < (int64_t) n) t[i] = y[i]; for (i = 0; i <= NW; i++) if (i * 8 < (int64_t) n) x[i] = t[i]; }
static void vp_zerol (void *d, size_t n) { uint64_t *x = d; int i; for (i = 0; i <= NW; i++) if (i * 8 < (int64_t) n) x[i] = 0; }
/* whole limbs first, then the remaining bytes */
static void vp_copyb (void *d, const void *s, size_t n) { unsigned char *x = d; const unsigned char *y = s; size_t k = n & ~7UL; int i; vp_copyl (d, s, k); for (i = 0; i < 7; i++) if (k + i < n) x[k + i] = y[k + i]; }
#define memmove(d, s, n) vp_copyl (d, s, n)
#define memset(d, c, n) vp_zerol (d, n)
#define memcpy(d, s, n) vp_copyb (d, s, n)
#undef alloca
static void *vp_alloca (size_t n) { CHECK (n <= sizeof (uint64_t) * (NW + 1), "VP: harness limbs"); return n ? malloc (sizeof (uint64_t) * (NW + 1)) : 0; }
#define alloca vp_alloca
#include "mpz.c"
#undef memmove
#undef memset
#undef memcpy
#endif

/* operand with N words of digits (0: SmallInteger) and any contents */
static OOP operand (int n, big *v, int sg)
{
  OOP o; int i, neg; unsigned e; uint64_t top;
  if (n == 0) { intptr_t x = ND_RANGE (MIN_ST_INT, MAX_ST_INT); *v = b_small (x); return FROM_INT (x); }
  neg = sg == 2 ? ND_BOOL () : sg; e = ND () & 7;
  o = vp_new (neg ? _gst_large_negative_integer_class : _gst_large_positive_integer_class, n);
  for (i = 0; i < n - 1; i++) { v->w[i] = ND (); }
  top = ND () & (~0UL >> (8 * e));
  ASSUME ((int) ((top >> (63 - 8 * e)) & 1) == neg);
  v->w[n - 1] = top;
  for (i = 0; i < n; i++) ((uint64_t *) OOP_TO_OBJ (o))[OBJ_HEADER_SIZE_WORDS + i] = v->w[i];
  INIT_UNALIGNED_OBJECT (o, e);
  if (neg) v->w[n - 1] |= ~(~0UL >> (8 * e));
  for (i = n; i < NW; i++) v->w[i] = neg ? -1UL : 0;
  ASSUME (!b_zero (*v));
  return o;
}
/* the object for V as the virtual machine makes it; NW_ words of digits, 0 when V must be a SmallInteger */
static OOP object_for (big v, int n)
{
  OOP o; int i, j, neg = b_neg (v); unsigned e = 0; uint64_t top;
  if (n == 0) { ASSUME (b_is_small (v)); return FROM_INT ((intptr_t) v.w[0]); }
  ASSUME (!b_is_small (v));
  o = vp_new (neg ? _gst_large_negative_integer_class : _gst_large_positive_integer_class, n);
  for (i = n; i < NW; i++) ASSUME (v.w[i] == (neg ? -1UL : 0));
  ASSUME (((int64_t) v.w[n - 1] < 0) == neg);
  top = v.w[n - 1];
  for (j = 0; j < 7; j++)
    if ((int64_t) (top << (8 * (e + 1))) >> (8 * (e + 1)) == (int64_t) top) e++;
    else break;
  for (i = 0; i < n; i++) ((uint64_t *) OOP_TO_OBJ (o))[OBJ_HEADER_SIZE_WORDS + i] = v.w[i];
  ((uint64_t *) OOP_TO_OBJ (o))[OBJ_HEADER_SIZE_WORDS + n - 1] = (top & (~0UL >> (8 * e)));
  INIT_UNALIGNED_OBJECT (o, e);
  return o;
}
static void start (void)
{
  vp_init (); vp_nobj = 0;
  _gst_large_zero_integer_class = vp_class (VPC_LZI, GST_ISP_UCHAR, 0);
  _gst_large_integer_class = vp_class (VPC_LI, GST_ISP_UCHAR, 0);
  vp_cls[VPC_LPI].superclass = vp_cls[VPC_LNI].superclass = _gst_large_integer_class;
  vp_cls[VPC_LZI].superclass = _gst_large_positive_integer_class;
}
static void push2 (OOP a, OOP b) { stk[0] = (OOP) 0x1234560; stk[1] = a; stk[2] = b; sp = &stk[2]; }
static void push1 (OOP a) { stk[0] = (OOP) 0x1234560; stk[1] = a; sp = &stk[1]; }
/* the answer is the integer V, in the representation every integer of its size has */
static void answer_is (big v)
{
  OOP o = stk[1]; int n, i, neg = b_neg (v); unsigned e; uint64_t x;
  CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560, "one answer replaces receiver and argument");
  if (b_is_small (v)) { CHECK (o == FROM_INT ((intptr_t) v.w[0]), "answer is the exact integer, as a SmallInteger when it fits"); return; }
  CHECK (!IS_INT (o), "answer beyond the SmallInteger range is a LargeInteger");
  ASSUME (!IS_INT (o));
  CHECK (OOP_CLASS (o) == (neg ? _gst_large_negative_integer_class : _gst_large_positive_integer_class), "sign of the answer");
  n = TO_INT (OOP_TO_OBJ (o)->objSize) - OBJ_HEADER_SIZE_WORDS; e = o->flags & EMPTY_BYTES;
  CHECK (n >= 1 && n <= NW, "size of the answer");
  ASSUME (n >= 1 && n <= NW);
  for (i = 0; i < NW; i++)
    {
      x = i < n ? ((uint64_t *) OOP_TO_OBJ (o))[OBJ_HEADER_SIZE_WORDS + i] : neg ? -1UL : 0;
      if (i == n - 1) { x &= ~0UL >> (8 * e); if (neg) x |= ~(~0UL >> (8 * e)); CHECK ((int) ((x >> (63 - 8 * e)) & 1) == neg, "sign bit of the answer's last digit"); }
      CHECK (x == v.w[i], "digits of the exact answer");
    }
}
static void answer_bool (int b)
{
  CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560, "one answer replaces receiver and argument");
  CHECK (stk[1] == (b ? _gst_true_oop : _gst_false_oop), "comparison is that of the integers' values");
}
static void intact (OOP o, big v, int n)
{
  int i; uint64_t m;
  if (n == 0) return;
  for (i = 0; i < n; i++)
    {
      m = i == n - 1 ? ~0UL >> (8 * (o->flags & EMPTY_BYTES)) : ~0UL;
      CHECK ((((uint64_t *) OOP_TO_OBJ (o))[OBJ_HEADER_SIZE_WORDS + i] & m) == (v.w[i] & m), "operands keep their value");
    }
}
#ifdef EQTOP	/* operands that differ in their low word only */
#define VP_EQTOP(a, b) { big a_ = SA ? b_negate (a) : a, b_ = SB ? b_negate (b) : b; ASSUME (a_.w[1] == b_.w[1]); }
#else
#define VP_EQTOP(a, b)
#endif
#define TWO(NAME, PRIM, EXPR)						\
void h_##NAME (void) {							\
  big a, b; OOP x, y; start (); x = operand (NA, &a, SA); y = operand (NB, &b, SB); VP_EQTOP (a, b) \
  push2 (x, y);								\
  CHECK (PRIM (0, 1) == 0, "integers are accepted");			\
  EXPR; intact (x, a, NA); intact (y, b, NB); WITNESS (); }
TWO (plus, VMpr_LargeInteger_plus, answer_is (b_add (a, b)))
TWO (minus, VMpr_LargeInteger_minus, answer_is (b_sub (a, b)))
TWO (eq, VMpr_LargeInteger_eq, answer_bool (b_cmp (a, b) == 0))
TWO (ne, VMpr_LargeInteger_ne, answer_bool (b_cmp (a, b) != 0))
TWO (lt, VMpr_LargeInteger_lt, answer_bool (b_cmp (a, b) < 0))
TWO (gt, VMpr_LargeInteger_gt, answer_bool (b_cmp (a, b) > 0))
TWO (le, VMpr_LargeInteger_le, answer_bool (b_cmp (a, b) <= 0))
TWO (ge, VMpr_LargeInteger_ge, answer_bool (b_cmp (a, b) >= 0))
#define BITW(f) ({ big r_; int i_; for (i_ = 0; i_ < NW; i_++) r_.w[i_] = a.w[i_] f b.w[i_]; r_; })
TWO (bitand, VMpr_LargeInteger_bitAnd, answer_is (BITW (&)))
TWO (bitor, VMpr_LargeInteger_bitOr, answer_is (BITW (|)))
TWO (bitxor, VMpr_LargeInteger_bitXor, answer_is (BITW (^)))
void h_negated (void) { big a; OOP x; start (); x = operand (NA, &a, SA); push1 (x); CHECK (VMpr_LargeInteger_negated (0, 1) == 0, "integers are accepted"); answer_is (b_negate (a)); intact (x, a, NA); WITNESS (); }
void h_invert (void) { big a; OOP x; start (); x = operand (NA, &a, SA); push1 (x); CHECK (VMpr_LargeInteger_bitInvert (0, 1) == 0, "integers are accepted"); answer_is (b_not (a)); intact (x, a, NA); WITNESS (); }
#ifndef SHLO
#define SHLO -200
#define SHHI 128
#endif
void h_shift (void)
{
  big a; OOP x; int n; start (); x = operand (NA, &a, SA); n = ND_RANGE (SHLO, SHHI);
  push2 (x, FROM_INT (n));
  CHECK (VMpr_LargeInteger_bitShift (0, 1) == 0, "integers are accepted");
  answer_is (n >= 0 ? b_shl (a, n) : b_sar (a, -n)); intact (x, a, NA); WITNESS ();
}
/* constant second operand: +-(D2*2^128 + D1*2^64 + D0) */
#ifndef D0
#define D0 3
#endif
#ifndef D1
#define D1 0
#endif
#ifndef DNEG
#define DNEG 0
#endif
#ifndef SWAP
#define SWAP 0
#endif
#ifndef QW
#define QW 1
#endif
static const uint64_t dl[2] = { D0, D1 };
static big dabs (void) { big d = b_small (0); d.w[0] = D0; d.w[1] = D1; return d; }
static big dval (void) { return DNEG ? b_negate (dabs ()) : dabs (); }
void h_times (void)
{
  big a, b = dval (); OOP x, y; start (); x = operand (NA, &a, SA); y = object_for (b, NB);
  gA = b_abs (a); gB = dabs (); gP = b_mul (gA, dl, 2);
  if (SWAP) push2 (y, x); else push2 (x, y);
  CHECK (VMpr_LargeInteger_times (0, 1) == 0, "integers are accepted");
  answer_is ((b_neg (a) != DNEG) ? b_negate (gP) : gP); intact (x, a, NA); intact (y, b, NB); WITNESS ();
}
/* dividend n = +-(q * |d| + r), divisor d */
static OOP dividend (big *n, int exact)
{
  int i, neg = ND_BOOL ();
  gB = dabs (); gQ = b_small (0); gR = b_small (0);
  for (i = 0; i < QW; i++) gQ.w[i] = ND ();
  if (!exact) { gR.w[0] = ND (); if (D1) gR.w[1] = ND (); ASSUME (b_cmp (gR, gB) < 0); }
  gA = b_add (b_mul (gQ, dl, 2), gR);
  *n = neg ? b_negate (gA) : gA;
  return object_for (*n, NA);
}
#define DIV(NAME, PRIM, EXACT, EXPR)					\
void h_##NAME (void) {							\
  big n, q, r; OOP x, y; int nn; start (); x = dividend (&n, EXACT); y = object_for (dval (), NB);		\
  nn = b_neg (n); q = nn != DNEG ? b_negate (gQ) : gQ; r = nn ? b_negate (gR) : gR;	/* truncated */ \
  push2 (x, y);								\
  CHECK (PRIM (0, 1) == 0, "integers are accepted");			\
  EXPR; intact (x, n, NA); intact (y, dval (), NB); WITNESS (); }
DIV (quo, VMpr_LargeInteger_quo, 0, answer_is (q))
DIV (rem, VMpr_LargeInteger_rem, 0, answer_is (r))
DIV (floordiv, VMpr_LargeInteger_intDiv, 0, answer_is (!b_zero (r) && nn != DNEG ? b_sub (q, b_small (1)) : q))
DIV (modulo, VMpr_LargeInteger_modulo, 0, answer_is (!b_zero (r) && nn != DNEG ? b_add (r, dval ()) : r))
DIV (divexact, VMpr_LargeInteger_divExact, 1, answer_is (q))
/* gcd (g * CA, g * CB) for coprime constants CA, CB given as limbs */
#ifndef CA0
#define CA0 2
#define CA1 0
#define CB0 3
#define CB1 0
#endif
void h_gcd (void)
{
  static const uint64_t ca[2] = { CA0, CA1 }, cb[2] = { CB0, CB1 };
  big g = b_small (0), a, b; int i, na = ND_BOOL (), nb = ND_BOOL (); OOP x, y; start ();
  for (i = 0; i < QW; i++) g.w[i] = ND ();
  ASSUME (!b_zero (g));
  gA = b_mul (g, ca, 2); gB = b_mul (g, cb, 2); gP = g;
  x = object_for (na ? b_negate (gA) : gA, NA); y = object_for (nb ? b_negate (gB) : gB, NB);
  if (SWAP) push2 (y, x); else push2 (x, y);
  CHECK (VMpr_LargeInteger_gcd (0, 1) == 0, "integers are accepted");
  answer_is (g); WITNESS ();
}
#define VP_CASES(X) X(h_plus) X(h_minus) X(h_eq) X(h_ne) X(h_lt) X(h_gt) X(h_le) X(h_ge) X(h_bitand) X(h_bitor) X(h_bitxor) X(h_negated) X(h_invert) X(h_shift) X(h_times) \
  X(h_quo) X(h_rem) X(h_floordiv) X(h_modulo) X(h_divexact) X(h_gcd)
#include "vpmain.h"
