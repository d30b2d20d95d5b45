/* Indexed access to objects: at:, at:put:, basicAt:, basicAt:put:, valueAt:, valueAt:put:,
   basicSize and the at:/at:put: bytecode caches, for every shape.  */
#include "interp.c"
#include "vp.h"
#undef POP_N_OOPS
#define POP_N_OOPS(n) (sp -= (n))
#undef POP_OOP
#undef PUSH_OOP
#undef STACK_AT
#define POP_OOP() (*sp--)
#define PUSH_OOP(o) (*++sp = (o))
#define STACK_AT(i) (sp[-(i)])
#ifndef MAXEL
#define MAXEL 5
#endif
#ifndef SHP
#define SHP 0
#endif
#ifndef FIX
#define FIX 0
#endif
#define SZ (SHP < 3 ? 1 : SHP < 5 ? 2 : SHP < 8 || SHP == 11 ? 4 : 8)
#define DATAW (FIX + (MAXEL * SZ + 7) / 8)
#define VP_WORDS (DATAW < 3 ? 5 : DATAW + 2)
#define VP_NOBJ 5
#include "vpheap.h"

static OOP stk[8];
#define SHAPE (SHP == 12 ? GST_ISP_POINTER : GST_ISP_SCHAR + 2 * SHP)
static uintptr_t before_[VP_WORDS];
#define before ((unsigned char *) before_)
static int same (void *q) { uintptr_t *a = (uintptr_t *) before, *b = q; int i; for (i = 0; i < VP_WORDS; i++) if (a[i] != b[i]) return 0; return 1; }
static int nel;
static OOP obj;
static intptr_t spec;
static intptr_t anyint (void) { return ND_RANGE (MIN_ST_INT, MAX_ST_INT); }
static unsigned char *cell (intptr_t i) { return (unsigned char *) OOP_TO_OBJ (obj)->data + FIX * 8 + (i - 1) * SZ; }

static struct oop_s chartab[NUM_CHAR_OBJECTS + 4];
static void init (void) { vp_init (); vp_nobj = 0; _gst_mem.ot = chartab - CHAR_OBJECT_BASE; }
/* an object of shape SHP with FIX fixed fields and N elements, every byte arbitrary */
static void mk (int fwd)
{
  OOP cls; int i, tot, al; gst_object p;
  init ();
  cls = vp_class (fwd, SHAPE, FIX);
  nel = ND_RANGE (0, MAXEL);
  tot = FIX * 8 + nel * SZ;
  al = (tot + 7) / 8;
  obj = vp_new (cls, al);
  if (SZ < 8) INIT_UNALIGNED_OBJECT (obj, al * 8 - tot);
  p = OOP_TO_OBJ (obj);
  for (i = 0; i < (VP_WORDS - 2); i++) ((uintptr_t *) p->data)[i] = SHP == 12 ? (uintptr_t) FROM_INT (ND_RANGE (MIN_ST_INT, MAX_ST_INT)) : (uintptr_t) ND ();
  spec = cls->object ? ((gst_class) cls->object)->instanceSpec : 0;
  memcpy (before, p, sizeof before_);
}
static int in (intptr_t i) { return i >= 1 && i <= nel; }

/* does R denote the element stored in the bytes at B? */
static int denotes (OOP r, unsigned char *b)
{
  __int128 v = 0, e = 0;
  switch (SHAPE)
    {
    case GST_ISP_SCHAR: e = *(int8_t *) b; break;
    case GST_ISP_UCHAR: e = *(uint8_t *) b; break;
    case GST_ISP_SHORT: e = *(int16_t *) b; break;
    case GST_ISP_USHORT: e = *(uint16_t *) b; break;
    case GST_ISP_INT: e = *(int32_t *) b; break;
    case GST_ISP_UINT: e = *(uint32_t *) b; break;
    case GST_ISP_INT64: e = *(int64_t *) b; break;
    case GST_ISP_UINT64: e = *(uint64_t *) b; break;
    case GST_ISP_CHARACTER: return r == CHAR_OOP_AT (*b);
    case GST_ISP_UTF32:
      { uint32_t c = *(uint32_t *) b;
        if (c <= 127) return r == CHAR_OOP_AT (c);
        if (c > 0x10FFFF) c = 0xFFFD;
        return !IS_INT (r) && OOP_CLASS (r) == _gst_unicode_character_class && OOP_TO_OBJ (r)->data[0] == FROM_INT (c); }
    case GST_ISP_FLOAT:
      { uint32_t x = *(uint32_t *) b, y; if (IS_INT (r) || OOP_CLASS (r) != _gst_floate_class) return 0;
        y = *(uint32_t *) OOP_TO_OBJ (r)->data;
        return x == y || (x & 0x7fffffff) > 0x7f800000 && (y & 0x7fffffff) > 0x7f800000; }
    case GST_ISP_DOUBLE: return !IS_INT (r) && OOP_CLASS (r) == _gst_floatd_class && !memcmp (OOP_TO_OBJ (r)->data, b, 8);
    case GST_ISP_POINTER: return r == *(OOP *) b;
    }
  return vp_intval (r, &v) && v == e;
}

static void chk_read (int how)
{
  intptr_t i = anyint (), f = 0; OOP r = NULL; unsigned char el[8];
  mk (VPC_USER);
  if (in (i)) memcpy (el, cell (i), SZ);
  stk[0] = (OOP) 0x1234560; stk[1] = obj; stk[2] = FROM_INT (i); sp = &stk[2];
  if (how == 0) f = VMpr_Object_basicAt (60, 1);
  else f = cached_index_oop_primitive (obj, FROM_INT (i), spec);
  if (f)
    {
      CHECK (!in (i), "every index from 1 to the size is answered");
      CHECK (sp == &stk[2] && stk[1] == obj && stk[2] == FROM_INT (i), "operands intact for the general method");
    }
  else
    {
      CHECK (in (i), "an index outside 1..size is rejected");
      CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560, "one result");
      if (in (i)) CHECK (denotes (stk[1], el), "the element stored at that index is answered");
    }
  CHECK (same (vp_obj), "reading changes nothing");
  WITNESS ();
}
void h_read_prim (void) { chk_read (0); }
void h_read_cache (void) { chk_read (1); }

/* can V be stored in an element of this shape; the value it then has */
static int storable (OOP v, __int128 *x)
{
  int isint = vp_intval (v, x);
  switch (SHAPE)
    {
    case GST_ISP_SCHAR: return isint && *x >= -128 && *x <= 127;
    case GST_ISP_UCHAR: return isint && *x >= 0 && *x <= 255;
    case GST_ISP_SHORT: return isint && *x >= -32768 && *x <= 32767;
    case GST_ISP_USHORT: return isint && *x >= 0 && *x <= 65535;
    case GST_ISP_INT: return isint && *x >= -((__int128) 1 << 31) && *x < ((__int128) 1 << 31);
    case GST_ISP_UINT: return isint && *x >= 0 && *x < ((__int128) 1 << 32);
    case GST_ISP_INT64: return isint && *x >= -((__int128) 1 << 63) && *x < ((__int128) 1 << 63);
    case GST_ISP_UINT64: return isint && *x >= 0 && *x < ((__int128) 1 << 64);
    case GST_ISP_CHARACTER: return !IS_INT (v) && OOP_CLASS (v) == _gst_char_class;
    case GST_ISP_UTF32: return !IS_INT (v) && (OOP_CLASS (v) == _gst_unicode_character_class || OOP_CLASS (v) == _gst_char_class && CHAR_OOP_VALUE (v) <= 127);
    case GST_ISP_FLOAT: case GST_ISP_DOUBLE: return IS_INT (v) || OOP_CLASS (v) == _gst_floatd_class || OOP_CLASS (v) == _gst_floate_class;
    case GST_ISP_POINTER: return 1;
    }
  return 0;
}
static struct { OBJ_HEADER; OOP cp; } chobj; static struct oop_s choop;
static OOP value_of_kind (int k)
{
  OOP o; int n;
  switch (k)
    {
    case 1:  /* a character (in the character table) */
      { int c = ND_RANGE (0, 255); OOP co = CHAR_OOP_AT (c);
        co->object = (gst_object) &chobj; chobj.objClass = _gst_char_class; chobj.cp = FROM_INT (c); return co; }
    case 2:
      choop.object = (gst_object) &chobj; chobj.objClass = _gst_unicode_character_class; chobj.cp = FROM_INT (ND_RANGE (128, 0x10FFFF)); return &choop;
    case 3:  /* a normalised LargeInteger of eight or nine bytes */
      { int neg = ND_BOOL (); uint64_t w = ND ();
        n = neg ? 8 : 8 + ND_BOOL ();
        if (neg) ASSUME ((int64_t) w < MIN_ST_INT);
        else if (n == 8) ASSUME ((int64_t) w > MAX_ST_INT);
        else ASSUME (w >> 63);
        o = vp_newbytes (neg ? _gst_large_negative_integer_class : _gst_large_positive_integer_class, 0, n);
        memcpy (OOP_TO_OBJ (o)->data, &w, 8);
        if (n == 9) ((char *) OOP_TO_OBJ (o)->data)[8] = 0;
        return o; }
    case 4: { double d; uint64_t w = ND (); memcpy (&d, &w, 8); o = vp_newbytes (_gst_floatd_class, 0, 8); memcpy (OOP_TO_OBJ (o)->data, &d, 8); return o; }
    case 5: return vp_new (vp_class (VPC_USER2, GST_ISP_FIXED, 1), 1);
    }
  return FROM_INT (anyint ());
}
static OOP anyvalue (void) { return value_of_kind (ND_RANGE (0, 5)); }
static void chk_write (int how)
{
  intptr_t i = anyint (), f = 0; OOP v; __int128 x = 0; int ok, j, ro = ND_BOOL (); unsigned char *c; gst_object p;
  mk (VPC_USER);
  v = anyvalue (); vp_nobj = 3;
  if (ro) obj->flags |= F_READONLY;
  ok = storable (v, &x);
  stk[0] = (OOP) 0x1234560; stk[1] = obj; stk[2] = FROM_INT (i); stk[3] = v; sp = &stk[3];
  if (how == 0) f = VMpr_Object_basicAtPut (61, 2);
  else f = cached_index_oop_put_primitive (obj, FROM_INT (i), v, spec);
  p = OOP_TO_OBJ (obj);
  if (f)
    {
      CHECK (!(in (i) && ok && !ro), "a storable value at an index from 1 to the size is stored");
      CHECK (sp == &stk[3] && stk[1] == obj && stk[2] == FROM_INT (i) && stk[3] == v, "operands intact for the general method");
      CHECK (same (p), "a rejected store changes nothing");
    }
  else
    {
      CHECK (in (i), "a store outside 1..size is rejected");
      CHECK (!ro, "a store into a read-only object is rejected");
      CHECK (ok, "a value the element cannot hold is rejected");
      CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560 && stk[1] == v, "the stored value is answered");
      ASSUME (in (i));
      c = cell (i);
      switch (SHAPE)
        {
        case GST_ISP_CHARACTER: CHECK (*c == TO_INT (((gst_char) OOP_TO_OBJ (v))->codePoint), "the character is stored"); break;
        case GST_ISP_UTF32: CHECK (*(uint32_t *) c == TO_INT (((gst_char) OOP_TO_OBJ (v))->codePoint), "the character is stored"); break;
        case GST_ISP_POINTER: CHECK (*(OOP *) c == v, "the object is stored"); break;
        case GST_ISP_DOUBLE: if (!IS_INT (v)) CHECK (!memcmp (c, OOP_TO_OBJ (v)->data, 8), "the float is stored"); break;
        case GST_ISP_FLOAT: break;
        default:
          { CHECK (denotes (v, c), "the stored bytes denote the value"); }
        }
      memcpy (c, before + ((char *) c - (char *) p), SZ);
      CHECK (same (p), "a store changes only its own element");
    }
  WITNESS ();
}
void h_write_prim (void) { chk_write (0); }
void h_write_cache (void) { chk_write (1); }

/* valueAt: and valueAt:put: on strings and unicode strings; other receivers fail */
void h_valueat (void)
{
  intptr_t i = anyint (), f; unsigned char el[8]; __int128 v, e = 0; int chars = SHAPE == GST_ISP_CHARACTER || SHAPE == GST_ISP_UTF32;
  mk (VPC_USER);
  if (in (i)) memcpy (el, cell (i), SZ);
  stk[0] = (OOP) 0x1234560; stk[1] = obj; stk[2] = FROM_INT (i); sp = &stk[2];
  f = VMpr_CharacterArray_valueAt (60, 1);
  if (f)
    { CHECK (!(in (i) && chars), "every index from 1 to the size is answered");
      CHECK (sp == &stk[2] && stk[1] == obj && stk[2] == FROM_INT (i), "operands intact"); }
  else
    { CHECK (in (i) && chars, "only strings, only an index in 1..size");
      ASSUME (in (i));
      e = SHAPE == GST_ISP_UTF32 ? *(uint32_t *) el : *el;
      CHECK (sp == &stk[1] && vp_intval (stk[1], &v) && v == e, "the value of the character"); }
  CHECK (same (vp_obj), "reading changes nothing");
  WITNESS ();
}
void h_valueatput (void)
{
  intptr_t i = anyint (), f; OOP v; __int128 x = 0; int ok, ro = ND_BOOL (), chars = SHAPE == GST_ISP_CHARACTER || SHAPE == GST_ISP_UTF32; unsigned char *c; gst_object p;
  mk (VPC_USER); v = anyvalue (); vp_nobj = 3;
  if (ro) obj->flags |= F_READONLY;
  ok = vp_intval (v, &x) && x >= 0 && x <= (SHAPE == GST_ISP_UTF32 ? UINT_MAX : 255);
  stk[0] = (OOP) 0x1234560; stk[1] = obj; stk[2] = FROM_INT (i); stk[3] = v; sp = &stk[3];
  f = VMpr_CharacterArray_valueAtPut (61, 2);
  p = OOP_TO_OBJ (obj);
  if (f)
    { CHECK (!(in (i) && ok && !ro && chars), "a valid store is done");
      CHECK (sp == &stk[3] && stk[1] == obj && stk[2] == FROM_INT (i) && stk[3] == v, "operands intact");
      CHECK (same (p), "a rejected store changes nothing"); }
  else
    { CHECK (in (i) && ok && !ro && chars, "an invalid store is rejected");
      ASSUME (in (i)); c = cell (i);
      CHECK (SHAPE == GST_ISP_UTF32 ? *(uint32_t *) c == x : *c == x, "the value is stored");
      CHECK (sp == &stk[1] && stk[1] == v, "the stored value is answered");
      memcpy (c, before + ((char *) c - (char *) p), SZ);
      CHECK (same (p), "a store changes only its own element"); }
  WITNESS ();
}
void h_size (void)
{
  mk (VPC_USER);
  stk[0] = (OOP) 0x1234560; stk[1] = obj; sp = &stk[1];
  CHECK (!VMpr_Object_basicSize (62, 0), "answers");
  CHECK (sp == &stk[1] && stk[1] == FROM_INT (nel), "the number of elements");
  WITNESS ();
}
/* C integer conversions: every 64-bit value survives the way out and back */
static OOP anyinteger (int k, __int128 *x)
{
  OOP o; init ();
  o = value_of_kind (k); vp_nobj = 3;
  ASSUME (vp_intval (o, x)); return o;
}
static void chk_conv (int k)
{
  __int128 x; OOP o = anyinteger (k, &x);
  __int128 m31 = (__int128) 1 << 31, m32 = (__int128) 1 << 32, m63 = (__int128) 1 << 63, m64 = (__int128) 1 << 64;
  CHECK (is_c_int_32 (o) == (x >= -m31 && x < m31), "is_c_int_32 accepts exactly the signed 32-bit integers");
  CHECK (is_c_uint_32 (o) == (x >= 0 && x < m32), "is_c_uint_32 accepts exactly the unsigned 32-bit integers");
  CHECK (is_c_int_64 (o) == (x >= -m63 && x < m63), "is_c_int_64 accepts exactly the signed 64-bit integers");
  CHECK (is_c_uint_64 (o) == (x >= 0 && x < m64), "is_c_uint_64 accepts exactly the unsigned 64-bit integers");
  if (is_c_int_32 (o)) CHECK ((int32_t) to_c_int_32 (o) == x, "to_c_int_32 answers the value");
  if (is_c_uint_32 (o)) CHECK ((uint32_t) to_c_int_32 (o) == x, "to_c_uint_32 answers the value");
  if (is_c_int_64 (o)) CHECK ((int64_t) to_c_int_64 (o) == x, "to_c_int_64 answers the value");
  if (is_c_uint_64 (o)) CHECK ((uint64_t) to_c_uint_64 (o) == x, "to_c_uint_64 answers the value");
  WITNESS ();
}
void h_conv_small (void) { chk_conv (0); }
void h_conv_large (void) { chk_conv (3); }
void h_conv_out (void)
{
  __int128 v; uint64_t w = ND (); init ();
  CHECK (vp_intval (from_c_int_64 (w), &v) && v == (int64_t) w, "from_c_int_64 answers the value");
  CHECK (vp_intval (from_c_uint_64 (w), &v) && v == w, "from_c_uint_64 answers the value");
  CHECK (vp_intval (from_c_int_32 ((int32_t) w), &v) && v == (int32_t) w, "from_c_int_32 answers the value");
  CHECK (vp_intval (from_c_uint_32 ((uint32_t) w), &v) && v == (uint32_t) w, "from_c_uint_32 answers the value");
  CHECK (IS_INT (from_c_int_64 (w)) == ((int64_t) w >= MIN_ST_INT && (int64_t) w <= MAX_ST_INT), "SmallInteger whenever it fits");
  CHECK (IS_INT (from_c_uint_64 (w)) == (w <= MAX_ST_INT), "SmallInteger whenever it fits");
  WITNESS ();
}
#define VP_CASES(X) X(h_read_prim) X(h_read_cache) X(h_write_prim) X(h_write_cache) X(h_valueat) X(h_valueatput) X(h_size) X(h_conv_small) X(h_conv_large) X(h_conv_out)
#include "vpmain.h"
