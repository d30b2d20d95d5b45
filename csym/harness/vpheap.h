/* A tiny object memory for harnesses: classes with an instance spec, objects of any
   shape, and an allocator handing out fresh zeroed slots.  Include after the real
   sources and vp.h.  */
#ifndef VP_NOBJ
#define VP_NOBJ 8
#endif
#ifndef VP_WORDS
#define VP_WORDS 12
#endif
#ifdef VP_SPLIT	/* every object an array of words of its own */
static uintptr_t vp_s0[VP_WORDS], vp_s1[VP_WORDS], vp_s2[VP_WORDS], vp_s3[VP_WORDS], vp_s4[VP_WORDS], vp_s5[VP_WORDS], vp_s6[VP_WORDS], vp_s7[VP_WORDS];
static uintptr_t *const vp_store[8] = { vp_s0, vp_s1, vp_s2, vp_s3, vp_s4, vp_s5, vp_s6, vp_s7 };
# define VP_OBJ(i) ((gst_object) vp_store[i])
#else
static union { uintptr_t w[VP_WORDS]; struct object_s o; } vp_obj[VP_NOBJ];
# define VP_OBJ(i) ((gst_object) &vp_obj[i])
#endif
#ifndef vp_ot
static struct oop_s vp_ot[VP_NOBJ + 1];
#endif
static int vp_nobj;
struct vp_class { struct gst_class c; };
#define VP_NCLS 12
static struct gst_class vp_cls[VP_NCLS];
static struct oop_s vp_clsoop[VP_NCLS];
static struct oop_s vp_special[3];

gst_object _gst_alloc_obj (size_t size, OOP *p_oop)
{
  int i = vp_nobj++;
  CHECK (i < VP_NOBJ, "VP: harness object table large enough");
  CHECK (size <= VP_WORDS * sizeof (uintptr_t), "VP: harness object size");
  ASSUME (i < VP_NOBJ && size <= VP_WORDS * sizeof (uintptr_t));
  vp_ot[i].object = VP_OBJ (i);
  vp_ot[i].flags = 0;
  VP_OBJ (i)->objSize = FROM_INT (((size + sizeof (PTR) - 1) / sizeof (PTR)));
  *p_oop = &vp_ot[i];
  return VP_OBJ (i);
}

/* class number N with the given shape and number of fixed fields */
static OOP vp_class (int n, int shape, int fixed)
{
  vp_clsoop[n].object = (gst_object) &vp_cls[n];
  vp_cls[n].instanceSpec = ((intptr_t) fixed << ISP_NUMFIXEDFIELDS) | shape | GST_ISP_INTMARK;
  vp_cls[n].objSize = FROM_INT (sizeof (vp_cls[n]) / sizeof (PTR));
  vp_cls[n].superclass = _gst_nil_oop;
  return &vp_clsoop[n];
}

/* object with NWORDS words of fields; EMPTY unused bytes in the last word when BYTES */
static OOP vp_new (OOP cls, int nwords)
{
  OOP o; gst_object p = _gst_alloc_obj (sizeof (gst_object_header) + nwords * sizeof (PTR), &o);
  p->objClass = cls;
  return o;
}
static OOP vp_newbytes (OOP cls, int nfixed, int nbytes)
{
  int tot = nfixed * sizeof (PTR) + nbytes;
  int al = ROUNDED_BYTES (tot);
  OOP o = vp_new (cls, al / sizeof (PTR));
  INIT_UNALIGNED_OBJECT (o, al - tot);
  return o;
}
enum { VPC_LPI = 0, VPC_LNI, VPC_FLOATD, VPC_FLOATE, VPC_FLOATQ, VPC_CHAR, VPC_UCHAR, VPC_USER, VPC_USER2, VPC_USER3, VPC_LZI, VPC_LI };
static void vp_init (void)
{
  _gst_nil_oop = &vp_special[0]; _gst_true_oop = &vp_special[1]; _gst_false_oop = &vp_special[2];
  _gst_large_positive_integer_class = vp_class (VPC_LPI, GST_ISP_UCHAR, 0);
  _gst_large_negative_integer_class = vp_class (VPC_LNI, GST_ISP_UCHAR, 0);
  _gst_floatd_class = vp_class (VPC_FLOATD, GST_ISP_UCHAR, 0);
  _gst_floate_class = vp_class (VPC_FLOATE, GST_ISP_UCHAR, 0);
  _gst_floatq_class = vp_class (VPC_FLOATQ, GST_ISP_UCHAR, 0);
  _gst_char_class = vp_class (VPC_CHAR, GST_ISP_FIXED, 1);
  _gst_unicode_character_class = vp_class (VPC_UCHAR, GST_ISP_FIXED, 1);
#ifdef VP_CBMC
  { static const signed char l2[32] = {0,-1,0,-1,0,-1,1,-1,1,-1,2,-1,2,-1,2,-1,3,-1,3,-1,3,-1,2,-1,-1,-1,-1,-1,-1,-1,3,-1};
    int i; (void) l2; (void) i; }
#endif
}
/* exact value of an Integer object (SmallInteger or LargeInteger up to 9 bytes) */
static int vp_intval (OOP o, __int128 *v)
{
  int n, i; unsigned char *b; __int128 x = 0;
  if (IS_INT (o)) { *v = TO_INT (o); return 1; }
  if (OOP_CLASS (o) != _gst_large_positive_integer_class && OOP_CLASS (o) != _gst_large_negative_integer_class) return 0;
  n = (TO_INT (OOP_TO_OBJ (o)->objSize) * 8 - sizeof (gst_object_header)) - (o->flags & EMPTY_BYTES);
  if (n < 1 || n > 9) return 0;
  b = (unsigned char *) OOP_TO_OBJ (o)->data;
  x = OOP_CLASS (o) == _gst_large_negative_integer_class ? -1 : 0;
  for (i = 8; i >= 0; i--) if (i < n) x = (x << 8) | b[i];
  /* b holds two's complement; the top byte carries the sign */
  *v = x;
  return 1;
}
