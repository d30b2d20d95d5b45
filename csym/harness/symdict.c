/* Symbols (sym.c) and the hash tables of the virtual machine (dict.c, dict.inl): the method
   and identity dictionaries, the dictionaries of variable bindings, and namespace lookup.
   A table is put in an arbitrary state in which every key can be reached from its home
   slot; one operation on an arbitrary key must act on the table as on a mathematical map.  */
#ifndef NS
#define NS 8		/* slots */
#endif
#ifndef FIXD
#define FIXD 1
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef LEN2
#define LEN2 LEN
#endif
#ifndef CHAIN
#define CHAIN 2
#endif
#ifndef USED
#define USED 2
#endif
#ifndef NKEY
#define NKEY 1024
#endif
#ifdef VP_CBMC
#define VP_DATAN (FIXD + 4 * NS > 10 ? FIXD + 4 * NS : 10)
#endif
#include "gstpriv.h"
#ifndef BUCKETS
#define BUCKETS 1
#endif
#undef SYMBOL_TABLE_SIZE
#define SYMBOL_TABLE_SIZE BUCKETS	/* any bucket count is a power of two; few: every spelling collides */
#ifdef VP_CBMC
static int vp_memcmp (const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; while (n--) { if (*x != *y) return *x < *y ? -1 : 1; x++; y++; } return 0; }
static void *vp_memcpy (void *a, const void *b, size_t n) { char *x = a; const char *y = b; if (n % 8 == 0) { uintptr_t *p = a; const uintptr_t *q = b; for (n /= 8; n; n--) *p++ = *q++; return a; } while (n--) *x++ = *y++; return a; }
#define memcmp vp_memcmp
#define memcpy vp_memcpy
#endif
#include "dict.c"
#include "sym.c"
#include "vp.h"
#define BIGD (2 + FIXD + 4 * NS)
#define VP_WORDS (BIGD > 12 ? BIGD : 12)
#define VP_NOBJ 8
#define VP_SPLIT
#define vp_init vp_init_
#include "vpheap.h"
#undef vp_init
static struct oop_s keytab[NKEY + 1];
static OOP key (void) { int i = ND_RANGE (1, NKEY - 1); return &keytab[i]; }
static OOP *slot (OOP o) { return (OOP *) OOP_TO_OBJ (o) + 2; }

static OOP inc_[8];
static void init (void)
{
  vp_init_ (); vp_nobj = 0;
  _gst_nil_oop = &keytab[0];
  _gst_mem.ot = keytab;
  _gst_mem.inc_base = _gst_mem.inc_ptr = inc_; _gst_mem.inc_end = inc_ + 8;
}
#ifdef VP_CBMC
void _gst_swap_objects (OOP a, OOP b) { gst_object t = a->object; a->object = b->object; b->object = t; }
const char _gst_log2_sizes[32] = { 0, -1, 0, -1, 0, -1, 1, -1, 1, -1, 2, -1, 2, -1, 2, -1, 3, -1, 3, -1, 3, -1, 2, -1, -1, -1, -1, -1, -1, -1, 3, -1 };
#endif
/* ---------------- identity dictionaries: key, value, key, value... */
static OOP dict; static OOP dcls;
static int home (OOP k) { return scramble (OOP_INDEX (k)) & (NS - 1); }
static OOP ks[NS], vs[NS];	/* the state before */
static int used;
/* PAIRS: identity dictionary.  Otherwise an array of associations.  */
#define AW 6
static uintptr_t ao0[AW], ao1[AW], ao2[AW], ao3[AW], ao4[AW], ao5[AW], ao6[AW], ao7[AW], ao8[AW];
static struct oop_s ap0, ap1, ap2, ap3, ap4, ap5, ap6, ap7, ap8;
static uintptr_t *const ao[9] = { ao0, ao1, ao2, ao3, ao4, ao5, ao6, ao7, ao8 };
static OOP const ap[9] = { &ap0, &ap1, &ap2, &ap3, &ap4, &ap5, &ap6, &ap7, &ap8 };
static int abase;
static OOP mkassoc (int i, OOP k, OOP v)
{
  i += abase;
  ap[i]->object = (gst_object) ao[i]; ap[i]->flags = 0;
  ao[i][0] = (uintptr_t) FROM_INT (4); ao[i][1] = (uintptr_t) _gst_association_class;
  ao[i][2] = (uintptr_t) k; ao[i][3] = (uintptr_t) v;
  return ap[i];
}
static void mkdict (int pairs)
{
  int i, j;
  dcls = vp_class (VPC_USER, GST_ISP_POINTER | ISP_ISINDEXABLE, FIXD);
  _gst_association_class = vp_class (VPC_USER2, GST_ISP_FIXED, 2);
  _gst_lookup_key_class = _gst_association_class;
  dict = vp_new (dcls, FIXD + NS * (pairs ? 2 : 1));
  used = 0;
  for (i = 0; i < NS; i++)
    {
#ifdef OCC
      ks[i] = (OCC >> i) & 1 ? key () : _gst_nil_oop;
#else
      ks[i] = ND_BOOL () ? key () : _gst_nil_oop;
#endif
      if (ks[i] == _gst_nil_oop) vs[i] = _gst_nil_oop; else vs[i] = (OOP) FROM_INT (ND_RANGE (-1000, 1000));
      used += ks[i] != _gst_nil_oop;
    }
  
#ifndef OCC
  ASSUME (used == USED); used = USED;
#endif
  for (i = 0; i < NS; i++)
    if (ks[i] != _gst_nil_oop)
      {
        int h = home (ks[i]);
        for (j = 0; j < NS; j++)
          {
            ASSUME (i == j || ks[i] != ks[j]);
            /* no hole between the home slot and the slot */
            if (((j - h) & (NS - 1)) < ((i - h) & (NS - 1))) ASSUME (ks[j] != _gst_nil_oop);
          }
      }
  for (i = 0; i < FIXD; i++) slot (dict)[i] = (OOP) FROM_INT (i ? 77 : used);
  for (i = 0; i < NS; i++)
    if (pairs) { slot (dict)[FIXD + 2 * i] = ks[i]; slot (dict)[FIXD + 2 * i + 1] = vs[i]; }
    else slot (dict)[FIXD + i] = ks[i] == _gst_nil_oop ? _gst_nil_oop : mkassoc (i, ks[i], vs[i]);
}
/* the map before: value of Q or NULL */
static OOP was (OOP q) { int i; OOP r = NULL; for (i = 0; i < NS; i++) if (ks[i] == q) r = vs[i]; return r; }
/* the map now, whatever the table size NSLOTS; -1 in *N for a key stored twice */
static OOP now (int pairs, int nslots, OOP q, int *n)
{
  int i; OOP r = NULL;
  for (*n = i = 0; i < 2 * NS; i++)
    if (i < nslots) {
      OOP k = slot (dict)[FIXD + (pairs ? 2 * i : i)];
      if (pairs) { if (k == q) { r = slot (dict)[FIXD + 2 * i + 1]; ++*n; } }
      else if (k != _gst_nil_oop && ((OOP *) OOP_TO_OBJ (k))[2] == q) { r = ((OOP *) OOP_TO_OBJ (k))[3]; ++*n; }
    }
  return r;
}
/* every key reachable from its home slot, without a hole */
static int reachable (int pairs, int nslots, OOP q)
{
  int i, at = -1, h = scramble (OOP_INDEX (q)) & (nslots - 1), ok = 1;
  OOP kk[2 * NS];
  for (i = 0; i < 2 * NS; i++)
    if (i < nslots) {
      OOP k = slot (dict)[FIXD + (pairs ? 2 * i : i)];
      kk[i] = pairs || k == _gst_nil_oop ? k : ((OOP *) OOP_TO_OBJ (k))[2];
      if (kk[i] == q) at = i;
    }
  for (i = 0; i < 2 * NS; i++)
    if (i < nslots && ((i - h) & (nslots - 1)) < ((at - h) & (nslots - 1)) && kk[i] == _gst_nil_oop) ok = 0;
  return at < 0 || ok;
}
static int slots (int pairs) { return (NUM_WORDS (OOP_TO_OBJ (dict)) - FIXD) / (pairs ? 2 : 1); }

static void after_put (int pairs, OOP k, OOP v)
{
  OOP q = key (); int n, m; OOP r, w = was (q); int nslots = slots (pairs);
  CHECK (nslots >= 1 && nslots <= 2 * NS && (nslots & (nslots - 1)) == 0, "VP: table sizes covered");
  r = now (pairs, nslots, q, &n);
  if (q == k) { CHECK (n == 1, "key added is present exactly once"); CHECK (r == v, "key added has the value stored"); }
  else if (w) { CHECK (n == 1, "other key stays, exactly once"); CHECK (r == w, "other key keeps its value"); }
  else CHECK (n == 0, "no other key appears");
  CHECK (reachable (pairs, nslots, q), "every key is found by probing from its home slot");
  m = used + (was (k) == NULL);
  CHECK (TO_INT (slot (dict)[0]) == m, "tally is the number of keys");
  WITNESS ();
}
/* IdentityDictionary/MethodDictionary */
void h_id_put (void)
{
  OOP k, v, old; init (); mkdict (1);
  k = key (); v = (OOP) FROM_INT (ND_RANGE (-1000, 1000));
  old = _gst_identity_dictionary_at_put (dict, k, v);
  CHECK (old == (was (k) ? was (k) : _gst_nil_oop), "answers the value replaced, or nil");
  after_put (1, k, v);
}
void h_id_find (void)
{
  OOP k; int i; init (); mkdict (1);
  k = key ();
  i = identity_dictionary_find_key (dict, k);
  if (was (k)) { CHECK (i > 0 && i < 2 * NS && slot (dict)[FIXD + i - 1] == k && slot (dict)[FIXD + i] == was (k), "present key is found, with its value"); }
  else CHECK (i == -1, "absent key is not found");
  CHECK (_gst_identity_dictionary_at (dict, k) == (was (k) ? was (k) : _gst_nil_oop), "lookup answers the value, or nil");
  WITNESS ();
}
void h_id_inc (void)
{
  OOP k; int by = ND_RANGE (-1000, 1000); init (); mkdict (1);
  k = key ();
  _gst_identity_dictionary_at_inc (dict, k, by);
  after_put (1, k, (OOP) FROM_INT ((was (k) ? TO_INT (was (k)) : 0) + by));
}
/* the class's own method dictionary */
static OOP cls0; static struct oop_s cls0_oop; static struct gst_class cls0_obj;
void h_class_method (void)
{
  OOP k, r; init (); mkdict (1);
  k = key ();
  cls0 = &cls0_oop; cls0->object = (gst_object) &cls0_obj; cls0_obj.methodDictionary = ND_BOOL () ? dict : _gst_nil_oop;
  r = _gst_find_class_method (cls0, k);
  CHECK (r == (cls0_obj.methodDictionary == dict && was (k) ? was (k) : _gst_nil_oop), "answers the method the class defines, or nil");
  WITNESS ();
}
/* Dictionary, BindingDictionary, Namespace: associations */
void h_dict_find (void)
{
  OOP k, r; int i; init (); mkdict (0);
  k = key ();
  r = dictionary_association_at (dict, k);
  if (was (k)) CHECK (r != _gst_nil_oop && ((OOP *) OOP_TO_OBJ (r))[2] == k && ((OOP *) OOP_TO_OBJ (r))[3] == was (k), "present key: its association");
  else CHECK (r == _gst_nil_oop, "absent key: nil");
  CHECK (dictionary_at (dict, k) == (was (k) ? was (k) : _gst_nil_oop), "value, or nil");
  CHECK (dictionary_association_at (_gst_nil_oop, k) == _gst_nil_oop, "nothing in nil");
  WITNESS ();
}
void h_dict_add (void)
{
  OOP k, v, a, r; init (); mkdict (0);
  k = key (); v = (OOP) FROM_INT (ND_RANGE (-1000, 1000));
  a = mkassoc (NS, k, v);
  r = _gst_dictionary_add (dict, a);
  CHECK (((OOP *) OOP_TO_OBJ (r))[2] == k && ((OOP *) OOP_TO_OBJ (r))[3] == v, "answers the association in the dictionary");
  if (!was (k)) CHECK (r == a, "a new key gets the association given");
  after_put (0, k, v);
}

void h_dict_grow (void)
{
  OOP q, r, w; int n; init (); mkdict (0);
  grow_dictionary (dict);
  q = key (); w = was (q);
  r = now (0, slots (0), q, &n);
  CHECK (slots (0) > NS && slots (0) <= 2 * NS, "VP: table sizes covered");
  CHECK (n == (w != NULL) && r == w, "growing keeps every key with its value");
  CHECK (reachable (0, slots (0), q), "every key is found by probing from its home slot");
  CHECK (TO_INT (slot (dict)[0]) == used, "tally is the number of keys");
  WITNESS ();
}
/* a name means what the innermost namespace defining it says, from the class outwards */
static uintptr_t nilobj[VP_WORDS];
void h_namespace (void)
{
  OOP outer, outer_ks[NS], outer_vs[NS], k, r, e, w; int i, viaclass = ND_BOOL (), flat = ND_BOOL ();
  init ();
  _gst_class_class = vp_class (VPC_CHAR, GST_ISP_FIXED, 0);
  _gst_dictionary_class = vp_class (VPC_FLOATD, GST_ISP_POINTER | ISP_ISINDEXABLE, FIXD);
  _gst_abstract_namespace_class = vp_class (VPC_FLOATE, GST_ISP_POINTER | ISP_ISINDEXABLE, FIXD);
  vp_cls[VPC_FLOATE].superclass = _gst_dictionary_class;
  mkdict (0); outer = dict;
  for (i = 0; i < NS; i++) { outer_ks[i] = ks[i]; outer_vs[i] = vs[i]; }
  vp_cls[VPC_USER].superclass = _gst_abstract_namespace_class;
  slot (outer)[1] = _gst_nil_oop;	/* superspace */
  abase = NS;
  mkdict (0);
  /* a plain dictionary has no superspace */
  vp_cls[VPC_USER].superclass = _gst_abstract_namespace_class;
  OOP_TO_OBJ (dict)->objClass = flat ? _gst_dictionary_class : dcls;
  slot (dict)[1] = outer;
  cls0 = &cls0_oop; cls0->object = (gst_object) &cls0_obj; cls0_obj.classVariables = dict; cls0_obj.objClass = vp_class (VPC_USER3, GST_ISP_FIXED, 0);
  vp_cls[VPC_USER3].superclass = _gst_class_class;
  keytab[0].object = (gst_object) nilobj; nilobj[0] = (uintptr_t) FROM_INT (2); nilobj[1] = (uintptr_t) vp_class (VPC_FLOATQ, GST_ISP_FIXED, 0);
  k = key ();
  r = _gst_namespace_association_at (viaclass ? cls0 : dict, k);
  e = was (k); w = e;
  if (!w && !flat) for (i = 0; i < NS; i++) if (outer_ks[i] == k) w = outer_vs[i];
  if (w) CHECK (r != _gst_nil_oop && ((OOP *) OOP_TO_OBJ (r))[2] == k && ((OOP *) OOP_TO_OBJ (r))[3] == w, "the innermost definition of the name");
  else CHECK (r == _gst_nil_oop, "an undefined name has no binding");
  CHECK (_gst_namespace_at (viaclass ? cls0 : dict, k) == (w ? w : _gst_nil_oop), "value of the innermost definition, or nil");
  WITNESS ();
}
/* ---------------- symbols */
static char text[LEN + 1], text2[LEN + 1];
static OOP *ot_bucket; static struct oop_s symtab_oop; static union { uintptr_t w[2 + BUCKETS]; struct object_s o; } symtab_obj;
static void init_sym (void)
{
  int i;
  init ();
  _gst_symbol_class = vp_class (VPC_USER, GST_ISP_UCHAR, 0);
  _gst_sym_link_class = vp_class (VPC_USER2, GST_ISP_FIXED, 2);
  _gst_symbol_table = &symtab_oop; symtab_oop.object = (gst_object) &symtab_obj;
  for (i = 0; i < BUCKETS; i++) symtab_obj.w[2 + i] = (uintptr_t) _gst_nil_oop;
}
static int symlen (OOP o) { return OOP_SIZE_BYTES (o) - (o->flags & EMPTY_BYTES); }
static int spells (OOP o, const char *t, int n)
{
  int i; const char *b = (const char *) (OOP_TO_OBJ (o)) + 16;
  if (symlen (o) != n) return 0;
  for (i = 0; i < n; i++) if (b[i] != t[i]) return 0;
  return 1;
}
static int same_text (int n, int m) { int i; if (n != m) return 0; for (i = 0; i < n; i++) if (text[i] != text2[i]) return 0; return 1; }
#ifdef VP_CBMC
void _gst_add_symbol_completion (const char *s, int n) { }
#endif
#define N1 (LEN)
/* two spellings are the same symbol exactly when they are equal */
void h_sym (void)
{
  OOP a, b, c; int i, n = LEN, m = LEN2;
  init_sym ();
  for (i = 0; i < n; i++) text[i] = ND ();
  for (i = 0; i < m; i++) text2[i] = ND ();
  a = intern_counted_string (text, n);
  b = intern_counted_string (text2, m);
  CHECK (spells (a, text, n) && OOP_CLASS (a) == _gst_symbol_class, "the symbol has the characters given");
  CHECK (spells (b, text2, m) && OOP_CLASS (b) == _gst_symbol_class, "the second symbol has the characters given");
  CHECK ((a == b) == same_text (n, m), "same symbol exactly for the same characters");
  CHECK (IS_OOP_READONLY (a), "symbols are read-only");
  WITNESS ();
}
/* interning again finds every symbol of a bucket: three spellings, any of them colliding */
void h_sym3 (void)
{
  OOP a, b, c; int i;
  init_sym ();
  for (i = 0; i < LEN; i++) { text[i] = ND (); text2[i] = ND (); }
  a = intern_counted_string (text, LEN);
  b = intern_counted_string (text2, LEN);
  c = intern_counted_string (text, LEN);
  CHECK (a == c, "interning again answers the same symbol");
  WITNESS ();
}
void h_sym_oop (void)
{
  OOP s, a, b; int i, n = LEN; static struct oop_s str_oop; 
  init_sym ();
  _gst_string_class = vp_class (VPC_USER3, GST_ISP_CHARACTER, 0);
  s = vp_newbytes (_gst_string_class, 0, n);
  for (i = 0; i < n; i++) { text[i] = ND (); ((char *) OOP_TO_OBJ (s))[16 + i] = text[i]; }
  a = _gst_intern_string_oop (s);
  CHECK (spells (a, text, n), "the symbol has the string's characters");
  CHECK (spells (s, text, n), "the string is left alone");
  CHECK (intern_counted_string (text, n) == a, "the C spelling gives the same symbol");
  WITNESS ();
}
void h_numargs (void)
{
  OOP s; int i, n = LEN, want = 0, alpha; unsigned char c;
  init_sym ();
  s = vp_newbytes (_gst_symbol_class, 0, n);
  for (i = 0; i < n; i++) { text[i] = ND (); ((char *) OOP_TO_OBJ (s))[16 + i] = text[i]; want += text[i] == ':'; }
  c = text[0];
  alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
  CHECK (_gst_selector_num_args (s) == (alpha ? want : 1), "one argument per colon of a keyword selector, one for a binary selector");
  WITNESS ();
}
#define VP_CASES(X) X(h_id_put) X(h_id_find) X(h_id_inc) X(h_class_method) X(h_dict_find) X(h_dict_add) X(h_dict_grow) X(h_namespace) X(h_sym) X(h_sym3) X(h_sym_oop) X(h_numargs)
#include "vpmain.h"
