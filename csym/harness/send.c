/* Message sends, block activation and returns (interp.c, interp-bc.inl): one send, from every state of the method cache that agrees with the classes. */
#ifndef FL
#define FL 0	/* how the compiler classified the methods */
#endif
#ifndef KK
#define KK 0
#endif
#ifndef W
#define W 1
#endif
#ifndef D
#define D 2
#endif
#ifndef CA
#define CA 0
#endif
#ifndef CD
#define CD 0
#endif
#ifndef NA
#define NA 1
#endif
#define NK 3
#ifdef VP_CBMC
#define VP_STACKN 20
#define VP_DATAN 8
#endif
#include <string.h>
#include "gstpriv.h"
#ifdef VP_CBMC
#undef abort
#define abort() do { CHECK (0, "VP: abort reached"); ASSUME (0); } while (0)
#define printf(...) 0
/* words */
#undef memcpy
#define memcpy vp_memcpy
static void *vp_memcpy (void *d, const void *s, size_t n) { size_t i; for (i = 0; i < 8 && 8 * i < n; i++) ((OOP *) d)[i] = ((OOP *) s)[i]; return d; }
#endif
#include "vp.h"
#include "interp.c"
#define VP_SPLIT
#define VP_WORDS 12
#include "vpheap.h"
#define FLAGS_OK(f) ((f) != MTH_USER_DEFINED)

static struct oop_s objtab[1 - FIRST_OOP_INDEX];
typedef __typeof__ (*(gst_compiled_method) 0) meth_t; typedef __typeof__ (*(gst_compiled_block) 0) blk_t; typedef __typeof__ (*(gst_block_closure) 0) clo_t;
#ifdef VP_CBMC
typedef __typeof__ (*(gst_method_context) 0) ctx_t;
static ctx_t area;
static ctx_t snd;
#else
typedef struct { __typeof__ (*(gst_method_context) 0) c; OOP more[20]; } ctx_t_;
static ctx_t_ snd_; static struct { ctx_t_ c; char more[1 << 16]; } area;
#define snd (*(gst_method_context) &snd_)
#endif
/* classes 0 < 1 < 2; selectors 0 and 1, and 2: doesNotUnderstand: */
static struct gst_class k0, k1, k2; static struct oop_s ok0, ok1, ok2, os0, os1, os2, o_snd, o_rec, o_lit, o_out, o_clo, o_blk, o_sm;
static meth_t m00, m01, m02, m10, m11, m12, m20, m21, m22, sm; static struct oop_s om00, om01, om02, om10, om11, om12, om20, om21, om22;
static struct gst_class *const KO[3] = { &k0, &k1, &k2 }; static const OOP K[3] = { &ok0, &ok1, &ok2 }, SL[3] = { &os0, &os1, &os2 };
static meth_t *const MO[9] = { &m00, &m01, &m02, &m10, &m11, &m12, &m20, &m21, &m22 };
static const OOP M[9] = { &om00, &om01, &om02, &om10, &om11, &om12, &om20, &om21, &om22 };
static int has[9]; static blk_t blk; static clo_t clo;
#ifdef VP_CBMC
static struct object_s rec, lit, slit;
#else
static struct { OBJ_HEADER; OOP data[8]; } rec, lit, slit;
#endif
static struct oop_s any[12], o_slit;
static OOP verified; static int nprim, primfail; static OOP primval;
void _gst_verify_sent_method (OOP m) { verified = m; m->flags |= F_VERIFIED; }
OOP _gst_find_class_method (OOP c, OOP s)
{
  int k, i; OOP r = _gst_nil_oop;
  for (k = 0; k < NK; k++) for (i = 0; i < 3; i++) if (c == K[k] && s == SL[i] && has[3 * k + i]) r = M[3 * k + i];
  return r;
}
static intptr_t vp_prim (int id, volatile int numArgs)
{
  CHECK (id == 77, "the primitive the method names is run"); nprim++; CHECK (numArgs == NA, "with the arguments of the message");
  if (primfail) return true;
  POP_N_OOPS (numArgs); SET_STACKTOP (primval); return false;
}
static OOP cl (int k) { int i; for (i = 0; i < NK; i++) if (i == k) return K[i]; return _gst_nil_oop; }
static OOP se (int s) { int i; for (i = 0; i < 3; i++) if (i == s) return SL[i]; return _gst_nil_oop; }
/* the method class K finds for selector S: number of the method, or -1 */
static int look (int k, int s) { int j, r = -1; for (j = NK - 1; j >= 0; j--) if (j >= k && has[3 * j + s]) r = 3 * j + s; return r; }
static void hdr (int i, int na)
{
  method_header h = { 0 }; int f = i % 3 == 2 ? 0 : FL, t = ND_RANGE (0, 3);
  ASSUME (FLAGS_OK (f) && (na == 0 || f < MTH_RETURN_SELF || f > MTH_RETURN_LITERAL));
  h.intMark = 1; h.numArgs = na; h.headerFlag = f; h.numTemps = t; h.stack_depth = ND_RANGE (2, 3); h.primitiveIndex = f == MTH_PRIMITIVE ? 5 : f == MTH_RETURN_INSTVAR || f == MTH_RETURN_LITERAL ? ND_RANGE (0, 2) : 0;
  MO[i]->header = h; MO[i]->literals = &o_lit; M[i]->object = (gst_object) MO[i]; M[i]->flags = ND_BOOL () ? F_VERIFIED : 0;
}
void _gst_scavenge (void) { CHECK (0, "there is room for the context"); ASSUME (0); }
static OOP *sp0; static ip_type ip0; static int sip;
static void base (void)
{
  int i;
  _gst_mem.ot = objtab - FIRST_OOP_INDEX; _gst_nil_oop = &_gst_mem.ot[NIL_OOP_INDEX]; _gst_true_oop = &_gst_mem.ot[TRUE_OOP_INDEX]; _gst_false_oop = &_gst_mem.ot[FALSE_OOP_INDEX];
  for (i = 0; i < NK; i++) { K[i]->object = (gst_object) KO[i]; KO[i]->superclass = i + 1 < NK ? K[i + 1] : _gst_nil_oop; }
  _gst_array_class = vp_class (0, GST_ISP_POINTER, 0); _gst_message_lookup_class = vp_class (1, 0, 3);
  _gst_does_not_understand_symbol = &os2;
  o_rec.object = (gst_object) &rec; o_lit.object = (gst_object) &lit; o_slit.object = (gst_object) &slit;
  for (i = 0; i < 3; i++) { rec.data[i] = &any[i]; lit.data[i] = &any[3 + i]; }
  /* the sender */
  o_snd.object = (gst_object) &snd; o_sm.object = (gst_object) &sm; sm.literals = &o_slit; o_out.object = (gst_object) &snd;
  snd.parentContext = &o_out; snd.flags = MCF_IS_METHOD_CONTEXT | (ND_BOOL () ? MCF_IS_UNWIND_CONTEXT : 0);
  _gst_this_context_oop = &o_snd; _gst_this_method = &o_sm; _gst_self = &any[11];
  sip = ND_RANGE (0, 1000); method_base = sm.bytecodes; ip = ip0 = method_base + sip; _gst_literals = slit.data; _gst_temporaries = snd.contextStack;
  i = ND_RANGE (0, 1); sp0 = snd.contextStack + 1; for (i = 0; i < 2; i++) snd.contextStack[i] = &any[9];
  cur_chunk_begin = (gst_context_part) &area; cur_chunk_end = (gst_context_part) ((char *) &area + (1 << 16));
  chunk = &chunks[MAX_CHUNKS_IN_MEMORY - 1];	/* running out of room would be noticed */
  sp = sp0;
}
static OOP args[8];
static void push_args (OOP r)
{
  int i; PUSH_OOP (r);
  for (i = 0; i < NA; i++) { args[i] = ND_BOOL () ? &any[i] : FROM_INT (ND_RANGE (0, 7)); PUSH_OOP (args[i]); }
}
static OOP rnow;
/* the state just after a method or block that takes N arguments (ARG), has T temporaries, started */
static void started (OOP m, void *code, int n, const OOP *arg, int t, int depth, OOP self)
{
  gst_method_context c = (gst_method_context) OOP_TO_OBJ (_gst_this_context_oop); int i;
  CHECK (_gst_this_context_oop != &o_snd && (void *) c == (void *) &area, "a context of its own");
  CHECK (c->parentContext == &o_snd, "that returns to the sender");
  CHECK (_gst_this_method == m && ip == code && method_base == code && _gst_literals == lit.data, "the method runs, from its beginning");
  CHECK (_gst_self == self, "self is the receiver");
  CHECK (_gst_temporaries == c->contextStack && sp == c->contextStack + (n + t) - 1, "the stack holds arguments and temporaries");
  for (i = 0; i < (NA ? NA : 1); i++) if (i < n) CHECK (c->contextStack[i] == arg[i], "the arguments are passed in order");
  for (i = 0; i < NA + 4; i++) if (i >= n && i < n + t) CHECK (c->contextStack[i] == _gst_nil_oop, "temporaries start as nil");
  CHECK (TO_INT (c->objSize) >= (int) (sizeof (struct gst_method_context) / sizeof (PTR)) - 1 + (depth << DEPTH_SCALE), "room for the whole stack");
  CHECK (snd.method == &o_sm && snd.receiver == &any[11] && snd.ipOffset == FROM_INT (sip) && snd.parentContext == &o_out, "the sender is saved");
}
/* the running method returns a value to the sender */
static void ret (int k)
{
  OOP v = ND_BOOL () ? &any[10] : FROM_INT (ND_RANGE (0, 7));
  unwind_context (); SET_STACKTOP (v);
  CHECK (_gst_this_context_oop == &o_snd && _gst_this_method == &o_sm && _gst_self == &any[11], "the sender goes on");
  CHECK (ip == ip0 && method_base == sm.bytecodes && _gst_literals == slit.data && _gst_temporaries == snd.contextStack, "where it was");
  CHECK (sp == sp0 + 1 && *sp == v, "with the answer in place of receiver and arguments");
  CHECK (snd.contextStack[0] == &any[9] && snd.contextStack[1] == &any[9] && snd.parentContext == &o_out, "and nothing else changed");
  CHECK (free_lifo_context == lifo_contexts && (void *) cur_chunk_begin == (void *) &area, "the context is given back");
  CHECK (!(snd.flags & (MCF_IS_DISABLED_CONTEXT | MCF_IS_UNWIND_CONTEXT)) && (snd.flags & MCF_IS_METHOD_CONTEXT), "it unwinds once");
}
static int agrees (method_cache_entry *e)
{
  int k, s, m, r = 0;
  if (e->selectorOOP == NULL) return 1;
  for (k = 0; k < NK; k++) for (s = 0; s < 3; s++)
    if (e->startingClassOOP == K[k] && e->selectorOOP == SL[s] && (m = look (k, s)) >= 0)
      r = e->methodOOP == M[m] && e->methodClassOOP == K[m / 3] && !memcmp (&e->methodHeader, &MO[m]->header, sizeof (method_header)) && (M[m]->flags & F_VERIFIED);
  return r;
}
static method_cache_entry *slot (OOP s, OOP k) { int i = METHOD_CACHE_HASH (s, k); return &method_cache[i]; }
/* what the cache remembers in place E: 0 nothing, else what class (C-1)/3 finds for selector (C-1)%3 */
static void fill (method_cache_entry *e, int c)
{
  int k = (c - 1) / 3, s = (c - 1) % 3, m = c ? look (k, s) : -1;
  if (m < 0) { e->selectorOOP = NULL; return; }
  e->startingClassOOP = K[k]; e->selectorOOP = SL[s];
  M[m]->flags |= F_VERIFIED; e->methodOOP = M[m]; e->methodClassOOP = K[m / 3]; e->methodHeader = MO[m]->header;
}
void h_send (void)
{
  int i, k, s, m, dnu, f, prim; OOP r, mm = NULL; void *code = NULL; method_header h = { 0 }; method_cache_entry *e, *d;
  base ();
  /* the receiver is of class KK; class W (3: none) is the first to have a method for selector 0, class D one for doesNotUnderstand: */
  for (i = 0; i < 9; i++) { has[i] = i % 3 == 0 ? i / 3 == W : i % 3 == 1 || i / 3 == D; hdr (i, i % 3 == 2 ? 1 : NA); }
  for (i = 2; i < 9; i += 3) ASSUME (MO[i]->header.headerFlag != MTH_PRIMITIVE);
  _gst_primitive_table[5].func = vp_prim; _gst_primitive_table[5].id = 77; primfail = ND_BOOL (); primval = &any[8];
  k = KK; s = 0; r = &o_rec;
  e = slot (se (s), cl (k)); d = slot (se (2), cl (k));
  fill (e, CA); if (d != e) fill (d, CD);
  push_args (r);
  _gst_send_message_internal (se (s), NA, r, cl (k));
  CHECK (agrees (e) && agrees (d), "the cache still agrees with the classes");
  CHECK (_gst_sample_counter > 0, "a send is noticed");
  m = look (k, s); dnu = m < 0; if (dnu) m = look (k, 2);
  for (i = 0; i < 9; i++) if (i == m) { h = MO[i]->header; mm = M[i]; code = MO[i]->bytecodes; CHECK (M[i]->flags & F_VERIFIED, "only verified methods run"); }
  f = h.headerFlag; prim = f == MTH_PRIMITIVE;
  if (dnu)
    {
      gst_message_lookup ml = (gst_message_lookup) VP_OBJ (1); gst_object aa = VP_OBJ (0);
      CHECK (vp_nobj == 2, "a message object is made");
      CHECK (ml->selector == se (s) && ml->startingClass == cl (k) && ml->args == &vp_ot[0], "that names the selector and the class");
      for (i = 0; i < NA; i++) CHECK (aa->data[i] == args[i], "and holds the arguments in order");
      CHECK (NUM_WORDS (aa) == NA, "and only them");
      args[0] = &vp_ot[1];
    }
  else CHECK (vp_nobj == 0, "no message object is made");
  if (f == MTH_RETURN_SELF || f == MTH_RETURN_INSTVAR || f == MTH_RETURN_LITERAL || prim && !primfail)
    {
      OOP v = prim ? primval : r;
      for (i = 0; i < 3; i++) if (i == h.primitiveIndex) v = f == MTH_RETURN_INSTVAR ? &any[i] : f == MTH_RETURN_LITERAL ? &any[3 + i] : v;
      CHECK (nprim == prim, "the primitive is tried once");
      CHECK (sp == sp0 + 1 && *sp == v, "the answer replaces receiver and arguments");
      CHECK (_gst_this_context_oop == &o_snd && _gst_this_method == &o_sm && _gst_self == &any[11] && ip == ip0, "and the sender goes on");
    }
  else
    {
      CHECK (nprim == prim, "the primitive is tried once, first");
      started (mm, code, dnu ? 1 : NA, args, h.numTemps, h.stack_depth, r);
      CHECK (((gst_method_context) OOP_TO_OBJ (_gst_this_context_oop))->flags == MCF_IS_METHOD_CONTEXT, "a method context");
      CHECK (snd.contextStack + TO_INT (snd.spOffset) == sp0 + 1, "the answer will replace receiver and arguments");
      ret (0);
    }
  WITNESS ();
}
/* value, value:, numArgs:... on a block of any arity */
void h_value (void)
{
  int i, n = ND_RANGE (0, NA + 1), t = ND_RANGE (0, 3), cull = ND_RANGE (0, 2); mst_Boolean f; block_header h = { 0 };
  base ();
  h.intMark = 1; h.numArgs = n; h.numTemps = t; h.depth = ND_RANGE (2, 3); blk.header = h; blk.literals = &o_lit; o_blk.object = (gst_object) &blk;
  clo.outerContext = &any[8]; clo.block = &o_blk; clo.receiver = &o_rec; o_clo.object = (gst_object) &clo;
  push_args (&o_clo);
  f = send_block_value (NA, cull);
  CHECK (f == (n > NA || n + cull < NA), "a block takes its number of arguments, and cull: as many more as it drops");
  if (f)
    { CHECK (sp == sp0 + 1 + NA && _gst_this_context_oop == &o_snd && ip == ip0 && _gst_this_method == &o_sm, "else nothing happens");
      for (i = 0; i < NA; i++) CHECK (sp0[2 + i] == args[i], "else nothing happens"); }
  else
    {
      started (&o_blk, blk.bytecodes, n, args, t, h.depth, &o_rec);
      CHECK (((gst_block_context) OOP_TO_OBJ (_gst_this_context_oop))->outerContext == &any[8], "it sees the variables around it");
      CHECK (snd.contextStack + TO_INT (snd.spOffset) == sp0 + 1, "the answer will replace block and arguments");
      ret (0);
    }
  WITNESS ();
}
/* a method run directly (withArgs:executeMethod:) */
void h_method (void)
{
  method_header h;
  base (); hdr (0, NA); h = MO[0]->header;
  _gst_primitive_table[5].func = vp_prim; _gst_primitive_table[5].id = 77; primfail = ND_BOOL (); primval = &any[8];
  push_args (&o_rec);
  _gst_send_method (M[0]);
  CHECK (M[0]->flags & F_VERIFIED, "only verified methods run");
  if (h.headerFlag == MTH_RETURN_SELF) { CHECK (sp == sp0 + 1 && *sp == &o_rec && _gst_this_context_oop == &o_snd && ip == ip0, "answers self"); }
  else if (h.headerFlag == MTH_RETURN_INSTVAR) { CHECK (sp == sp0 + 1 && *sp == &any[h.primitiveIndex] && _gst_this_context_oop == &o_snd && ip == ip0, "answers the instance variable"); }
  else if (h.headerFlag == MTH_RETURN_LITERAL) { CHECK (sp == sp0 + 1 && *sp == &any[3 + h.primitiveIndex] && _gst_this_context_oop == &o_snd && ip == ip0, "answers the literal"); }
  else if (h.headerFlag == MTH_PRIMITIVE && !primfail) { CHECK (nprim == 1 && sp == sp0 + 1 && *sp == primval && _gst_this_context_oop == &o_snd && ip == ip0, "the primitive answers"); }
  else
    {
      CHECK (nprim == (h.headerFlag == MTH_PRIMITIVE), "the primitive is tried once, first");
      started (M[0], MO[0]->bytecodes, NA, args, h.numTemps, h.stack_depth, &o_rec);
      CHECK (snd.contextStack + TO_INT (snd.spOffset) == sp0 + 1, "the answer will replace receiver and arguments");
      ret (0);
    }
  WITNESS ();
}
/* after the classes changed nothing is remembered; perform: refuses a wrong number of arguments */
void h_forget (void)
{
  int i = ND_RANGE (0, METHOD_CACHE_SIZE - 1), j;
  base (); _gst_sample_counter = 1 + ND_BOOL ();
  method_cache[i].selectorOOP = &os0; method_cache[i].startingClassOOP = &ok0;
  at_cache_class = at_put_cache_class = size_cache_class = class_cache_class = ND_BOOL () ? &ok0 : NULL;
  _gst_invalidate_method_cache ();
  CHECK (method_cache[i].selectorOOP == NULL, "no method is remembered");
  CHECK (!at_cache_class && !at_put_cache_class && !size_cache_class && !class_cache_class, "nor a primitive");
  WITNESS ();
}
void h_correct (void)
{
  int i, k, s, m, n = ND_RANGE (0, 3); mst_Boolean f; method_cache_entry *e;
  base (); rec.objClass = NULL;
  for (i = 0; i < 9; i++) { has[i] = i % 3 != 1 || i / 3 == W; hdr (i, i % 3); }
  k = ND_RANGE (0, NK - 1); s = ND_RANGE (0, 2); rec.objClass = cl (k);
  e = slot (se (s), cl (k)); fill (e, CA);
  f = check_send_correctness (&o_rec, se (s), n);
  m = look (k, s);
  CHECK (f == (m < 0 || n == s), "perform: with the number of arguments the method takes");
  WITNESS ();
}
#define VP_CASES(X) X(h_send) X(h_value) X(h_method) X(h_forget) X(h_correct)
#include "vpmain.h"
