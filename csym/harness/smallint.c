/* SmallInteger arithmetic: primitives of prims.def and special bytecodes of vm.def,
   decided against 128-bit arithmetic.  */
#include "interp.c"
#include "vp.h"
typedef __int128 i128;
enum { VM_NONE, VM_DONE, VM_SENT, VM_TRUE, VM_FALSE, VM_NEXT };
static int vm_out, vm_sent;
#undef SEND_MESSAGE
#define SEND_MESSAGE(s, n) (vm_sent = 1)
#undef PREPARE_STACK
#define PREPARE_STACK()
#undef EXPORT_REGS
#define EXPORT_REGS()
#undef IMPORT_REGS
#define IMPORT_REGS()
#undef FETCH
#define FETCH do { vm_out = VM_SENT; return; } while (0)
#undef NEXT_BC
#define NEXT_BC do { vm_out = VM_NEXT; return; } while (0)
#undef DISPATCH
#define VM_true_byte_codes VM_TRUE
#define VM_false_byte_codes VM_FALSE
#define DISPATCH(v) do { vm_out = VM_##v; return; } while (0)
#undef POP_N_OOPS
#define POP_N_OOPS(n) (sp -= (n))
#undef POP_OOP
#undef PUSH_OOP
#undef STACK_AT
#define POP_OOP() (*sp--)
#define PUSH_OOP(o) (*++sp = (o))
#define STACK_AT(i) (sp[-(i)])
#include "vmops.h"

#include "vpheap.h"
static OOP stk[8];
static struct oop_s ots[4];
#define T (_gst_true_oop)
#define F (_gst_false_oop)
static i128 A, B;
static int bound_b, bound_a;

static i128 floordiv (i128 a, i128 b) { i128 q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q--; return q; }

/* exact answer of op; *def = 0 when there is none in the integers */
static i128 exact (int op, i128 a, i128 b, int *def)
{
  *def = 1;
  switch (op)
    {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '&': return (int64_t) a & (int64_t) b;
    case '|': return (int64_t) a | (int64_t) b;
    case '^': return (int64_t) a ^ (int64_t) b;
    }
  *def = 0;
  return 0;
}
#define LO (-((i128) 1 << 61) * 1)
static int fits (i128 v) { return v >= MIN_ST_INT && v <= MAX_ST_INT; }

static void setup (OOP a, OOP b)
{
  vp_init (); vp_nobj = 0;
  sp = &stk[1]; sp[0] = a; sp[1] = 0;
  stk[0] = (OOP) 0x1234560; stk[1] = a; stk[2] = b; sp = &stk[2];
  vm_out = 0; vm_sent = 0;
}
static void unchanged (OOP a, OOP b, const char *m)
{
  CHECK (sp == &stk[2] && stk[2] == b && stk[1] == a && stk[0] == (OOP) 0x1234560, "operands intact for the general method");
}
static void result_is (OOP o)
{
  CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560, "one result replaces receiver and argument");
  CHECK (stk[1] == o, "result is the exact mathematical value");
}
static void result_val (i128 e)
{
  i128 v = 0;
  if (fits (e)) { result_is (FROM_INT ((intptr_t) e)); return; }
  CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560, "one result replaces receiver and argument");
  CHECK (!IS_INT (stk[1]) && vp_intval (stk[1], &v) && v == e, "result outside the SmallInteger range is the exact LargeInteger");
}
static intptr_t anyint (void) { return ND_RANGE (MIN_ST_INT, MAX_ST_INT); }

typedef intptr_t primfn (int, volatile int);

/* exact or fall back: the primitive may fail only if the result does not fit */
#define ARITH(NAME, OPC, PRIM, VMOP)					\
static void chk_##NAME (intptr_t a, intptr_t b) {			\
  int def; i128 e = exact (OPC, a, b, &def);				\
  OOP oa = FROM_INT (a), ob = FROM_INT (b); intptr_t f;			\
  setup (oa, ob); f = PRIM (0, 1);					\
  if (f) unchanged (oa, ob, "prim");					\
  else result_val (e); \
  CHECK (!(f && fits (e)), "primitive answers whenever the result fits"); \
  setup (oa, ob); VMOP ();						\
  if (vm_sent) unchanged (oa, ob, "bytecode");				\
  else result_val (e); \
  CHECK (!(vm_sent && fits (e)), "bytecode answers whenever the result fits"); \
}									\
void h_##NAME (void) { intptr_t a = anyint (), b = anyint (); chk_##NAME (a, b); WITNESS (); } \
void h_##NAME##_s (void) { intptr_t a = anyint (), b = ND_RANGE (-15, 15); if (ND_BOOL ()) { intptr_t t = a; a = b; b = t; } chk_##NAME (a, b); WITNESS (); } \
void h_##NAME##_p (void) { intptr_t a = anyint (), b = (intptr_t) 1 << ND_RANGE (0, 61); if (ND_BOOL ()) b = -b; chk_##NAME (a, b); WITNESS (); } \
void h_##NAME##_w (void) { intptr_t a = ND_RANGE (-2048, 2047), b = ND_RANGE (-2048, 2047); chk_##NAME (a, b); WITNESS (); }

ARITH (plus, '+', VMpr_SmallInteger_plus, vmop_PLUS_SPECIAL)
ARITH (minus, '-', VMpr_SmallInteger_minus, vmop_MINUS_SPECIAL)
ARITH (times, '*', VMpr_SmallInteger_times, vmop_TIMES_SPECIAL)
ARITH (bitand, '&', VMpr_SmallInteger_bitAnd, vmop_BIT_AND_SPECIAL)
ARITH (bitor, '|', VMpr_SmallInteger_bitOr, vmop_BIT_OR_SPECIAL)
ARITH (bitxor, '^', VMpr_SmallInteger_bitXor, vmop_BIT_XOR_SPECIAL)

#define COMPARE(NAME, O, PRIM, VMOP)					\
void h_##NAME (void) { intptr_t a = anyint (), b = anyint ();		\
  OOP oa = FROM_INT (a), ob = FROM_INT (b), e; vp_init (); e = (a O b) ? T : F;	\
  setup (oa, ob); CHECK (!PRIM (0, 1), "comparison answers"); result_is (e); \
  setup (oa, ob); VMOP ();						\
  CHECK (!vm_sent && vm_out == ((a O b) ? VM_TRUE : VM_FALSE), "compare bytecode takes the right branch"); \
  CHECK (sp == &stk[0], "compare bytecode pops both operands");		\
  WITNESS (); }
COMPARE (lt, <, VMpr_SmallInteger_lt, vmop_LESS_THAN_SPECIAL)
COMPARE (gt, >, VMpr_SmallInteger_gt, vmop_GREATER_THAN_SPECIAL)
COMPARE (le, <=, VMpr_SmallInteger_le, vmop_LESS_EQUAL_SPECIAL)
COMPARE (ge, >=, VMpr_SmallInteger_ge, vmop_GREATER_EQUAL_SPECIAL)
COMPARE (eq, ==, VMpr_SmallInteger_eq, vmop_EQUAL_SPECIAL)
COMPARE (ne, !=, VMpr_SmallInteger_ne, vmop_NOT_EQUAL_SPECIAL)

/* division family; the divisor range is the case's bound */
static intptr_t result_int (void) { return TO_INT (stk[1]); }
#define DIVCHK(PRIMCALL, FAILED, OK) \
  setup (oa, ob); PRIMCALL; \
  if (FAILED) unchanged (oa, ob, "prim"); else { \
    CHECK (sp == &stk[1] && stk[0] == (OOP) 0x1234560 && IS_INT (stk[1]), "one integer result"); OK; }

#define QFIT(q) CHECK (!(fits (q)), "answers whenever the quotient fits")
static void chk_div (int which, intptr_t a, intptr_t b)
{
  OOP oa = FROM_INT (a), ob = FROM_INT (b);
  int64_t q = b ? a / b : 0, r = b ? a % b : 0, fq = q, fr = r; 
  int fits_q;
  if (b && r != 0 && ((r < 0) != (b < 0))) { fq--; fr += b; }
  intptr_t f;
#define COMMON_DIV(CALL, FAILV, EXPR, DEFINED)				\
  setup (oa, ob); CALL; f = FAILV;					\
  if (f) { unchanged (oa, ob, ""); CHECK (!((DEFINED) && fits (EXPR)), "answers whenever the quotient fits"); } \
  else { CHECK ((DEFINED), "no answer when there is none"); result_val (EXPR); }
  switch (which)
    {
    case 0: COMMON_DIV (f = VMpr_SmallInteger_intDiv (0, 1), f, fq, b != 0); break;
    case 1: COMMON_DIV (f = VMpr_SmallInteger_modulo (0, 1), f, fr, b != 0); break;
    case 2: COMMON_DIV (f = VMpr_SmallInteger_quo (0, 1), f, q, b != 0); break;
    case 3: COMMON_DIV (f = VMpr_SmallInteger_divide (0, 1), f, q, b != 0 && r == 0); break;
    case 4: COMMON_DIV (vmop_INTEGER_DIVIDE_SPECIAL (), vm_sent, fq, b != 0); break;
    case 5: COMMON_DIV (vmop_REMAINDER_SPECIAL (), vm_sent, fr, b != 0); break;
    case 6: COMMON_DIV (vmop_DIVIDE_SPECIAL (), vm_sent, q, b != 0 && r == 0); break;
    }
}
#define DIV_C(OP, NM, B) void h_div_c_##OP##_##NM (void) { intptr_t a = anyint (), b = B; chk_div (OP, a, b); WITNESS (); }
#define DIV_E(OP) void h_div_edge_##OP (void) { intptr_t a = MIN_ST_INT + ND_RANGE (0, 3), b = anyint (); \
  ASSUME (b >= -3 && b <= 3 || b <= MIN_ST_INT + 7 || b >= MAX_ST_INT - 7); chk_div (OP, a, b); WITNESS (); }
#define DIV_S(OP, DW) void h_div_small_##OP (void) { intptr_t a = ND_RANGE (-DW, DW), b = ND_RANGE (-DW, DW); chk_div (OP, a, b); WITNESS (); }
#define MUL_C(NM, B) void h_times_c_##NM (void) { intptr_t a = anyint (), b = B; if (ND_BOOL ()) chk_times (a, b); else chk_times (b, a); WITNESS (); }
#include "divcases.h"

void h_shift (void)
{
  intptr_t a = anyint (), b = anyint ();
  OOP oa = FROM_INT (a), ob = FROM_INT (b); intptr_t f; int k;
  int isfit; i128 e;
  if (b <= 0) { e = b < -100 ? (a < 0 ? -1 : 0) : ((i128) a >> (int) -b); isfit = 1; }
  else if (b > 62) { e = 0; isfit = a == 0; }
  else { e = (i128) a << (int) b; isfit = fits (e); }
  for (k = 0; k < 2; k++)
    {
      setup (oa, ob);
      if (k == 0) f = VMpr_SmallInteger_bitShift (0, 1);
      else { vmop_BIT_SHIFT_SPECIAL (); f = vm_sent; }
      if (f) { unchanged (oa, ob, ""); CHECK (!isfit || b >= 62, "answers whenever the shifted value fits"); }
      else { CHECK (isfit || b <= 62, "no SmallInteger result when it overflows"); result_val (e); }
    }
  WITNESS ();
}

/* non-integer second operand never yields an integer answer: the send is made */
void h_nonint (void)
{
  intptr_t a = anyint (); OOP oa = FROM_INT (a), ob = &ots[2]; int k = ND_RANGE (0, 11);
  static struct gst_object_s { OBJ_HEADER; } objx;
  ots[2].object = (gst_object) &objx; objx.objClass = &ots[3];
  setup (oa, ob);
  switch (k)
    {
    case 0: CHECK (VMpr_SmallInteger_plus (0, 1), "non-integer operand fails"); break;
    case 1: CHECK (VMpr_SmallInteger_minus (0, 1), "non-integer operand fails"); break;
    case 2: CHECK (VMpr_SmallInteger_times (0, 1), "non-integer operand fails"); break;
    case 3: CHECK (VMpr_SmallInteger_divide (0, 1), "non-integer operand fails"); break;
    case 4: CHECK (VMpr_SmallInteger_modulo (0, 1), "non-integer operand fails"); break;
    case 5: CHECK (VMpr_SmallInteger_intDiv (0, 1), "non-integer operand fails"); break;
    case 6: CHECK (VMpr_SmallInteger_quo (0, 1), "non-integer operand fails"); break;
    case 7: CHECK (VMpr_SmallInteger_bitAnd (0, 1), "non-integer operand fails"); break;
    case 8: CHECK (VMpr_SmallInteger_bitOr (0, 1), "non-integer operand fails"); break;
    case 9: CHECK (VMpr_SmallInteger_bitXor (0, 1), "non-integer operand fails"); break;
    case 10: CHECK (VMpr_SmallInteger_bitShift (0, 1), "non-integer operand fails"); break;
    case 11: CHECK (VMpr_SmallInteger_lt (0, 1), "non-integer operand fails"); break;
    }
  unchanged (oa, ob, "");
  WITNESS ();
}
#define VP_CASES(X) X(h_plus) X(h_minus) X(h_times_s) X(h_times_p) X(h_times_w) X(h_bitand) X(h_bitor) X(h_bitxor) X(h_lt) X(h_gt) X(h_le) X(h_ge) X(h_eq) X(h_ne) DIVCASES(X) X(h_shift) X(h_nonint)
#include "vpmain.h"
