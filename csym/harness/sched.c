/* Processes, ready lists and semaphores (interp.c): one operation, from every well-formed state, against lists of numbers. */
#ifndef NPRI
#define NPRI 3
#endif
#ifndef NP
#define NP 4
#endif
#ifdef VP_CBMC
#define VP_STACKN 3
#define VP_DATAN NPRI
#endif
#include <string.h>
#include "gstpriv.h"
/* an interrupt can come just before any atomic operation */
static void vp_irq (void);
#undef __sync_swap
#define __sync_swap(p, v) ({ __typeof__ (*(p)) vp_o; vp_irq (); vp_o = *(p); *(p) = (v); vp_o; })
#define __sync_bool_compare_and_swap(p, o, n) ({ __typeof__ (*(p)) vp_old = (o); vp_irq (); *(p) == vp_old ? (*(p) = (n), 1) : 0; })
#define __sync_val_compare_and_swap(p, o, n) ({ __typeof__ (*(p)) vp_n = (n), vp_c; vp_irq (); vp_c = *(p); if (vp_c == (o)) *(p) = vp_n; vp_c; })
#define __sync_synchronize() do { } while (0)
#define xmalloc vp_xmalloc
#define free vp_free
#define printf vp_printf
static int vp_printf (const char *f, ...);
static void *vp_xmalloc (size_t n);
static void vp_free (void *p);
#include "dict.c"
#include "interp.c"
#undef free
#undef printf
#include "vp.h"

#define NL (NPRI + 2)
static struct oop_s objtab[1 - FIRST_OOP_INDEX], o_p0, o_p1, o_p2, o_p3, o_p4, o_c0, o_c1, o_c2, o_c3, o_c4, o_l0, o_l1, o_l2, o_l3, o_l4, o_l5, o_arr, o_proc;
static const OOP OP[5] = { &o_p0, &o_p1, &o_p2, &o_p3, &o_p4 }, OC[5] = { &o_c0, &o_c1, &o_c2, &o_c3, &o_c4 }, OL[6] = { &o_l0, &o_l1, &o_l2, &o_l3, &o_l4, &o_l5 };
typedef __typeof__ (*(gst_process) 0) proc_t; typedef __typeof__ (*(gst_semaphore) 0) sem_t_; typedef __typeof__ (*(gst_processor_scheduler) 0) sched_t;
#ifdef VP_CBMC
typedef __typeof__ (*(gst_method_context) 0) ctx_t;
#else
typedef struct { __typeof__ (*(gst_method_context) 0) c; OOP more[3]; } ctx_t;
#endif
static proc_t p0, p1, p2, p3, p4; static ctx_t c0, c1, c2, c3, c4; static sem_t_ l0, l1, l2, l3, l4, l5; static sched_t S;
#ifdef VP_CBMC
static struct object_s arr;
#else
static struct { OBJ_HEADER; OOP data[NPRI]; } arr;
#endif
static proc_t *const PO[5] = { &p0, &p1, &p2, &p3, &p4 }; static ctx_t *const CO[5] = { &c0, &c1, &c2, &c3, &c4 }; static sem_t_ *const LO[6] = { &l0, &l1, &l2, &l3, &l4, &l5 };
static int vp_printf (const char *f, ...) { CHECK (0, "a process that can run is found"); ASSUME (0); return 0; }
static OOP stk[6]; static struct oop_s o_cls; static __typeof__ (*(gst_class) 0) cls;
void _gst_wakeup (void) { }
static const char mon, nor;
/* model: the list each process is in (-1: none) and its place there */
static int in[NP], key[NP], lo, hi, pri[NP], dead[NP], act, top[NP]; static intptr_t sig[NL];
static void m_remove (int p) { int i; for (i = 0; i < NP; i++) if (i == p) in[i] = -1; }
static void m_last (int l, int p) { int i; hi++; for (i = 0; i < NP; i++) if (i == p) in[i] = l, key[i] = hi; }
static void m_first (int l, int p) { int i; lo--; for (i = 0; i < NP; i++) if (i == p) in[i] = l, key[i] = lo; }
static int m_where (int p) { return in[p]; }
/* the first process of list L after place K, other than process X; or -1 */
static int m_find (int l, int k, int x) { int i, r = -1, b = 1000; for (i = 0; i < NP; i++) if (i != x && in[i] == l && key[i] > k && key[i] < b) r = i, b = key[i]; return r; }
static int m_resume (int p, int force)
{
  if (dead[p]) return 0;
  if (p != act && (force || pri[p] >= pri[act]))
    { if (m_where (act) >= 0) m_last (pri[act], act);
      m_first (pri[p], p); act = p; }
  else m_first (pri[p], p);
  return 1;
}
static int m_signal (int s, int incr)
{
  int p;
  do { p = m_find (s, -1000, -1); if (p < 0) { sig[s] += incr; return 0; } m_remove (p); } while (!m_resume (p, 0));
  top[p] = s; return 1;
}
/* the first process, other than the active one, of the highest list that has one */
static void m_next (void)
{
  int l, r = -1;
  for (l = NPRI - 1; l >= 0 && r < 0; l--)
    r = m_find (l, -1000, act);
  if (r >= 0) { if (m_where (act) == pri[act]) m_last (pri[act], act); m_first (pri[r], r); act = r; }
}
/* P waits; S runs next if it was the active one */
static int m_wait (int s, int p)
{
  if (sig[s] > 0) { sig[s]--; return 0; }
  m_last (s, p);
  if (p == act) m_next ();
  return 1;
}
/* state */
static int act0; static OOP prio0[NP];
static OOP P (int i) { int j; for (j = 0; j < NP; j++) if (i == j) return OP[j]; return _gst_nil_oop; }
static OOP Q (int i) { int j; for (j = 0; j < NL; j++) if (i == j) return OL[j]; return _gst_nil_oop; }
static void link_up (void)
{
  int l, i, j, f;
  for (l = 0; l < NL; l++)
    {
      LO[l]->firstLink = LO[l]->lastLink = _gst_nil_oop; LO[l]->signals = FROM_INT (sig[l]);
      for (i = 0; i < NP; i++) if (in[i] == l) { if (LO[l]->firstLink == _gst_nil_oop) LO[l]->firstLink = P (i); LO[l]->lastLink = P (i); PO[i]->myList = Q (l); }
    }
  for (i = 0; i < NP; i++)
    {
      PO[i]->nextLink = _gst_nil_oop;
      for (f = 0, j = i + 1; j < NP; j++) if (!f && in[i] >= 0 && in[j] == in[i]) { PO[i]->nextLink = P (j); f = 1; }
    }
}
static void init (void)
{
  int l, i;
  _gst_mem.ot = objtab - FIRST_OOP_INDEX; _gst_nil_oop = &_gst_mem.ot[NIL_OOP_INDEX]; _gst_true_oop = &_gst_mem.ot[TRUE_OOP_INDEX]; _gst_false_oop = &_gst_mem.ot[FALSE_OOP_INDEX];
  _gst_processor_oop = &o_proc; o_proc.object = (gst_object) &S; o_arr.object = (gst_object) &arr; S.processLists = &o_arr;
  arr.objSize = FROM_INT (2 + NPRI); arr.objClass = &o_cls; o_cls.object = (gst_object) &cls; cls.instanceSpec = GST_ISP_POINTER;
  for (i = 0; i < NPRI; i++) arr.data[i] = Q (i);
  for (i = 0; i < NP; i++)
    { OP[i]->object = (gst_object) PO[i]; OC[i]->object = (gst_object) CO[i];
      PO[i]->nextLink = PO[i]->myList = _gst_nil_oop; PO[i]->interrupts = _gst_nil_oop; }
  for (l = 0; l < NL; l++) OL[l]->object = (gst_object) LO[l];
  global_monitored_bytecodes = (void *) &mon; global_normal_bytecodes = (void *) &nor; dispatch_vec = global_normal_bytecodes;
  switch_to_process = _gst_nil_oop;
}
/* WHERE: 0 nowhere, 1 ready, 2 or 3 at a semaphore.  The active process is number 0 and first in its list; the others are numbered in the order of each list */
static void state (int idle)
{
  int i, w;
  init (); act0 = act = 0;
  for (i = 0; i < NP; i++)
    {
      pri[i] = ND_RANGE (0, NPRI - 1); dead[i] = 0; w = i ? ND_RANGE (0, 3) : 1;
      if (idle && i == NP - 1) { ASSUME (w == 1); }
      if (i && w != 1 && ND_BOOL ()) dead[i] = 1;
      in[i] = w == 0 ? -1 : w == 1 ? pri[i] : NPRI + w - 2; key[i] = i;
      prio0[i] = PO[i]->priority = FROM_INT (pri[i] + 1);
      top[i] = -1; hi = NP;
      PO[i]->suspendedContext = dead[i] ? _gst_nil_oop : OC[i];
      w = 1; ((gst_method_context) CO[i])->spOffset = FROM_INT (w); ((gst_method_context) CO[i])->contextStack[w] = (OOP) 0x4440;
    }
  for (i = NPRI; i < NL; i++) { sig[i] = ND_RANGE (0, 2); ASSUME (!sig[i] || m_find (i, -1000, -1) < 0); }
  S.activeProcess = P (0);
  link_up ();
}
static void agree (void)
{
  int l, i, k;
  for (l = 0; l < NL; l++)
    {
      int f = m_find (l, -1000, -1), m = f; for (i = 0; i < NP; i++) if (in[i] == l && m >= 0 && key[i] > key[m]) m = i;
      CHECK (LO[l]->signals == FROM_INT (sig[l]), "each semaphore has its signals");
      CHECK (LO[l]->firstLink == P (f), "each list starts with the right process");
      CHECK (LO[l]->lastLink == P (m), "each list ends with the right process");
    }
  for (i = 0; i < NP; i++) if (in[i] >= 0)
    {
      CHECK (PO[i]->myList == Q (in[i]), "each process is in the right list");
      CHECK (PO[i]->nextLink == P (m_find (in[i], key[i], -1)), "each list is in the right order");
    }
  for (i = 0; i < NP; i++)
    {
      if (m_where (i) < 0) CHECK (PO[i]->myList == _gst_nil_oop && PO[i]->nextLink == _gst_nil_oop, "a process in no list is not linked");
      CHECK (PO[i]->priority == prio0[i] && PO[i]->suspendedContext == (dead[i] ? _gst_nil_oop : OC[i]), "processes keep their priorities and contexts");
      k = TO_INT (((gst_method_context) CO[i])->spOffset);
      CHECK (((gst_method_context) CO[i])->contextStack[k] == (top[i] < 0 ? (OOP) 0x4440 : Q (top[i])), "exactly the processes that got their signal are told so");
    }
  CHECK (S.activeProcess == P (act0) || (S.activeProcess == _gst_nil_oop), "switching waits for the next sequence point");
  CHECK ((IS_NIL (switch_to_process) ? P (act0) : switch_to_process) == P (act), "the right process runs next");
  CHECK (act == act0 || dispatch_vec == global_monitored_bytecodes, "the interpreter is told to switch");
}
#define BOT ((OOP) 0x1110)
static void push1 (OOP a) { stk[0] = BOT; stk[1] = a; sp = &stk[1]; }
static int sem (void) { return NPRI + ND_BOOL (); }
void h_signal (void) { int s; state (0); s = sem (); push1 (Q (s)); CHECK (!VMpr_Semaphore_signalNotify (0, 0), "done"); m_signal (s, 1); agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == Q (s), "answers the semaphore"); WITNESS (); }
void h_notify (void) { int s; state (0); s = sem (); push1 (Q (s)); CHECK (!VMpr_Semaphore_signalNotify (1, 0), "done"); m_signal (s, 0); agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == Q (s), "answers the semaphore"); WITNESS (); }
void h_notifyall (void) { int s; state (0); s = sem (); push1 (Q (s)); CHECK (!VMpr_Semaphore_notifyAll (0, 0), "done"); while (m_signal (s, 0)); agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == Q (s), "answers the semaphore"); WITNESS (); }
void h_wait (void) { int s, w; state (1); s = sem (); push1 (Q (s)); CHECK (!VMpr_Semaphore_wait (0, 0), "done"); w = m_wait (s, act); agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == (w ? _gst_nil_oop : Q (s)), "answers the semaphore, or nil until it is signalled"); WITNESS (); }
void h_waitafter (void)
{
  int s, t, a, w; state (1); s = sem (); t = sem (); a = act; push1 (Q (s)); stk[2] = Q (t); sp = &stk[2];
  CHECK (!VMpr_Semaphore_waitAfterSignalling (0, 1), "done");
  m_signal (t, 1); w = m_wait (s, a); agree ();
  CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == (w ? _gst_nil_oop : Q (s)), "answers the semaphore, or nil until it is signalled"); WITNESS ();
}
void h_lock (void) { int s; state (0); s = sem (); push1 (Q (s)); CHECK (!VMpr_Semaphore_lock (0, 0), "done"); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == (sig[s] ? _gst_true_oop : _gst_false_oop), "answers whether there was a signal"); sig[s] = 0; agree (); WITNESS (); }
void h_resume (void)
{
  int p, f, r; state (0); p = ND_RANGE (0, NP - 1); push1 (P (p)); f = VMpr_Process_resume (0, 0); r = m_resume (p, 0);
  agree (); CHECK (!f == r && sp == &stk[1] && stk[0] == BOT && stk[1] == P (p), "fails for terminated processes only"); WITNESS ();
}
void h_suspend (void)
{
  int p; state (1); p = ND_RANGE (0, NP - 2); push1 (P (p)); CHECK (!VMpr_Process_suspend (0, 0), "done");
  m_remove (p); if (p == act) m_next ();
  agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == P (p), "answers the process"); WITNESS ();
}
void h_terminate (void)
{
  int p; state (1); p = ND_RANGE (0, NP - 2); _gst_terminate_process (P (p));
  m_remove (p); dead[p] = 1; if (p == act) m_next ();
  agree (); WITNESS ();
}
void h_yield (void)
{
  int p; state (0); p = ND_RANGE (0, NP - 1); push1 (P (p)); CHECK (!VMpr_Process_yield (0, 0), "done");
  if (p == act) m_next ();
  agree (); CHECK (sp == &stk[1] && stk[0] == BOT && stk[1] == (p ? P (p) : _gst_nil_oop), "answers nil when the process had the processor"); WITNESS ();
}
void h_would (void)
{
  int l, r = 1; state (0); 
  for (l = pri[0]; l < NPRI; l++) if (m_find (l, -1000, 0) >= 0) r = 0;
  CHECK (!would_reschedule_process () == !r, "no process can take over exactly when none of at least the same priority is ready"); agree (); WITNESS ();
}
/* ---- asynchronous signals: delivered once each, in order, whatever interrupts what */
#ifndef NA
#define NA 3
#endif
static async_queue_entry ent0, ent1, ent2, *const EN[3] = { &ent0, &ent1, &ent2 }, dyn0, dyn1, dyn2; static int ndyn, got[NA + 3], ngot, order[NA + 3], want[NA], depth, irqs, raised[NA];
static void *vp_xmalloc (size_t k) { return ndyn == 0 ? (ndyn++, &dyn0) : ndyn == 1 ? (ndyn++, &dyn1) : (ndyn++, &dyn2); }
static int nfree; static void vp_free (void *p) { nfree++; }
static void called (OOP x) { int i; for (i = 0; i < NA; i++) if (x == Q (i)) { got[i]++; order[ngot++] = i; } }
static void raise_one (int i) { int j; for (j = 0; j < NA; j++) if (j == i) { raised[j]++; EN[j]->func = called; EN[j]->data = OL[j]; _gst_async_call_internal (EN[j]); } }
static int live;
static void vp_irq (void)
{
  int i;
  if (!live || !irqs || !ND_BOOL ()) return;
  irqs--; live = 0; i = irqs + 1; raise_one (i); live = 1;	/* handlers do not interrupt each other's handlers */
}
#ifndef VP_CBMC
void vp_dummy (void) { }
#endif
/* a handler queues an entry; at any point other handlers interrupt and queue theirs */
void h_async_irq (void)
{
  int i; init (); live = 1; irqs = NA - 1;
  raise_one (0);
  live = 0; ASSUME (1);
  CHECK (dispatch_vec == global_monitored_bytecodes && _gst_have_pending_async_calls (), "the interpreter is told");
  empty_async_queue ();
  for (i = 0; i < NA; i++) CHECK (got[i] == raised[i], "every request is carried out once");
  CHECK (!_gst_have_pending_async_calls (), "none is left");
  for (i = 0; i < NA; i++) { CHECK (EN[i]->next == NULL, "an entry can be used again"); }
  WITNESS ();
}
/* requests arriving while the queue is emptied are carried out by the next round */
void h_async_drain (void)
{
  int i; init (); raise_one (0); live = 1; irqs = NA - 1; empty_async_queue (); live = 0; empty_async_queue ();
  for (i = 0; i < NA; i++) CHECK (got[i] == raised[i], "every request is carried out once");
  CHECK (!_gst_have_pending_async_calls (), "none is left");
  WITNESS ();
}
/* requests from threads: in order, and the entries are given back; the same entry queued twice counts once */
void h_async_order (void)
{
  int i, j, a[NA], k; init (); k = ND_RANGE (0, NA);
  for (i = 0; i < k; i++) { a[i] = ND_RANGE (0, NA - 1); _gst_async_call (called, Q (a[i])); CHECK (dispatch_vec == global_monitored_bytecodes, "the interpreter is told"); }
  CHECK (_gst_have_pending_async_calls () == (k > 0), "pending exactly when there are requests");
  empty_async_queue ();
  CHECK (ngot == k && nfree == k, "every request is carried out once");
  for (i = 0; i < NA; i++) if (i < k) CHECK (order[i] == a[i], "in the order of arrival");
  CHECK (!_gst_have_pending_async_calls (), "none is left");
  WITNESS ();
}
void h_async_twice (void)
{
  int i, k, first[NA], nf = 0; init (); k = ND_RANGE (0, NA);
  for (i = 0; i < k; i++) { int e = ND_RANGE (0, NA - 1); if (!raised[e]) first[nf++] = e; raise_one (e); }
  empty_async_queue ();
  CHECK (ngot == nf, "an entry that is already queued is not queued twice");
  for (i = 0; i < NA; i++) if (i < nf) CHECK (order[i] == first[i], "in the order of arrival");
  for (i = 0; i < NA; i++) CHECK (EN[i]->next == NULL && (EN[i]->data == NULL), "an entry can be used again");
  WITNESS ();
}
/* an asynchronous signal does what a signal does */
void h_async_signal (void)
{
  int s; state (0); s = sem (); _gst_async_signal (Q (s)); empty_async_queue (); m_signal (s, 1); agree (); WITNESS ();
}
#define VP_CASES(X) X(h_signal) X(h_notify) X(h_notifyall) X(h_wait) X(h_waitafter) X(h_lock) X(h_resume) X(h_suspend) X(h_terminate) X(h_yield) X(h_would) \
  X(h_async_irq) X(h_async_drain) X(h_async_order) X(h_async_twice) X(h_async_signal)
#include "vpmain.h"
