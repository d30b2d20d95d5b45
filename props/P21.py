"""P21 message sends, block activation and returns (interp.c, interp-bc.inl)."""
import os, re
from csym import prep, cbmc
import vplib

def unit(s, thorough):
    C = []
    A = 'interp.c:activate_new_context interp.c:alloc_stack_context interp.c:prepare_context interp.c:unwind_context interp.c:dealloc_stack_context '
    S = 'interp-bc.inl:_gst_send_message_internal interp.c:lookup_method interp.c:_gst_find_method '
    FLN = {0: 'compiled normally', 1: 'answering self', 2: 'answering an instance variable', 3: 'answering a literal', 4: 'with a primitive that succeeds or fails', 5: 'annotated', 7: 'with the unused flag'}
    seen = set()
    def c(fn, enc, what, u=14, **d):
        k = (fn, tuple(sorted(d.items())))
        if k in seen: return
        seen.add(k)
        C.append(cbmc.Case(fn, what, unwind=u, timeout=200, defs=tuple('-D%s=%s' % x for x in d.items()), mem_gb=4,
                           unwindset=('prepare_context.0:4', 'unwind_context.0:2', '_gst_send_message_internal:1'), encodes=enc.split()))
    def send(k, w, ca, fl, na):
        rem = 'nothing' if ca == 0 else 'what class %d finds for message %d' % ((ca - 1) // 3, (ca - 1) % 3)
        c('h_send', S + A, 'an object of class %d of 3, the method in class %d, %s, %d arguments; the cache remembers %s' % (k, w, FLN[fl], na, rem), KK=k, W=w, CA=ca, FL=fl, NA=na)
    P = [(k, w) for k in range(3) for w in range(k, 3)]
    for k, w in P:
        for ca in range(10): send(k, w, ca, 0, 1 if not thorough else 2)
    for na in range(7): send(0, 1, 0, 0, na); send(0, 1, 1, 0, na)
    for fl, na in ((1, 0), (2, 0), (3, 0), (4, 0), (4, 1), (4, 2), (4, 4), (5, 1), (7, 1)):
        for ca in (0, 1): send(0, 1, ca, fl, na); send(1, 1, ca * 4, fl, na)
    for na in range(6 if not thorough else 8):
        c('h_value', 'interp-bc.inl:send_block_value ' + A, 'every block of 0 to %d arguments and 0 to 3 temporaries, given %d arguments, of which it may drop 0 to 2' % (na + 1, na), NA=na)
    for fl, na in [(0, n) for n in range(7)] + [(1, 0), (2, 0), (3, 0), (4, 0), (4, 2), (5, 1), (7, 1)]:
        c('h_method', 'interp-bc.inl:_gst_send_method ' + A, 'a method %s of %d arguments' % (FLN[fl], na), FL=fl, NA=na)
    for k, w in P + [(0, 3), (1, 0), (2, 1)]:
        for ca in range(0, 10, 1 if thorough else 4): c('h_correct', 'interp.c:check_send_correctness interp.c:_gst_find_method', 'an object of class %d, the method in class %s, any number of arguments' % (k, w if w < 3 else 'none'), KK=k, W=w, CA=ca)
    c('h_forget', 'interp.c:_gst_invalidate_method_cache', 'every state of the caches')
    return cbmc.Unit(s, 'send.c', C)

def scratch():
    s = prep.Scratch()
    # primitives are represented by one that succeeds or fails; the cache has a single place, which all messages share
    open(os.path.join(s.lg, 'prims.inl'), 'w').write('void\n_gst_init_primitives ()\n{\n}\n')
    p = os.path.join(s.lg, 'interp.c'); t = open(p, encoding='latin-1').read()
    t, n = re.subn(r'(#\s*define\s+METHOD_CACHE_SIZE)\b[^\n]*', r'\1 1', t)
    open(p, 'w', encoding='latin-1').write(t)
    if not n: s.notes.append('METHOD_CACHE_SIZE not found: cache of full size')
    return s

def run(ctx):
    s = scratch()
    ctx.notes += s.notes
    ctx.assumptions += ['the method dictionary of a class is an exact map (P18); primitives are represented by one that succeeds or fails', 'the cache has one place, so that every two messages collide', 'messages nobody understands, user-defined method classes, non-local returns and a full context area are outside']
    vplib.run_units(ctx, [unit(s, ctx.thorough)])
