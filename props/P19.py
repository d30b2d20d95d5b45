"""P19 primitives on sequences (interp.c: prims.def, dict.inl): copy, compare, hash, search, allocate."""
from csym import prep, cbmc
import vplib

NAMES = {0: 'signed byte', 1: 'byte', 2: 'character', 4: 'unsigned 16-bit', 5: 'signed 32-bit', 7: 'signed 64-bit', 12: 'pointer'}
SHAPES = (0, 1, 2, 4, 5, 7, 12)

def unit(s, thorough, groups=('replace', 'equal', 'index', 'copy', 'new')):
    C = []
    def c(fn, what, enc, u=80, thor=False, timeout=400, cad=False, **d):
        if thor and not thorough: return
        n = d.get('MAXEL', 4)
        sh = NAMES[d['SHP']] if 'SHP' in d else ''
        b = what % dict(sh=sh, sh2=NAMES[d['SHP2']] if 'SHP2' in d else sh, n=n, fix=d.get('FIX', 0))
        C.append(cbmc.Case(fn, b, unwind=u + 8 * n, timeout=timeout, defs=tuple('-D%s=%s' % x for x in d.items()), mem_gb=6,
                           solver=['--sat-solver', 'cadical'] if cad else None, encodes=enc.split()))
    R = 'prims.def:VMpr_ArrayedCollection_replaceFromToWithStartingAt'
    rb = 'every %(sh)s sequence of 0 to %(n)d elements, every such %(sh2)s source, all SmallInteger positions, read-only or not; %(fix)d named variables'
    if 'replace' in groups:
        c('h_replace', rb, R, SHP=1); c('h_replace', rb, R, SHP=12); c('h_replace', rb, R, SHP=12, FIX=2, FIX2=0)
        c('h_replace', rb, R, SHP=4); c('h_replace', rb, R, SHP=2, SHP2=1); c('h_replace', rb, R, SHP=1, SHP2=12)
        for x in (0, 2, 5, 7): c('h_replace', rb, R, SHP=x, thor=True)
        for x in (1, 12): c('h_replace_self', 'every %(sh)s sequence of 0 to %(n)d elements replaced from itself, all SmallInteger positions', R, SHP=x)
        for x in (1, 12): c('h_replace_self', 'every %(sh)s sequence of 0 to %(n)d elements replaced from itself, all SmallInteger positions', R, SHP=x, MAXEL=9, thor=True)
        c('h_replace_args', 'every argument of the wrong kind', R, SHP=2)
    if 'equal' in groups:
        E = 'prims.def:VMpr_ArrayedCollection_equal'
        eb = 'every two %(sh)s sequences of 0 to %(n)d elements, of one class or two; %(fix)d named variables'
        c('h_equal', eb, E, SHP=2); c('h_equal', eb, E, SHP=7); c('h_equal', eb, E, SHP=1, FIX=1); c('h_equal', eb, E, SHP=2, MAXEL=10)
        for x in (0, 1, 4, 5): c('h_equal', eb, E, SHP=x, thor=True)
        hb = 'every two %(sh)s sequences with the same elements, whatever the padding'
        for n in (0, 1, 2): c('h_hash', hb + '; length %d' % n, 'prims.def:VMpr_String_hash sym.c:_gst_hash_string', SHP=2, LEN=n)
        c('h_hash', hb + '; length 3', 'prims.def:VMpr_String_hash sym.c:_gst_hash_string', SHP=2, LEN=3, thor=True, timeout=700)
    if 'index' in groups:
        I = 'prims.def:VMpr_ArrayedCollection_indexOfStartingAt'
        ib = 'every %(sh)s sequence of 0 to %(n)d elements, every SmallInteger, Character or other object sought, all SmallInteger starts; %(fix)d named variables'
        for x in (0, 1, 2, 4): c('h_index', ib, I, SHP=x)
        c('h_index', ib, I, SHP=1, FIX=1); c('h_index', ib, I, SHP=2, MAXEL=10)
    if 'copy' in groups:
        K = 'prims.def:VMpr_Object_shallowCopy dict.c:_gst_object_copy dict.inl:instantiate_with'
        kb = 'every %(sh)s object of 0 to %(n)d elements and %(fix)d named variables'
        c('h_copy', kb, K, SHP=12, FIX=1); c('h_copy', kb, K, SHP=1); c('h_copy', kb, K, SHP=4, FIX=1)
        c('h_copy', kb, K, SHP=2, MAXEL=9, thor=True); c('h_copy', kb, K, SHP=7, thor=True); c('h_copy', kb, K, SHP=5, FIX=2, thor=True)
    if 'new' in groups:
        N = 'prims.def:VMpr_Behavior_basicNewColon dict.inl:instantiate_with'
        nb = 'every %(sh)s class with %(fix)d named variables, every size from 0 to %(n)d, whatever the memory held'
        c('h_new', nb, N, SHP=12, FIX=1); c('h_new', nb, N, SHP=2); c('h_new', nb, N, SHP=5, FIX=4, u=100)
        for x in (0, 1, 4, 7): c('h_new', nb, N, SHP=x, FIX=2, thor=True)
        c('h_char', 'all SmallIntegers', 'prims.def:VMpr_Character_create')
    C.sort(key=lambda x: -{'h_hash': 3, 'h_index': 2, 'h_copy': 1}.get(x.fn, 0))
    return cbmc.Unit(s, 'seqprims.c', C)

def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    ctx.assumptions += ['the allocator is represented by its specification; the memory it hands out holds arbitrary words', 'sequences of up to 4 elements (some up to 10)']
    vplib.run_units(ctx, [unit(s, ctx.thorough)])
