"""P12 indexed access to objects of every shape (dict.inl, prims.def, the at:/at:put: caches)."""
from csym import prep, cbmc
import vplib
NAMES = 'signed byte,byte,character,short,unsigned short,int,unsigned int,float,int64,unsigned int64,double,utf32 character,pointer'.split(',')

def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    C = cbmc.Case
    enc = ['prims.def:VMpr_Object_basicAt', 'prims.def:VMpr_Object_basicAtPut', 'prims.def:VMpr_Object_basicSize', 'prims.def:VMpr_CharacterArray_valueAt',
           'prims.def:VMpr_CharacterArray_valueAtPut', 'interp.c:cached_index_oop_primitive', 'interp.c:cached_index_oop_put_primitive',
           'dict.inl:index_oop_spec', 'dict.inl:index_oop_put_spec', 'dict.inl:from_c_*', 'dict.inl:to_c_*', 'dict.inl:is_c_*']
    cases = []
    for k, nm in enumerate(NAMES):
        for fix in ((0, 1, 2) if ctx.thorough else (0, 1) if k in (1, 4, 6, 12) else (0,)):
            d = ('-DSHP=%d' % k, '-DFIX=%d' % fix)
            b = '%s elements, %d fixed fields, 0 to 5 elements with any contents, any SmallInteger index' % (nm, fix)
            for fn in ['h_read_prim', 'h_read_cache', 'h_write_prim', 'h_write_cache', 'h_size'] + (['h_valueat', 'h_valueatput'] if k in (2, 11, 1) else []):
                cases.append(C(fn, b + (', any value' if 'write' in fn or 'put' in fn else ''), defs=d, encodes=enc, unwind=12, timeout=300))
    cases += [C('h_conv_small', 'every SmallInteger', encodes=enc, unwind=12, defs=('-DSHP=0', '-DFIX=0')), C('h_conv_large', 'every LargeInteger from -2^63 to 2^64-1', timeout=300, encodes=enc, unwind=12, defs=('-DSHP=0', '-DFIX=0')), C('h_conv_out', 'every 64-bit pattern', encodes=enc, unwind=12, defs=('-DSHP=0', '-DFIX=0'))]
    u = cbmc.Unit(s, 'objaccess.c', cases, extra_srcs=['libgst/dict.c'])
    ctx.assumptions += ['objects have 0 to 5 elements; integers beyond 64 bits are not tried as stored values']
    from props import P19
    vplib.run_units(ctx, [u, P19.unit(s, ctx.thorough, ('replace', 'copy', 'new'))])
