"""P01 SmallInteger arithmetic is exact (prims.def primitives and vm.def special bytecodes)."""
import os
from csym import prep, cbmc
import vplib

OPS = 'PLUS MINUS LESS_THAN GREATER_THAN LESS_EQUAL GREATER_EQUAL EQUAL NOT_EQUAL TIMES DIVIDE REMAINDER BIT_XOR BIT_SHIFT INTEGER_DIVIDE BIT_AND BIT_OR'.split()

def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    code, got = prep.extract_vm_ops(s, [o + '_SPECIAL' for o in OPS])
    open(s.dir + '/libgst/vmops.h', 'w').write(code)
    C = cbmc.Case
    full = 'both operands: every SmallInteger (62-bit)'
    enc = ['prims.def:VMpr_SmallInteger_*', 'interp.inl:add_with_check', 'interp.inl:sub_with_check', 'interp.inl:mul_with_check',
           'interp.inl:tagged_and/or/xor', 'dict.inl:from_c_int_64'] + ['vm.def:' + g for g in got]
    cases = [C('h_' + x, full, encodes=enc, unwind=12) for x in 'plus minus bitand bitor bitxor lt gt le ge eq ne shift nonint'.split()]
    gen, lst = [], []
    def add(fn, code, bounds, **kw):
        gen.append(code); lst.append('X(%s)' % fn)
        cases.append(C(fn, bounds, encodes=enc, unwind=12, **kw))
    nm = lambda b: ('m%d' % -b) if b < 0 else str(b)
    mb = (-1, 0, 1, 2, 3, -3) + ((7, 10, -2, 1000, 65537, -4095) if ctx.thorough else ())
    for b in mb:
        add('h_times_c_' + nm(b), 'MUL_C (%s, %d)' % (nm(b), b), 'one operand every SmallInteger, the other %d' % b, timeout=300)
    cases.append(C('h_times_p', 'one operand every SmallInteger, the other any +/-2^k', unwind=12, thorough=True, timeout=400))
    cases.append(C('h_times_w', 'both operands in [-2048,2047]', unwind=12, thorough=True, timeout=400))
    db = (1, -1, 2, -2, 3, -3) if not ctx.thorough else (1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -7, 10, -10, 60, 1000)
    names = ['//', '\\\\', 'quo:', '/', '// (bytecode)', '\\\\ (bytecode)', '/ (bytecode)']
    w = 256 if ctx.thorough else 64
    for op in range(7):
        add('h_div_edge_%d' % op, 'DIV_E (%d)' % op, names[op] + ': dividend within 3 of the smallest, divisor -3..3 or within 7 of either extreme')
        add('h_div_small_%d' % op, 'DIV_S (%d, %d)' % (op, w), names[op] + ': both operands in [-%d,%d]' % (w, w), timeout=400)
        for b in db:
            if op >= 4 and b not in (-1, 3, -3): continue
            add('h_div_c_%d_%s' % (op, nm(b)), 'DIV_C (%d, %s, %d)' % (op, nm(b), b), names[op] + ': every dividend, divisor %d' % b, timeout=300)
    open(s.dir + '/libgst/divcases.h', 'w').write('\n'.join(gen) + '\n#define DIVCASES(X) ' + ' '.join(lst) + '\n')
    u = cbmc.Unit(s, 'smallint.c', cases, extra_srcs=['libgst/dict.c'])
    ctx.assumptions += ['x86-64 add/sub/seto inline assembly modelled by its architectural meaning',
                        'the bytecode is entered with both operands on the stack; the general send is a stub',
                        'multiplication and division: operand pairs outside the listed ranges are outside the claim']
    vplib.run_units(ctx, [u])
