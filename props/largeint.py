"""LargeInteger obligations over mpz.c, shared by the properties that rest on them."""
from csym import cbmc
B63 = 0x4000000000000001
ENC = ['mpz.c:_gst_mpz_from_oop', 'mpz.c:_gst_oop_from_mpz', 'mpz.c:gst_mpz_realloc', 'mpz.c:gst_mpz_sub_ui', 'mpz.c:_gst_mpz_clear', 'mpz.c:_gst_mpz_set', 'dict.inl:new_instance_with']
FN = dict(plus='VMpr_LargeInteger_plus _gst_mpz_add', minus='VMpr_LargeInteger_minus _gst_mpz_sub', times='VMpr_LargeInteger_times _gst_mpz_mul',
          gcd='VMpr_LargeInteger_gcd _gst_mpz_gcd', shift='VMpr_LargeInteger_bitShift _gst_mpz_mul_2exp _gst_mpz_div_2exp', negated='VMpr_LargeInteger_negated',
          invert='VMpr_LargeInteger_bitInvert _gst_mpz_com', bitand='VMpr_LargeInteger_bitAnd _gst_mpz_and', bitor='VMpr_LargeInteger_bitOr _gst_mpz_ior',
          bitxor='VMpr_LargeInteger_bitXor _gst_mpz_xor', quo='VMpr_LargeInteger_quo _gst_mpz_tdiv_qr _gst_mpz_tdiv_qr_si', rem='VMpr_LargeInteger_rem _gst_mpz_tdiv_qr _gst_mpz_tdiv_qr_si',
          floordiv='VMpr_LargeInteger_intDiv _gst_mpz_fdiv_qr _gst_mpz_fdiv_qr_si', modulo='VMpr_LargeInteger_modulo _gst_mpz_fdiv_qr _gst_mpz_fdiv_qr_si',
          divexact='VMpr_LargeInteger_divExact _gst_mpz_divexact _gst_mpz_tdiv_q_ui')
NM = {0: 'SmallInteger', 1: 'large integer of up to 8 bytes', 2: 'large integer of 9 to 16 bytes', 3: 'large integer of 17 to 24 bytes'}

def unit(s, groups, thorough, lite=False):
    C = []
    def c(fn, bounds, thor=False, timeout=400, **d):
        if thor and not thorough: return
        if lite and not thorough and (fn in ('plus', 'minus') and (d['NA'] + d['NB'] > 2 and 'EQTOP' not in d or (d['NA'], d['NB']) == (0, 1)) or d.get('NA', 0) + d.get('NB', 0) > 3 and (fn == 'bitxor' or fn == 'gcd') or fn == 'shift' and d['NA'] == 2 and d['SA'] == 1): return
        defs = tuple('-D%s=%s' % (k, v) for k, v in d.items())
        C.append(cbmc.Case('h_' + fn, bounds, unwind=10, timeout=timeout, defs=defs, mem_gb=4,
                           encodes=ENC + FN.get(fn, 'VMpr_LargeInteger_%s _gst_mpz_cmp' % fn).split()))
    def ops(a, b): return 'receiver every %s, argument every %s' % (NM[a], NM[b])
    sgn = lambda x: 'positive' if x == 0 else 'negative'
    if 'add' in groups:
        for fn in ('plus', 'minus'):
            for a, b in ((0, 1), (1, 0), (1, 1), (2, 1), (1, 2)):
                c(fn, ops(a, b), thor=(fn, a, b) in (('plus', 1, 2), ('minus', 2, 1)), NA=a, NB=b, NW=max(a, b) + 2)
            for sa in (0, 1):
                for sb in (0, 1):
                    c(fn, ops(2, 2) + ', signs %s, %s' % (sgn(sa), sgn(sb)), thor=sa == 1 and fn == 'minus' or (fn, sa, sb) == ('plus', 1, 0), NA=2, NB=2, NW=4, SA=sa, SB=sb)
                    c(fn, ops(2, 2) + ' with the same high word, signs %s, %s' % (sgn(sa), sgn(sb)), NA=2, NB=2, NW=4, SA=sa, SB=sb, EQTOP=1)
            c(fn, ops(3, 1), thor=True, NA=3, NB=1, NW=5, timeout=900)
        c('negated', 'every ' + NM[1], NA=1, NW=3); c('negated', 'every ' + NM[2], NA=2, NW=4)
    if 'cmp' in groups:
        for fn in 'eq ne lt gt le ge'.split():
            c(fn, ops(1, 1), NA=1, NB=1, NW=3)
            c(fn, ops(2, 2), NA=2, NB=2, NW=3)
            c(fn, ops(0, 1), NA=0, NB=1, NW=3, thor=fn in ('ne', 'gt', 'ge'))
            c(fn, ops(1, 2), NA=1, NB=2, NW=3, thor=fn in ('eq', 'lt', 'le'))
            c(fn, ops(3, 3), NA=3, NB=3, NW=4, thor=True)
    if 'mul' in groups:
        for a, b, d in ((1, 0, dict(D0=3)), (1, 0, dict(D0=1000, DNEG=1)), (2, 0, dict(D0=0)), (1, 1, dict(D0=hex(B63) + 'UL')), (2, 2, dict(D0=5, D1=1)), (2, 2, dict(D0=1, D1=9, DNEG=1)), (0, 2, dict(D0=1, D1=1)), (0, 1, dict(D0=hex(B63) + 'UL', DNEG=1)), (2, 1, dict(D0=hex(B63) + 'UL'))):
            k = (-1 if d.get('DNEG') else 1) * (int(str(d['D0']).replace('UL', ''), 0) + (d.get('D1', 0) << 64))
            for sw in (0, 1):
                c('times', 'every %s times %d, %s' % (NM[a], k, 'constant first' if sw else 'constant second'), thor=bool(sw) and a != b, NA=a, NB=b, NW=a + b + 1 if b else a + 2, SWAP=sw, **d)
    if 'div' in groups or 'div2' in groups:
        for fn in ('quo', 'rem', 'floordiv', 'modulo', 'divexact') if 'div' in groups else ('floordiv', 'divexact', 'modulo'):
            for a, b, q, d in ((1, 0, 1, dict(D0=3)), (1, 0, 1, dict(D0=7, DNEG=1)), (2, 0, 2, dict(D0=10)), (2, 0, 2, dict(D0=1000, DNEG=1)), (2, 1, 1, dict(D0=hex(B63) + 'UL')),
                               (2, 2, 1, dict(D0=5, D1=1)), (2, 2, 1, dict(D0=5, D1=1, DNEG=1)), (3, 2, 2, dict(D0=5, D1=1, DNEG=1)), (1, 2, 1, dict(D0=1, D1=1)), (1, 2, 1, dict(D0=1, D1=1, DNEG=1)), (0, 1, 1, dict(D0=hex(B63) + 'UL', DNEG=1))):
                if fn == 'divexact' and (a < b): continue
                k = (-1 if d.get('DNEG') else 1) * (int(str(d['D0']).replace('UL', ''), 0) + (d.get('D1', 0) << 64))
                c(fn, 'every %s divided by %d' % (NM[a], k), thor=a == 3, NA=a, NB=b, QW=q, NW=max(a, b) + (1 if b and a < 2 else 2), **d)
    if 'bits' in groups:
        for fn in ('bitand', 'bitor', 'bitxor'):
            c(fn, ops(1, 1), NA=1, NB=1, NW=3)
            c(fn, ops(1, 2), NA=1, NB=2, NW=3); c(fn, ops(2, 0), NA=2, NB=0, NW=3)
            c(fn, ops(0, 1), thor=True, NA=0, NB=1, NW=3); c(fn, ops(2, 1), thor=True, NA=2, NB=1, NW=3)
            for sa in (0, 1):
                for sb in (0, 1):
                    c(fn, ops(2, 2) + ', signs %s, %s' % (sgn(sa), sgn(sb)), thor=fn == 'bitxor' and sa == 1 and sb == 0, NA=2, NB=2, NW=3, SA=sa, SB=sb)
        c('invert', 'every ' + NM[1], NA=1, NW=3); c('invert', 'every ' + NM[2], NA=2, NW=4)
    if 'shift' in groups:
        for sa in (0, 1):
            for lo, hi in ((-70, 0), (-140, -64), (1, 64)):
                c('shift', 'every %s %s shifted by %d to %d' % (sgn(sa), NM[2], lo, hi), thor=sa == 1 and lo == -140, NA=2, NW=4, SHLO=lo, SHHI=hi, SA=sa)
            c('shift', 'every %s %s shifted by -192 to -128' % (sgn(sa), NM[3]), NA=3, NW=4, SHLO=-192, SHHI=-128, SA=sa)
            c('shift', 'every %s %s shifted by -70 to 0' % (sgn(sa), NM[1]), NA=1, NW=3, SHLO=-70, SHHI=0, SA=sa)
            c('shift', 'every %s %s shifted by 1 to 128' % (sgn(sa), NM[1]), NA=1, NW=4, SHLO=1, SHHI=128, SA=sa, thor=sa == 1)
        c('shift', 'every SmallInteger shifted by 1 to 128', NA=0, NW=4, SHLO=1, SHHI=128)
    if 'gcd' in groups:
        z = dict(CA1=0, CB1=0)
        for a, b, q, k, kw in ((1, 1, 1, (2, 3), z), (1, 1, 1, (3, 4), z), (1, 0, 1, (1 << 61, 3), z), (2, 1, 1, (2, 3), dict(CA1=1, CB1=0)), (2, 2, 1, (3, 4), dict(CA1=1, CB1=1)), (2, 2, 1, (2, 1), dict(CA1=1, CB1=1)), (2, 2, 1, (0, 1), dict(CA1=4, CB1=1)), (2, 2, 2, (2, 3), z)):
            kk = [k[0] + (kw['CA1'] << 64), k[1] + (kw['CB1'] << 64)]
            c('gcd', 'g*%d gcd: g*%d for every g of %d words with the operands a %s and a %s, any signs' % (kk[0], kk[1], q, NM[a], NM[b]), thor=q == 2, NA=a, NB=b, QW=q, NW=3, CA0=str(k[0]) + 'UL', CB0=str(k[1]) + 'UL', **kw)
    # expensive ones first
    C.sort(key=lambda x: -('plus' in x.fn or 'minus' in x.fn or 'shift' in x.fn) * 10 - ('-DNA=2' in x.defs) * 2 - ('-DNB=2' in x.defs))
    return cbmc.Unit(s, 'largeint.c', C, extra_srcs=['libgst/dict.c'])
ASSUME = ["GMP's mpn functions are represented by their specification (operands and preconditions are checked at each call)",
          'large integers of up to 3 words; multiplication and division against the listed constants only']
