"""P03 integers print and parse back exactly"""
from stsym.spec import *

def parse_int(s):
    """value of the longest integer prefix of the codes s (a leading - allowed)"""
    i, neg, v = 0, False, 0
    if s and bool(s[0] == 45): neg = True; i = 1
    while i < len(s) and bool(And(s[i] >= 48, s[i] <= 57)):
        v = v * 10 + (s[i] - 48); i += 1
    return (0 - v if neg else v), i

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    hi = 1 << 64
    wins = [(s * c - 300, s * c + 300) for c in (1 << 31, 1 << 32, 1 << 48) for s in (1, -1)]
    wide = [(s * c - 2, s * c + 2) for c in (1 << 62, 1 << 63, 1 << 64, 10 ** 19, 10 ** 25) for s in (1, -1)]
    for b in (2, 3, 8, 10, 16, 36):
        h = (1 << 40 if ctx.thorough else 1 << 30) if b >= 8 else 1 << 20
        bd = 'every integer in [-%d,%d], base %d' % (h, h, b)
        a('printString: %d' % b, dict(x=I(-h, h)), 'x printString: %d' % b, lambda x, b=b: Str(numeral(x, b)), bounds=bd)
        a('printRadix: %d' % b, dict(x=I(-h, h)), '{x printStringRadix: %d. x radix: %d}' % (b, b),
          lambda x, b=b: (lambda d: [Str(codes('%dr' % b) + d)] * 2)(numeral(x, b)), bounds=bd)
        a('print then parse base %d' % b, dict(x=I(-(1 << (8 if b < 8 else 16)), 1 << (8 if b < 8 else 16))), 'Number readFrom: (ReadStream on: (x printString: %d)) radix: %d' % (b, b), lambda x: x, bounds='[-2^16,2^16] (2^8 for bases 2 and 3), base %d' % b)
    for lo, h in [(-10 ** 9, 10 ** 9)] + wins:
        a('printString displayString storeString in [%d,%d]' % (lo, h), dict(x=I(lo, h)), '{x printString. x displayString. x storeString. x printString: 10. x printString: 16}',
          lambda x: [Str(numeral(x, 10))] * 4 + [Str(numeral(x, 16))], bounds='[%d,%d]' % (lo, h), time=60)
    for lo, h in wide:
        a('printString in [%d,%d]' % (lo, h), dict(x=F(lo, h)), 'x printString', lambda x: Str(numeral(x, 10)), bounds='[%d,%d]' % (lo, h), time=20)
        a('printString: 16 in [%d,%d]' % (lo, h), dict(x=F(lo, h)), 'x printString: 16', lambda x: Str(numeral(x, 16)), bounds='[%d,%d]' % (lo, h), time=20)
    a('printOn: and storeOn:', dict(x=I(-10 ** 6, 10 ** 6)), '| s | s := WriteStream on: String new. x printOn: s. s space. x storeOn: s. s space. x printOn: s base: 16. s space. x displayOn: s. s contents' if False else
      '| s | s := WriteStream on: String new. x printOn: s. s nextPut: $|. x storeOn: s. s nextPut: $|. x printOn: s base: 16. s nextPut: $|. x displayOn: s. ^s contents' if False else
      '| s | s := WriteStream on: String new. x printOn: s. s nextPut: $|. x storeOn: s. s nextPut: $|. x printOn: s base: 16. s contents',
      lambda x: (lambda d, h: Str(d + [124] + d + [124] + h))(numeral(x, 10), numeral(x, 16)), bounds='[-10^6,10^6]')
    def padded(x, n, ch, b=10):
        if bool(x < 0):
            d = digits(0 - x, b); return Str([45] + [ch] * max(0, n - len(d) - 1) + d)
        d = digits(x, b); return Str([ch] * max(0, n - len(d)) + d)
    for n in (0, 1, 4, 8):
        a('printPaddedWith:to:%d' % n, dict(x=I(-10 ** 7, 10 ** 7)), '{x printPaddedWith: $  to: %d. x printPaddedWith: $0 to: %d. x printPaddedWith: $0 to: %d base: 16. x printString: 10}' % (n, n, n),
          lambda x, n=n: [padded(x, n, 32), padded(x, n, 48), padded(x, n, 48, 16), Str(numeral(x, 10))], bounds='[-10^7,10^7], width %d' % n)
        a('printOn:paddedWith:to:%d' % n, dict(x=I(-10 ** 7, 10 ** 7)), '| s | s := WriteStream on: String new. x printOn: s paddedWith: $0 to: %d. s contents' % n,
          lambda x, n=n: padded(x, n, 48), bounds='[-10^7,10^7], width %d' % n)
    for n in range(0, 6):
        bd = 'every string of length %d over digits - + . space a' % n
        a('asInteger length %d' % n, dict(s=S(n, alpha='0123456789-+. a')), 's asInteger', lambda s: parse_int(s.c)[0] if s.c else 0, bounds=bd, time=60, paths=20000, thorough=n > 4)
        a('Number readFrom length %d' % n, dict(s=S(n, alpha='0123456789-+ a')), '{s asNumber. Number readFrom: (ReadStream on: s)}', lambda s: [parse_int(s.c)[0]] * 2, bounds='every string of length %d over digits - + space a' % n, time=60, paths=20000, thorough=n > 4)
    for n in range(1, 5):
        for b in (2, 16):
            al = '01' if b == 2 else '0123456789ABCDEFabcdef'
            def rd(s, b=b):
                v = 0
                for c in s.c: v = v * b + If(c <= 57, c - 48, If(c <= 70, c - 55, c - 87))
                return v
            a('readFrom:radix:%d length %d' % (b, n), dict(s=S(n, alpha=al)), 'Number readFrom: (ReadStream on: s) radix: %d' % b, rd, bounds='every base-%d numeral of length %d' % (b, n), paths=20000, time=60)
        a('readFrom: leaves the rest length %d' % n, dict(s=S(n, alpha='0123456789-+ a')), '| st | st := ReadStream on: s. Number readFrom: st. st upToEnd',
          lambda s: Str(s.c[parse_int(s.c)[1]:]), bounds='every string of length %d over digits - + space a' % n, paths=20000, time=60)
    a('isNumeric', dict(s=S(4, alpha='0123456789-+. a')), 's isNumeric', lambda s: ANY, bounds='length 4') if False else None
    for lo, h in [(-10 ** 5, 10 ** 5)] + wins:
        a('print then parse in [%d,%d]' % (lo, h), dict(x=I(lo, h)), '{x printString asNumber. x printString asInteger. x displayString asInteger}', lambda x: [x, x, x], bounds='[%d,%d]' % (lo, h), time=60)
    a('digit values', dict(x=I(0, 35)), '{(Character digitValue: x) value. (Character digitValue: x) digitValue. ((Character digitValue: x) isDigit: 36)}', lambda x: [If(x < 10, x + 48, x + 55), x, True], bounds='0..35')
    std(ctx, L)
    from csym import prep
    from props import largeint
    import vplib
    sc = prep.Scratch()
    ctx.notes += sc.notes
    ctx.assumptions += largeint.ASSUME
    vplib.run_units(ctx, [largeint.unit(sc, ['div2', 'mul'], ctx.thorough, lite=True)])
