"""P15 scaled decimals and arithmetic mixing kinds of exact numbers"""
from stsym.spec import *
from math import gcd
from props.P04 import isfrac, primes

def half(n, d):
    """n/d rounded to the nearest integer, halves away from zero; d > 0"""
    return If(n >= 0, fdiv(2 * n + d, 2 * d), 0 - fdiv(d - 2 * n, 2 * d))
def is_(n, d, s=None):
    """[numerator, denominator (, scale)] of the exact value n/d"""
    f = isfrac(n, d, [2, 5] + [p for p in primes(d if type(d) is int else 10) if p not in (2, 5)])
    def g(r):
        if not isinstance(r, list): return False
        return f(r[:2]) if s is None else (And(f(r[:2]), r[2] == s) if len(r) == 3 else False)
    return g
def allof(*fs):
    def g(r):
        if not isinstance(r, list) or len(r) != len(fs): return False
        return And(*[f(x) if callable(f) else eqv(x, f) for x, f in zip(r, fs)])
    return g
def dec(n, d, s):
    """the decimal expansion of n/d truncated to s digits"""
    neg = bool(n < 0)
    n = If(n < 0, 0 - n, n) if not isinstance(n, int) else abs(n)
    q = fdiv(n * 10 ** s, d)
    ip = fdiv(q, 10 ** s)
    out = ([45] if neg else []) + numeral(ip, 10)
    if s: out += [46] + [fmod(fdiv(q, 10 ** (s - 1 - i)), 10) + 48 for i in range(s)]
    return out

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **dict(dict(time=240 if ctx.thorough else 100, paths=20000, summ=GCD), **k)))
    N = 10 ** 6 if ctx.thorough else 10 ** 5
    V = '{%s fraction numerator. %s fraction denominator. %s scale}'
    R = lambda e: '(r := %s. {r fraction numerator. r fraction denominator. r scale})' % e
    sc = [(0, 0), (1, 1), (2, 2), (0, 2), (2, 0), (1, 3), (3, 1), (2, 3)]
    for s, t in sc:
        if not ctx.thorough and (s, t) in ((2, 3), (3, 1)): continue
        P = '| x y r | x := ScaledDecimal newFromNumber: (m / %d) scale: %d. y := ScaledDecimal newFromNumber: (n / %d) scale: %d. ' % (10 ** s, s, 10 ** t, t)
        bd = 'every numerator within %d, scales %d and %d' % (N, s, t)
        u, lo = max(s, t), min(s, t)
        I2 = dict(m=I(-N, N), n=I(-N, N))
        for op in '+-':
            a('%ss%d %s s%d' % ('', s, op, t), I2, P + 'r := x %s y. %s' % (op, V.replace('%s', 'r')), lambda m, n, op=op, s=s, t=t, u=u: is_(m * 10 ** t + n * 10 ** s * (1 if op == '+' else -1), 10 ** (s + t), u), bounds=bd, thorough=s + t > 3)
        Q = dict(m=I(-N, N), n=PF([-30, -7, -1, 3, 10, 25]))
        bq = 'every numerator within %d at scale %d by -30 -7 -1 3 10 25 at scale %d' % (N, s, t)
        a('s%d * s%d' % (s, t), Q, P + 'r := x * y. ' + V.replace('%s', 'r'), lambda m, n, s=s, t=t, u=u: is_(m * n, 10 ** (s + t), u), bounds=bq)
        a('s%d / s%d' % (s, t), Q, P + 'r := x / y. ' + V.replace('%s', 'r'), lambda m, n, s=s, t=t, u=u: is_(m * 10 ** t * (1 if n > 0 else -1), 10 ** s * abs(n), u), bounds=bq)
        a('s%d // s%d' % (s, t), Q, P + 'r := x \\\\ y. {x // y. {r fraction numerator. r fraction denominator}. x quo: y}', lambda m, n, s=s, t=t: (lambda p, q: allof(fdiv(p, q), is_(m * 10 ** t - fdiv(p, q) * n * 10 ** s, 10 ** (s + t)), quorem(p, q)[0]))(m * 10 ** t * (1 if n > 0 else -1), 10 ** s * abs(n)), bounds=bq, thorough=s + t > 2)
        def cmp(m, n, s=s, t=t, lo=lo):
            d = half((m * 10 ** t - n * 10 ** s) * 10 ** lo, 10 ** (s + t))
            return [d < 0, d <= 0, d > 0, d >= 0, d == 0, Not(d == 0)]
        C = N if s + t < 3 else 3000 if ctx.thorough else 300
        a('comparing s%d s%d' % (s, t), dict(m=I(-C, C), n=I(-C, C)), P + '{x < y. x <= y. x > y. x >= y. x = y. x ~= y}', cmp, bounds=bd.replace(str(N), str(C)))
        if s == t: a('max min s%d' % s, dict(m=I(-C, C), n=I(-C, C)), P + '{((x max: y) fraction * %d) truncated. ((x min: y) fraction * %d) truncated.}' % (10 ** s, 10 ** s), lambda m, n: [Max(m, n), Min(m, n)], bounds=bd.replace(str(N), str(C))); a('equal numbers have equal hashes s%d' % s, dict(m=F(-12, 12), n=F(0, 3)), '| x y z | x := ScaledDecimal newFromNumber: m / %d scale: %d. y := ScaledDecimal newFromNumber: m * (n + 1) / (%d * (n + 1)) scale: %d. {x = y. x hash = y hash. x = x fraction. x hash = x fraction hash. x fraction = x. x = (m / %d). (m / %d) = x. (m / %d) hash = x hash}' % (10 ** s, s, 10 ** s, s, 10 ** s, 10 ** s, 10 ** s), lambda m, n: [True] * 8, bounds='numerators -12..12')
        a('division by zero s%d s%d' % (s, t), dict(m=I(-N, N), o=F(0, 3)), P.replace('n /', '0 /') + '#a == #b ifFalse: [o = 0 ifTrue: [r := x / y]. o = 1 ifTrue: [r := x // y]. o = 2 ifTrue: [r := x \\\\ y]. o = 3 ifTrue: [r := y reciprocal]]. r', lambda m, o: Err('ZeroDivide'), bounds=bd)
    for d, s in ((1, 0), (1, 2), (10, 1), (100, 2), (100, 1), (3, 2), (8, 3), (7, 0), (6, 1), (1000, 2)):
        P = '| x r | x := ScaledDecimal newFromNumber: (m / %d) scale: %d. ' % (d, s)
        bd = 'every numerator within %d over %d, scale %d' % (N, d, s)
        MM = dict(m=I(-N, N))
        a('rounding %d s%d' % (d, s), MM, P + '{x truncated. x floor. x ceiling. x rounded}', lambda m, d=d: [quorem(m, d)[0], fdiv(m, d), 0 - fdiv(0 - m, d), half(m, d)], bounds=bd) if d in (1, 10, 100) and 10 ** s % d == 0 else a('truncation %d s%d' % (d, s), MM, P + '{x truncated. x ceiling}', lambda m, d=d: [quorem(m, d)[0], 0 - fdiv(0 - m, d)], bounds=bd)
        a('parts %d s%d' % (d, s), MM, P + '{x integerPart fraction truncated. {x fractionPart fraction numerator. x fractionPart fraction denominator}. x integerPart scale. x fractionPart scale. {x negated fraction numerator. x negated fraction denominator}. {x abs fraction numerator. x abs fraction denominator}}',
          lambda m, d=d, s=s: allof(quorem(m, d)[0], is_(quorem(m, d)[1], d), s, s, is_(0 - m, d), lambda r: Or(is_(m, d)(r), is_(0 - m, d)(r)) & And(r[0] >= 0) if False else And(Or(is_(m, d)(r), is_(0 - m, d)(r)), Or(r[0] >= 0, If(m < 0, 0 - m, m) * 2 * 10 ** s < d))), bounds=bd) if 10 ** s % d == 0 else None
        a('asFraction %d s%d' % (d, s), MM, P + 'r := x asFraction. {r numerator. r denominator}', lambda m, d=d, s=s: is_(quorem(m * 10 ** s, d)[0], 10 ** s), bounds=bd)
        a('printing %d s%d' % (d, s), dict(m=I(-2000, 2000)), P + '{x displayString. x printString. x storeString}', lambda m, d=d, s=s: (lambda t: [Str(t)] + [Str(t + [115] + numeral(s, 10))] * 2)(dec(m if True else 0, d, s) if not bool(half(m * 10 ** s, d) == 0) else dec(If(m < 0, 0 - m, m), d, s)), bounds='numerators within 2000 over %d, scale %d' % (d, s), time=120)
    for s in (0, 2):
        for q in (1, 3, 4):
            P = '| x y r | x := ScaledDecimal newFromNumber: (m / %d) scale: %d. y := n / %d. ' % (10 ** s, s, q)
            bd = 'every scaled decimal of scale %d and fraction over %d, numerators within 1000' % (s, q)
            I2 = dict(m=I(-1000, 1000), n=I(-1000, 1000))
            a('mixed s%d and n/%d' % (s, q), I2, P + '{%s. %s. %s. %s}' % tuple('(%s) asExactFraction numerator. (%s) asExactFraction denominator' % (e, e) for e in ('x + y', 'y + x', 'x - y', 'y - x')) if False else
              P + '| f | f := [:z | (z isKindOf: ScaledDecimal) ifTrue: [{z fraction numerator. z fraction denominator}] ifFalse: [{z numerator. z denominator}]]. {f value: x + y. f value: y + x. f value: x - y. f value: y - x}'.replace('| f | ', '') .replace('P +', ''),
              lambda m, n, s=s, q=q: (lambda D, p, r: allof(is_(p, D), is_(p, D), is_(r, D), is_(0 - r, D)))(10 ** s * q, m * q + n * 10 ** s, m * q - n * 10 ** s), bounds=bd, thorough=q == 4 and s == 2)
            L[-1].code = L[-1].code.replace('| x y r |', '| x y r f |')
            if q == 1: a('comparing s%d and integers' % s, I2, P + '{x < y. y < x. x = y. y = x. x <= y. y <= x. x > y. y > x. (x = y) not or: [x hash = y hash]}', lambda m, n, s=s: (lambda u: [m < u, u < m, m == u, m == u, m <= u, u <= m, m > u, u > m, True])(n * 10 ** s), bounds=bd)
            if q == 1: a('integers to scaled decimals s%d' % s, dict(n=I(-N, N)), '| x | x := ScaledDecimal newFromNumber: n scale: %d. {x fraction numerator. x scale. x truncated. x = n. n = x. x asInteger. x even. x odd. x sign}' % s, lambda n, s=s: [n, s, n, True, True, n, fmod(n, 2) == 0, fmod(n, 2) == 1, If(n > 0, 1, If(n < 0, -1, 0))], bounds='integers within %d' % N)
    # large integers meet the other kinds
    B = 2 ** 70
    a('large integers and fractions', dict(m=I(-1000, 1000), n=I(-1000, 1000)), '| x y z | x := m + %d. y := n / 4. z := x + y. {z numerator. z denominator. x > y. y < x. x = y. (x - x + y) numerator}' % B, lambda m, n: (lambda r: And(isfrac((m + B) * 4 + n, 4, [2])(r[:2]), eqv(r[2:5], [True, True, False]))), bounds='2^70 + m and n/4 within 1000')
    a('large integers and scaled decimals', dict(m=PF([-7, 0, 3, 50]), n=PF([-999, -100, -37, -1, 0, 1, 50, 123, 1000])), '| x y z | x := m + %d. y := ScaledDecimal newFromNumber: (n / 100) scale: 2. z := x + y. n = 0 ifTrue: [z := ScaledDecimal newFromNumber: z scale: 2]. {z fraction numerator. z fraction denominator. x > y. y < x. x = y. z truncated}' % B, lambda m, n: (lambda r: And(isfrac((m + B) * 100 + n, 100, [2, 5])(r[:2]), eqv(r[2:], [True, True, False, m + B + fdiv(n, 100)]))), bounds='2^70 + m for 4 m, nine values of n/100')
    for q in (1, 2, 3):
        a('rounding to a multiple %d' % q, dict(m=I(-N, N), k=PF([1, 2, 3, 5, 10, 100])), '| x | x := m / %d. {(x roundTo: k) = (x roundTo: k) truncated. (x roundTo: k) truncated. (x truncateTo: k) = (x truncateTo: k) truncated. (x truncateTo: k) truncated. (x truncateTo: k) abs <= x abs}' % q, lambda m, k, q=q: [True, half(m, q * k) * k, True, quorem(m, q * k)[0] * k, True], bounds='numerators within %d over %d, multiples of 1 2 3 5 10 100' % (N, q))
    a('number protocol', dict(m=I(-N, N), n=I(-N, N)), '{m min: n. m max: n. m positiveDifference: n. m withSignOf: n. m between: n and: n + 10. m sign. m negative. m positive. m strictlyPositive. m isRational. m integerPart. m fractionPart. m even. m asInteger. m abs. m closeTo: m}',
      lambda m, n: [Min(m, n), Max(m, n), Max(m - n, 0), If((m >= 0) == (n >= 0), m, 0 - m) if False else If(Iff(m >= 0, n >= 0), m, 0 - m), And(m >= n, m <= n + 10), If(m > 0, 1, If(m < 0, -1, 0)), m < 0, m >= 0, m > 0, True, m, 0, fmod(m, 2) == 0, m, If(m < 0, 0 - m, m), True], bounds='integers within %d' % N)
    std(ctx, L)
    from csym import prep
    from props import largeint
    import vplib
    sc = prep.Scratch()
    ctx.notes += sc.notes
    ctx.assumptions += largeint.ASSUME
    vplib.run_units(ctx, [largeint.unit(sc, ['add', 'mul', 'div2'], ctx.thorough, lite=True)])
