"""P02 integer functions"""
from stsym.spec import *

def cond(p):
    """expected value given as a predicate over an integer result"""
    return lambda r: p(r) if isint(r) else False

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    W = (-(1 << 70), 1 << 70)
    full = 'every integer in [-2^70, 2^70]'
    a('bitInvert', dict(x=I(*W)), 'x bitInvert', lambda x: -1 - x, bounds=full)
    for k in (1, 2, 31, 32, 62, 63, 64, 65, 70):
        a('bitAt:%d' % k, dict(x=I(*W)), 'x bitAt: %d' % k, lambda x, k=k: fmod(fdiv(x, 1 << (k - 1)), 2), bounds=full)
        a('isBitSet:%d' % k, dict(x=I(*W)), 'x isBitSet: %d' % k, lambda x, k=k: fmod(fdiv(x, 1 << (k - 1)), 2) == 1, bounds=full)
        def setb(x, k=k): return x + (1 << (k - 1)) * (1 - fmod(fdiv(x, 1 << (k - 1)), 2))
        def clrb(x, k=k): return x - (1 << (k - 1)) * fmod(fdiv(x, 1 << (k - 1)), 2)
        a('setBit:%d' % k, dict(x=I(*W)), 'x setBit: %d' % k, setb, bounds=full)
        a('clearBit:%d' % k, dict(x=I(*W)), 'x clearBit: %d' % k, clrb, bounds=full)
        a('bitAt:put:%d' % k, dict(x=I(*W), v=I(-8, 8)), 'x bitAt: %d put: v' % k, lambda x, v, k=k: clrb(x, k) + fmod(v, 2) * (1 << (k - 1)), bounds=full)
    a('bitShift', dict(x=I(*W), k=I(-72, 72)), 'x bitShift: k', lambda x, k: sym.shift(x, k), bounds=full + ', shift -72..72', time=60)
    a('shift operators', dict(x=I(*W), k=I(0, 66)), '{x << k. x >> k}', lambda x, k: [sym.shift(x, k), sym.shift(x, -k)], bounds=full + ', 0..66') if False else None
    for m in (0, 1, 5, 255, 0xF0F0, -1, -256, 1 << 40, (1 << 62) - 1, 1 << 64):
        M = '(%d)' % m
        a('masks %d' % m, dict(x=I(*W)), '{x bitClear: %s. x allMask: %s. x anyMask: %s. x noMask: %s}' % (M, M, M, M),
          lambda x, m=m: [x - bitand(x, m), bitand(x, m) == m, Not(bitand(x, m) == 0), bitand(x, m) == 0], bounds=full + ', mask %d' % m)
    a('even odd', dict(x=I(*W)), '{x even. x odd}', lambda x: [fmod(x, 2) == 0, fmod(x, 2) == 1], bounds=full)
    a('sign abs negated', dict(x=I(*W)), '{x sign. x abs. x negated. x negative. x positive. x strictlyPositive. x isZero}' if False else '{x sign. x abs. x negated. x negative. x positive. x strictlyPositive}',
      lambda x: [If(x > 0, 1, If(x < 0, -1, 0)), If(x < 0, 0 - x, x), 0 - x, x < 0, x >= 0, x > 0], bounds=full)
    a('min max between', dict(x=I(*W), y=I(*W), z=I(*W)), '{x min: y. x max: y. x between: y and: z}', lambda x, y, z: [Min(x, y), Max(x, y), And(x >= y, x <= z)], bounds=full)
    a('positiveDifference', dict(x=I(*W), y=I(*W)), '{x positiveDifference: y. x withSignOf: y}', lambda x, y: [Max(x - y, 0), If((x >= 0) if type(x) is int else (x >= 0), If(y >= 0, x, 0 - x), If(y >= 0, 0 - x, x))], bounds=full)
    a('rounding of integers', dict(x=I(*W)), '{x floor. x ceiling. x truncated. x rounded. x asInteger. x numerator. x denominator. x integerPart. x fractionPart}',
      lambda x: [x, x, x, x, x, x, 1, x, 0], bounds=full)
    for d in (1, 2, 3, 7, 10, 1000, -1, -2, -7, 1 << 40, SMIN, SMAX, 1 << 63):
        D = '(%d)' % d
        a('division by %d' % d, dict(x=I(*W)), '{x // %s. x \\\\ %s. x quo: %s. x rem: %s}' % (D, D, D, D),
          lambda x, d=d: [fdiv(x, d), fmod(x, d) if d > 0 else -fmod(-x, -d), quorem(x, d)[0], quorem(x, d)[1]], bounds=full + ', divisor %d' % d)
    for m in (1, 2, 3, 10, -3):
        a('roundTo: %d' % m, dict(x=I(-(1 << 40), 1 << 40)), '{x roundTo: (%d). x truncateTo: (%d)}' % (m, m),
          lambda x, m=m: lambda r: isinstance(r, list) and And(fmod(r[0], abs(m)) == 0, 2 * (r[0] - x) <= abs(m), 2 * (x - r[0]) <= abs(m),
               r[1] == quorem(x, m)[0] * m), bounds='x in [-2^40,2^40], multiple %d' % m)
    a('truncated toward zero', dict(x=I(-1000, 1000), d=I(1, 9)), '{(x / d) truncated. (x / d) floor. (x / d) ceiling. (x / d) rounded}',
      lambda x, d: [quorem(x, d)[0], fdiv(x, d), -fdiv(-x, d), ANY], bounds='x in [-1000,1000], divisor 1..9', time=60)
    n = 16 if not ctx.thorough else 80
    def gcdspec(x, y):
        def p(r):
            x1, y1, r1 = (sym.E.concretize(v) for v in (x, y, r)) if hasattr(sym.E, 'solver') else (x, y, r)
            return r1 == math.gcd(x1, y1)
        return cond(p)
    a('gcd', dict(x=I(-n, n), y=I(-n, n)), 'x gcd: y', gcdspec, bounds='both operands in [-%d,%d]' % (n, n), paths=200000, time=120)
    for m in (1, 2, 6, 12) + ((60, 97) if ctx.thorough else ()):
        def g2(x, m=m):
            e = 0
            for d in range(m, 0, -1):
                if m % d == 0: e = If(fmod(x, d) == 0, d, e) if d != m else e
            # largest divisor of m dividing x
            res = 1
            for d in range(1, m + 1):
                if m % d == 0: res = If(fmod(x, d) == 0, d, res)
            return res
        a('gcd with %d' % m, dict(x=I(-(1 << 62), 1 << 62)), 'x gcd: %d' % m, g2, bounds='one operand every integer in [-2^62,2^62], other %d' % m, paths=20000, time=60)
        def l2(x, m=m):
            g = g2(x, m)
            return If(x == 0, 0, 0) if type(x) is int and x == 0 else cond(lambda r: And(r * 1 >= 0, fmod(r, m) == 0, Or(*[And(g == d, r * d == abs(x) * m) for d in range(1, m + 1) if m % d == 0])))
        a('lcm with %d' % m, dict(x=I(1, 1 << 50)), 'x lcm: %d' % m, l2, bounds='x in [1,2^50], other %d' % m, paths=20000, time=60)
    a('lcm with zero', dict(x=I(1, 1 << 40)), '{x lcm: 0. 0 lcm: x}', lambda x: [0, 0], bounds='x in [1,2^40]')
    hi = (1 << 62) - 1
    def hb(x):
        return cond(lambda r: hbp(x, r))
    def hbp(x, r):
        c = [And(x == 0, r == 0)]
        for k in range(1, 66): c.append(And(r == k, x >= (1 << (k - 1)), x < (1 << k)))
        return Or(*c)
    a('highBit', dict(x=I(0, (1 << 64) + 5)), 'x highBit', hb, bounds='[0, 2^64+5]', paths=3000, time=90)
    def lb(x):
        def p(r):
            c = [And(x == 0, r == 0)]
            for k in range(1, 64): c.append(And(r == k, fmod(x, 1 << k) == (1 << (k - 1))))
            return Or(*c)
        return cond(p)
    a('lowBit', dict(x=I(-(1 << 62), (1 << 62) - 1)), 'x lowBit', lb, bounds='every SmallInteger', paths=3000, time=90)
    for b in (2, 3, 10, 16):
        def fl(x, b=b):
            return cond(lambda r: Or(*[And(r == k, x >= b ** k, x < b ** (k + 1)) for k in range(0, 64) if b ** k <= 1 << 63]))
        def cl(x, b=b):
            return cond(lambda r: Or(And(x == 1, r == 0), *[And(r == k, x > b ** (k - 1), x <= b ** k) for k in range(1, 65) if b ** (k - 1) <= 1 << 63]))
        a('floorLog: %d' % b, dict(x=I(1, 1 << 63)), 'x floorLog: %d' % b, fl, bounds='[1,2^63]', time=60)
        a('ceilingLog: %d' % b, dict(x=I(1, 1 << 63)), 'x ceilingLog: %d' % b, cl, bounds='[1,2^63]', time=60)
    a('log of negative numbers', dict(x=I(-(1 << 63), -1), b=I(2, 40)), '[x floorLog: b. false] on: ArithmeticError do: [:e | e return: true]', lambda x, b: True, bounds='all negative 64-bit')
    a('factorial', dict(x=I(-3, 40)), '[x factorial] on: ArithmeticError do: [:e | e return: -1]', lambda x: (lambda v: math.factorial(v) if v >= 0 else -1)(sym.E.concretize(x)), bounds='-3..40')
    a('binomial', dict(x=I(-1, 24), k=I(-1, 25)), '[x binomial: k] on: ArithmeticError do: [:e | e return: -1]',
      lambda x, k: (lambda n, m: math.comb(n, m) if n >= 0 and 0 <= m <= n else -1)(sym.E.concretize(x), sym.E.concretize(k)), bounds='n -1..24, k -1..25', time=60)
    for k in range(0, 6):
        def pw(x, k=k):
            r = 1
            for _ in range(k): r = r * x
            return r
        a('raisedTo: %d' % k, dict(x=I(1 if k == 0 else -(1 << 20), 1 << 20)), 'x raisedTo: %d' % k, pw, bounds='base up to 2^20', time=40)
    a('raisedTo symbolic exponent', dict(k=I(1, 70)), '{2 raisedTo: k. -3 raisedTo: k. 10 raisedTo: k}', lambda k: (lambda k: [2 ** k, (-3) ** k, 10 ** k])(sym.E.concretize(k)), bounds='exponent 1..70', time=60)
    a('squared', dict(x=I(-(1 << 40), 1 << 40)), 'x squared', lambda x: x * x, bounds='|x| <= 2^40')
    a('zero divisors', dict(x=I(*W)), '{[x // 0. 1] on: ZeroDivide do: [:e | e return: 2]. [x \\\\ 0. 1] on: ZeroDivide do: [:e | e return: 2]. [x quo: 0. 1] on: ZeroDivide do: [:e | e return: 2]. [x rem: 0. 1] on: ZeroDivide do: [:e | e return: 2]. [x / 0. 1] on: ZeroDivide do: [:e | e return: 2]}',
      lambda x: [2, 2, 2, 2, 2], bounds=full)
    std(ctx, L)
    from csym import prep
    from props import largeint
    import vplib
    sc = prep.Scratch()
    ctx.notes += sc.notes
    ctx.assumptions += largeint.ASSUME
    vplib.run_units(ctx, [largeint.unit(sc, ['div', 'bits', 'shift', 'gcd'], ctx.thorough, lite=True)])
