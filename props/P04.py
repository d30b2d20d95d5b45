"""P04 fractions"""
from stsym.spec import *
from math import gcd

def primes(n):
    n = abs(n); out = []; p = 2
    while n > 1:
        if n % p == 0:
            out.append(p)
            while n % p == 0: n //= p
        p += 1
    return out

def isfrac(p, q, ps):
    """result [numerator, denominator] is p/q in lowest terms with positive denominator; ps: primes that may divide q"""
    def f(r):
        if not (isinstance(r, list) and len(r) == 2 and isint(r[0]) and isint(r[1])): return False
        n, d = r
        return And(n * q == p * d, d > 0, *[Not(And(fmod(n, x) == 0, fmod(d, x) == 0)) for x in ps])
    return f

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, summ=GCD, **k))
    N = 1 << 20
    pairs = [(1, 2), (2, 3), (2, 2), (4, 6), (6, 10), (7, 7), (12, 8), (9, 27), (5, 35), (30, 42), (64, 48), (1000, 10), (97, 89)]
    G = 'r := %s. {r numerator. r denominator}'
    for d, e in pairs:
        slow = (d, e) in ((30, 42), (64, 48), (1000, 10), (9, 27), (5, 35))
        bd = 'numerators in [-%d,%d] over %d and %d' % (N, N, d, e)
        inp = lambda: dict(m=I(-N, N), n=I(-N, N))
        ps = primes(d * e)
        P = '| x y r | x := m / %d. y := n / %d. ' % (d, e)
        a('sum %d %d' % (d, e), thorough=slow, inputs=inp(), code=P + G % 'x + y', oracle=lambda m, n, d=d, e=e, ps=ps: isfrac(m * e + n * d, d * e, ps), bounds=bd, time=60)
        a('difference %d %d' % (d, e), thorough=slow, inputs=inp(), code=P + G % 'x - y', oracle=lambda m, n, d=d, e=e, ps=ps: isfrac(m * e - n * d, d * e, ps), bounds=bd, time=60)
        N2 = 1000 if ctx.thorough else 30
        bd2 = 'numerators in [-%d,%d] over %d and %d' % (N2, N2, d, e)
        for op, f in (('<', lambda u, v: u < v), ('<=', lambda u, v: u <= v), ('>', lambda u, v: u > v), ('>=', lambda u, v: u >= v), ('=', lambda u, v: u == v), ('~=', lambda u, v: Not(u == v))):
            a('%d/%s %s' % (d, e, op), dict(m=I(-N2, N2), n=I(-N2, N2)), P + 'x %s y' % op, lambda m, n, d=d, e=e, f=f: f(m * e, n * d), bounds=bd2, time=60, thorough=slow or (op not in '<=' and d > 4))
        a('max min %d %d' % (d, e), dict(m=I(-N2, N2), n=I(-N2, N2)), P + '{(x max: y) - x. (x min: y) - x}' if False else P + 'r := x max: y. {r = x or: [r = y]. r >= x and: [r >= y]}',
          lambda m, n: [True, True], bounds=bd2, time=60, thorough=d > 2)
    for d, e in pairs[:11] if ctx.thorough else [(1, 2), (2, 3), (4, 6), (6, 10), (12, 8)]:
        for c in (1, -1, 6, -9, 35):
            N = 1 << 10
            if gcd(c, e) != 1 and c not in (6, -9): continue
            ps = sorted(set(primes(d * e * c)) | {2})
            bd = 'every numerator in [-%d,%d] over %d, second operand %d/%d' % (N, N, d, c, e)
            P = '| x y r | x := m / %d. y := %d / %d. ' % (d, c, e)
            a('product %d by %d/%d' % (d, c, e), dict(m=I(-N, N)), P + G % 'x * y', lambda m, d=d, e=e, c=c, ps=ps: isfrac(m * c, d * e, ps), bounds=bd)
            a('quotient %d by %d/%d' % (d, c, e), dict(m=I(-N, N)), P + G % 'x / y', lambda m, d=d, e=e, c=c, ps=ps: isfrac(m * e, d * c, ps), bounds=bd)
            a('constant over %d by %d/%d' % (d, c, e), dict(m=F(-12, 12)), P + ('m = 0 ifTrue: [^y / x]. ' + G % 'y / x'),
              lambda m, d=d, e=e, c=c: Err('ZeroDivide') if bool(m == 0) else isfrac(c * d, e * m, primes(e * m * c * d)), bounds='numerators -12..12 over %d' % d)
            def fl(m, d, e, c): return fdiv(m * e * (1 if c > 0 else -1), d * abs(c))
            def tr(m, d, e, c): return quorem(m * e * (1 if c > 0 else -1), d * abs(c))[0]
            a('integer division %d by %d/%d' % (d, c, e), dict(m=I(-N, N)), P + '{x // y. x quo: y. (x \\\\ y) + ((x // y) * y) = x. (x rem: y) + ((x quo: y) * y) = x. (x \\\\ y) isZero not and: [(x \\\\ y) sign ~= y sign]}' if False else
              P + '{x // y. x quo: y. (x \\\\ y) + ((x // y) * y) = x. (x rem: y) + ((x quo: y) * y) = x}',
              lambda m, d=d, e=e, c=c: [fl(m, d, e, c), tr(m, d, e, c), True, True], bounds=bd, thorough=c == 35)
    for d in (1, 2, 3, 6, 10, 97, 1024):
        N = 1 << 20 if d < 12 else 1 << 12
        bd = 'every numerator in [-%d,%d] over %d' % (N, N, d)
        half = lambda m, d=d: If(m >= 0, fdiv(2 * m + d, 2 * d), 0 - fdiv(d - 2 * m, 2 * d))
        a('rounding %d' % d, dict(m=I(-N, N)), '| x | x := m / %d. {x floor. x ceiling. x truncated. x rounded. x asInteger}' % d,
          lambda m, d=d, half=half: [fdiv(m, d), 0 - fdiv(0 - m, d), quorem(m, d)[0], half(m), half(m)], bounds=bd)
        a('parts %d' % d, dict(m=I(-N, N)), '| x | x := m / %d. {x integerPart + x fractionPart = x. x integerPart = x truncated. x fractionPart abs < 1. x negated + x = 0. x negated negated = x. x squared = (x * x). (x raisedTo: 2) = (x * x). (x raisedTo: 3) = (x * x * x). x isRational. x isNumber. x asExactFraction = x}' % d if d <= 12 else
          '| x | x := m / %d. {x integerPart + x fractionPart = x. x integerPart = x truncated. x fractionPart abs < 1. x negated + x = 0. x negated negated = x}' % d,
          lambda m, d=d: [True] * (11 if d <= 12 else 5), bounds=bd if d > 12 else 'numerators -12..12 over %d' % d) if d > 12 else \
        a('parts %d' % d, dict(m=F(-12, 12)), '| x | x := m / %d. {x integerPart + x fractionPart = x. x integerPart = x truncated. x fractionPart abs < 1. x negated + x = 0. x negated negated = x. x squared = (x * x). (x raisedTo: 2) = (x * x). (x raisedTo: 3) = (x * x * x). x isRational. x isNumber. x asExactFraction = x}' % d,
          lambda m: [True] * 11, bounds='numerators -12..12 over %d' % d)
        a('against integers %d' % d, dict(m=I(-N, N), k=I(-N, N)), '| x r | x := m / %d. r := x + k. {r numerator. r denominator. x < k. k < x. x = k. k = x. x <= k. k <= x}' % d,
          lambda m, k, d=d: (lambda u, p: lambda r: And(isfrac(m + k * d, d, primes(d))(r[:2]), eqv(r[2:], [m < u, u < m, m == u, m == u, m <= u, u <= m])))(k * d, None), bounds=bd + ' and every integer in the same range', time=60)
        a('reciprocal %d' % d, dict(m=I(-N, N)), '| x r | x := m / %d. r := x reciprocal. {r numerator. r denominator}' % d,
          lambda m, d=d: Err('ZeroDivide') if bool(m == 0) else isfrac(d, m, primes(d)), bounds=bd)
        a('print %d' % d, dict(m=I(-1000, 1000)), '(m / %d) printString' % d,
          lambda m, d=d: (lambda g: Str(numeral(fdiv(m, g), 10) + ([47] + numeral(d // g, 10) if d // g != 1 else [])))(([g for g in range(d, 0, -1) if d % g == 0 and bool(fmod(m, g) == 0)])[0]), bounds='numerators in [-1000,1000] over %d' % d)
        a('store and numerator:denominator: %d' % d, dict(m=I(-1000, 1000)), '| s x | x := Fraction numerator: m denominator: %d. s := WriteStream on: String new. x storeOn: s. {s contents. x numerator. x denominator}' % d,
          lambda m, d=d: [Str(codes('(Fraction numerator: ') + numeral(m, 10) + codes(' denominator: %d)' % d)), m, d], bounds='numerators in [-1000,1000]')
        a('negative denominator %d' % d, dict(m=I(-N, N)), '| x | x := Fraction numerator: m denominator: -%d. {x numerator. x denominator}' % d, lambda m, d=d: [0 - m, d], bounds=bd)
    a('zero denominator', dict(m=I(-N, N)), 'Fraction numerator: m denominator: 0', lambda m: Err('ZeroDivide'), bounds='numerators in [-N,N]')
    a('integer / integer', dict(m=F(-20, 20), n=F(-20, 20)), '| r | r := m / n. {r numerator. r denominator. r class == Fraction}',
      lambda m, n: Err('ZeroDivide') if n == 0 else (lambda g: [m // g * (1 if n > 0 else -1), abs(n) // g, abs(n) // g != 1])(gcd(m, n)), bounds='every pair in [-20,20]', paths=4000, time=60)
    a('equal fractions have equal hashes', dict(m=F(-15, 15), n=F(1, 15), k=F(1, 4)), '| x y | x := m / n. y := (m * k) / (n * k). {x = y. x hash = y hash. (Fraction numerator: 3 denominator: 1) hash = 3 hash. (Fraction numerator: 3 denominator: 1) = 3}',
      lambda m, n, k: [True, True, True, True], bounds='numerators -15..15, denominators 1..15, factor 1..4', paths=4000, time=60)
    std(ctx, L)
    from csym import prep
    from props import largeint
    import vplib
    sc = prep.Scratch()
    ctx.notes += sc.notes
    ctx.assumptions += largeint.ASSUME
    vplib.run_units(ctx, [largeint.unit(sc, ['add', 'mul', 'gcd', 'div2'], ctx.thorough, lite=True)])
