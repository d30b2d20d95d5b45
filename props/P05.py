"""P05 intervals denote exactly their arithmetic progression"""
from stsym.spec import *

def count(a, b, s):
    if s > 0: return If(b >= a, fdiv(b - a, s) + 1, 0)
    return If(a >= b, fdiv(a - b, -s) + 1, 0)
def elems(a, b, s):
    """elements, forking on their number"""
    out = []; x = a
    while bool(x <= b if s > 0 else x >= b): out.append(x); x = x + s
    return out

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    R = 12 if ctx.thorough else 6
    big = 1 << 40
    for s in (1, -1, 2, -2, 3, -3, 5, -7):
        inp = lambda: dict(x=I(-R, R), y=I(-R, R))
        bd = 'start and stop in [-%d,%d], step %d' % (R, R, s)
        wide = dict(x=I(-big, big), y=I(-big, big))
        P = '| v c w r | v := x to: y by: %d. ' % s
        a('size isEmpty %d' % s, wide, P + '{v size. v isEmpty. v notEmpty. v increment}', lambda x, y, s=s: (lambda n: [n, n == 0, Not(n == 0), s])(count(x, y, s)), bounds='start and stop in [-2^40,2^40], step %d' % s)
        a('first last %d' % s, dict(wide), P + '{v first. v last}', lambda x, y, s=s: (lambda n: Err('IndexOutOfRange') if bool(n == 0) else [x, x + (n - 1) * s])(count(x, y, s)), bounds='start and stop in [-2^40,2^40], step %d' % s)
        a('at: %d' % s, dict(x=I(-big, big), y=I(-big, big), i=I(-big, big)), P + 'v at: i', lambda x, y, i, s=s: (lambda n: x + (i - 1) * s if bool(And(i >= 1, i <= n)) else Err('IndexOutOfRange'))(count(x, y, s)), bounds='start, stop and index in [-2^40,2^40], step %d' % s)
        a('includes: %d' % s, dict(x=I(-R, R), y=I(-R, R), k=I(-2 * R, 2 * R)), P + 'v includes: k', lambda x, y, k, s=s: Or(*[k == e for e in elems(x, y, s)]) if True else None, bounds=bd)
        a('asArray asOrderedCollection %d' % s, inp(), P + '{v asArray. v asOrderedCollection asArray. v asBag size}', lambda x, y, s=s: (lambda e: [e, e, len(e)])(elems(x, y, s)), bounds=bd)
        a('enumeration %d' % s, inp(), P + 'c := OrderedCollection new. w := OrderedCollection new. r := OrderedCollection new. v do: [:e | c add: e]. v keysAndValuesDo: [:i :e | w add: i * 100 + e]. v reverseDo: [:e | r add: e]. {c asArray. w asArray. r asArray. v collect: [:e | e * 2]. (v select: [:e | e > 0]) asArray. (v reject: [:e | e > 0]) asArray. v inject: 0 into: [:p :q | p + q]}',
          lambda x, y, s=s: (lambda e: [e, [(i + 1) * 100 + v for i, v in enumerate(e)], e[::-1], [2 * v for v in e], [v for v in e if bool(v > 0)], [v for v in e if not bool(v > 0)], sum(e)])(elems(x, y, s)), bounds=bd, time=60)
        a('inlined to:by:do: %d' % s, inp(), '| c | c := OrderedCollection new. x to: y by: %d do: [:e | c add: e]. c asArray' % s, lambda x, y, s=s: elems(x, y, s), bounds=bd)
        a('reverse %d' % s, inp(), P + '{v reverse asArray. v reverse reverse asArray}', lambda x, y, s=s: (lambda e: [e[::-1], e])(elems(x, y, s)), bounds=bd)
        a('equality and hash %d' % s, dict(x=I(-R, R), y=I(-R, R), z=I(-R, R)), P + 'w := x to: z by: %d. {v = w. w = v. v = w ==> [v hash = w hash]}' % s if False else P + 'w := x to: z by: %d. {v = w. w = v. (v = w) not or: [v hash = w hash]}' % s,
          lambda x, y, z, s=s: (lambda n, m: [n == m, n == m, True])(count(x, y, s), count(x, z, s)), bounds=bd)
        a('equal only if same elements %d' % s, dict(x=I(-R, R), y=I(-R, R), u=I(-R, R), z=I(-R, R)), P + 'v = (u to: z by: %d)' % s,
          lambda x, y, u, z, s=s: (lambda n, m: And(n == m, Or(n == 0, x == u)))(count(x, y, s), count(u, z, s)), bounds=bd)
        a('copyFrom:to: %d' % s, dict(x=I(-R, R), y=I(-R, R), i=I(1, 4), j=I(0, 4)), P + '(v copyFrom: i to: j) asArray', lambda x, y, i, j, s=s:
          (lambda e: ANY if bool(Or(i - 1 > j, i > len(e) + 1, j > len(e))) else [e[k - 1] for k in range(1, 5) if bool(And(i <= k, k <= j))])(elems(x, y, s)), bounds=bd + ', slices within bounds', pre=None)
        a('storeOn: %d' % s, dict(x=I(-R, R), y=I(-R, R)), P + 'v storeString', lambda x, y, s=s: Str(codes('(Interval from: ') + numeral(x, 10) + codes(' to: ') + numeral(y, 10) + codes(' by: %d)' % s)), bounds=bd)
        a('printOn: %d' % s, dict(x=I(-R, R), y=I(-R, R)), P + 'v printString', lambda x, y, s=s: pr(x, y, s), bounds=bd)
    a('step 1 default', dict(x=I(-R, R), y=I(-R, R)), '{(x to: y) asArray. (Interval from: x to: y) asArray. (x to: y) = (x to: y by: 1)}', lambda x, y: [elems(x, y, 1)] * 2 + [True], bounds='start and stop in [-%d,%d]' % (R, R))
    for n in (2, 3, 4):
        a('withAll: %d' % n, dict(x=A(n, I(-20, 20))), '(Interval withAll: x) asArray',
          lambda x, n=n: (ANY if bool(x[1] == x[0]) else x) if bool(And(*[x[i + 1] - x[i] == x[1] - x[0] for i in range(1, n - 1)])) else Err('InvalidArgument|*' if False else 'InvalidArgument'), bounds='every array of %d integers in [-20,20]' % n)
    a('exact fraction steps', dict(x=F(-4, 4), y=F(-4, 4)), '| v | v := x to: y by: 1/2. {v size. v asArray = ((0 to: (y - x max: -1) * 2) collect: [:k | x + (k / 2)])}', lambda x, y: [max(0, (y - x) * 2 + 1), True], bounds='start and stop in [-4,4], step 1/2')
    std(ctx, L)

def pr(x, y, s):
    e = elems(x, y, s)
    out = []
    if e: out += numeral(e[0], 10)
    if len(e) > 1: out += [32] + numeral(e[1], 10)
    if len(e) > 2: out += (codes(' ...') if len(e) > 3 else []) + [32] + numeral(e[-1], 10)
    return Str(codes('Interval(') + out + codes(')'))
