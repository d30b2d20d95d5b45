"""P07 Set, IdentitySet and Bag histories against a mathematical set / multiset"""
from stsym.spec import *

def mem(s, v): return Or(*[x == v for x in s]) if s else False
def same(st):
    """result array holds exactly the elements of st (a list without duplicates)"""
    st = list(st)
    def f(r):
        if not isinstance(r, list) or len(r) != len(st): return False
        return And(*[Or(*[x == y for y in r]) for x in st], *[Not(r[i] == r[j]) for i in range(len(r)) for j in range(i)])
    return f
def add(s, v, w):
    if not bool(mem(s, v)): s.append(v)
    return v
def rem(s, v, w):
    for i, x in enumerate(s):
        if bool(x == v): s.pop(i); return v
    raise Fail
def remi(s, v, w):
    for i, x in enumerate(s):
        if bool(x == v): s.pop(i); return v
    return None
def addall(s, v, w): add(s, v, w); add(s, w, w); return [v, w]
# multisets: list of values
def badd(s, v, w): s.append(v); return v
def bocc(s, v, w): return sum(If(x == v, 1, 0) for x in s) if s else 0
def badd3(s, v, w): s += [v] * 3; return v
def msame(st):
    st = list(st)
    def f(r):
        if not isinstance(r, list) or len(r) != len(st): return False
        return And(*[sum(If(x == y, 1, 0) for y in r) == sum(If(x == y, 1, 0) for y in st) for x in st])
    return f
def brem(s, v, w): return rem(s, v, w)

def bkt(n, idx, lo=0, hi=4000, k=6):
    """small integers whose slot in a table of n slots is idx"""
    from stsym import prims
    out = [x for x in range(lo, hi) if prims.scramble(x) & (n - 1) == idx]
    return out[:k]

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    k = 4 if ctx.thorough else 3
    wide = I(-10 ** 6, 10 ** 6)
    E = '(VPE id: v)'
    ops = [('(c add: %s) id' % E, add), ('(c remove: %s) id' % E, rem), ('(c remove: %s ifAbsent: [VPE id: v - 1]) id' % E, lambda s, v, w: v - 1 if remi(s, v, w) is None else v),
           ('c includes: %s' % E, lambda s, v, w: mem(s, v)), ('c occurrencesOf: %s' % E, lambda s, v, w: If(mem(s, v), 1, 0))]
    def arr(l): return '#(%s)' % ' '.join(map(str, l))
    h7, h0, h3 = bkt(8, 7), bkt(8, 0), bkt(8, 3)
    fin, fn = '(c asArray collect: [:e | e id]). c size. c isEmpty', lambda s: [same(s), len(s), not s]
    # hash classes: all elements in one probe chain that wraps around the end of the 8-slot table
    for nm, hs in (('one chain', h7[:1]), ('two chains wrapping', [h7[0], h0[0]]), ('three hashes', [h7[0], h7[1], h0[0]])):
        mk = '(VPE hashes: %s) -> nil. c := Set new' % arr(hs)
        L += hist('Set, %s' % nm, mk, ops[:4] if len(hs) > 1 else ops, k, [], fin, fn, vals=wide, time=60)
        for n in (3, 5, 6):
            L += hist('Set, %s, from %d elements' % (nm, n), mk + '. 0 to: %d do: [:j | c add: (VPE id: j)]. c := c' % (n - 1), ops[:4], 2 if n > 3 or not ctx.thorough else 3, list(range(n)), fin, fn, vals=wide, time=60)
    last, first = h7, h0
    chain = last[:3] + first[:2]
    sp = F(0, 6)
    iops = [('c add: (p at: v + 1)', lambda s, v, w: add(s, v, w) if 0 else v if (v in s or s.append(v)) or 1 else v), ('c remove: (p at: v + 1)', rem), ('c includes: (p at: v + 1)', lambda s, v, w: v in s)]
    pool = chain + last[3:4] + h3[:1]
    iops = [('c add: v', add), ('c remove: v', rem), ('c includes: v', lambda s, v, w: mem(s, v))]
    for cls in ('IdentitySet', 'Set'):
        L += hist('%s of integers' % cls, '%s new' % cls, iops, 3, [], 'c asArray. c size', lambda s: [same(s), len(s)], vals=PF(pool[:5]), time=60)
        L += hist('%s of integers, wrapped chain' % cls, '(%s new) addAll: %s; yourself' % (cls, arr(chain)), iops, 2, chain, 'c asArray. c size', lambda s: [same(s), len(s)], vals=PF(pool), time=60)
    pre = lambda x, y: And(*[Not(l[i] == l[j]) for l in (x, y) for i in range(len(l)) for j in range(i)])
    S = '| s t mk ids | VPE hashes: %s. mk := [:z | (z collect: [:e | VPE id: e]) asSet]. ids := [:z | z asArray collect: [:e | e id]]. ' % arr([h7[0], h0[0]])
    for n in range(0, 4):
        for m in range(0, 4):
            bd = 'every pair of sets of %d and %d elements with ids in [-10^6,10^6], colliding hashes' % (n, m)
            a('set algebra %d %d' % (n, m), dict(x=A(n, wide), y=A(m, wide)), S + 's := mk value: x. t := mk value: y. {ids value: s & t. ids value: s + t. ids value: s - t. s <= t. s < t. s >= t. s > t. s = t. (s = t) not or: [s hash = t hash]. ids value: s}',
              lambda x, y: alg(x, y), pre=pre, bounds=bd, time=60, paths=30000, thorough=n + m > 3)
        bd = 'every array of %d elements with ids in [-10^6,10^6]' % n
        a('Set from array %d' % n, dict(x=A(n, wide)), S + 's := mk value: x. {ids value: s. (s collect: [:e | e id // 2]) size. ids value: (s select: [:e | e id > 50]). ids value: (s reject: [:e | e id > 50]). s copy = s. s copy == s. (s inject: 0 into: [:p :q | p + q id]). (s anySatisfy: [:e | e id = 9])}' if False else
          S + 's := mk value: x. {ids value: s. ids value: (s select: [:e | e id > 50]). ids value: (s reject: [:e | e id > 50]). s copy = s. s copy == s. (s inject: 0 into: [:p :q | p + q id]). (s anySatisfy: [:e | e id = 9]). ids value: s deepCopy}',
          lambda x: (lambda d: [same(d), same([v for v in d if bool(v > 50)]), same([v for v in d if not bool(v > 50)]), True, False, sum(d), mem(d, 9), same(d)])(uniq(x)), bounds=bd, time=60, paths=20000)
        a('equality does not depend on history %d' % n, dict(x=A(n, wide), k=wide), S + 's := mk value: x. t := Set new: 40. x reverse do: [:e | t add: (VPE id: e)]. t add: (VPE id: k). (x includes: k) ifFalse: [t remove: (VPE id: k)]. {s = t. t = s. s hash = t hash. s = x. s = t asBag}',
          lambda x, k: [True, True, True, False, False], bounds=bd, time=60, paths=20000)
    L.append(O('collect: into a set', dict(x=A(3, F(0, 5))), '(x asSet collect: [:e | e // 2]) asArray', lambda x: same(sorted(set(v // 2 for v in x))), bounds='arrays of 3 in 0..5'))
    bops = [('(c add: %s) id' % E, badd), ('(c remove: %s) id' % E, brem), ('c occurrencesOf: %s' % E, bocc), ('(c add: %s withOccurrences: 3) id' % E, badd3), ('c includes: %s' % E, lambda s, v, w: mem(s, v))]
    bfin, bfn = '(c asArray collect: [:e | e id]). c size. (c asSet asArray collect: [:e | e id]). c isEmpty', lambda s: [msame(s), len(s), same(uniq(s)), not s]
    for nm, hs in (('one chain', h7[:1]), ('two chains wrapping', [h7[0], h0[0]])):
        L += hist('Bag, %s' % nm, '(VPE hashes: %s) -> nil. c := Bag new' % arr(hs), bops, k, [], bfin, bfn, vals=wide, time=60)
    for n in (1, 2, 3):
        a('Bag equality %d' % n, dict(x=A(n, wide), y=A(n, wide)), S + 's := (x collect: [:e | VPE id: e]) asBag. t := (y collect: [:e | VPE id: e]) asBag. {s = t. (s = t) not or: [s hash = t hash]. s = (s asArray reverse) asBag. s = s asArray}', lambda x, y: [msame(x)(y), True, True, False], bounds='arrays of %d' % n, time=60, paths=30000, thorough=n > 1)
    a('Bag sortedByCount', dict(x=A(3, F(0, 3))), 'x asBag sortedByCount collect: [:as | {as key. as value}]', lambda x: (lambda u: lambda r: And(len(r) == len(u), *[Or(*[And(p[0] == sum(If(v == w, 1, 0) for w in x), p[1] == v) for p in r]) for v in u], *[r[i][0] >= r[i + 1][0] for i in range(len(r) - 1)]) if isinstance(r, list) and len(r) == len(u) else False)(uniq(x)), bounds='arrays of 3 in [0,3]', time=60)
    a('storeString of sets and bags', dict(x=F(0, 20), y=F(0, 3)), '| s b | s := Set new. s add: x; add: y. b := Bag new. b add: x; add: y; add: y. {(Behavior evaluate: s storeString) = s. (Behavior evaluate: b storeString) = b}', lambda x, y: [True, True], bounds='0..20, 0..3', time=60)
    std(ctx, L)

def uniq(x):
    out = []
    for v in x:
        if not bool(mem(out, v)): out.append(v)
    return out
def alg(x, y):
    i = [v for v in x if bool(mem(y, v))]
    u = x + [v for v in y if not bool(mem(x, v))]
    d = [v for v in x if not bool(mem(y, v))]
    sub, sup = len(i) == len(x), len(i) == len(y)
    return [same(i), same(u), same(d), sub, sub and len(x) < len(y), sup, sup and len(y) < len(x), sub and sup, True, same(x)]
