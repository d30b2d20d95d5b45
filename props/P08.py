"""P08 dictionaries are finite maps under every history"""
from stsym.spec import *
from props.P07 import bkt, mem, uniq, same

def find(s, k):
    for i, (x, y) in enumerate(s):
        if bool(x == k): return i
    return None
def put(s, v, w):
    i = find(s, v)
    if i is None: s.append([v, w])
    else: s[i] = [s[i][0], w]
    return w
def get(s, v, w):
    i = find(s, v)
    if i is None: raise Fail
    return s[i][1]
def getd(s, v, w):
    i = find(s, v)
    return None if i is None else s[i][1]
def rmk(s, v, w):
    i = find(s, v)
    if i is None: raise Fail
    return s.pop(i)[1]
def rmkd(s, v, w):
    i = find(s, v)
    return None if i is None else s.pop(i)[1]
def ifp(s, v, w):
    i = find(s, v)
    return None if i is None else s[i][1] + 1
def ifap(s, v, w):
    i = find(s, v)
    if i is None: s.append([v, w]); return w
    return s[i][1]
NO = object()
def rmkn(s, v):
    i = find(s, v)
    return NO if i is None else s.pop(i)[1]
def pairs(st):
    st = [list(p) for p in st]
    def f(r):
        if not isinstance(r, list) or len(r) != len(st) or any(not isinstance(p, list) or len(p) != 2 for p in r): return False
        return And(*[Or(*[And(p[0] == q[0], eqv(q[1], p[1])) for q in r]) for p in st], *[Not(r[i][0] == r[j][0]) for i in range(len(r)) for j in range(i)])
    return f

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    k = 4 if ctx.thorough else 3
    wide = I(-10 ** 6, 10 ** 6)
    arr = lambda l: '#(%s)' % ' '.join(map(str, l))
    E = '(VPE id: v)'
    def mkops(E):
        return [('c at: %s put: w' % E, put), ('c removeKey: %s' % E, rmk), ('c at: %s' % E, get), ('c removeKey: %s ifAbsent: [nil]' % E, rmkd), ('c at: %s ifAbsent: [nil]' % E, getd),
           ('c at: %s ifPresent: [:z | z + 1]' % E, ifp), ('c includesKey: %s' % E, lambda s, v, w: find(s, v) is not None), ('c at: %s ifAbsentPut: [w]' % E, ifap),
           ('(c add: %s -> w) value' % E, put), ('(c associationAt: %s) value' % E, get), ('(c remove: %s -> 0) value' % E, rmk)]
    ops = mkops(E)
    main = [ops[i] for i in (0, 1, 4)]
    def fin(idf): return '| dummy | ' if 0 else '[:d | | o | o := WriteStream on: Array new. d keysAndValuesDo: [:kk :vv | o nextPut: {%s. vv}]. o contents] value: c. (c keys asArray collect: [:kk | %s]). c size. c isEmpty. c values size' % (idf, idf)
    fn = lambda s: [pairs(s), same([p[0] for p in s]), len(s), not s, len(s)]
    h7, h0, h3 = bkt(8, 7), bkt(8, 0), bkt(8, 3)
    for cls in ('LookupTable', 'Dictionary'):
        for nm, hs in (('one chain', h7[:1]), ('two chains wrapping', [h7[0], h0[0]])):
            mk = '(VPE hashes: %s) -> nil. c := %s new: 4' % (arr(hs), cls)
            L += hist('%s, %s' % (cls, nm), mk, main, k, [], fin('kk id'), fn, vals=wide, wvals=wide, time=60)
            L += hist('%s, %s, all operations' % (cls, nm), mk, ops, 2, [], fin('kk id'), fn, vals=wide, wvals=wide, time=60)
            for n in (3, 5, 6):
                L += hist('%s, %s, from %d entries' % (cls, nm, n), mk + '. 0 to: %d do: [:j | c at: (VPE id: j) put: j * 10]. c := c' % (n - 1), ops if n == 3 else main, 2 if n > 3 else 1, [[i, i * 10] for i in range(n)], fin('kk id'), fn, vals=wide, wvals=wide, time=60)
    chain = h7[:3] + h0[:2]
    pool = chain + h7[3:4]
    iops = mkops('v')
    for cls in ('IdentityDictionary', 'LookupTable', 'Dictionary'):
        L += hist('%s with integer keys' % cls, '%s new' % cls, [iops[i] for i in (0, 1, 4, 7)], 3, [], fin('kk'), fn, vals=PF(pool[1:5]), wvals=wide, time=60)
        L += hist('%s with integer keys, wrapped chain' % cls, '(%s new: 4) at: %s put: 0; %s yourself' % (cls, chain[0], ' '.join('at: %d put: 0;' % x for x in chain[1:])), [iops[i] for i in (0, 1, 4, 7)], 2, [[x, 0] for x in chain], fin('kk'), fn, vals=PF(pool), wvals=wide, time=60)
    for cls in ('LookupTable', 'Dictionary'):
        S = '| d e o mk ps f | VPE hashes: %s. mk := [:z :y | | t | t := %s new: 4. z with: y do: [:p :q | t at: (VPE id: p) put: q]. t]. ps := [:t | | u | u := WriteStream on: Array new. t keysAndValuesDo: [:p :q | u nextPut: {p id. q}]. u contents]. d := mk value: x value: y. ' % (arr([h7[0], h0[0]]), cls)
        for n in range(0, 4):
            bd = 'every %s built from %d key/value pairs in [-10^6,10^6], colliding hashes' % (cls, n)
            def dic(x, y):
                st = []
                for p, q in zip(x, y): put(st, p, q)
                return st
            big = n > 2
            a('%s enumeration %d' % (cls, n), dict(x=A(n, wide), y=A(n, wide)), S + 'o := WriteStream on: Array new. d associationsDo: [:as | o nextPut: {as key id. as value}]. {ps value: d. o contents. ps value: (d select: [:q | q > 0]). ps value: (d reject: [:q | q > 0]). (d collect: [:q | q + 1]) size. d values inject: 0 into: [:p :q | p + q]. (d inject: 0 into: [:p :q | p + q]). (d anySatisfy: [:q | q = 7]). d includes: 7. d occurrencesOf: 7}',
              lambda x, y: (lambda st: [pairs(st), pairs(st), pairs([p for p in st if bool(p[1] > 0)]), pairs([p for p in st if not bool(p[1] > 0)]), len(st), sum(p[1] for p in st), sum(p[1] for p in st), mem([p[1] for p in st], 7), mem([p[1] for p in st], 7), sum(If(p[1] == 7, 1, 0) for p in st)])(dic(x, y)), bounds=bd, time=60, paths=20000, thorough=big)
            a('%s copies are independent %d' % (cls, n), dict(x=A(n, wide), y=A(n, wide), kk=wide, w=wide), S + 'e := d copy. f := d deepCopy. e at: (VPE id: kk) put: w. f at: (VPE id: kk) put: w + 1. {ps value: d. ps value: e. ps value: f. d = e. e = (mk value: x value: y)}' if False else
              S + 'e := d copy. e at: (VPE id: kk) put: w. f := d copy. f removeKey: (VPE id: kk) ifAbsent: [nil]. {ps value: d. ps value: e. ps value: f}',
              lambda x, y, kk, w: (lambda st: (lambda s2, s3: (put(s2, kk, w), rmkd(s3, kk, w), [pairs(st), pairs(s2), pairs(s3)])[2])([list(p) for p in st], [list(p) for p in st]))(dic(x, y)), bounds=bd, time=60, paths=20000, thorough=big)
            a('%s equality does not depend on history %d' % (cls, n), dict(x=A(n, wide), y=A(n, F(0, 2)), kk=wide, w=F(0, 1)), S + 'e := %s new: 40. (VPE id: 0) yourself. d keysAndValuesDo: [:p :q | e at: p put: w]. e at: (VPE id: kk) put: w. d keysAndValuesDo: [:p :q | e at: p put: q]. (d includesKey: (VPE id: kk)) ifFalse: [e removeKey: (VPE id: kk)]. {d = e. e = d. d hash = e hash. d = nil}' % cls,
              lambda x, y, kk, w: [True, True, True, False], bounds=bd, time=60, paths=20000, thorough=n > 1)
            a('%s equality detects differences %d' % (cls, n), dict(x=A(n, wide), y=A(n, wide), kk=wide, w=wide), S + 'e := d copy. e at: (VPE id: kk) put: w. {d = e. e = d}',
              lambda x, y, kk, w: (lambda st: (lambda g: [g, g])(Or(*[And(p[0] == kk, p[1] == w) for p in st]) if st else False))(dic(x, y)), bounds=bd, time=60, paths=20000, thorough=big)
            a('%s bulk removal %d' % (cls, n), dict(x=A(n, wide), y=A(n, wide), kk=wide), S + '{(d keyAtValue: kk ifAbsent: [VPE id: -1]) id. (d keys removeAll: #(); yourself) size. (d removeAllKeysSuchThat: [:p | p id > kk]). ps value: d}',
              lambda x, y, kk: (lambda st: [(lambda r: (lambda has: Or(And(has, Or(*[And(p[0] == r, p[1] == kk) for p in st])), And(Not(has), r == -1)))(Or(*[p[1] == kk for p in st])) if isint(r) else False) if st else -1, len(st), ANY, pairs([p for p in st if not bool(p[0] > kk)])])(dic(x, y)), bounds=bd, time=60, paths=20000, thorough=big)
    # nil is a value like any other, and an absent key is not a key bound to nil
    N = '(w = 0 ifTrue: [nil] ifFalse: [w])'
    nz = lambda w: None if bool(w == 0) else w
    def absd(s, v, w):
        i = find(s, v)
        return -1 if i is None else s[i][1]
    nops = [('c at: %s put: %s' % (E, N), lambda s, v, w: put(s, v, nz(w))), ('c at: %s' % E, get), ('c at: %s ifAbsent: [-1]' % E, absd), ('c removeKey: %s ifAbsent: [-1]' % E, lambda s, v, w: (lambda r: -1 if r is NO else r)(rmkn(s, v))),
        ('c includesKey: %s' % E, lambda s, v, w: find(s, v) is not None), ('c at: %s ifPresent: [:z | -2]' % E, lambda s, v, w: None if find(s, v) is None else -2), ('c at: %s ifAbsentPut: [w]' % E, ifap), ('c includes: %s' % N, lambda s, v, w: (lambda z: any(bool(p[1] == z) if (p[1] is None) == (z is None) else False for p in s))(nz(w)))]
    for cls in ('LookupTable', 'Dictionary'):
        L += hist('%s, nil values' % cls, '(VPE hashes: %s) -> nil. c := %s new: 4' % (arr([h7[0], h0[0]]), cls), nops, 2, [], fin('kk id'), fn, vals=wide, wvals=F(0, 1), time=60, paths=20000)
    for cls in ('LookupTable', 'Dictionary', 'IdentityDictionary'):
        M = '| d e mk | %smk := [:z :y | | t | t := %s new: 4. z with: y do: [:p :q | t at: %s put: (q = 0 ifTrue: [nil] ifFalse: [q])]. t]. d := mk value: x value: y. e := mk value: z value: w. {d = e. e = d}'
        for n, m in ((1, 1), (2, 2), (1, 2), (3, 3)):
            def eqd(x, y, z, w):
                s1, s2 = [], []
                for p, q in zip(x, y): put(s1, p, q)
                for p, q in zip(z, w): put(s2, p, q)
                r = len(s1) == len(s2) and all(any(bool(p[0] == q[0]) and bool(p[1] == q[1]) for q in s2) for p in s1)
                return [r, r]
            ident = cls[0] == 'I'
            a('%s equality %d %d' % (cls, n, m), dict(x=A(n, F(0, 2) if ident else I(0, 4)), y=A(n, F(0, 1) if n < 3 else F(0, 0)), z=A(m, F(0, 2) if ident else I(0, 4)), w=A(m, F(0, 1) if n < 3 else F(0, 0))), M % ('' if ident else 'VPE hashes: %s. ' % arr([h7[0], h0[0]]), cls, 'p' if ident else '(VPE id: p)'), eqd,
              bounds='every two %ss of up to %d and %d pairs, values nil or 1' % (cls, n, m), time=60, paths=40000, thorough=n > 2)
    a('storeString of dictionaries', dict(x=F(0, 12), y=F(0, 3)), '| d e f | d := Dictionary new. d at: x put: y; at: y put: x. e := LookupTable new. e at: x put: y; at: y put: x. f := IdentityDictionary new. f at: x put: y. {(Behavior evaluate: d storeString) = d. (Behavior evaluate: e storeString) = e. (Behavior evaluate: f storeString) = f}', lambda x, y: [True, True, True], bounds='0..12, 0..3', time=60)
    a('growing keeps every entry', dict(n=F(0, 26), k=I(1, 27)), '| d e ok | d := Dictionary new: 2. e := LookupTable new: 2. 1 to: n do: [:j | d at: j put: j * j. e at: j put: j * j]. {d size. e size. d at: k ifAbsent: [nil]. e at: k ifAbsent: [nil]}',
      lambda n, k: (lambda v: [n, n, v, v])(k * k if bool(k <= n) else None), bounds='0..26 insertions in order, every key', time=100, paths=20000)
    std(ctx, L)
