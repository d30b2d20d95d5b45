"""P09 sorted collections and sorting"""
from stsym.spec import *
from props.P06 import firsti

def ins(s, v):
    for i, x in enumerate(s):
        if bool(v < x): s.insert(i, v); return
    s.append(v)
def add(s, v, w): ins(s, v); return v
def addall(s, v, w): ins(s, v); ins(s, w); ins(s, v); return [v, w, v]
def rf(s, v, w):
    if not s: raise Fail
    return s.pop(0)
def rl(s, v, w):
    if not s: raise Fail
    return s.pop()
def rem(s, v, w):
    for i, x in enumerate(s):
        if bool(x == v): s.pop(i); return v
    raise Fail
def first(s, v, w):
    if not s: raise Fail
    return s[0]
def last(s, v, w):
    if not s: raise Fail
    return s[-1]
def med(s, v, w): return list(s)
def srt(x):
    s = []
    for v in x: ins(s, v)
    return s

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    k = 5 if ctx.thorough else 4
    wide = I(-10 ** 9, 10 ** 9)
    ops = [('c add: v', add), ('c removeFirst', rf), ('c removeLast', rl), ('c last', last), ('c first', first), ('c remove: v', rem), ('c includes: v', lambda s, v, w: Or(*[x == v for x in s]) if s else False),
           ('c indexOf: v', lambda s, v, w: firsti(s, v)), ('c occurrencesOf: v', lambda s, v, w: sum(If(x == v, 1, 0) for x in s) if s else 0), ('(c addAll: {v. w. v}) asArray', addall), ('c asArray', med)]
    fin, fn = 'c asArray. c size. c isEmpty', lambda s: [list(s), len(s), not s]
    kw = dict(vals=wide, wvals=wide, time=100)
    L += hist('core', 'SortedCollection new', [ops[i] for i in (0, 1, 2, 3)], k, [], fin, fn, **kw)
    L += hist('all', 'SortedCollection new', ops, 3 if ctx.thorough else 2, [], fin, fn, **kw)
    L += hist('all, small capacity', 'SortedCollection new: 1', [ops[i] for i in (0, 1, 2, 4, 9)], 3, [], fin, fn, **kw)
    for n in (2, 4) + ((6,) if ctx.thorough else ()):
        L += hist('from %d' % n, '(SortedCollection new: 4) addAll: #(%s); yourself' % ' '.join(str(10 * i) for i in range(n)), ops, 2, [10 * i for i in range(n)], fin, fn, **kw)
        L += hist('from %d after removeFirst' % n, '(SortedCollection new: 4) addAll: #(%s 5 5); removeFirst; removeFirst; yourself' % ' '.join(str(10 * i - 20) for i in range(n + 2)), [o for i, o in enumerate(ops) if i not in (3, 4, 9)], 2, sorted([10 * i - 20 for i in range(n + 2)] + [5, 5])[2:], fin, fn, **kw)
        L += hist('from %d lazily' % n, '(SortedCollection new: 4) addAll: #(%s); first; add: 15; last; add: 5; yourself' % ' '.join(str(10 * i) for i in range(n)), [ops[i] for i in (0, 1, 2, 3, 6, 8)], 2, sorted([10 * i for i in range(n)] + [15, 5]), fin, fn, **kw)
    L += hist('drain of 12', '(SortedCollection new: 16) addAll: #(5 3 9 1 7 7 2 8 0 4 6 11); yourself', [('c removeFirst', rf), ('c removeLast', rl), ('c add: v', add)], 7 if ctx.thorough else 6, sorted([5, 3, 9, 1, 7, 7, 2, 8, 0, 4, 6, 11]), fin, fn, vals=F(6, 6), first=True, time=100)
    for n in range(0, 7 if ctx.thorough else 6):
        bd = 'every array of %d integers in [-10^9,10^9]' % n
        inp = dict(x=A(n, wide))
        a('sort %d' % n, inp, '{x copy sort. x asSortedCollection asArray}', lambda x: [srt(x)] * 2, bounds=bd, time=100, paths=20000)
        a('sort: descending %d' % n, inp, '{x copy sort: [:p :q | p >= q]. (x asSortedCollection: [:p :q | p >= q]) asArray}', lambda x: [srt(x)[::-1]] * 2, bounds=bd, time=100, paths=20000, thorough=n > 4)
        a('sorted copies %d' % n, inp, '| y | y := x copy. {y asArray sort. (y asArray sort: [:p :q | p > q]). (y asOrderedCollection sort) asArray. y}' if False else '| y o | y := x copy. o := x asOrderedCollection. {(o sort) asArray. (o asArray sort: [:p :q | p > q]). (x sortBy: [:p :q | p <= q]) asArray}' if False else
          '| o | o := x asOrderedCollection. {o sort asArray. o asArray. o asSortedCollection asArray}', lambda x: [srt(x)] * 3, bounds=bd, time=100, paths=20000, thorough=n > 4)
        a('asArray of sort with one-sided incremental adds %d' % n, inp, '| c | c := SortedCollection sortBlock: [:p :q | p >= q]. x do: [:e | c add: e. c first]. {c asArray. c size. (c indexOf: 1000000001)}', lambda x: [srt(x)[::-1], len(x), 0], bounds=bd, time=100, paths=20000, thorough=n > 4)
        a('alternating first and last %d' % n, inp, '| c o | c := SortedCollection new. o := OrderedCollection new. x do: [:e | c add: e. c last]. [c isEmpty] whileFalse: [o add: c removeFirst. c isEmpty ifFalse: [o add: c removeLast]]. o asArray',
          lambda x: (lambda s: [s.pop(0 if i % 2 == 0 else -1) for i in range(len(x))])(srt(x)), bounds=bd, time=100, paths=20000, thorough=n > 4)
    for n in range(1, 5):
        a('collect select copy %d' % n, dict(x=A(n, wide)), '| c | c := x asSortedCollection. {(c collect: [:e | 0 - e]) asArray. (c select: [:e | e > 3]) asArray. (c reject: [:e | e > 3]) asArray. c copy asArray. (c copyFrom: 1 to: 1) asArray. c reverse asArray. (c detect: [:e | e > 3] ifNone: [nil]). c asOrderedCollection asArray}',
          lambda x: (lambda s: [[0 - v for v in s], [v for v in s if bool(v > 3)], [v for v in s if not bool(v > 3)], s, s[:1], s[::-1], next((v for v in s if bool(v > 3)), None), s])(srt(x)), bounds='arrays of %d' % n, time=100, paths=20000, thorough=n > 3)
        a('sort is by the block only %d' % n, dict(x=A(n, wide)), '| c | c := (x collect: [:e | {e \\\\ 3. e}]) asSortedCollection: [:p :q | (p at: 1) <= (q at: 1)]. {c asArray collect: [:p | p at: 1]. (c inject: 0 into: [:p :q | p + (q at: 2)])}', lambda x: [srt([fmod(v, 3) for v in x]), sum(x)], bounds='arrays of %d' % n, time=100, paths=20000)
    for n in range(0, 5):
        a('search under a partial order %d' % n, dict(x=A(n, wide), v=wide, i=F(1, n + 1)), '| c | c := x asSortedCollection: [:p :q | p // 4 <= (q // 4)]. {(c asArray collect: [:p | p // 4]). c asBag size. c asArray asSortedCollection asArray. (c includes: v). (c occurrencesOf: v). (c indexOf: v) = (c asArray indexOf: v). (c indexOf: v startingAt: i ifAbsent: [0]) = (c asArray indexOf: v startingAt: i ifAbsent: [0])}'.replace('c asBag size. ', ''),
          lambda x, v, i: [srt([fdiv(e, 4) for e in x]), srt(x), Or(*[e == v for e in x]) if x else False, sum(If(e == v, 1, 0) for e in x) if x else 0, True, True], bounds='arrays of %d' % n, time=100, paths=20000, thorough=n > 3)
    std(ctx, L)
