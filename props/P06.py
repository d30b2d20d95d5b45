"""P06 OrderedCollection behaves as a list under every history"""
from stsym.spec import *

def add(s, v, w): s.append(v); return v
def addf(s, v, w): s.insert(0, v); return v
def rf(s, v, w):
    if not s: raise Fail
    return s.pop(0)
def rl(s, v, w):
    if not s: raise Fail
    return s.pop()
def at(s, v, w):
    if bool(And(v >= 1, v <= len(s))): return s[idx(v, len(s))]
    raise Fail
def idx(v, n):
    for i in range(n):
        if bool(v == i + 1): return i
def atput(s, v, w):
    if bool(And(v >= 1, v <= len(s))): s[idx(v, len(s))] = w; return w
    raise Fail
def rmi(s, v, w):
    if bool(And(v >= 1, v <= len(s))): return s.pop(idx(v, len(s)))
    raise Fail
def addi(s, v, w):
    if bool(And(v >= 1, v <= len(s) + 1)): s.insert(idx(v, len(s) + 1), w); return w
    raise Fail
def addai(s, v, w):
    if bool(And(v >= 0, v <= len(s))): s.insert(idx(v + 1, len(s) + 1), w); return w
    raise Fail
def rem(s, v, w):
    for i, x in enumerate(s):
        if bool(x == v): s.pop(i); return v
    raise Fail
def remd(s, v, w):
    for i, x in enumerate(s):
        if bool(x == v): return s.pop(i)
    return None
def addall(s, v, w): s += [v, w, v]; return [v, w, v]
def addallf(s, v, w): s[0:0] = [v, w, v]; return [v, w, v]
def addalli(s, v, w):
    if bool(And(v >= 1, v <= len(s) + 1)):
        i = idx(v, len(s) + 1); s[i:i] = [w, v]; return [w, v]
    raise Fail
def rfn(s, v, w):
    if bool(v < 0) or bool(v > len(s)): raise Fail
    n = 0
    while bool(n < v): n += 1
    r = s[:n]; del s[:n]; return r
def rln(s, v, w):
    if bool(v < 0) or bool(v > len(s)): raise Fail
    n = 0
    while bool(n < v): n += 1
    r = s[len(s) - n:]; del s[len(s) - n:]; return r

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    fin, fn = 'c asArray. c size. c isEmpty', lambda s: [list(s), len(s), not s]
    k = 6 if ctx.thorough else 5
    deque = [('c add: v', add), ('c addFirst: v', addf), ('c addLast: v', add), ('c removeFirst', rf), ('c removeLast', rl), ('c addAll: {v. w. v}', addall), ('c addAllFirst: {v. w. v}', addallf)]
    for cap in (0, 1, 3):
        L += hist('ends, capacity %d' % cap, 'OrderedCollection new: %d' % cap, deque, k + (1 if cap < 3 else 0) - (1 if not ctx.thorough else 0), [], fin, fn)
    L += hist('drain, capacity 16', '| d | d' if False else '(OrderedCollection new: 16) addAll: #(1 2 3 4 5 6 7 8 9 10 11 12); yourself', [('c removeFirst', rf), ('c removeLast', rl), ('c addFirst: v', addf)], 8 if ctx.thorough else 7, list(range(1, 13)), fin, fn)
    L += hist('drain 2, capacity 9', '(OrderedCollection new: 9) addAll: #(1 2 3 4); yourself', [('c removeFirst; removeFirst', lambda s, v, w: (rf(s, v, w), rf(s, v, w))[1] if len(s) > 1 else part(s)), ('c removeLast', rl), ('c addFirst: v; addFirst: w', lambda s, v, w: (addf(s, v, w), addf(s, w, v))[1]), ('c addLast: v', add)], 5, [1, 2, 3, 4], fin, fn)
    pos = [('c at: v', at), ('c at: v put: w', atput), ('c add: w beforeIndex: v', addi), ('c add: w afterIndex: v', addai), ('c removeAtIndex: v', rmi), ('c addAll: {w. v} beforeIndex: v', addalli)]
    for init in ([], [1, 2], [5, 6, 7, 8]):
        L += hist('positions from %r' % (init,), '(OrderedCollection new: 2) addAll: #(%s); yourself' % ' '.join(map(str, init)), pos, (4 if ctx.thorough else 3) if len(init) < 3 else (3 if ctx.thorough else 2), init, fin, fn, wvals=I(-1000, 1000))
    val = [('c add: v', add), ('c remove: v', rem), ('c remove: v ifAbsent: [nil]', remd), ('c addFirst: v', addf), ('c indexOf: v', lambda s, v, w: firsti(s, v)), ('c includes: v', lambda s, v, w: Or(*[x == v for x in s]) if s else False), ('c occurrencesOf: v', lambda s, v, w: sum(If(x == v, 1, 0) for x in s) if s else 0), ('(c removeAll: {v}; yourself) size', lambda s, v, w: (rem(s, v, w), len(s))[1])]
    L += hist('values from (1 2 1)', '(OrderedCollection new: 2) addAll: #(1 2 1); yourself', val, 4 if ctx.thorough else 3, [1, 2, 1], fin, fn)
    if 0: L += hist('bulk removal', '(OrderedCollection new: 2) addAll: #(1 2 3 4 5); yourself', [('(c removeFirst: v) asArray', rfn), ('(c removeLast: v) asArray', rln), ('c addFirst: v', addf)], 3, [1, 2, 3, 4, 5], fin, fn)
    for n in range(0, 6):
        bd = 'every content of %d integers' % n
        a('enumeration %d' % n, dict(x=A(n, I(-100, 100))), '| c d | c := OrderedCollection new: 1. x do: [:e | c addFirst: e]. d := WriteStream on: Array new. c reverseDo: [:e | d nextPut: e]. c keysAndValuesDo: [:i :e | d nextPut: i; nextPut: e]. {d contents. (c collect: [:e | e + 1]) asArray. (c select: [:e | e > 0]) asArray. (c detect: [:e | e > 0] ifNone: [nil]). c inject: 0 into: [:p :q | p + q]. (c copyFrom: 1 to: n) asArray. c reverse asArray. (c , #(7)) asArray. c copy asArray. c copy = c. c first: n}'.replace('c first: n', '(c first: 0) asArray').replace(' to: n)', ' to: %d)' % n) if n else
          '| c | c := OrderedCollection new. {c collect: [:e | e]. (c copyFrom: 1 to: 0) asArray. c reverse asArray. c first}' if False else
          '| c d | c := OrderedCollection new: 1. x do: [:e | c addFirst: e]. d := WriteStream on: Array new. c reverseDo: [:e | d nextPut: e]. {d contents. c reverse asArray. (c , #(7)) asArray. c copy = c. c isEmpty}',
          (lambda x: (lambda e: [x + [y for i, v in enumerate(e) for y in (i + 1, v)], [v + 1 for v in e], [v for v in e if bool(v > 0)], next((v for v in e if bool(v > 0)), None), sum(e), e, x, e + [7], e, True, []])(x[::-1])) if n else
          (lambda x: [[], [], [7], True, True]), bounds=bd, time=60)
    std(ctx, L)

def part(s):
    if s: s.pop(0)
    raise Fail
def firsti(s, v):
    r = 0
    for i in range(len(s) - 1, -1, -1): r = If(s[i] == v, i + 1, r)
    return r
