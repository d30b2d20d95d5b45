"""P13 streams on collections"""
from stsym.spec import *
from props.P10 import find, eq
from props.P11 import lines, plain

class R(list):
    "stream state: [contents, position]"
def con(v, lo, hi):
    "make v concrete in lo..hi (v is known to lie there)"
    for k in range(lo, hi):
        if bool(v == k): return k
    return hi
def sread(x): return lambda: [list(x), 0]
def nxt(s, v, w):
    if s[1] >= len(s[0]): return None
    s[1] += 1; return s[0][s[1] - 1]
def peek(s, v, w): return s[0][s[1]] if s[1] < len(s[0]) else None
def peekfor(s, v, w):
    if s[1] < len(s[0]) and bool(s[0][s[1]] == v): s[1] += 1; return True
    return False
def skip(s, v, w):
    t = s[1] + v
    s[1] = 0 if bool(t < 0) else len(s[0]) if bool(t > len(s[0])) else con(t, 0, len(s[0])); return None
def setpos(s, v, w):
    if bool(v < 0) or bool(v > len(s[0])): raise Fail
    s[1] = con(v, 0, len(s[0])); return None
def upto(s, v, w):
    out = []
    while s[1] < len(s[0]):
        e = s[0][s[1]]; s[1] += 1
        if bool(e == v): break
        out.append(e)
    return out
def skipto(s, v, w):
    while s[1] < len(s[0]):
        s[1] += 1
        if bool(s[0][s[1] - 1] == v): return True
    return False
def nextn(s, v, w):
    if bool(v < 0) or bool(v > len(s[0]) - s[1]): raise Fail
    k = con(v, 0, len(s[0]) - s[1]); s[1] += k; return s[0][s[1] - k:s[1]]
def avail(s, v, w):
    k = min(2, len(s[0]) - s[1]); s[1] += k; return s[0][s[1] - k:s[1]]
def toend(s, v, w): r = s[0][s[1]:]; s[1] = len(s[0]); return r
def st(f): return lambda s, v, w: f(s)
def reset(s, v, w): s[1] = 0
def setend(s, v, w): s[1] = len(s[0])
def put(s, *vs):
    for e in vs: s[0][s[1]:s[1] + 1] = [e]; s[1] += 1
    return vs[-1]
def trunc(s, v, w): del s[0][s[1]:]
def split(x, v):
    "parts ended by v; the last one needs no terminator"
    out, cur, any_ = [], [], False
    for e in x:
        any_ = True
        if bool(e == v): out.append(cur); cur = []; any_ = False
        else: cur.append(e)
    return out + [cur] if any_ else out

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **dict(dict(time=100, paths=20000), **k)))
    k = 3 if ctx.thorough else 2
    V = I(-3, 7)
    rd = [('c next', nxt), ('c peek', peek), ('c peekFor: v', peekfor), ('[c skip: v. nil] value', skip), ('[c position: v. nil] value', setpos), ('c upTo: v', upto), ('c skipTo: v', skipto), ('c next: 2', lambda s, v, w: nextn(s, 2, w) if len(s[0]) - s[1] >= 2 else part(s)),
          ('c nextAvailable: 2', avail), ('c upToEnd', toend), ('c position', st(lambda s: s[1])), ('c atEnd', st(lambda s: s[1] >= len(s[0]))), ('[c reset. nil] value', reset), ('[c setToEnd. nil] value', setend), ('c size', st(lambda s: len(s[0])))]
    def part(s): s[1] = len(s[0]); raise Fail
    fin, fn = 'c position. c size. c contents. c atEnd. c isEmpty. c reverseContents. c readStream upToEnd. c upToEnd. c next', lambda s: [s[1], len(s[0]), s[0], s[1] >= len(s[0]), not s[0], s[0][::-1], s[0], s[0][s[1]:], None]
    rwf, rwfn = 'c position. c size. c contents. c atEnd. c isEmpty. c upToEnd. c next', lambda s: [s[1], len(s[0]), s[0], s[1] >= len(s[0]), not s[0], s[0][s[1]:], None]
    for nm, setup, x in (('ReadStream', '#(1 2 1 3) readStream', [1, 2, 1, 3]), ('ReadStream on a prefix', 'ReadStream on: #(1 2 5 1 6) from: 1 to: 3', [1, 2, 5]), ('ReadStream on a middle part', 'ReadStream on: #(4 1 2 3 4) from: 2 to: 4', [1, 2, 3]), ('empty ReadStream', '#() readStream', []),
                         ('ReadStream on an Interval', '(2 to: 4) readStream', [2, 3, 4]), ('ReadStream on an OrderedCollection', '(OrderedCollection new: 1) addFirst: 2; addFirst: 1; addLast: 3; readStream' if False else '((OrderedCollection new: 1) addFirst: 2; addFirst: 1; addLast: 3; yourself) readStream', [1, 2, 3]),
                         ('ReadWriteStream on a prefix', 'ReadWriteStream on: #(1 2 3 1 2) copy from: 1 to: 3', [1, 2, 3]), ('ReadWriteStream', 'ReadWriteStream on: #(1 2 1) copy', [1, 2, 1])):
        f2, g2 = (fin, fn) if 'Ordered' not in nm and 'Interval' not in nm else ('c position. c size. c atEnd. c isEmpty. c upToEnd asArray. c next', lambda s: [s[1], len(s[0]), s[1] >= len(s[0]), not s[0], s[0][s[1]:], None])
        if nm.startswith('ReadWrite'): f2, g2 = rwf, rwfn
        if 'Ordered' in nm: f2 = 'c position. c size. c atEnd. c isEmpty. ((1 to: c size - c position) collect: [:i | c next]). c next'
        r2 = rd if f2 in (fin, rwf) else [p for p in rd if 'upTo' not in p[0] and 'next:' not in p[0] and 'Available' not in p[0]]
        L += hist(nm, setup, r2, k + (nm == 'ReadStream' and ctx.thorough and 0), sread(x), f2, g2, vals=V)
    wr = [('c nextPut: v', lambda s, v, w: put(s, v)), ('[c nextPutAll: {v. w}. nil] value', lambda s, v, w: (put(s, v, w), None)[1]), ('[c next: 3 put: v. nil] value', lambda s, v, w: (put(s, v, v, v), None)[1]), ('[c next: 2 putAll: {7. v. w} startingAt: 2. nil] value', lambda s, v, w: (put(s, v, w), None)[1]),
          ('[c skip: v. nil] value', skip), ('[c position: v. nil] value', setpos), ('[c reset. nil] value', reset), ('[c setToEnd. nil] value', setend), ('[c truncate. nil] value', trunc), ('c position', st(lambda s: s[1])), ('c size', st(lambda s: len(s[0])))]
    put0 = put
    wf, wfn = 'c position. c size. c contents. c reverseContents. c readStream upToEnd', lambda s: [s[1], len(s[0]), s[0][:s[1]], s[0][:s[1]][::-1], s[0][:s[1]]]
    fixput = [(e, (lambda f: lambda s, v, w: (f(s, v, w), None)[1] if e_nil else f(s, v, w))(f)) for e, f in wr for e_nil in [e.endswith('nil')]]
    wr = [(e, (lambda f: lambda s, v, w: (f(s, v, w), None)[1])(f) if e.endswith('. nil] value') else f) for e, f in wr]
    rd = [(e, (lambda f: lambda s, v, w: (f(s, v, w), None)[1])(f) if e.endswith('. nil] value') else f) for e, f in rd]
    for nm, setup, x, p in (('WriteStream on an empty array', 'WriteStream on: (Array new: 0)', [], 0), ('WriteStream on an array', 'WriteStream on: (Array new: 2)', [], 0), ('WriteStream with contents', 'WriteStream with: #(1 2) copy', [1, 2], 2), ('ReadWriteStream with contents', 'ReadWriteStream with: #(1 2) copy', [1, 2], 2)):
        f, g = (wf, wfn) if not nm.startswith('Read') else (rwf, rwfn)
        L += hist(nm, setup, wr, k + (1 if ctx.thorough else 1), lambda x=x, p=p: [list(x), p], f, g, vals=I(-2, 6))
    L += hist('ReadWriteStream reading and writing', 'ReadWriteStream on: (Array new: 0)', wr[:3] + [wr[8]] + rd[:6] + [rd[9], rd[12]], k + 1, lambda: [[], 0], rwf, rwfn, vals=I(-2, 6), **(dict() if ctx.thorough else {}))
    # byte elements: a rejected store changes nothing
    def bput(s, v, w):
        if bool(v < 0) or bool(v > 255): raise Fail
        return put(s, v)
    L += hist('WriteStream on bytes', 'WriteStream on: (ByteArray new: 1)', [('c nextPut: v', bput), ('[c nextPutAll: #(1 2 3). nil] value', lambda s, v, w: (put(s, 1, 2, 3), None)[1]), ('[c skip: -1. nil] value', lambda s, v, w: skip(s, -1, w))], k + 1, lambda: [[], 0], 'c position. c size. c contents asArray', lambda s: [s[1], len(s[0]), s[0][:s[1]]], vals=I(-1000, 1000))
    # searching for a sequence
    N = 8 if ctx.thorough else 6
    for n in range(0, N + 1):
        for m in range(1, min(n, 4 if ctx.thorough else 3) + 2):
            def up(s, p):
                i = find(s.c, p.c, 1)
                return [Str(s.c[:i - 1] if i else s.c), Str(s.c[i - 1 + len(p.c):] if i else []), True if i else False, Str(s.c[i - 1 + len(p.c):] if i else []), True if i else False]
            a('upToAll: skipToAll: %d %d' % (n, m), dict(s=S(n, alpha='ab'), p=S(m, alpha='ab')), '| r q | r := s readStream. q := s readStream. {r upToAll: p. r upToEnd. q skipToAll: p. q upToEnd. s readStream skipToAll: p}', up, bounds='every string of length %d and pattern of length %d over a b' % (n, m), thorough=n > 6)
        if n > 5 and not ctx.thorough: continue
        a('splitAt: %d' % n, dict(s=S(n, alpha='a,b')), '{(s readStream splitAt: $,) asArray. (s readStream upTo: $,). s readStream lines upToEnd size}', lambda s: [plain(split(s.c, 44)), Str((split(s.c, 44) + [[]])[0]), 1 if s.c else 0], bounds='every string of length %d over a b ,' % n)
        a('nextLine %d' % n, dict(s=S(n, alpha='a\n\rb')), '| r o | r := s readStream. o := OrderedCollection new. [r atEnd] whileFalse: [o add: r nextLine]. {o asArray. r position}', lambda s: [plain(lines(s.c)), len(s.c)], bounds='every string of length %d over a b CR LF' % n)
        a('prefixes %d' % n, dict(s=S(n, 97, 122), i=F(0, n), j=F(0, n)), '| r | r := ReadStream on: s from: 1 to: j. {r next: (i min: j). r position. r upToEnd. r atEnd. r contents. (r position: 0; skip: i; position). (s readStream skip: i; yourself) readStream upToEnd. (i < j ifTrue: [s readStream copyFrom: i to: j - 1] ifFalse: [0])}',
          lambda s, i, j: (lambda q: [Str(s.c[:q]), q, Str(s.c[q:j]), True, Str(s.c[:j]), q, s, Str(s.c[i:j]) if i < j else 0])(min(i, j)), bounds='every string of length %d, every cut' % n)
        a('stream operations %d' % n, dict(x=A(n, I(-5, 5)), y=A(2, I(-5, 5)), v=I(-5, 5)), '| r f g | r := x readStream. f := x readStream select: [:e | e > 0]. g := x readStream collect: [:e | e * 2]. {(x readStream select: [:e | e > 0]) upToEnd. (x readStream reject: [:e | e > 0]) upToEnd. (x readStream collect: [:e | e * 2]) upToEnd. (x readStream , y readStream) upToEnd. (x readStream with: y readStream) upToEnd. (x readStream inject: 0 into: [:p :q | p + q]). (x readStream detect: [:e | e > 2] ifNone: [nil]). f peek. f peekFor: v. f upToEnd. g peekFor: v. g upToEnd. (x readStream , y readStream , y readStream) size}' if False else
          '| f g h | f := x readStream select: [:e | e > 0]. g := x readStream collect: [:e | e * 2]. h := x readStream , y readStream. {(x readStream select: [:e | e > 0]) upToEnd. (x readStream reject: [:e | e > 0]) upToEnd. (x readStream collect: [:e | e * 2]) upToEnd. (x readStream , y readStream) upToEnd. (x readStream with: y readStream) upToEnd. (x readStream inject: 0 into: [:p :q | p + q]). (x readStream detect: [:e | e > 2] ifNone: [nil]). f peek. f peekFor: v. f upToEnd. g peek. g peekFor: v. g upToEnd. h peekFor: v. h next. h upToEnd. h atEnd}',
          lambda x, y, v: (lambda pos, dbl, cat: [pos, [e for e in x if not bool(e > 0)], dbl, cat, [list(p) for p in zip(x, y)], sum(x), next((e for e in x if bool(e > 2)), None),
             pos[0] if pos else None, bool(pos and bool(pos[0] == v)), pos[1:] if pos and bool(pos[0] == v) else pos, dbl[0] if dbl else None, bool(dbl and bool(dbl[0] == v)), dbl[1:] if dbl and bool(dbl[0] == v) else dbl,
             bool(bool(cat[0] == v)), cat[1] if bool(cat[0] == v) else cat[0], cat[2:] if bool(cat[0] == v) else cat[1:], True])([e for e in x if bool(e > 0)], [e * 2 for e in x], x + y), bounds='every content of %d and 2 integers in -5..5' % n) if n < (6 if ctx.thorough else 4) else None
    a('printing on a stream', dict(i=I(-99, 99), n=F(0, 4), s=S(2, alpha="a'")), "| w | w := WriteStream on: String new. w print: i; nextPutAll: s; print: s; display: s; store: i; space; tab; nl; space: n; tab: n; << s; << i; nextPut: $z; next: n put: $y; display: i. w contents",
      lambda i, n, s: (lambda num, q: Str(num + s.c + q + s.c + num + [32, 9, 10] + [32] * n + [9] * n + s.c + num + [122] + [121] * n + num))(numeral(i, 10), [39] + sum(([39, 39] if bool(c == 39) else [c] for c in s.c), []) + [39]), bounds='every i in -99..99, n up to 4')
    std(ctx, L)
