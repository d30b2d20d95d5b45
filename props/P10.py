"""P10 sequenceable collections: copying, replacing, searching, enumerating"""
from stsym.spec import *
from props.P06 import firsti

KINDS = [('Array', 'x copy'), ('OrderedCollection', 'x asOrderedCollection'), ('OrderedCollection moved', '(OrderedCollection new: 3) add: 7; add: 7; addAll: x; removeFirst; removeFirst; yourself'), ('ByteArray', 'x asByteArray')]
def lasti(s, v, k=0):
    r = 0
    for i, e in enumerate(s): r = If(e == v, i + 1, r)
    return r
def eq(a, b): return len(a) == len(b) and bool(And(*[p == q for p, q in zip(a, b)])) if a else len(b) == 0
def find(s, t, i):
    "index of the first occurrence of t in s at or after i, 0 if none"
    if not t: return i
    for k in range(i, len(s) - len(t) + 2):
        if eq(s[k - 1:k - 1 + len(t)], t): return k
    return 0
def err(f):
    def g(*a, **k):
        try: return f(*a, **k)
        except Fail: return Sym('err')
    return g
def sl(s, a, b):
    "elements a to b (one-based); Fail unless they all exist"
    if b < a:
        if b == a - 1: return []
        raise Fail
    if a < 1 or b > len(s): raise Fail
    return s[a - 1:b]
def idx(f, *n):
    "force positions to be concrete"
    return f

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **k))
    N = 6 if ctx.thorough else 5
    e = I(0, 255)
    for kn, mk in KINDS:
        C = '| c r d | c := %s. ' % mk
        for n in range(0, N + 1):
            bd = '%s of %d elements in 0..255' % (kn, n); x = A(n, e)
            q = dict(bounds=bd, time=60, paths=20000)
            i, j = F(-1, n + 2), F(-1, n + 2)
            tr = '([%s] on: Error do: [:er | er return: #err])'
            a('%s %d copyFrom:to:' % (kn, n), dict(x=x, i=i, j=j), C + 'r := ' + tr % '(c copyFrom: i to: j)' + '. {r == #err ifTrue: [#err] ifFalse: [r asArray]. r == #err or: [r class == c class]. c asArray}',
              lambda x, i, j: [err(lambda: sl(x, i, j))(), True, x], thorough=n > 4, **q)
            a('%s %d parts' % (kn, n), dict(x=x, i=F(0, n)), C + '{(c copyFrom: i + 1) asArray. (c first: i) asArray. (c last: i) asArray. (c allButFirst: i) asArray. (c allButLast: i) asArray. c reverse asArray. c reverse class == c class. c asArray}',
              lambda x, i: [x[i:], x[:i], x[len(x) - i:], x[i:], x[:len(x) - i], x[::-1], True, x], **q)
            a('%s %d searching' % (kn, n), dict(x=x, v=e, i=F(1, n + 1)), C + '{c indexOf: v. c indexOf: v ifAbsent: [77]. c indexOf: v startingAt: i ifAbsent: [0]. c identityIndexOf: v. c indexOfLast: v ifAbsent: [0]. c includes: v. c occurrencesOf: v. c identityIncludes: v. c asArray}',
              lambda x, v, i: [firsti(x, v), (lambda f: If(f == 0, 77, f) if not isinstance(f, int) else (f or 77))(firsti(x, v)), (lambda f: If(f == 0, 0, f + i - 1) if not isinstance(f, int) else (f and f + i - 1))(firsti(x[i - 1:], v)), firsti(x, v), lasti(x, v), Or(*[w == v for w in x]) if x else False, sum(If(w == v, 1, 0) for w in x) if x else 0, Or(*[w == v for w in x]) if x else False, x], **q)
            def cut(x, v):
                f = next((k for k, w in enumerate(x) if bool(w == v)), None); l = next((k for k in range(len(x) - 1, -1, -1) if bool(x[k] == v)), None)
                n = len(x)
                return [x[f + 1:] if f is not None else [], x[:f] if f is not None else x, x[l + 1:] if l is not None else [], x[:l] if l is not None else x, [w for w in x if not bool(w == v)], x + [v], [v] + x, x]
            a('%s %d copies at an element' % (kn, n), dict(x=x, v=e), C + '{(c copyAfter: v) asArray. (c copyUpTo: v) asArray. (c copyAfterLast: v) asArray. (c copyUpToLast: v) asArray. (c copyWithout: v) asArray. (c copyWith: v) asArray. (c copyWithFirst: v) asArray. c asArray}', cut, **q)
            a('%s %d enumeration' % (kn, n), dict(x=x), C + '''d := OrderedCollection new.
c do: [:p | d add: p]. c doWithIndex: [:p :k | d add: p; add: k]. c keysAndValuesDo: [:k :p | d add: p; add: k]. c reverseDo: [:p | d add: p].
c do: [:p | d add: p] separatedBy: [d add: -1]. c with: c reverse do: [:p :s | d add: p; add: s]. 1 to: c size do: [:k | d add: (c at: k)]. c from: 1 to: c size do: [:p | d add: p]. c keys do: [:k | d add: k].
{d asArray. (c inject: 0 into: [:p :s | p * 2 + s]). c size. c isEmpty. c notEmpty. (c collect: [:p | 255 - p]) asArray. (c asArray with: c asArray reverse collect: [:p :s | p - s])}''',
              lambda x: [x + [z for k, v in enumerate(x) for z in (v, k + 1)] * 2 + x[::-1] + sum(([v] if k == 0 else [-1, v] for k, v in enumerate(x)), []) + [z for p in zip(x, x[::-1]) for z in p] + x + x + list(range(1, len(x) + 1)),
                         (lambda t: t)(__import__('functools').reduce(lambda p, s: p * 2 + s, x, 0)), len(x), not x, bool(x), [255 - v for v in x], [p - s for p, s in zip(x, x[::-1])]], **q)
            a('%s %d predicates' % (kn, n), dict(x=x, v=e), C + '{(c select: [:p | p > v]) asArray. (c reject: [:p | p > v]) asArray. (c detect: [:p | p > v] ifNone: [nil]). (c count: [:p | p > v]). (c anySatisfy: [:p | p > v]). (c allSatisfy: [:p | p > v]). (c noneSatisfy: [:p | p > v]). (c findFirst: [:p | p > v]). (c findLast: [:p | p > v]). (c select: [:p | p > v]) class == c class. c asArray}',
              lambda x, v: (lambda s: [[w for w in x if bool(w > v)], [w for w in x if not bool(w > v)], next((w for w in x if bool(w > v)), None), len(s), bool(s), len(s) == len(x), not s, s[0] if s else 0, s[-1] if s else 0, True, x])([k + 1 for k, w in enumerate(x) if bool(w > v)]), thorough=n > 4, **q)
            a('%s %d replacing a range' % (kn, n), dict(x=x, i=i, j=j, v=e), C + 'r := ' + tr % '(c copyReplaceFrom: i to: j withObject: v)' + '. {r == #err ifTrue: [#err] ifFalse: [r asArray]. c asArray}',
              lambda x, i, j, v: [err(lambda: sl(x, 1, i - 1) + [v] * max(1, j - i + 1) + sl(x, j + 1, len(x)) if j - i >= -1 and i >= 1 and j <= len(x) and i <= len(x) + 1 else (_ for _ in ()).throw(Fail))(), x], thorough=n > 4, **q)
            for m in range(0, 3):
                a('%s %d replacing a range by %d' % (kn, n, m), dict(x=x, i=F(1, n + 1), j=F(-1, n), y=A(m, e)), C + 'r := ' + tr % '(c copyReplaceFrom: i to: j with: y)' + '. {r == #err ifTrue: [#err] ifFalse: [r asArray]. c asArray}',
                  lambda x, i, j, y: [err(lambda: sl(x, 1, i - 1) + y + sl(x, j + 1, len(x)) if j - i >= -1 and i >= 1 and j <= len(x) and i <= len(x) + 1 else (_ for _ in ()).throw(Fail))(), x], thorough=n > 4 or m == 2, **q)
                a('%s %d replaceFrom:to:with:startingAt: from another of %d' % (kn, n, m), dict(x=x, i=F(0, n + 1), j=F(-1, n + 1), y=A(m, e), s=F(0, m + 1)), C + 'r := ' + tr % 'c replaceFrom: i to: j with: y startingAt: s. #ok' + '. {r. r == #err ifTrue: [nil] ifFalse: [c asArray]}',
                  lambda x, i, j, y, s: (lambda r: [Sym('err'), None] if isinstance(r, Sym) else [Sym('ok'), r])(err(lambda: sl(x, 1, i - 1) + sl(y, s, s + j - i) + sl(x, j + 1, len(x)) if i >= 1 and j >= i and j <= len(x) else x if j == i - 1 and 1 <= i <= len(x) + 1 else (_ for _ in ()).throw(Fail))()), thorough=n > 3, pre=lambda x, i, j, y, s: j >= i, **q)
                a('%s %d concatenation with %d' % (kn, n, m), dict(x=x, y=A(m, e)), C + '{(c, y) asArray. (c, y) class == c class. (c startsWith: y). (c endsWith: y). (c indexOfSubCollection: y). ((c, y) startsWith: c). ((c, y) endsWith: y). c = (c class withAll: y). c = c copy.}',
                  lambda x, y: [x + y, True, eq(x[:len(y)], y) if len(y) <= len(x) else False, eq(x[len(x) - len(y):], y) if len(y) <= len(x) else False, find(x, y, 1), True, True, eq(x, y), True], **q)
            a('%s %d replaceFrom:to:with:startingAt: on itself' % (kn, n), dict(x=x, i=F(1, n + 1), j=F(0, n), s=F(1, n + 1)), C + 'c replaceFrom: i to: j with: c startingAt: s. c asArray',
              lambda x, i, j, s: x[:i - 1] + x[s - 1:s + j - i] + x[j:], pre=lambda x, i, j, s: And(j >= i - 1, s + j - i <= len(x)), **q)
            a('%s %d swap:with: and at:put:' % (kn, n), dict(x=x, i=F(1, max(n, 1)), j=F(1, max(n, 1)), v=e), C + 'c swap: i with: j. r := c asArray. c at: i put: v. {r. c asArray}',
              lambda x, i, j, v: (lambda s: [s, s[:i - 1] + [v] + s[i:]])([x[j - 1] if k == i - 1 else x[i - 1] if k == j - 1 else w for k, w in enumerate(x)]), pre=lambda x, i, j, v: len(x) > 0, **q) if n else None
            a('%s %d replaceAll:with:' % (kn, n), dict(x=x, v=e, w=e), C + '{(c copyReplacing: v withObject: w) asArray. [c replaceAll: v with: w. c asArray] value}', lambda x, v, w: [[If(k == v, w, k) for k in x]] * 2, **q)
            a('%s %d accesses' % (kn, n), dict(x=x, i=F(-2, n + 2), v=e), C + '{%s. c at: i ifAbsent: [-5]. %s. c asArray. %s. c asArray}' % (tr % 'c at: i', tr % 'c copy at: i put: v', tr % 'c at: i put: v'),
              lambda x, i, v: (lambda ok: [x[i - 1] if ok else Sym('err')] + [x[i - 1] if ok else -5, v if ok else Sym('err'), x, v if ok else Sym('err'), x[:i - 1] + [v] + x[i:] if ok else x])(1 <= i <= len(x)), **q)
            a('%s %d atAllPut:' % (kn, n), dict(x=x, v=e), C + 'c atAllPut: v. {c asArray. (c atAll: (1 to: c size)) asArray}', lambda x, v: [[v] * len(x)] * 2, **q)
            a('%s %d fold:' % (kn, n), dict(x=x), C + '{%s. %s}' % (tr % '(c fold: [:p :s | p - s])', tr % 'c anyOne. 0'),
              lambda x: [__import__('functools').reduce(lambda p, s: p - s, x), 0], pre=lambda x: len(x) > 0, **q) if n else None
        for n in (1, 2, 3):
            a('%s %d equal collections hash alike' % (kn, n), dict(x=AX([PF([0, 1, 200])] * n)), '| c | c := %s. {c hash = c copy hash. c hash = (%s) hash. c = (%s)}' % (mk, mk, mk), lambda x: [True] * 3, bounds='elements among 0, 1, 200')
    al = I(0, 1)
    for n in range(0, 6 if ctx.thorough else 5):
        for o in range(1, 3):
            for m in range(0, 3):
                for kn, mk in KINDS[:2]:
                    def rep(x, o, m):
                        out, i = [], 1; cnt = 0
                        while True:
                            k = find(x, o, i)
                            if not k: return [out + x[i - 1:], cnt]
                            out += x[i - 1:k - 1] + m; i = k + len(o); cnt += 1
                    a('%s %d copyReplaceAll: %d with: %d' % (kn, n, o, m), dict(x=A(n, al), o=A(o, al), m=A(m, I(5, 9))), '| c | c := %s. {(c copyReplaceAll: o with: m) asArray. c countSubCollectionOccurrencesOf: o. c asArray}' % mk, lambda x, o, m: rep(x, o, m) + [x], bounds='sequences over {0,1}', time=60, paths=20000, thorough=m == 1)
    for n in (4, 5, 7, 8, 9, 13, 16, 17, 33):
        a('atAllPut: %d' % n, dict(v=e), '| c | c := (1 to: %d) asArray. c atAllPut: v. {c asArray. ((ByteArray new: %d) atAllPut: v; yourself) asArray}' % (n, n), lambda v, n=n: [[v] * n] * 2, bounds='')
    std(ctx, L)
    from props import P19
    from csym import prep
    import vplib
    vplib.run_units(ctx, [P19.unit(prep.Scratch(), False, ('replace', 'equal', 'copy'))])
