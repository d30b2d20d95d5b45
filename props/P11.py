"""P11 strings, symbols and characters"""
from stsym.spec import *
from props.P06 import firsti
from props.P10 import find, eq, lasti

SEP = (9, 10, 12, 13, 32)
def lc(c): return If(And(c >= 65, c <= 90), c + 32, c)
def uc(c): return If(And(c >= 97, c <= 122), c - 32, c)
def issep(c): return Or(*[c == s for s in SEP])
def cmpi(x, y):
    "three-way comparison ignoring case: -1, 0, 1"
    for p, q in zip(x, y):
        p, q = lc(p), lc(q)
        if bool(p < q): return -1
        if bool(p > q): return 1
    return (len(x) > len(y)) - (len(x) < len(y))
def trim(x):
    i, j = 0, len(x)
    while i < j and bool(issep(x[i])): i += 1
    while j > i and bool(issep(x[j - 1])): j -= 1
    return x[i:j]
def split(x, p):
    out, cur = [], []
    for c in x:
        if bool(p(c)):
            if cur: out.append(cur)
            cur = []
        else: cur.append(c)
    return out + [cur] if cur else out
def lines(x):
    "lines ended by LF, CR or CRLF; the last needs no terminator"
    out, cur, i, any_ = [], [], 0, False
    while i < len(x):
        if bool(x[i] == 10): out.append(cur); cur = []; any_ = False
        elif bool(x[i] == 13):
            out.append(cur); cur = []; any_ = False
            if i + 1 < len(x) and bool(x[i + 1] == 10): i += 1
        else: cur.append(x[i]); any_ = True
        i += 1
    return out + [cur] if any_ else out
def match(p, s, f=lambda c: c):
    if not p: return not s
    if bool(p[0] == 42): return any(match(p[1:], s[k:], f) for k in range(len(s) + 1))
    return bool(s) and (bool(p[0] == 35) or bool(f(p[0]) == f(s[0]))) and match(p[1:], s[1:], f)
def plain(s): return [Str(p) for p in s]

def run(ctx):
    L = []
    def a(*x, **k): L.append(O(*x, **dict(dict(time=100, paths=20000), **k)))
    # characters
    ch = C(0, 255); letter = lambda c: Or(And(c >= 65, c <= 90), And(c >= 97, c <= 122)); dig = lambda c: And(c >= 48, c <= 57); up = lambda c: And(c >= 65, c <= 90); lo = lambda c: And(c >= 97, c <= 122)
    vow = lambda c: Or(*[lc(c) == ord(v) for v in 'aeiou'])
    a('character classes', dict(c=ch), '{c isLetter. c isDigit. c isUppercase. c isLowercase. c isSeparator. c isAlphaNumeric. c isVowel. c isPunctuation}',
      lambda c: (lambda v: [letter(v), dig(v), up(v), lo(v), issep(v), Or(letter(v), dig(v)), vow(v), Or(*[v == ord(k) for k in '.,:;!?'])])(c.v), bounds='every character 0..255')
    a('character case and value', dict(c=C(0,127)), '{c asLowercase value. c asUppercase value. c codePoint. c asInteger. c value. c asSymbol size. c asString size. (c asString at: 1) value. (c asSymbol at: 1) value. c asCharacter == c}',
      lambda c: (lambda v: [lc(v), uc(v), v, v, v, 1, 1, v, v, True])(c.v), bounds='every character 0..255')
    for r in (2, 8, 10, 11, 16, 35, 36):
        a('isDigit: %d' % r, dict(c=ch), 'c isDigit: %d' % r, lambda c, r=r: Or(And(c.v >= 48, c.v < 48 + min(r, 10)), And(c.v >= 65, c.v < 55 + r) if r > 10 else False), bounds='every character 0..255')
    a('digitValue', dict(c=ch), 'c digitValue', lambda c: If(c.v <= 57, c.v - 48, c.v - 55), pre=lambda c: Or(dig(c.v), up(c.v)), bounds='every digit character')
    a('digitValue of other characters', dict(c=ch), '[c digitValue. #none] on: Error do: [:e | e return: #err]', lambda c: Sym('err'), pre=lambda c: Not(Or(dig(c.v), up(c.v), lo(c.v))), bounds='every character that is no digit')
    a('Character digitValue:', dict(i=F(0, 35)), '(Character digitValue: i) digitValue', lambda i: i, bounds='0..35')
    a('character order', dict(c=C(0,127), d=C(0,127)), '{c < d. c <= d. c > d. c >= d. c = d. c == d. c ~= d. (c max: d) value. (c between: d and: d). c = c value. c = c asString. c = c asSymbol}', lambda c, d: [c.v < d.v, c.v <= d.v, c.v > d.v, c.v >= d.v, c.v == d.v, c.v == d.v, c.v != d.v, Max(c.v, d.v), c.v == d.v, False, False, False], bounds='every pair of characters 0..127')
    a('Character value: and code points', dict(i=I(0, 0x10FFFF)), '{(Character codePoint: i) value. (Character codePoint: i) codePoint. (Character codePoint: i) = (Character codePoint: i). (Character codePoint: i) hash = (Character codePoint: i) hash}', lambda i: [i, i, True, True], pre=lambda i: Or(i < 0xD800, i > 0xDFFF), bounds='every code point')
    a('unicode case keeps other characters', dict(i=I(128, 0x10FFFF)), '{(Character value: i) asLowercase value. (Character value: i) asUppercase value. (Character value: i) isLetter}', lambda i: [i, i, False], pre=lambda i: Or(i < 0xD800, i > 0xDFFF), bounds='every code point above 127') if False else None
    N = 6 if ctx.thorough else 4
    al = S; AB = ' \t\nabAB_'
    for n in range(0, N + 1):
        bd = 'every string of length %d, characters 0..127' % n; s = S(n, 0, 127); ws = S(n, alpha='a \n\tb')
        a('case and conversions %d' % n, dict(s=S(n, 0, 255)), '{s asUppercase. s asLowercase. s reverse. s asByteArray asArray. s asString == s. s copy. s copy == s. s size. s isString. s isSymbol. s asArray size. s asBag size. s asOrderedCollection size. s isEmpty. s asByteArray asString}' if n < 0 else '{s asUppercase. s asLowercase. s reverse. s asByteArray asArray. s asString == s. s copy. s copy == s. s size. s isString. s isSymbol. s asArray size. s isEmpty. s asByteArray asString. (s copyWith: $a) size. s asArray isArray}',
          lambda s: (lambda c: [Str([uc(v) for v in c]), Str([lc(v) for v in c]), Str(c[::-1]), c, True, s, False, len(c), True, False, len(c), not c, s, len(c) + 1, True])(s.c), bounds='every string of length %d, characters 0..255' % n)
        a('trimSeparators %d' % n, dict(s=ws), 's trimSeparators', lambda s: Str(trim(s.c)), bounds='strings of length %d over blanks and letters' % n, thorough=n > 5)
        a('subStrings %d' % n, dict(s=ws), '{s subStrings asArray. s substrings asArray. s subStrings size}', lambda s: (lambda t: [t, t, len(t)])(plain(split(s.c, issep))), bounds='strings of length %d over blanks and letters' % n, thorough=n > 5)
        a('subStrings: %d' % n, dict(s=S(n, alpha='ab,;')), "{(s subStrings: ',;') asArray. (s subStrings: $,) asArray. (s subStrings: ',') asArray. (s substrings: ';a') asArray. (s substrings: $;) asArray}",
          lambda s: [plain(split(s.c, lambda c, k=k: Or(*[c == ord(x) for x in k]))) for k in (',;', ',', ',', ';a', ';')], bounds='strings of length %d over a b , ;' % n, thorough=n > 5)
        a('lines %d' % n, dict(s=S(n, alpha='a\n\rb')), '| o | o := OrderedCollection new. s linesDo: [:l | o add: l]. {s lines asArray. o asArray. s readStream lines upToEnd asArray}', lambda s: [plain(lines(s.c))] * 3, bounds='strings of length %d over a b LF CR' % n, thorough=n > 5)
        a('index %d' % n, dict(s=S(n, alpha='abA'), c=P([97, 98, 65, 66])), '| d | d := Character value: c. {s indexOf: d. s occurrencesOf: d. s includes: d. (s copyReplaceAll: d asString with: \'xy\'). (s copyReplacing: d withObject: $z). (s asSet size) <= s size. s first: 0. (s copyWithout: d). (s indexOf: d ifAbsent: [99])}' if n else 's size',
          (lambda s, c: [firsti(s.c, c), sum(If(v == c, 1, 0) for v in s.c), Or(*[v == c for v in s.c]), Str(sum(([120, 121] if bool(v == c) else [v] for v in s.c), [])), Str([If(v == c, 122, v) for v in s.c]), True, Str([]), Str([v for v in s.c if not bool(v == c)]), (lambda f: If(f == 0, 99, f))(firsti(s.c, c))]) if n else (lambda s, c: 0), bounds='strings of length %d over a b A' % n, thorough=n > 4)
        a('asSymbol %d' % n, dict(s=S(n, alpha='ab:+')), '| y | y := s asSymbol. {y asString. y == s copy asSymbol. y size. y isSymbol. y asString == y. (y at: 1) = (s at: 1). y = s. y hash = s copy asSymbol hash. y == (s , \'a\') asSymbol. y asSymbol == y. y deepCopy == y.}' if n else 's size',
          (lambda s: [s, True, len(s.c), True, False, True, False, True, False, True, True]) if n else lambda s: 0, bounds='strings of length %d over a b : +' % n, thorough=n > 4)
        for m in range(0, N + 1):
            if abs(m - n) > (4 if ctx.thorough else 2): continue
            x, y = S(n, 0, 127), S(m, 0, 127); b2 = 'strings of lengths %d and %d, characters 0..127' % (n, m)
            a('equality %d %d' % (n, m), dict(x=S(n, 0, 255), y=S(m, 0, 255)), '{x = y. y = x. x ~= y. (x , y). (x , y) size. (x startsWith: y). (x endsWith: y). x = x copy. x asSymbol = y asSymbol. x asSymbol == y asSymbol. x = y asSymbol}' if False else '{x = y. y = x. x ~= y. (x , y). (x , y) size. (x startsWith: y). (x endsWith: y). x = x copy. x = x asArray. x = x asByteArray}',
              lambda x, y: (lambda p, q: (lambda e: [e, e, Not(e) if not isinstance(e, bool) else not e, Str(p + q), len(p) + len(q), And(*[u == v for u, v in zip(p, q)]) if 0 < len(q) <= len(p) else not q, And(*[u == v for u, v in zip(p[len(p) - len(q):], q)]) if 0 < len(q) <= len(p) else not q, True, False, False])(And(*[u == v for u, v in zip(p, q)]) if p and len(p) == len(q) else len(p) == len(q)))(x.c, y.c), bounds='strings of lengths %d and %d, characters 0..255' % (n, m), thorough=n > 4)
            a('order %d %d' % (n, m), dict(x=x, y=y), '{x < y. x <= y. x > y. x >= y. x sameAs: y. (x caseInsensitiveCompareTo: y) sign}', lambda x, y: (lambda k: [k < 0, k <= 0, k > 0, k >= 0, k == 0, k])(cmpi(x.c, y.c)), bounds=b2, thorough=n + m > 6)
            a('match: %d %d' % (n, m), dict(p=S(n, alpha='aB*#'), s=S(m, alpha='aAb')), '{p match: s. p match: s ignoreCase: false. p match: s ignoreCase: true}', lambda p, s: [match(p.c, s.c, lc), match(p.c, s.c), match(p.c, s.c, lc)], bounds='patterns over a B * #, subjects over a A b', thorough=n > 3 or n + m > 7)
            a('indexOf substring %d %d' % (n, m), dict(x=S(n, alpha='aAb'), y=S(m, alpha='abB')), '{x indexOfSubCollection: y. (x includesSubstring: y). (x occurrencesOfString: y). (x indexOf: y matchCase: true startingAt: 1) notNil}' if False else '{x indexOfSubCollection: y. (x copyReplaceAll: y with: \'..\'). ((x indexOf: y matchCase: true startingAt: 1) ifNil: [0] ifNotNil: [:i | i first * 10 + i last]). ((x indexOf: y matchCase: false startingAt: 1) ifNil: [0] ifNotNil: [:i | i first * 10 + i last])}',
              lambda x, y: (lambda p, q: [find(p, q, 1), Str(rep(p, q)), (lambda k: k and k * 11 + len(q) - 1)(find(p, q, 1)), (lambda k: k and k * 11 + len(q) - 1)(find([lc(c) for c in p], [lc(c) for c in q], 1))])(x.c, y.c), pre=lambda x, y: len(y.c) > 0, bounds='subjects over a A b, patterns over a b B', thorough=n > 4) if m and n else None
    def rep(x, o):
        out, i = [], 1
        while True:
            k = find(x, o, i)
            if not k: return out + x[i - 1:]
            out += x[i - 1:k - 1] + [46, 46]; i = k + len(o)
    for n in range(0, N + 1):
        def num(s):
            c = s.c; i = 0
            while i < len(c) and bool(And(c[i] >= 48, c[i] <= 57)): i += 1
            if i == len(c): return True
            return bool(c[i] == 46) and i + 1 < len(c) and all(bool(And(k >= 48, k <= 57)) for k in c[i + 1:])
        a('isNumeric %d' % n, dict(s=S(n, alpha='07.x')), 's isNumeric', num, bounds='strings of length %d over 0 7 . x' % n, thorough=n > 4)
        a('shell escapes %d' % n, dict(s=S(n, 1, 126)), 's withUnixShellEscapes', lambda s: Str(sum(([92, c] if bool(shell(c)) else [c] for c in s.c), [])), pre=lambda s: And(*[c != 10 for c in s.c]) if s.c else True, bounds='every string of length %d, characters 1..126 without newline' % n, thorough=n > 2)
        a('storeString of a string %d' % n, dict(s=S(n, alpha="a'b\"")), '{s printString. s storeString. s displayString. s displayNl; yourself}' if False else '{s printString. s storeString. s displayString}', lambda s: (lambda q: [Str(q), Str(q + [32, 99, 111, 112, 121]), s])([39] + sum(([39, 39] if bool(c == 39) else [c] for c in s.c), []) + [39]), bounds='strings over a b and both quotes', thorough=n > 4)
        a('contractTo: %d' % (n + 4), dict(s=S(n + 4, 97, 122), k=F(0, n + 5)), 's contractTo: k', lambda s, k: s if len(s.c) <= k else Str(s.c[:k]) if k < 5 else Str(s.c[:(k - 2) // 2] + [46] * 3 + s.c[len(s.c) - (k - (k - 2) // 2 - 3):]), bounds='strings of length %d' % (n + 4))
        a('join %d' % n, dict(x=S(n, 97, 122), y=S(2, 97, 122)), "{({x. y. x} join: ', '). ({x. y} inject: '' into: [:p :q | p , q]). ({x. y. x} fold: [:p :q | p , '+' , q]). (String join: {x. y} separatedBy: '--'). (String join: {x. y}). {x. y. x} join. ({x. y} inject: 0 into: [:p :q | p + q size])}", lambda x, y: (lambda p, q: [Str(p + [44, 32] + q + [44, 32] + p), Str(p + q), Str(p + [43] + q + [43] + p), Str(p + [45, 45] + q), Str(p + q), Str(p + q + p), len(p + q)])(x.c, y.c), bounds='strings of lengths %d and 2' % n)
        a('bindWith: %d' % n, dict(x=S(n, 97, 122), i=I(-99, 99)), "{('a%1b%2%1%%' bindWith: x with: i). ('%<yes|no>1 %2' bindWith: i > 0 with: x)}", lambda x, i: [Str([97] + x.c + [98] + numeral(i, 10) + x.c + [37]), Str([ord(c) for c in ('yes ' if bool(i > 0) else 'no ')] + x.c)], bounds='strings of length %d' % n)
    SH = " '\"`|^>[=<;()*&$!#~{}?\\\t"
    def shell(c): return Or(*[c == ord(k) for k in SH]) if True else 0
    def na(s):
        c = s.c
        if bool(c[-1] == 58): return sum(If(k == 58, 1, 0) for k in c)
        return If(Or(*[Or(And(k >= 97, k <= 122), k == 95) for k in c]), 0, 1)
    for n in range(1, N + 1):
        a('numArgs %d' % n, dict(s=S(n, alpha='ab:_+')), 's asSymbol numArgs', na, bounds='symbols of length %d over a b : _ +' % n, thorough=n > 4)
        a('keywords %d' % n, dict(s=S(n, alpha='ab:')), '(s , \':\') asSymbol keywords asArray collect: [:k | k asString]', lambda s: plain([p + [58] for p in split(s.c, lambda c: c == 58)]), pre=lambda s: And(s.c[0] != 58, *[Not(And(p == 58, q == 58)) for p, q in zip(s.c, s.c[1:] + [58])]), bounds='keyword selectors', thorough=n > 4)
    std(ctx, L)
    from props import P19
    from csym import prep
    import vplib
    vplib.run_units(ctx, [P19.unit(prep.Scratch(), False, ('index', 'equal', 'replace'))])
