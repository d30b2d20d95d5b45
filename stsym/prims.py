"""Primitives and VM-level natives, modelled exactly over symbolic values."""
import math
from . import sym, vm
from .sym import SInt, SBool, Unsupported, Limit, And, Or, Not, ite_read, quorem, divmod_floor, shift, bitand
from .vm import (STObj, STClass, STBlock, Char, Namespace, W, FAIL, prim, native, send, supersend, cls_of, mkarray, mkstr, symbol, pystr,
                 STUnwind, NLR, ExReturn, ExRetry, ExResume, Terminate, SMALL_MIN, SMALL_MAX, INTS, truth, ident, isstr, NATIVE_GLOBALS, dnu)

EXPORT = {}

class Big:
    """a LargeInteger instance that holds a value in the small range (LargeInteger class>>fromInteger:)"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
_cls0 = vm.cls_of
def cls_of(v):
    if type(v) is Big:
        if v.v == 0: return W.LargeZeroInteger
        return W.LargePositiveInteger if v.v > 0 else W.LargeNegativeInteger
    if type(v) is STObjKind: return v.cls
    return _cls0(v)
class STObjKind: pass
vm.cls_of = cls_of
EXPORT['cls_of'] = cls_of

def issmall(a):
    t = type(a)
    if t is int: return SMALL_MIN <= a <= SMALL_MAX
    if t is SInt:
        return truth(And(a >= SMALL_MIN, a <= SMALL_MAX))
    return False
def conc(v): return sym.E.concretize(v) if type(v) is SInt else v
def isint(v): return type(v) in INTS

# ---------------------------------------------------------------- SmallInteger
def _arith(name, op):
    @prim('SmallInteger_' + name)
    def f(a, b):
        if not (issmall(a) and isint(b) and issmall(b)): return FAIL
        r = op(a, b)
        return r
_arith('plus', lambda a, b: a + b); _arith('minus', lambda a, b: a - b); _arith('times', lambda a, b: a * b)
_arith('lt', lambda a, b: a < b); _arith('gt', lambda a, b: a > b); _arith('le', lambda a, b: a <= b); _arith('ge', lambda a, b: a >= b)
_arith('eq', lambda a, b: a == b); _arith('ne', lambda a, b: a != b)
_arith('bitAnd', lambda a, b: bitand(a, b)); _arith('bitOr', lambda a, b: a | b); _arith('bitXor', lambda a, b: a ^ b)
def _over(name):
    p = vm.PRIM['VMpr_SmallInteger_' + name]
    def f(a, b):
        r = p(a, b)
        if r is FAIL or issmall(r): return r
        return FAIL
    vm.PRIM['VMpr_SmallInteger_' + name] = f
for _n in ('plus', 'minus', 'times'): _over(_n)

@prim('SmallInteger_divide')
def _(a, b):
    if not (issmall(a) and isint(b) and issmall(b)) or truth(b == 0): return FAIL
    q, r = divmod_floor(a, b)
    return q if truth(r == 0) else FAIL
@prim('SmallInteger_intDiv')
def _(a, b):
    if not (issmall(a) and isint(b) and issmall(b)) or truth(b == 0): return FAIL
    return divmod_floor(a, b)[0]
@prim('SmallInteger_modulo')
def _(a, b):
    if not (issmall(a) and isint(b) and issmall(b)) or truth(b == 0): return FAIL
    return divmod_floor(a, b)[1]
@prim('SmallInteger_quo')
def _(a, b):
    if not (issmall(a) and isint(b) and issmall(b)) or truth(b == 0): return FAIL
    return quorem(a, b)[0]
@prim('SmallInteger_bitShift')
def _(a, b):
    if not (issmall(a) and isint(b) and issmall(b)): return FAIL
    b = conc(b)
    if b >= 0:
        if b > 200: return FAIL
        r = shift(a, b)
        return r if issmall(r) else FAIL
    return shift(a, max(b, -200))
M64 = (1 << 64) - 1
def scramble(x):
    """dict.inl:scramble"""
    x &= M64
    x ^= (x >> 31) | ((x << 33) & M64)
    x ^= ((x << 10) & M64) | (x >> 22)
    x ^= ((x << 6) & M64) | (x >> 26)
    x ^= ((x << 16) & M64) | (x >> 16)
    return x & SMALL_MAX
@prim('SmallInteger_scramble')
def _(a):
    if not issmall(a): return FAIL
    if type(a) is int: return scramble(a)
    if a.hi - a.lo > 300: raise Unsupported('scramble of a wide symbolic integer')
    t = [scramble(i) for i in range(a.lo, a.hi + 1)]
    return ite_read(t, a - a.lo)
@prim('SmallInteger_asObject')
def _(a): raise Unsupported('asObject')
def tofloat(v):
    if type(v) is SInt: raise Unsupported('symbolic float')
    return float(v)
@prim('SmallInteger_asFloatD', 'SmallInteger_asFloatE', 'SmallInteger_asFloatQ', 'LargeInteger_asFloatD', 'LargeInteger_asFloatE', 'LargeInteger_asFloatQ')
def _(a):
    return tofloat(conc(a) if type(a) is SInt and a.hi - a.lo < 64 else getattr(a, 'v', a))

# ---------------------------------------------------------------- LargeInteger
def liv(v):
    if type(v) is Big: return v.v
    if type(v) in INTS: return v
    if type(v) is STObj and v.cls.inherits(W.classes['LargeInteger']): raise Unsupported('raw LargeInteger')
    return None
def _large(name, op, div=False):
    @prim('LargeInteger_' + name)
    def f(a, b=0):
        a, b = liv(a), liv(b)
        if a is None or b is None: return FAIL
        if div and truth(b == 0): return FAIL
        return op(a, b)
_large('plus', lambda a, b: a + b); _large('minus', lambda a, b: a - b); _large('times', lambda a, b: a * b)
_large('lt', lambda a, b: a < b); _large('gt', lambda a, b: a > b); _large('le', lambda a, b: a <= b); _large('ge', lambda a, b: a >= b)
_large('eq', lambda a, b: a == b); _large('ne', lambda a, b: a != b)
_large('bitAnd', lambda a, b: bitand(a, b)); _large('bitOr', lambda a, b: a | b); _large('bitXor', lambda a, b: a ^ b)
_large('intDiv', lambda a, b: divmod_floor(a, b)[0], True); _large('modulo', lambda a, b: divmod_floor(a, b)[1], True)
_large('quo', lambda a, b: quorem(a, b)[0], True); _large('rem', lambda a, b: quorem(a, b)[1], True)
_large('divExact', lambda a, b: quorem(a, b)[0], True)
_large('negated', lambda a, b: -a); _large('bitInvert', lambda a, b: -1 - a)
_large('gcd', lambda a, b: math.gcd(conc(a), conc(b)))
@prim('LargeInteger_bitShift')
def _(a, b):
    a = liv(a)
    if a is None or not isint(b): return FAIL
    b = conc(b)
    if abs(b) > 100000: raise Unsupported('huge shift')
    return shift(a, b)
@native('LargeInteger class', 'fromInteger:')
def _(c, v):
    return Big(v) if isint(v) else v
@native('Number class', 'coerce:')
def _(c, v): return send_nonnative('Number class', c, 'coerce:', v)

# ---------------------------------------------------------------- objects
BYTES = ('byte', 'int8', 'uint8')
def idx_ok(o, i):
    if not isint(i): return False
    if o.x is None: return False
    return truth(And(i >= 1, i <= len(o.x)))
def elt(o, v):
    s = o.cls.shape
    if s == 'character': return Char(v)
    if s == 'utf32': return mkuni(v)
    return v
def mkuni(v):
    if type(v) is int: return Char(v, v > 127)
    if truth(v <= 127): return Char(v, False)
    return Char(v, True)
def rd(lst, i):
    """lst[i-1], i in range"""
    if type(i) is int: return lst[i - 1]
    lo, hi = max(i.lo, 1), min(i.hi, len(lst))
    i = SInt(i.e, lo, hi)
    sub = lst[lo - 1:hi]
    if all(type(v) in INTS for v in sub): return ite_read(lst, i - 1)
    if all(v is sub[0] for v in sub): return sub[0]
    if all(type(v) is Char for v in sub) and len(set(v.uni for v in sub)) == 1:
        return Char(ite_read([getattr(v, 'v', 0) for v in lst], i - 1), sub[0].uni)
    # group equal elements
    groups = []
    for k in range(lo, hi + 1):
        v = lst[k - 1]
        for g in groups:
            if same(g[0], v): g[1].append(k); break
        else: groups.append((v, [k]))
    if len(groups) < (hi - lo + 1):
        for v, ks in groups[:-1]:
            if truth(Or(*[i == k for k in ks])): return v
        return groups[-1][0]
    return lst[conc(i) - 1]
def same(a, b):
    if a is b: return True
    return type(a) is type(b) and type(a) in (int, bool) and a == b

@prim('Object_basicAt')
def _(o, i, *rest):
    if type(o) is not STObj:
        if type(o) is Big or type(o) is int and not issmall(o): raise Unsupported('bytes of a LargeInteger')
        return FAIL
    if not idx_ok(o, i): return FAIL
    return elt(o, rd(o.x, i))
@prim('CharacterArray_valueAt')
def _(o, i, *rest):
    if type(o) is not STObj or not idx_ok(o, i): return FAIL
    return rd(o.x, i)
LIM = {'byte': (0, 255), 'uint8': (0, 255), 'int8': (-128, 127), 'short': (-32768, 32767), 'int16': (-32768, 32767), 'ushort': (0, 65535), 'uint16': (0, 65535),
       'int': (-2**31, 2**31 - 1), 'int32': (-2**31, 2**31 - 1), 'uint': (0, 2**32 - 1), 'uint32': (0, 2**32 - 1), 'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
def store(o, v):
    """raw value to store in o for v, or FAIL"""
    s = o.cls.shape
    if s == 'pointer': return v
    if s == 'character':
        if type(v) is Char and (not v.uni and truth(v.v <= 255) or v.uni and truth(v.v <= 127)): return v.v
        return FAIL
    if s == 'utf32':
        if type(v) is Char: return v.v
        return FAIL
    if s in LIM:
        if not isint(v): return FAIL
        lo, hi = LIM[s]
        if truth(And(v >= lo, v <= hi)): return v if type(v) is int else SInt(v.e, max(v.lo, lo), min(v.hi, hi))
        return FAIL
    raise Unsupported('store into shape %s' % s)
@prim('Object_basicAtPut')
def _(o, i, v, *rest):
    if type(o) is not STObj or o.ro or o.cls is W.Symbol: return FAIL
    if not idx_ok(o, i): return FAIL
    r = store(o, v)
    if r is FAIL: return FAIL
    if type(r) is SBool: r = bool(r); 
    o.x[conc(i) - 1] = r
    return v
@prim('CharacterArray_valueAtPut')
def _(o, i, v, *rest):
    if type(o) is not STObj or o.ro or not idx_ok(o, i) or not isint(v): return FAIL
    if not truth(And(v >= 0, v <= (255 if o.cls.shape == 'character' else 0x10ffff))): return FAIL
    o.x[conc(i) - 1] = v
    return v
@prim('Object_basicSize')
def _(o):
    if type(o) is STObj and o.x is not None: return len(o.x)
    if type(o) in INTS and not issmall(o) or type(o) is Big: raise Unsupported('size of a LargeInteger')
    return 0
SIZE = {'pointer': 3, 'character': 0, 'byte': 0, 'int8': 0, 'utf32': 2, 'int': 2, 'int32': 2, 'uint': 2, 'uint32': 2, 'int64': 3, 'uint64': 3, 'short': 1, 'ushort': 1, 'int16': 1, 'uint16': 1, 'float': 2, 'double': 3}
@prim('ArrayedCollection_replaceFromToWithStartingAt')
def _(d, a, b, s, i):
    if not (isint(a) and isint(b) and isint(i)) or type(s) is not STObj or type(d) is not STObj: return FAIL
    if s.x is None or d.x is None: return FAIL
    if s.f and not d.f: return FAIL
    if SIZE.get(s.cls.shape, -1) != SIZE.get(d.cls.shape, -2) or (s.cls.shape == 'pointer') != (d.cls.shape == 'pointer'): return FAIL
    a, b, i = conc(a), conc(b), conc(i)
    n = b - a + 1
    if n < 0 or b > len(d.x) or a <= 0 or i + n - 1 > len(s.x) or (i <= 0 and n > 0): return FAIL
    if n > 0: d.x[a - 1:a - 1 + n] = s.x[i - 1:i - 1 + n]
    return d
@prim('ArrayedCollection_equal')
def _(a, b):
    if type(a) is not STObj or type(b) is not STObj or a.cls is not b.cls or a.f or a.x is None: return FAIL
    if len(a.x) != len(b.x): return False
    if a.cls.shape == 'pointer':
        return And(*[ident(x, y) for x, y in zip(a.x, b.x)])
    return And(*[x == y for x, y in zip(a.x, b.x)])
@prim('ArrayedCollection_indexOfStartingAt')
def _(s, t, i, *rest):
    if type(t) is Char:
        if t.uni: return FAIL
        t = t.v
    elif not (isint(t) and issmall(t)): return FAIL
    if not isint(i) or type(s) is not STObj or s.f or SIZE.get(s.cls.shape) != 0: return FAIL
    i = conc(i)
    if i < 1: return FAIL
    if len(s.x) - i + 1 < 0: return FAIL
    for k in range(i, len(s.x) + 1):
        if truth(s.x[k - 1] == t): return k
    return FAIL
@prim('Object_identity')
def _(a, b): return ident(a, b)
@prim('Object_class')
def _(a): return cls_of(a)
def hashof(o):
    t = type(o)
    if t in INTS: return o
    if t is Char: return (o.v + 1) if type(o.v) is int else o.v + 1
    if t is bool: return 11 if o else 12
    if o is None: return 13
    if t is float: return int(o) & 0xffff
    if t is STObj and o.h is not None: return o.h
    k = id(o)
    h = W.hashes.get(k)
    if h is None:
        h = len(W.hashes) * 17 + 1001
        W.hashes[k] = (h, o)
        return h
    return h[0]
@prim('Object_hash')
def _(o): return hashof(o)
@prim('String_hash')
def _(o, *a):
    if type(o) in INTS: return conc(o) & 0x3fffffff
    if type(o) is Big: return conc(o.v) & 0x3fffffff
    if type(o) is float: return hash(o) & 0x3fffffff
    h = 7
    for c in o.x: h = (h * 31 + conc(c)) & 0x3fffffff
    return h
@native('String class', 'hashString:')
def _(c, s):
    h = 7
    for x in s.x: h = (h * 31 + conc(x)) & 0x3fffffff
    return h
@prim('Object_shallowCopy')
def _(o):
    if type(o) is STObj: return STObj(o.cls, list(o.f), None if o.x is None else list(o.x))
    if type(o) is STBlock: return STBlock(o.fn, o.n, o.rcv)
    if type(o) is STClass: raise Unsupported('copy of a class')
    return o
@prim('Object_instVarAt')
def _(o, i):
    i = conc(i)
    if type(o) is Char and i == 1: return o.v
    if type(o) is not STObj: return FAIL
    if 1 <= i <= len(o.f): return o.f[i - 1]
    if o.x is not None and len(o.f) < i <= len(o.f) + len(o.x): return elt(o, o.x[i - len(o.f) - 1])
    return FAIL
@prim('Object_instVarAtPut')
def _(o, i, v):
    i = conc(i)
    if type(o) is not STObj: return FAIL
    if 1 <= i <= len(o.f): o.f[i - 1] = v; return v
    if o.x is not None and len(o.f) < i <= len(o.f) + len(o.x) and o.cls.shape == 'pointer': o.x[i - len(o.f) - 1] = v; return v
    return FAIL
@prim('Object_become')
def _(a, b):
    if type(a) is not STObj or type(b) is not STObj: raise Unsupported('become: of immediates')
    for s in ('cls', 'f', 'x', 'h', 'ro'):
        t = getattr(a, s); setattr(a, s, getattr(b, s)); setattr(b, s, t)
    return a
@prim('Object_becomeForward')
def _(a, b): raise Unsupported('becomeForward:')
@prim('Object_changeClassTo')
def _(a, c):
    if type(a) is not STObj: return FAIL
    a.cls = c
    return a
@prim('Object_isReadOnly')
def _(o): return type(o) is not STObj or o.ro or o.cls is W.Symbol
@prim('Object_makeReadOnly')
def _(o, b):
    if type(o) is STObj: o.ro = truth(b)
    return o
@prim('Object_makeWeak', 'Object_makeEphemeron', 'Object_makeFixed', 'Object_tenure')
def _(o): return o
@native('Object', 'finalize', 'mourn')
def _(o): return o
def _perform(o, s, args):
    if type(s) is STObj and s.cls is W.Symbol:
        n = pystr(s)
        need = n.count(':') if n[-1] == ':' or ':' in n else (0 if n[0].isalpha() or n[0] == '_' else 1)
        if need != len(args): return FAIL
        return send(o, n, *args)
    if type(s) is STObj and isstr(s): return _perform(o, symbol(pystr(s)), args)
    return FAIL
@prim('Object_perform')
def _(o, s, *args): return _perform(o, s, args)
@prim('Object_performWithArguments')
def _(o, s, args): return _perform(o, s, list(args.x))
@native('Object', 'respondsTo:')
def _(o, s):
    return vm.lookup(cls_of(o), pystr(s)) is not None

# ---------------------------------------------------------------- blocks
@prim('BlockClosure_value')
def _(b, *a):
    if len(a) != b.n: return FAIL
    return b.fn(*a)
@prim('BlockClosure_cull')
def _(b, *a): return b.fn(*a[:b.n]) if len(a) >= b.n else FAIL
@prim('BlockClosure_valueWithArguments')
def _(b, a):
    if type(a) is not STObj or len(a.x) != b.n: return FAIL
    return b.fn(*a.x)
@native('BlockClosure', 'numArgs')
def _(b): return b.n
@native('BlockClosure', 'hasMethodReturn')
def _(b): return True
@native('BlockClosure', 'receiver')
def _(b): return b.rcv
@native('BlockClosure', 'valueWithoutPreemption', 'valueWithoutInterrupts', 'valueWithUnwind')
def _(b): return b.fn()
@native('BlockClosure', 'ensure:')
def _(b, e):
    try: r = send(b, 'valueAndResumeOnUnwind')
    except STUnwind:
        send(e, 'value')
        raise
    send(e, 'value')
    return r
@native('BlockClosure', 'valueAndResumeOnUnwind')
def _(b): return send(b, 'value')
@native('BlockClosure', 'ifCurtailed:')
def _(b, e):
    try: return send(b, 'value')
    except STUnwind:
        send(e, 'value')
        raise

class Handler:
    __slots__ = ('pairs', 'below', 'dead')
def on_do(b, *pairs):
    h = Handler()
    h.pairs = [(pairs[i], pairs[i + 1]) for i in range(0, len(pairs), 2)]
    saved = W.handlers
    h.below = saved
    run = b
    while True:
        W.handlers = (h, saved)
        try:
            return send(run, 'value')
        except ExReturn as u:
            if u.h is not h: raise
            return u.v
        except ExRetry as u:
            if u.h is not h: raise
            if u.blk is not None:
                W.handlers = saved
                return send(u.blk, 'value')
            vm.tick()
            continue
        finally:
            W.handlers = saved
for _k in range(1, 6):
    native('BlockClosure', 'on:do:' * _k)(on_do)

def exget(ex, n): return ex.f[ex.cls.ivmap[n]]
def exset(ex, n, v): ex.f[ex.cls.ivmap[n]] = v

@native('Exception class', 'new')
def _(c):
    e = newobj(c)
    send(e, 'initialize:', None)
    return e
def find_handler(ex, stack):
    while stack:
        h, rest = stack
        best = None
        for cl, blk in h.pairs:
            if truth(send(cl, 'handles:', ex)):
                if best is None: best = (h, blk, rest)
                elif len(h.pairs) > 1:
                    g0 = send(best_cls, 'goodness:', cls_of(ex)); g1 = send(cl, 'goodness:', cls_of(ex))
                    if truth(g1 > g0): best = (h, blk, rest)
                best_cls = cl
        if best: return best
        stack = rest
    return None
def do_signal(ex, stack):
    """returns the value of signal"""
    saved = W.handlers
    found = find_handler(ex, stack)
    try:
        if found is None:
            prev = W.exstate.get(id(ex))
            W.exstate[id(ex)] = (None, ())
            # default action
            W.handlers = saved
            v = send(ex, 'defaultAction')
            if truth(send(ex, 'isResumable')): return v
            raise Terminate(cls_of(ex), ex)
        h, blk, rest = found
        W.exstate[id(ex)] = (h, rest)
        W.exkeep.append(ex)
        W.handlers = rest
        v = send_cull(blk, ex)
        raise ExReturn(h, v)
    except ExResume as r:
        if r.ex is not ex: raise
        return r.v
    finally:
        W.handlers = saved
def send_cull(blk, ex):
    if type(blk) is STBlock: return blk.fn(*([ex][:blk.n]))
    return send(blk, 'numArgs') and send(blk, 'value:', ex) if False else send(blk, 'value')
@native('Exception', 'signal')
def _(ex):
    return do_signal(ex, W.handlers)
@native('Exception', 'pass')
def _(ex):
    h, rest = W.exstate.get(id(ex), (None, ()))
    v = do_pass(ex, rest)
    raise ExReturn(h, v)
@native('Exception', 'outer')
def _(ex):
    h, rest = W.exstate.get(id(ex), (None, ()))
    return do_pass(ex, rest)
def do_pass(ex, rest):
    c = send(ex, 'copy')
    return do_signal(c, rest)
@native('Exception', 'signalingContext', 'context')
def _(ex): raise Unsupported('contexts')
@native('Exception', 'return:')
def _(ex, v):
    h, rest = W.exstate.get(id(ex), (None, ()))
    if h is None: raise Terminate(cls_of(ex), ex)
    raise ExReturn(h, v)
@native('Exception', 'return')
def _(ex):
    return send(ex, 'return:', None)
@native('Exception', 'retry')
def _(ex):
    h, rest = W.exstate.get(id(ex), (None, ()))
    if h is None: raise Terminate(cls_of(ex), ex)
    raise ExRetry(h)
@native('Exception', 'retryUsing:')
def _(ex, blk):
    h, rest = W.exstate.get(id(ex), (None, ()))
    if h is None: raise Terminate(cls_of(ex), ex)
    raise ExRetry(h, blk)
@native('Exception', 'resume:')
def _(ex, v):
    if not truth(send(ex, 'isResumable')): raise Terminate(cls_of(ex), ex)
    raise ExResume(ex, v)
@native('Exception', 'resume')
def _(ex): return send(ex, 'resume:', ex)
@native('Exception', 'resignalAsUnhandled:')
def _(ex, m): raise Terminate(cls_of(ex), ex)
@native('Exception', 'resignalAs:')
def _(ex, e2):
    h, rest = W.exstate.get(id(ex), (None, ()))
    v = do_signal(e2, W.handlers)
    raise ExReturn(h, v)
@native('Exception', 'messageText')
def _(ex): return exget(ex, 'messageText')
@native('Object', 'primError:')
def _(o, m): raise Terminate(W.classes['Error'], None)

# exception texts built from the offending values are outside the model
def exsig(name, **iv):
    c = W.classes[name]
    e = send(c, 'new')
    for k, v in iv.items():
        if k in c.ivmap: exset(e, k, v)
    return send(e, 'signal')
@native('SystemExceptions.IndexOutOfRange class', 'signalOn:withIndex:')
def _(c, o, i): return exsig('SystemExceptions.IndexOutOfRange', value=i)
@native('SystemExceptions.ArgumentOutOfRange class', 'signalOn:mustBeBetween:and:')
def _(c, v, a, b): return exsig('SystemExceptions.ArgumentOutOfRange', value=v, low=a, high=b)
@native('SystemExceptions.WrongClass class', 'signalOn:mustBe:')
def _(c, o, k): return exsig('SystemExceptions.WrongClass', value=o)
@native('SystemExceptions.NotFound class', 'signalOn:what:reason:')
def _(c, o, w, r): return exsig('SystemExceptions.NotFound', value=o)
@native('SystemExceptions.EmptyCollection class', 'signalOn:')
def _(c, o): return exsig('SystemExceptions.EmptyCollection', value=o)
@native('SystemExceptions.InvalidSize class', 'signalOn:')
def _(c, o): return exsig('SystemExceptions.InvalidSize', value=o)
@native('SystemExceptions.WrongArgumentCount class', 'signal')
def _(c): return exsig('SystemExceptions.WrongArgumentCount')
@native('SystemExceptions.NotEnoughElements class', 'signalOn:')
def _(c, o): return exsig('SystemExceptions.NotEnoughElements')
@native('MessageNotUnderstood', 'message:receiver:')
def _(e, m, r):
    exset(e, 'message', m); exset(e, 'receiver', r)
    return e
@native('Object', 'doesNotUnderstand:')
def _(o, m):
    e = send(W.classes['MessageNotUnderstood'], 'new')
    exset(e, 'message', m); exset(e, 'receiver', o)
    return send(e, 'signal')

# ---------------------------------------------------------------- classes
def newobj(c, n=None):
    s = c.shape
    x = None
    if s is not None:
        fill = None if s == 'pointer' else (0.0 if s in ('float', 'double') else 0)
        x = [fill] * (n or 0)
    return STObj(c, [None] * len(c.ivars), x)
def checkinst(c):
    if c.inherits(W.classes['Integer']) or c.inherits(W.classes['Float']): return False
    return True
@prim('Behavior_basicNew')
def _(c):
    if c.shape is not None: return FAIL
    if c is W.FloatD: return 0.0
    return newobj(c)
@prim('Behavior_basicNewColon')
def _(c, n):
    if c.shape is None or not isint(n) or not issmall(n): return FAIL
    if not truth(n >= 0): return FAIL
    n = conc(n)
    if n > 100000: raise Unsupported('huge object')
    return newobj(c, n)
@prim('Behavior_basicNewFixed')
def _(c): return vm.PRIM['VMpr_Behavior_basicNew'](c)
@prim('Behavior_basicNewFixedColon')
def _(c, n): return vm.PRIM['VMpr_Behavior_basicNewColon'](c, n)
@prim('Behavior_newInitialize')
def _(c):
    if c.shape is not None: return FAIL
    o = newobj(c)
    send(o, 'initialize')
    return o
@prim('Behavior_newColonInitialize')
def _(c, n):
    r = vm.PRIM['VMpr_Behavior_basicNewColon'](c, n)
    if r is FAIL: return FAIL
    send(r, 'initialize')
    return r
@prim('Dictionary_new')
def _(c, n=None):
    raise Unsupported('Dictionary_new')
@native('Object', 'initialize')
def _(o): return o
@native('Behavior', 'name')
def _(c): return mkstr(c.name)
@native('Metaclass', 'name')
def _(c): return mkstr(c.inst.name)
@native('Class', 'name')
def _(c): return mkstr(c.name)
@native('Class', 'printString', 'storeString', 'displayString')
def _(c): return mkstr(c.fullname)
@native('Metaclass', 'printString', 'storeString', 'displayString')
def _(c): return mkstr(c.inst.fullname + ' class')
@native('Class', 'nameIn:', 'printStringIn:')
def _(c, ns): return mkstr(c.fullname)
@native('Class', 'printOn:', 'displayOn:', 'storeOn:')
def _(c, s): return send(s, 'nextPutAll:', mkstr(c.fullname))
@native('Class', 'article')
def _(c): return mkstr('an' if c.name[0] in 'AEIOU' else 'a')
@native('Behavior', 'superclass')
def _(c): return c.sup
@native('Behavior', 'inheritsFrom:')
def _(c, d): return c is not d and c.inherits(d)
@native('Behavior', 'includesBehavior:')
def _(c, d): return c.inherits(d)
@native('Object', 'isKindOf:')
def _(o, c): return cls_of(o).inherits(c)
@native('Object', 'isMemberOf:')
def _(o, c): return cls_of(o) is c
@native('Behavior', 'isFixed')
def _(c): return c.shape is None
@native('Behavior', 'isVariable')
def _(c): return c.shape is not None
@native('Behavior', 'isPointers')
def _(c): return c.shape in (None, 'pointer')
@native('Behavior', 'isBits')
def _(c): return c.shape not in (None, 'pointer')
@native('Behavior', 'shape')
def _(c): return symbol(c.shape) if c.shape else None
@native('Behavior', 'instSize')
def _(c): return len(c.ivars)
@native('Behavior', 'canUnderstand:')
def _(c, s): return vm.lookup(c, pystr(s)) is not None
@native('Behavior', 'includesSelector:')
def _(c, s): return pystr(s) in (c.inst.d.cmethods if c.meta else c.d.methods)
@native('Behavior', 'allInstVarNames')
def _(c): return mkarray([symbol(n) for n in c.ivars])
@native('Behavior', 'environment')
def _(c): return W.ns[(c.inst or c).ns]
@native('Behavior', 'asClass')
def _(c): return c.inst if c.meta else c
@native('Class', 'asClass')
def _(c): return c
@native('Metaclass', 'asClass', 'instanceClass', 'soleInstance')
def _(c): return c.inst
@native('Class', 'category')
def _(c): return None

# ---------------------------------------------------------------- characters, symbols, strings
@prim('Character_create')
def _(c, v):
    if not isint(v) or not truth(And(v >= 0, v <= 255)): return FAIL
    return Char(v)
@prim('UnicodeCharacter_create')
def _(c, v):
    if not isint(v) or not truth(And(v >= 0, v <= 0x10ffff)): return FAIL
    return mkuni(v)
@prim('Character_equal')
def _(a, b):
    if type(b) is not Char: return False
    if a.uni == b.uni: return a.v == b.v
    return And(a.v == b.v, a.v <= 127)
@native('Character', 'asSymbol')
def _(c): return symbol(chr(conc(c.v)))
@prim('Symbol_intern')
def _(c, s):
    if type(s) is not STObj or s.cls is not W.String: return FAIL
    return symbol(pystr(s))
@native('String', 'asSymbol')
def _(s): return symbol(pystr(s))
@native('Symbol class', 'intern:')
def _(c, s): return symbol(pystr(s))
@native('Symbol', 'asSymbol')
def _(s): return s
@native('Symbol', '=')
def _(a, b): return a is b
@native('Symbol', 'isSymbolString:', 'hasInterned:ifTrue:')
def _(*a): raise Unsupported('symbol table')
@native('Object', 'isReadOnly')
def _(o): return type(o) is not STObj or o.ro or o.cls is W.Symbol

# ---------------------------------------------------------------- floats (concrete only)
def fl(v):
    if type(v) is float: return v
    return None
def _fop(name, op):
    def f(a, b):
        if type(b) is not float: return FAIL
        return op(a, b)
    for k in 'DEQ': vm.PRIM['VMpr_Float%s_%s' % (k, name)] = f
_fop('plus', lambda a, b: a + b); _fop('minus', lambda a, b: a - b); _fop('times', lambda a, b: a * b)
_fop('lt', lambda a, b: a < b); _fop('gt', lambda a, b: a > b); _fop('le', lambda a, b: a <= b); _fop('ge', lambda a, b: a >= b)
_fop('eq', lambda a, b: a == b); _fop('ne', lambda a, b: a != b)
_fop('divide', lambda a, b: FAIL if b == 0 else a / b)
@prim('FloatD_truncated', 'FloatE_truncated', 'FloatQ_truncated')
def _(a):
    return int(a) if abs(a) < 2**62 else FAIL
@prim('FloatD_fractionPart')
def _(a): return a - int(a)
@prim('FloatD_asFloatE', 'FloatD_asFloatQ')
def _(a): return a
@prim('FloatD_exponent')
def _(a): return math.frexp(a)[1] - 1 if a else 0
@prim('FloatD_timesTwoPower')
def _(a, b): return math.ldexp(a, conc(b))
@prim('Float_ln')
def _(a): return math.log(a)
@prim('Float_sqrt')
def _(a): return math.sqrt(a)
@prim('Float_floor')
def _(a): return FAIL if abs(a) > 2**60 else math.floor(a)
@prim('Float_ceil')
def _(a): return FAIL if abs(a) > 2**60 else math.ceil(a)

# ---------------------------------------------------------------- processes: single process, atomic
class Proc: pass
@native('Semaphore', 'critical:')
def _(s, b): return send(b, 'value')
@native('RecursionLock', 'critical:')
def _(s, b): return send(b, 'value')
@native('Semaphore class', 'forMutualExclusion', 'new')
def _(c): return newobj(c)

def send_nonnative(key, o, sel, *a):
    f = vm.NATIVE.pop((key, sel))
    try:
        c = cls_of(o)
        fn = vm.lookup(c, sel)
        c.cache.pop(sel, None)
        return fn(o, *a)
    finally: vm.NATIVE[(key, sel)] = f
del vm.NATIVE[('Number class', 'coerce:')]

@native('SystemDictionary', 'version')
def _(s): return mkstr('GNU Smalltalk')
@native('Object', 'halt', 'halt:')
def _(o, *a): return send(send(W.classes['Halt'], 'new'), 'signal')

for _n, _v in dict(CLongSize=8, CIntSize=4, CShortSize=2, CPtrSize=8, CDoubleSize=8, CFloatSize=4, CLongLongSize=8, CLongDoubleSize=16, CDoubleAlignment=8, CLongLongAlignment=8,
                   CDoubleBinaryDigits=53, CDoubleDigits=16, CFloatBinaryDigits=24, CLongDoubleBinaryDigits=64, CFloatMaxExp=128,
                   CDoubleMaxExp=1024, CDoubleMinExp=-1021, CFloatMinExp=-125).items():
    NATIVE_GLOBALS[_n] = (lambda v: lambda: v)(_v)
NATIVE_GLOBALS['Bigendian'] = lambda: False

NATIVE_GLOBALS['RegressionTesting'] = lambda: False
NATIVE_GLOBALS['CDoublePInf'] = lambda: float('inf')
NATIVE_GLOBALS['CDoubleNInf'] = lambda: float('-inf')
NATIVE_GLOBALS['CDoubleNaN'] = lambda: float('nan')

@native('LargeInteger', 'zero')
def _(a): return Big(0)
@native('LargeInteger', 'unity')
def _(a): return Big(1)
@native('LargeInteger', 'coerce:')
def _(a, n):
    if not isint(n) and type(n) is not Big: n = send(n, 'truncated')
    return Big(n) if isint(n) else n
@native('Behavior', 'binding')
@native('ClassDescription', 'binding')
def _(c):
    o = STObj(W.classes['VariableBinding'], [None] * len(W.classes['VariableBinding'].ivars), None)
    o.f[W.classes['VariableBinding'].ivmap['key']] = vm.symbol(c.name.split('.')[-1])
    o.f[W.classes['VariableBinding'].ivmap['value']] = c
    return o

def bigsize(v):
    """bytes of a LargeInteger: minimal two's complement, at least 8"""
    n = 8
    while not truth(And(v >= -(1 << (8 * n - 1)), v < (1 << (8 * n - 1)))): n += 1
    return n
_ba0 = vm.PRIM['VMpr_Object_basicAt']
@prim('Object_basicAt')
def _(o, i, *rest):
    v = o.v if type(o) is Big else o if type(o) in INTS and not issmall(o) else None
    if v is not None:
        if not isint(i): return FAIL
        n = bigsize(v)
        if not truth(And(i >= 1, i <= n)): return FAIL
        return (v // (1 << (8 * (conc(i) - 1)))) % 256
    return _ba0(o, i, *rest)
_bs0 = vm.PRIM['VMpr_Object_basicSize']
@prim('Object_basicSize')
def _(o):
    v = o.v if type(o) is Big else o if type(o) in INTS and not issmall(o) else None
    if v is not None: return bigsize(v)
    return _bs0(o)

@native('Behavior', 'evaluate:')
def _(c, s):
    from . import vm as _vm
    src = ''.join(chr(conc(x)) for x in s.x)
    try: return _vm.evaluate(src)
    except _vm.ParseError: return None
