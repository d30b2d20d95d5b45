"""What property modules import: obligations plus specification helpers."""
import math
from .oblig import *
from .sym import SInt, SBool, And, Or, Not, Implies, Iff, If, divmod_floor, quorem, bitand
from .vm import SMALL_MIN, SMALL_MAX
SMIN, SMAX = SMALL_MIN, SMALL_MAX
def Max(a, b): return If(a >= b, a, b)
def Min(a, b): return If(a <= b, a, b)
def fdiv(a, b): return divmod_floor(a, b)[0]
def fmod(a, b): return divmod_floor(a, b)[1]
def isint(v): return type(v) in (int, SInt) 
def std(ctx, obls, assume=(), extra=()):
    ctx.assumptions += ['virtual machine primitives called by the Smalltalk code are modelled in stsym/prims.py (the C side is decided separately); replays run on the built virtual machine with an image made from the current kernel sources'] + list(assume)
    run_obligations(ctx, obls, extra)
def digits(x, base, low=False):
    """codes of the base-b numeral of x >= 0 (forks on the length)"""
    n = 1
    while bool(x >= base ** n): n += 1
    out = []
    for i in range(n - 1, -1, -1):
        d = fmod(fdiv(x, base ** i), base) if i < n - 1 else fdiv(x, base ** i)
        out.append(If(d < 10, d + 48, d + (87 if low else 55)) if base > 10 else d + 48)
    return out
def numeral(x, base):
    if bool(x < 0): return [45] + digits(0 - x, base)
    return digits(x, base)
def codes(s): return [ord(c) for c in s]

class Fail(Exception): pass
def hist(name, setup, ops, k, init, final, finalfn, first=True, vals=None, bounds='', fixed=(), **kw):
    """history obligations: every sequence of k operations drawn from ops, applied to the object built by setup.
    ops: list of (Smalltalk expression over c, v and w, model function(state, v, w) -> result); the state is a list, updated
    in place; raising Fail means the operation must signal an error and leave the object alone.  One obligation per first operation."""
    out = []
    vals = vals or I(-1000, 1000)
    body = ''.join('op = %d ifTrue: [r := %s].\n' % (i, e) for i, (e, f) in enumerate(ops))
    code = '''| c log n r |
c := %s. n := ops size. log := Array new: n.
1 to: n do: [:i | | op v w | op := ops at: i. v := vs at: i. w := ws at: i. r := nil.
log at: i put: ([%s r] on: Error do: [:e | e return: #err])].
{log. %s}''' % (setup, body, final)
    def oracle(ops=None, vs=None, ws=None, _ops=ops):
        st = [list(x) if isinstance(x, list) else x for x in init] if isinstance(init, list) else init()
        log = []
        for o, v, w in zip(ops, vs, ws):
            try: log.append(_ops[o][1](st, v, w))
            except Fail: log.append(Sym('err'))
        return [log] + finalfn(st)
    wv = kw.pop('wvals', None) or F(0, 0)
    for f in range(len(ops)) if first else [None]:
        if f is None: kinds = AX([F(0, len(ops) - 1)] * k)
        else: kinds = AX([F(f, f)] + [F(0, len(ops) - 1)] * (k - 1))
        out.append(O('%s, %d operations%s' % (name, k, ' starting with %s' % ops[f][0] if f is not None else ''), dict(ops=kinds, vs=A(k, vals), ws=A(k, wv)), code, oracle,
                     bounds=bounds or 'every sequence of %d operations out of %d, every integer argument in [%s,%s]' % (k, len(ops), vals.lo, vals.hi), **dict(dict(paths=60000, time=100), **kw)))
    return out
