"""Symbolic integers/booleans over z3 and the depth-first path explorer (re-execution)."""
import time
import z3

class PathEnd(Exception): pass
class Infeasible(PathEnd): pass
class Unsupported(PathEnd): pass
class Limit(PathEnd): pass
class Cex(Exception):
    def __init__(self, model, what): self.model = model; self.what = what
class Timeout(Exception): pass

E = None        # current engine

def set_engine(e):
    global E
    E = e

def _ie(v):
    return v.e if type(v) is SInt else z3.IntVal(v)

def mk2(e, lo, hi, k):
    if lo == hi: return lo
    return SInt(e, lo, hi, k)

def mk(e, lo, hi):
    if lo == hi: return lo
    return SInt(e, lo, hi)

class SBool:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return E.decide(self.e)
    def __eq__(self, o): raise Unsupported('SBool ==')
    __hash__ = None
    def __repr__(self): return 'SBool(%s)' % self.e

def mkb(e):
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)

def be(b):
    if b is True: return z3.BoolVal(True)
    if b is False: return z3.BoolVal(False)
    return b.e

def Not(b):
    if type(b) is bool: return not b
    return SBool(z3.Not(b.e))
def And(*bs):
    out = []
    for b in bs:
        if b is False: return False
        if b is True: continue
        out.append(b.e)
    if not out: return True
    return SBool(out[0] if len(out) == 1 else z3.And(*out))
def Or(*bs):
    out = []
    for b in bs:
        if b is True: return True
        if b is False: continue
        out.append(b.e)
    if not out: return False
    return SBool(out[0] if len(out) == 1 else z3.Or(*out))
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if type(a) is bool: return b if a else Not(b)
    if type(b) is bool: return a if b else Not(a)
    return SBool(a.e == b.e)
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if type(a) is int and type(b) is int and a == b: return a
    la, ha = bounds(a); lb, hb = bounds(b)
    return mk(z3.If(c.e, _ie(a), _ie(b)), min(la, lb), max(ha, hb))

def bounds(v):
    return (v.lo, v.hi) if type(v) is SInt else (v, v)

class SInt:
    __slots__ = ('e', 'lo', 'hi', 'k')
    def __init__(self, e, lo, hi, k=None): self.e, self.lo, self.hi, self.k = e, lo, hi, k
    def __repr__(self): return 'SInt[%d,%d]' % (self.lo, self.hi)
    __hash__ = None
    def __bool__(self): raise Unsupported('truth of symbolic int')
    def __index__(self): return E.concretize(self)
    def __add__(self, o):
        if type(o) is int:
            if o == 0: return self
            k = self.k
            if k is not None and k[0] == 'add': return addc(k[1], k[2] + o)
            return addc(self, o)
        if type(o) is not SInt: return NotImplemented
        return mk(self.e + o.e, self.lo + o.lo, self.hi + o.hi)
    __radd__ = __add__
    def __sub__(self, o):
        if type(o) is int:
            return self + (-o)
        if type(o) is not SInt: return NotImplemented
        if self.e.eq(o.e): return 0
        return mk(self.e - o.e, self.lo - o.hi, self.hi - o.lo)
    def __rsub__(self, o):
        return mk(o - self.e, o - self.hi, o - self.lo)
    def __neg__(self): return mk(-self.e, -self.hi, -self.lo)
    def __mul__(self, o):
        if type(o) is int:
            if o == 0: return 0
            if o == 1: return self
            a, b = self.lo * o, self.hi * o
            if self.k is not None and self.k[0] == 'mul': return self.k[1] * (self.k[2] * o)
            return mk2(self.e * o, min(a, b), max(a, b), ('mul', self, o))
        if type(o) is not SInt: return NotImplemented
        c = (self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi)
        # keep nonlinear terms out when one side is tiny
        for x, y in ((self, o), (o, self)):
            if x.hi - x.lo <= 16:
                v = E.concretize(x)
                return y * v
        lo, hi = min(c), max(c)
        if self.e.eq(o.e): lo = max(lo, 0)
        return mk(self.e * o.e, lo, hi)
    __rmul__ = __mul__
    def __floordiv__(self, o): return divmod_floor(self, o)[0]
    def __rfloordiv__(self, o): return divmod_floor(o, self)[0]
    def __mod__(self, o): return divmod_floor(self, o)[1]
    def __rmod__(self, o): return divmod_floor(o, self)[1]
    def __divmod__(self, o): return divmod_floor(self, o)
    def __abs__(self):
        if self.lo >= 0: return self
        if self.hi <= 0: return -self
        return mk(z3.If(self.e >= 0, self.e, -self.e), 0, max(-self.lo, self.hi))
    def __lt__(self, o):
        if isinstance(o, float): raise Unsupported('int/float compare')
        l, h = bounds(o)
        if self.hi < l: return True
        if self.lo >= h: return False
        return SBool(self.e < _ie(o))
    def __le__(self, o):
        l, h = bounds(o)
        if self.hi <= l: return True
        if self.lo > h: return False
        return SBool(self.e <= _ie(o))
    def __gt__(self, o):
        l, h = bounds(o)
        if self.lo > h: return True
        if self.hi <= l: return False
        return SBool(self.e > _ie(o))
    def __ge__(self, o):
        l, h = bounds(o)
        if self.lo >= h: return True
        if self.hi < l: return False
        return SBool(self.e >= _ie(o))
    def __eq__(self, o):
        if type(o) is not int and type(o) is not SInt: return False
        l, h = bounds(o)
        if self.hi < l or self.lo > h: return False
        if type(o) is SInt and self.e.eq(o.e): return True
        return SBool(self.e == _ie(o))
    def __ne__(self, o): return Not(self.__eq__(o))
    def __and__(self, o): return bitand(self, o)
    __rand__ = __and__
    def __or__(self, o): return self + o - bitand(self, o)
    __ror__ = __or__
    def __xor__(self, o): return self + o - 2 * bitand(self, o)
    __rxor__ = __xor__
    def __invert__(self): return -1 - self
    def __lshift__(self, k): return shift(self, k)
    def __rlshift__(self, v): return shift(v, self)
    def __rshift__(self, k): return shift(self, -k)
    def __rrshift__(self, v): return shift(v, -self)

def addc(b, c):
    if c == 0: return b
    return SInt(b.e + c, b.lo + c, b.hi + c, ('add', b, c))

def shift(v, k):
    if type(k) is SInt: k = E.concretize(k)
    if type(v) is int: return v << k if k >= 0 else v >> -k
    if k >= 0: return v * (1 << k)
    return v // (1 << -k)

def divmod_floor(a, b):
    """floor division and modulo, b != 0 (decided before)"""
    if type(b) is SInt:
        if b.lo <= 0 <= b.hi:
            if (b == 0): raise ZeroDivisionError
        if b.hi - b.lo <= 12 or (type(a) is SInt and a.hi - a.lo > 4096 and b.hi - b.lo < 64):
            b = E.concretize(b)
        else:
            if b < 0:
                q, r = divmod_floor(-a, -b)
                return q, -r
            b = SInt(b.e, max(b.lo, 1), b.hi)
            la, ha = bounds(a)
            q = z3.simplify(_ie(a)) / b.e; r = _ie(a) % b.e
            c = (la // b.lo, la // b.hi, ha // b.lo, ha // b.hi)
            return mk(q, min(c), max(c)), mk(r, 0, min(b.hi - 1, max(ha, b.hi - 1) if la < 0 else ha))
    if type(a) is int: return divmod(a, b)
    if b == 0: raise ZeroDivisionError
    if b == 1: return a, 0
    if b < 0:
        q, r = divmod_floor(-a, -b)
        return q, -r
    if a.lo // b == a.hi // b:
        q = a.lo // b
        return q, a - q * b
    k = a.k
    if 4 * (a.hi - a.lo) < abs(a.lo) and abs(a.lo) >= 4096 and not (0 <= a.lo < b):
        c = (a.lo // b) * b           # narrow window: work on the offset from it
        q, r = divmod_floor(a - c, b)
        return q + c // b, r
    if k is None or k[0] == 'div' and k[1].lo // (k[2] * b) == k[1].hi // (k[2] * b):
        q = mk2(a.e / b, a.lo // b, a.hi // b, ('div', a, b))
        return q, SInt(a.e % b, 0, b - 1, ('mod', a, b))
    if k[0] == 'div':          # (x // c) // b
        q = k[1] // (k[2] * b)
        if type(q) is SInt: q = SInt(q.e, max(q.lo, a.lo // b), min(q.hi, a.hi // b), q.k)
        return q, SInt(a.e % b, 0, b - 1, ('mod', a, b))
    if k[0] == 'mul' and k[2] % b == 0:
        return k[1] * (k[2] // b), 0
    if k[0] == 'mul' and b % k[2] == 0 and k[2] > 0:
        q, r = divmod_floor(k[1], b // k[2])
        return q, r * k[2]
    if k[0] == 'mod' and k[2] % b == 0:
        q0, r0 = divmod_floor(k[1], b)
        if type(q0) is SInt: q0 = divmod_floor(q0, k[2] // b)[1]
        else: q0 = q0 % (k[2] // b)
        return q0, r0
    q = mk2(a.e / b, a.lo // b, a.hi // b, ('div', a, b))
    return q, SInt(a.e % b, 0, b - 1, ('mod', a, b))

def quorem(a, b):
    """truncating"""
    if type(a) is int and type(b) is int:
        if b == 0: raise ZeroDivisionError
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q, a - q * b
    if type(b) is SInt and (b == 0): raise ZeroDivisionError
    if type(b) is int and b == 0: raise ZeroDivisionError
    na = a < 0; nb = b < 0
    na = bool(na); nb = bool(nb)
    if type(a) is SInt: a = SInt(a.e, a.lo, min(a.hi, -1)) if na else SInt(a.e, max(a.lo, 0), a.hi)
    if type(b) is SInt: b = SInt(b.e, b.lo, min(b.hi, -1)) if nb else SInt(b.e, max(b.lo, 1), b.hi)
    aa = -a if na else a
    bb = -b if nb else b
    q, r = divmod_floor(aa, bb)
    if na != nb: q = -q
    if na: r = -r
    return q, r

def bitand(a, b):
    if type(a) is int: a, b = b, a
    if type(a) is int: return a & b
    if type(b) is int:
        if b == 0: return 0
        if b == -1: return a
        if b < 0: return a - bitand(a, ~b)
        res = 0; s = 0; m = b
        while m:
            while not m & 1: m >>= 1; s += 1
            w = 0
            while m & 1: m >>= 1; w += 1
            part = (a // (1 << s)) % (1 << w)
            res = res + part * (1 << s)
            s += w
        if type(res) is SInt: res = SInt(res.e, max(res.lo, 0), min(res.hi, b))
        return res
    # two symbolic operands
    n = max(a.lo.bit_length(), a.hi.bit_length(), b.lo.bit_length(), b.hi.bit_length())
    if b.hi - b.lo < 8: return bitand(a, E.concretize(b))
    if a.hi - a.lo < 8: return bitand(b, E.concretize(a))
    if n > 12:
        for x, y in ((a, b), (b, a)):
            fv = E.few(x)
            if fv is not None: return bitand(y, E.concretize(x))
    if n > 20: raise Unsupported('wide symbolic bitAnd')
    tot = z3.IntVal(0)
    for i in range(n):
        tot = tot + z3.If(z3.And((a.e / (1 << i)) % 2 == 1, (b.e / (1 << i)) % 2 == 1), 1 << i, 0)
    lo = 0
    if a.lo < 0 and b.lo < 0:
        tot = tot + z3.If(z3.And(a.e < 0, b.e < 0), -(1 << n), 0)
        lo = -(1 << n)
    return SInt(tot, lo, max(a.hi, b.hi, 0))

def ite_read(lst, idx, lo_index=0):
    """lst[idx] for integer-valued list (elements int or SInt); idx SInt within range."""
    lo, hi = max(idx.lo, 0), min(idx.hi, len(lst) - 1)
    # run-length segments: constant or slope one
    segs = []
    for i in range(lo, hi + 1):
        v = lst[i]
        if segs:
            s, k, base = segs[-1]
            if type(v) is int and type(base) is int:
                if k in (None, 0) and v == base: segs[-1] = (s, 0, base); continue
                if k in (None, 1) and v == base + (i - s): segs[-1] = (s, 1, base); continue
        segs.append((i, None, v))
    mn = min(bounds(v)[0] for v in lst[lo:hi + 1]); mx = max(bounds(v)[1] for v in lst[lo:hi + 1])
    def val(sg):
        s, k, base = sg
        if k == 1: return idx.e + (base - s)
        return _ie(base)
    e = val(segs[-1])
    for j in range(len(segs) - 2, -1, -1):
        e = z3.If(idx.e < segs[j + 1][0], val(segs[j]), e)
    return mk(e, mn, mx)

class Engine:
    def __init__(self, deadline=None, qtimeout=12000):
        self.solver = z3.Solver()
        self.solver.set('timeout', 2500)
        self.qtimeout = qtimeout
        self.log = []
        self.model = None
        self.deadline = deadline
        self.paths = 0; self.decisions = 0; self.queries = 0; self.solver_s = 0.0; self.asserts = 0
        self.unknown = 0
        self.inputs = {}
        self.covered = set()
        self.reset_path()
    def reset_path(self):
        self.pos = 0
        self.known = {}
        self.eqs = {}
        self.fresh = 0
        self.steps = 0
    # --- inputs
    def input(self, name, lo, hi):
        if lo == hi: return lo
        if name not in self.inputs:
            assert not self.log
            if 4 * (hi - lo) < abs(lo) and abs(lo) >= 4096:
                w = z3.Int(name)
                self.solver.add(w >= 0, w <= hi - lo)
                self.inputs[name] = (w + lo, lo, hi, addc(SInt(w, 0, hi - lo), lo))
            else:
                v = z3.Int(name)
                self.solver.add(v >= lo, v <= hi)
                self.inputs[name] = (v, lo, hi, SInt(v, lo, hi))
        return self.inputs[name][3]
    def check(self, *a):
        if self.deadline and time.time() > self.deadline: raise Timeout()
        t = time.time()
        r = self.solver.check(*a)
        self.queries += 1
        if r == z3.sat: self.lastm = self.solver.model
        elif r == z3.unknown:
            for conf in ('fresh', 'old'):
                if self.deadline and time.time() > self.deadline: break
                s = z3.Solver() if conf == 'fresh' else z3.SimpleSolver()
                if conf == 'old': s.set('arith.solver', 2)
                s.set('timeout', self.qtimeout)
                s.add(*self.solver.assertions()); s.add(*a)
                r = s.check()
                self.queries += 1
                if r == z3.sat: self.lastm = s.model
                if r != z3.unknown: break
        self.solver_s += time.time() - t
        return r
    def ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat: raise Infeasible()
            if r == z3.unknown:
                raise Limit('solver gave no answer for a path condition')
            self.model = self.lastm()
        return self.model
    def decide(self, cond):
        k = cond.get_id()
        got = self.known.get(k)
        if got is not None: return got[1]
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            self.pos += 1
            if not ent[0].eq(cond): raise Limit('non-deterministic re-execution')
            self._learn(k, cond, ent[1])
            return ent[1]
        self.decisions += 1
        if (self.decisions & 63) == 0 and self.deadline and time.time() > self.deadline: raise Timeout()
        m = self.ensure_model()
        ev = m.eval(cond, model_completion=True)
        v = z3.is_true(ev)
        if not v and not z3.is_false(ev):
            v = self.check(cond) == z3.sat
            if v: self.model = self.lastm()
        other = z3.Not(cond) if v else cond
        mine = cond if v else z3.Not(cond)
        r = self.check(other)
        if r == z3.unsat:
            self.log.append([cond, v, False, None, False])
        else:
            om = self.lastm() if r == z3.sat else None
            if r == z3.unknown: self.unknown += 1
            self.solver.push()
            self.solver.add(mine)
            self.log.append([cond, v, True, om, True])
        self.pos += 1
        self._learn(k, cond, v)
        return v
    def _learn(self, k, cond, v):
        self.known[k] = (cond, v)
        if v and z3.is_eq(cond):
            a, b = cond.arg(0), cond.arg(1)
            if z3.is_int_value(b): self.eqs[a.get_id()] = b.as_long()
            elif z3.is_int_value(a): self.eqs[b.get_id()] = a.as_long()
    def assume(self, b):
        if b is True: return
        if b is False: raise Infeasible()
        cond = b.e
        if self.pos < len(self.log):
            self.pos += 1
            self.known[cond.get_id()] = (cond, True)
            return
        self.solver.push(); self.solver.add(cond)
        self.log.append([cond, True, False, None, True])
        self.pos += 1
        self.known[cond.get_id()] = (cond, True)
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)): return
        self.model = None
        self.ensure_model()
    def concretize(self, v):
        if type(v) is not SInt: return v
        n = 0
        while True:
            c = self.eqs.get(v.e.get_id())
            if c is not None: return c
            if self.pos < len(self.log):
                cond = self.log[self.pos][0]
                # the decision was  v == k
                c = self._const_of(cond, v)
                if c is None: raise Limit('non-deterministic re-execution (concretize)')
            else:
                # already determined on this path?
                m = self.ensure_model()
                c = m.eval(v.e, model_completion=True).as_long()
            if self.decide(v.e == c): return c
            n += 1
            if n > 600: raise Limit('too many values to enumerate')
    def _const_of(self, cond, v):
        if z3.is_eq(cond):
            a, b = cond.arg(0), cond.arg(1)
            if z3.is_int_value(b) and a.eq(v.e): return b.as_long()
            if z3.is_int_value(a) and b.eq(v.e): return a.as_long()
        return None
    def few(self, v, n=4):
        """the values v can take on this path, or None when there are more than n"""
        vals = []
        self.solver.push()
        try:
            while len(vals) <= n:
                r = self.check()
                if r == z3.unsat: return vals
                if r == z3.unknown: return None
                c = self.lastm().eval(v.e, model_completion=True).as_long()
                vals.append(c)
                self.solver.add(v.e != c)
        finally: self.solver.pop()
        return None
    def choose(self, n, name='c'):
        """nondeterministic choice 0..n-1 (schedules, faults)"""
        raise NotImplementedError
    def must(self, b, what=''):
        """in-path assertion for all values on this path"""
        self.asserts += 1
        if b is True: return
        if b is False:
            self.ensure_model()
            raise Cex(self.model, what)
        k = self.known.get(b.e.get_id())
        if k is not None and k[1]: return
        r = self.check(z3.Not(b.e))
        if r == z3.unsat: return
        if r == z3.sat: raise Cex(self.lastm(), what)
        raise Limit('solver gave no answer for an assertion: ' + what)
    def valuation(self, m=None):
        m = m or self.model
        out = {}
        for n, (v, lo, hi, _) in self.inputs.items():
            x = m.eval(v, model_completion=True)
            out[n] = x.as_long() if z3.is_int_value(x) else lo
            if not lo <= out[n] <= hi: out[n] = lo
        return out
    def advance(self):
        """backtrack to the next unexplored path; False when done"""
        while self.log:
            cond, v, pending, om, scoped = self.log[-1]
            if scoped: self.solver.pop()
            if pending:
                self.solver.push()
                self.solver.add(z3.Not(cond) if v else cond)
                self.log[-1] = [cond, not v, False, None, True]
                self.model = om
                return True
            self.log.pop()
        return False
