"""Obligations over Smalltalk code: symbolic inputs, a snippet, an oracle; solver verdict, replay on the real gst."""
import os, sys, time, json, subprocess, tempfile, shutil, threading, multiprocessing, traceback, hashlib
import z3
from . import sym, vm, prims
from .sym import SInt, SBool, Engine, divmod_floor, And, Or, Not, Implies, Iff, If, Infeasible, Unsupported, Limit, Cex, Timeout
from .vm import STObj, Char, STBlock, STUnwind, Terminate, W

sys.setrecursionlimit(200000)

# canonical values -----------------------------------------------------------
class Str:
    def __init__(self, c): self.c = [ord(x) for x in c] if isinstance(c, str) else list(c)
    def __repr__(self):
        try: return repr(''.join(map(chr, self.c)))
        except TypeError: return 'Str%r' % (self.c,)
class Sym:
    def __init__(self, s): self.s = s
    def __repr__(self): return '#' + self.s
class Ch:
    def __init__(self, v): self.v = v
    def __repr__(self): return '$<%r>' % (self.v,)
class Err:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Err(%s)' % self.n
class Obj:
    def __init__(self, n): self.n = n
    def __repr__(self): return 'a ' + self.n
class Bytes(Str): pass
ANY = object()
NOANS = object()      # the real image gave no answer for this case

def canon(v):
    t = type(v)
    if t in (int, bool, SInt, SBool, float) or v is None: return v
    if t is prims.Big: return v.v
    if t is Char: return Ch(v.v)
    if t is STObj:
        if v.cls is W.Symbol: return Sym(vm.pystr(v))
        if v.cls.name == 'String': return Str(v.x)
        if v.cls.name == 'UnicodeString': return Str(v.x)
        if v.cls.name == 'ByteArray': return Bytes(v.x)
        if v.cls.name == 'Array': return [canon(x) for x in v.x]
        return Obj(v.cls.name.split('.')[-1])
    if t is vm.STClass: return Obj('Metaclass' if v.meta else v.key().split('.')[-1])
    if t is STBlock: return Obj('BlockClosure')
    return Obj(str(t))

def eqv(a, b):
    """condition that result a equals expectation b"""
    if b is ANY: return True
    if isinstance(b, Err):
        if not isinstance(a, Err): return False
        return b.n == '*' or a.n in b.n.split('|')
    if isinstance(a, Err): return False
    if callable(b): return b(a)
    if isinstance(b, (list, tuple)):
        if not isinstance(a, list) or len(a) != len(b): return False
        return And(*[eqv(x, y) for x, y in zip(a, b)])
    if type(b) in (bool, SBool):
        if type(a) not in (bool, SBool): return False
        return Iff(a, b)
    if type(b) in (int, SInt):
        if type(a) not in (int, SInt): return False
        return a == b
    if b is None: return a is None
    if isinstance(b, float): return isinstance(a, float) and a == b
    if isinstance(b, str): b = Str(b)
    if isinstance(b, Bytes) != isinstance(a, Bytes): return False
    if isinstance(b, Str):
        if not isinstance(a, Str) or len(a.c) != len(b.c): return False
        return And(*[x == y for x, y in zip(a.c, b.c)])
    if isinstance(b, Sym): return isinstance(a, Sym) and a.s == b.s
    if isinstance(b, Ch): return a.v == b.v if isinstance(a, Ch) else False
    if isinstance(b, Obj): return isinstance(a, Obj) and a.n == b.n
    raise ValueError('bad expectation %r' % (b,))

# inputs ----------------------------------------------------------------------
class Inp:
    def split(self, v): return v
class I(Inp):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def make(self, n, E): return E.input(n, self.lo, self.hi)
    def conc(self, n, val): return val.get(n, self.lo)
    def src(self, v):
        if v == vm.SMALL_MIN: return '(%d - 1)' % (v + 1)
        return str(v) if v >= 0 else '(%d)' % v
    def obj(self, v): return v
class F(I):
    """a small integer window, case-split by the solver at the start of the path"""
    def split(self, v):
        for c in range(self.lo, self.hi):
            if bool(v == c): return c
        return self.hi
class B(Inp):
    def make(self, n, E):
        v = E.input(n, 0, 1)
        return sym.mkb(v.e == 1)
    def conc(self, n, val): return val.get(n, 0) == 1
    def src(self, v): return 'true' if v else 'false'
    def obj(self, v): return v
class C(Inp):
    def __init__(self, lo=0, hi=127): self.lo, self.hi = lo, hi
    def make(self, n, E): return Ch(E.input(n, self.lo, self.hi))
    def conc(self, n, val): return Ch(val.get(n, self.lo))
    def src(self, v): return '(Character codePoint: %d)' % v.v
    def obj(self, v): return prims.mkuni(v.v)
class S(Inp):
    """string of fixed length with character codes in a range (or from an alphabet string)"""
    def __init__(self, n, lo=32, hi=126, alpha=None): self.n, self.lo, self.hi, self.alpha = n, lo, hi, alpha
    def make(self, n, E):
        if self.alpha:
            idx = [E.input('%s_%d' % (n, i), 0, len(self.alpha) - 1) for i in range(self.n)]
            al = [ord(c) for c in self.alpha]
            return Str([sym.ite_read(al, i) if type(i) is SInt else al[i] for i in idx])
        return Str([E.input('%s_%d' % (n, i), self.lo, self.hi) for i in range(self.n)])
    def conc(self, n, val):
        if self.alpha: return Str([ord(self.alpha[val.get('%s_%d' % (n, i), 0)]) for i in range(self.n)])
        return Str([val.get('%s_%d' % (n, i), self.lo) for i in range(self.n)])
    def src(self, v):
        if all(32 <= c < 127 and c != 39 for c in v.c): return "'%s' copy" % ''.join(map(chr, v.c)) if v.c else 'String new'
        return '(#[%s] asString)' % ' '.join(map(str, v.c))
    def obj(self, v): return STObj(W.String, [], list(v.c))
class BA(S):
    def __init__(self, n, lo=0, hi=255): S.__init__(self, n, lo, hi)
    def make(self, n, E): return Bytes(S.make(self, n, E).c)
    def conc(self, n, val): return Bytes(S.conc(self, n, val).c)
    def src(self, v): return '#[%s] copy' % ' '.join(map(str, v.c))
    def obj(self, v): return STObj(W.ByteArray, [], list(v.c))
class A(Inp):
    """array of n inputs of the same kind"""
    def __init__(self, n, kind): self.n, self.kind = n, kind
    def make(self, n, E): return [self.kind.make('%s_%d' % (n, i), E) for i in range(self.n)]
    def conc(self, n, val): return [self.kind.conc('%s_%d' % (n, i), val) for i in range(self.n)]
    def split(self, v): return [self.kind.split(x) for x in v]
    def src(self, v): return '{%s}' % '. '.join(self.kind.src(x) for x in v)
    def obj(self, v): return vm.mkarray([self.kind.obj(x) for x in v])
class AX(A):
    """array of inputs of the given kinds"""
    def __init__(self, kinds): self.kinds = kinds; self.n = len(kinds)
    def make(self, n, E): return [k.make('%s_%d' % (n, i), E) for i, k in enumerate(self.kinds)]
    def conc(self, n, val): return [k.conc('%s_%d' % (n, i), val) for i, k in enumerate(self.kinds)]
    def split(self, v): return [k.split(x) for k, x in zip(self.kinds, v)]
    def src(self, v): return '{%s}' % '. '.join(k.src(x) for k, x in zip(self.kinds, v))
    def obj(self, v): return vm.mkarray([k.obj(x) for k, x in zip(self.kinds, v)])
class P(I):
    """one of the given integers"""
    def __init__(self, vals): self.vals = sorted(set(vals)); self.lo, self.hi = self.vals[0], self.vals[-1]
    def make(self, n, E): return sym.ite_read(self.vals, E.input(n, 0, len(self.vals) - 1))
    def conc(self, n, val): return self.vals[val.get(n, 0)]
class PF(P):
    """one of the given integers, case-split by the solver"""
    def split(self, v):
        for c in self.vals[:-1]:
            if bool(v == c): return c
        return self.vals[-1]
class K(Inp):
    """a constant"""
    def __init__(self, v): self.v = v
    def make(self, n, E): return self.v
    def conc(self, n, val): return self.v
    def src(self, v): return str(v)
    def obj(self, v): return v

class O:
    """an obligation.  code may be a string, or a dict choice computed from a driver (see Hist)"""
    def __init__(self, name, inputs, code, oracle, pre=None, bounds='', paths=4000, time=40, thorough=False, encodes=(), defs=(), steps=None, hang=False, summ=()):
        self.name, self.inputs, self.code, self.oracle, self.pre = name, inputs, code, oracle, pre
        self.bounds, self.paths, self.time, self.thorough = bounds, paths, time, thorough
        self.steps = steps
        self.hang = hang
        self.summ = summ     # calls replaced by their specification (decided by another property)

class ErrSig(STUnwind):
    def __init__(self, n): self.n = n

def run_code(fn, args):
    def handler(ex): raise ErrSig(vm.cls_of(ex).name.split('.')[-1])
    try:
        err = W.classes['Error']
        r = prims.on_do(STBlock(lambda: fn(None, *args), 0, None), err, STBlock(handler, 1, None))
        return canon(r)
    except ErrSig as e: return Err(e.n)
    except Terminate as t: return Err(t.cls.name.split('.')[-1])
    except RecursionError: raise Limit('recursion')

def describe(v, m):
    """evaluate a canonical symbolic value under a model, as text"""
    return repr(evalm(v, m))
def evalm(v, m):
    t = type(v)
    if t is SInt: return m.eval(v.e, model_completion=True).as_long()
    if t is SBool: return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, Str): return type(v)([evalm(x, m) for x in v.c])
    if isinstance(v, Ch): return Ch(evalm(v.v, m))
    if isinstance(v, list): return [evalm(x, m) for x in v]
    return v

class Result: pass

def sum_gcd(a, b):
    a = prims.liv(a); b = prims.liv(b)
    if type(a) is SInt and type(b) is SInt:
        if a.hi - a.lo > b.hi - b.lo: b = sym.E.concretize(b)
        else: a = sym.E.concretize(a)
    if type(a) is int: a, b = b, a
    if type(a) is int:
        import math
        return math.gcd(a, b)
    b = abs(b)
    if b == 0: return If(a >= 0, a, 0 - a)
    for d in range(b, 0, -1):
        if b % d == 0 and (d == 1 or bool(divmod_floor(a, d)[1] == 0)): return d
SUMMARIES = {('SmallInteger', 'gcd:'): sum_gcd}
GCD = (('SmallInteger', 'gcd:'),)
_DEADLINE = 1e18

def solve(o, seed=1, tmul=1.0):
    """explore all paths of one obligation; runs in a worker process"""
    r = Result()
    r.name = o.name
    r.cex = []; r.weird = []; r.samples = []; r.status = 'PASS'; r.detail = ''
    t0 = time.time()
    E = Engine(deadline=min(t0 + o.time * tmul, _DEADLINE))
    sym.set_engine(E)
    vm.STEPLIMIT = o.steps or 400000
    ninc = 0
    for c, sel in o.summ: W.classes[c].cache[sel] = SUMMARIES[c, sel]
    try:
        names = list(o.inputs)
        code = o.code
        fn = None
        if isinstance(code, str):
            try: fn = vm.compile_snippet(code, names)
            except Exception as ex:
                r.status = 'INCONCLUSIVE'; r.detail = 'snippet: %r' % ex
                raise Timeout
        E.model = None
        while True:
            E.reset_path(); vm.reset_path()
            E.paths += 1
            try:
                ins = {n: k.make(n, E) for n, k in o.inputs.items()}
                ins = {n: k.split(ins[n]) for n, k in o.inputs.items()}
                if o.pre is not None: E.assume(o.pre(**ins))
                args = [k.obj(ins[n]) for n, k in o.inputs.items()]
                try:
                    if not E.log: E.ensure_model()
                    got = run_code(fn, args)
                    exp = o.oracle(**ins)
                    cond = eqv(got, exp)
                    E.must(cond, '')
                    if len(r.samples) < 3 or (len(r.samples) < 6 and (E.paths % 97) == 0):
                        E.ensure_model()
                        r.samples.append((E.valuation(), describe(got, E.model)))
                except Cex as c:
                    r.cex.append((E.valuation(c.model), 'got %s, expected %s' % (describe(got, c.model), describe(exp, c.model) if not callable(exp) else 'a value satisfying the specification')))
                except (Unsupported, Limit) as u:
                    E.ensure_model()
                    ninc += 1
                    r.weird.append((E.valuation(), type(u).__name__ + ': ' + str(u)))
                    if os.environ.get('ST_TRACE'): traceback.print_exc()
            except Infeasible:
                pass
            if len(r.cex) >= 3 or len(r.weird) >= 12: break
            if E.paths >= o.paths:
                if E.advance(): r.status = 'INCONCLUSIVE'; r.detail = 'path budget %d' % o.paths
                break
            if not E.advance(): break
    except Timeout:
        if r.status == 'PASS': r.status = 'INCONCLUSIVE'; r.detail = 'time budget %.0f s after %d paths' % (o.time * tmul, E.paths)
    except Limit as l:
        r.status = 'INCONCLUSIVE'; r.detail = str(l)
    except Exception as ex:
        r.status = 'INCONCLUSIVE'; r.detail = 'engine: %s' % traceback.format_exc()[-1500:]
    if r.weird and r.status == 'PASS': r.status = 'INCONCLUSIVE'; r.detail = '%d path(s) undecided: %s' % (ninc, r.weird[0][1])
    if r.cex: r.status = 'CEX'
    r.paths, r.decisions, r.queries, r.solver_s, r.asserts, r.unknown = E.paths, E.decisions, E.queries, E.solver_s, E.asserts, E.unknown
    r.time = time.time() - t0
    r.encoded = sorted(vm.ENCODED)
    return r

# ---------------------------------------------------------------- real gst
PRELUDE = r'''
Object subclass: VP [
    VP class >> put: x on: s [
        x isNil ifTrue: [^s nextPutAll: 'n'].
        x == true ifTrue: [^s nextPutAll: 't'].
        x == false ifTrue: [^s nextPutAll: 'f'].
        x isInteger ifTrue: [^s nextPutAll: 'i', (x printString: 10)].
        x isSymbol ifTrue: [s nextPut: $y. ^self codes: x asString on: s].
        (x class == String or: [x class == UnicodeString]) ifTrue: [s nextPut: $s. ^self codes: x on: s].
        x class == ByteArray ifTrue: [s nextPut: $b. ^self codes: x on: s].
        x isFloat ifTrue: [(x = x and: [x asFloatD = x and: [(x - x) = 0]]) ifFalse: [^s nextPutAll: 'oFloat']. ^s nextPutAll: 'd', (x asExactFraction numerator printString: 10), '/', (x asExactFraction denominator printString: 10)].
        x isCharacter ifTrue: [^s nextPutAll: 'c', (x value printString: 10)].
        x class == Array ifTrue: [
            s nextPutAll: '( '.
            1 to: x size do: [:i | self put: (x at: i) on: s. s nextPut: $ ].
            ^s nextPut: $)].
        x isClass ifTrue: [^s nextPutAll: 'o'; nextPutAll: x printString].
        s nextPutAll: 'o'; nextPutAll: x class printString
    ]
    VP class >> codes: x on: s [
        1 to: x size do: [:i | | c | c := x at: i. s nextPutAll: ((c isInteger ifTrue: [c] ifFalse: [c value]) printString: 10); nextPut: $,]
    ]
    VP class >> run: id block: b args: a [
        | r s |
        Transcript flush.
        s := WriteStream on: (String new: 100).
        r := [self put: (b valueWithArguments: a) on: s. nil]
            on: Error do: [:e | e return: e class name].
        r isNil ifFalse: [s := WriteStream on: (String new: 10). s nextPutAll: 'e'; nextPutAll: r].
        Transcript nl; nextPutAll: 'VP:', (id printString: 10), ' ', s contents; nl; flush
    ]
]
'''
def parse_out(t):
    toks = t.split()
    pos = [0]
    def p():
        k = toks[pos[0]]; pos[0] += 1
        if k == 'n': return None
        if k == 't': return True
        if k == 'f': return False
        if k[0] == 'i': return int(k[1:])
        if k[0] == 'd': a, b = k[1:].split('/'); return int(a) / int(b)
        if k[0] == 's': return Str([int(x) for x in k[1:].split(',') if x])
        if k[0] == 'b': return Bytes([int(x) for x in k[1:].split(',') if x])
        if k[0] == 'y': return Sym(''.join(chr(int(x)) for x in k[1:].split(',') if x))
        if k[0] == 'c': return Ch(int(k[1:]))
        if k[0] == 'e': return Err(k[1:])
        if k[0] == '(':
            out = []
            while toks[pos[0]] != ')': out.append(p())
            pos[0] += 1
            return out
        return Obj(k[1:].split('.')[-1] if k[0] == 'o' else k)
    return p()

class Real:
    """the built VM with an image made from the current kernel sources"""
    def __init__(self, extra=()):
        self.extra = list(extra)
        self.dir = tempfile.mkdtemp(prefix='vp-st-')
        self.err = None
        self.exe = os.path.join(vm.REPO, 'gst')
        self.ready = threading.Event()
        threading.Thread(target=self._build, daemon=True).start()
    def _build(self):
        try:
            open(self.dir + '/e.st', 'w').write('Transcript showCr: \'ok\'!\n'.replace('!', ''))
            p = subprocess.run([self.exe, '-i', '--kernel-directory=' + vm.REPO + '/kernel', '-I', self.dir + '/gst.im', self.dir + '/e.st'],
                               cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180,
                               env=dict(os.environ, HOME=self.dir))
            if not os.path.exists(self.dir + '/gst.im'): self.err = p.stdout.decode('latin1')[-500:]
        except Exception as ex: self.err = repr(ex)
        self.ready.set()
    def run(self, text, timeout=60):
        self.ready.wait()
        if self.err: return None, self.err
        f = tempfile.NamedTemporaryFile('w', suffix='.st', dir=self.dir, delete=False, encoding='latin1')
        f.write(PRELUDE + text); f.close()
        try:
            p = subprocess.run([self.exe, '-I', self.dir + '/gst.im', '--kernel-directory=' + vm.REPO + '/kernel'] + self.extra + [f.name], cwd=self.dir, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, HOME=self.dir))
            return p.stdout.decode('latin1'), None
        except subprocess.TimeoutExpired as ex:
            return (ex.stdout or b'').decode('latin1'), 'timeout'
    def batch(self, items, timeout=90):
        """items: list of (obligation, valuation); returns list of canonical results, None (no answer), or 'HANG'"""
        res = [NOANS] * len(items)
        todo = list(range(len(items)))
        rounds = 0
        while todo and rounds < 6:
            rounds += 1
            txt = []
            for i in todo:
                o, val = items[i]
                txt.append(case_text(i, o, val))
            out, err = self.run('\n'.join(txt), timeout)
            if out is None: return res
            for line in out.splitlines():
                if line.startswith('VP:'):
                    k, _, rest = line[3:].partition(' ')
                    try: res[int(k)] = parse_out(rest)
                    except Exception: pass
            left = [i for i in todo if res[i] is NOANS]
            if not left: break
            # the first case without answer hung or crashed the VM
            bad = left[0]
            o, val = items[bad]
            out1, err1 = self.run(case_text(bad, o, val), 15)
            for line in (out1 or '').splitlines():
                if line.startswith('VP:%d ' % bad):
                    try: res[bad] = parse_out(line.partition(' ')[2])
                    except Exception: pass
            if res[bad] is NOANS: res[bad] = 'HANG' if err1 == 'timeout' else 'DIED'
            todo = [i for i in left if i != bad]
            timeout = 40
        return res
    def close(self):
        self.ready.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

def case_text(i, o, val):
    names = list(o.inputs)
    args = [k.src(k.conc(n, val)) for n, k in o.inputs.items()]
    return 'Eval [ VP run: %d block: [%s %s\n] args: {%s} ]' % (i, ' '.join(':' + n for n in names) + (' |' if names else ''), o.code, '. '.join(args))

class NoEngine:
    steps = 0
    def decide(self, e): raise Unsupported('symbolic in concrete oracle')
    def concretize(self, v): return v

def expected(o, val):
    sym.set_engine(NoEngine())
    ins = {n: k.conc(n, val) for n, k in o.inputs.items()}
    return o.oracle(**ins)

def inputs_text(o, val):
    return ', '.join('%s=%s' % (n, k.src(k.conc(n, val))) for n, k in o.inputs.items())

_OB = None
def _work(args):
    i, seed, tmul = args
    out = []
    def go(): out.append(solve(_OB[i], seed, tmul))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=go)
    t.start(); t.join()
    return i, out[0] if out else None

VPST = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vp.st')
def run_obligations(ctx, obls, extra=()):
    """Engine B driver"""
    global _OB, _DEADLINE
    import vplib
    extra = [VPST] + [os.path.join(vm.REPO, p) for p in extra]
    real = Real(extra)
    t0 = time.time()
    _DEADLINE = t0 + (780 if ctx.thorough else 240)
    obls = [o for o in obls if ctx.thorough or not o.thorough]
    vm.init(extra)
    _OB = obls
    mp = multiprocessing.get_context('fork')
    results = {}
    tmul = 4.0 if ctx.thorough else 1.0
    with mp.Pool(min(vplib.NCPU, max(1, len(obls))), maxtasksperchild=1) as pool:
        order = sorted(range(len(obls)), key=lambda i: -obls[i].time)
        for i, r in pool.imap_unordered(_work, [(i, ctx.seed, tmul) for i in order], 1):
            results[i] = r
    # replay
    items = []
    for i, o in enumerate(obls):
        r = results[i]
        if r is None: continue
        for val, what in r.cex: items.append((i, 'cex', val, what))
        for val, what in r.weird[:4]: items.append((i, 'weird', val, what))
        for val, what in r.samples[:2 if len(obls) > 40 else 3]: items.append((i, 'sample', val, what))
    got = real.batch([(obls[i], v) for i, k, v, w in items])
    if real.err: ctx.notes.append('image build failed: ' + real.err)
    confirmed = {}
    mism = {}
    for (i, kind, val, what), g in zip(items, got):
        o = obls[i]
        if g is NOANS: continue
        try:
            exp = expected(o, val)
            bad = (g in ('HANG', 'DIED')) if isinstance(g, str) else not bool(eqv(g, exp))
        except Exception as ex:
            ctx.notes.append('oracle of %s on %s: %r' % (o.name, val, ex)); continue
        if bad:
            etxt = repr(exp) if not callable(exp) else 'a value satisfying the specification'
            confirmed.setdefault(i, []).append((val, kind, 'with %s the real image answers %r, expected %s' % (inputs_text(o, val), g, etxt)))
        elif kind == 'cex':
            mism.setdefault(i, []).append('counterexample not reproduced: %s; %s; real %r' % (inputs_text(o, val), what, g))
        elif kind == 'sample':
            if isinstance(g, (list, Str, Ch, Sym, Err, int, bool, float)) or g is None:
                if repr(g) == what: ctx.validated += 1
                elif not isinstance(g, Obj): ctx.notes.append('engine/VM disagree in %s on %s: %s vs real %r' % (o.name, inputs_text(o, val), what, g))
    for i, o in enumerate(obls):
        r = results[i]
        if r is None:
            ctx.obligation(o.name, 'INCONCLUSIVE', o.bounds, detail='worker died'); continue
        ctx.states += r.paths; ctx.transitions += r.decisions; ctx.queries += r.queries; ctx.solver_s += r.solver_s
        ctx.functions.update(r.encoded)
        kw = dict(time=round(r.time, 2), paths=r.paths, decisions=r.decisions, queries=r.queries, assertions=r.asserts)
        if i in confirmed:
            new = False
            for val, kind, txt in confirmed[i][:3]:
                new |= ctx.violation(o.name, txt, dict(snippet=o.code, inputs={n: k.src(k.conc(n, val)) for n, k in o.inputs.items()}, found_by=kind, script=PRELUDE + case_text(1, o, val)))
            ctx.obligation(o.name, 'CEX' if new else 'KNOWN', o.bounds, detail=confirmed[i][0][2], **kw)
        elif r.status == 'CEX':
            ctx.obligation(o.name, 'INCONCLUSIVE', o.bounds, detail=(mism.get(i) or ['counterexample not replayed'])[0], **kw)
        else:
            ctx.obligation(o.name, r.status, o.bounds, detail=r.detail, **kw)
    real.close()
    return results
