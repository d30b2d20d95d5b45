"""Smalltalk object model and compiler (Smalltalk AST -> Python functions) for symbolic execution."""
import os, re, sys
import z3
from . import sym
from .sym import SInt, SBool, Unsupported, Limit
from .parser import Lexer, Parser, load_files, ParseError

REPO = os.environ.get('VP_REPO', '/repo')
SMALL_MIN, SMALL_MAX = -(1 << 62), (1 << 62) - 1

class FailT:
    pass
FAIL = FailT()

class STObj:
    __slots__ = ('cls', 'f', 'x', 'h', 'ro')
    def __init__(self, cls, f, x):
        self.cls = cls; self.f = f; self.x = x; self.h = None; self.ro = False
    def __repr__(self):
        if self.cls.shape in ('character', 'utf32') and self.x is not None:
            try: return "%s'%s'" % (self.cls.name, ''.join(map(chr, self.x)))
            except TypeError: return '%s(%r)' % (self.cls.name, self.x)
        return '<%s %r>' % (self.cls.name, self.x if self.x is not None else '')

class Char:
    __slots__ = ('v', 'uni')
    def __init__(self, v, uni=False): self.v = v; self.uni = uni
    def __repr__(self): return '$<%r>' % self.v

class STBlock:
    __slots__ = ('fn', 'n', 'rcv', 'h')
    def __init__(self, fn, n, rcv): self.fn = fn; self.n = n; self.rcv = rcv; self.h = None

class STClass:
    def __init__(self, name, ns, sup, meta):
        self.name = name; self.ns = ns; self.sup = sup; self.meta = meta
        self.ivars = []; self.ivmap = {}; self.shape = None
        self.d = None; self.cls = None; self.inst = None
        self.f = None; self.x = None; self.cache = {}; self.h = None
        self.own = {}
    @property
    def fullname(self): return self.name if self.ns == 'Smalltalk' else self.ns + '.' + self.name
    def key(self): return (self.inst.fullname + ' class') if self.meta else self.fullname
    def __repr__(self): return 'class ' + self.key()
    def inherits(self, o):
        c = self
        while c is not None:
            if c is o: return True
            c = c.sup
        return False

class Namespace:
    def __init__(self, name): self.name = name; self.h = None

# ---------------------------------------------------------------- control flow
class STUnwind(Exception): pass
class NLR(STUnwind):
    def __init__(self, tok, val): self.tok = tok; self.val = val
class ExReturn(STUnwind):
    def __init__(self, h, v): self.h = h; self.v = v
class ExRetry(STUnwind):
    def __init__(self, h, blk=None): self.h = h; self.blk = blk
class ExResume(STUnwind):
    def __init__(self, ex, v): self.ex = ex; self.v = v
class Terminate(STUnwind):
    """the active statement is terminated by an unhandled error"""
    def __init__(self, cls, text): self.cls = cls; self.text = text

class World: pass
W = World()
NATIVE = {}          # (class key, selector) -> function(self, *args)
PRIM = {}            # primitive name -> function(self, *args) -> value or FAIL
NATIVE_GLOBALS = {}

def native(cls, *sels):
    def deco(fn):
        for s in sels: NATIVE[(cls, s)] = fn
        return fn
    return deco
def prim(*names):
    def deco(fn):
        for n in names: PRIM['VMpr_' + n] = fn
        return fn
    return deco

def boot(extra=()):
    src = open(REPO + '/libgst/files.c').read()
    m = re.search(r'standard_files\[\]\s*=\s*\{(.*?)\};', src, re.S)
    fs = [f.replace('\\0', '') for f in re.findall(r'"([^"]*)"', m.group(1))]
    paths = [REPO + '/kernel/' + f for f in fs if f.endswith('.st')]
    db, ev = load_files(paths + [p for p in extra])
    for d in db.values():
        for a in ('ns', 'superns'):
            v = getattr(d, a, None)
            if v and v.startswith('Smalltalk.'): setattr(d, a, v[10:])
    W.db, W.evals = db, ev
    W.classes = {}
    W.cvars = {}
    W.cv0 = {}
    W.hashes = {}; W.exstate = {}; W.exkeep = []
    W.globals = {}
    W.symbols = {}
    W.touched = set()
    W.handlers = ()
    W.hashctr = 0
    dc = open(REPO + '/libgst/dict.c').read()
    cshape = {}
    for m in re.finditer(r'GST_ISP_(\w+),\s*(?:true|false),\s*\d+,\s*"(\w+)"', dc):
        cshape[m.group(2)] = {'FIXED': None, 'POINTER': 'pointer', 'CHARACTER': 'character', 'UCHAR': 'byte', 'ULONG': 'uint64', 'UTF32': 'utf32', 'INTMARK': None}.get(m.group(1), m.group(1).lower())
    W.cshape = cshape
    def mkcls(full):
        if full in W.classes: return W.classes[full]
        d = db[full]
        sup = None
        if d.super not in (None, 'nil'):
            sn = d.super
            cands = [sn]
            if '.' not in sn:
                for ns in (d.superns, d.ns):
                    if ns and ns != 'Smalltalk': cands.insert(0, ns + '.' + sn)
            elif sn.startswith('Smalltalk.'): cands.append(sn[10:])
            for c in cands:
                if c in db: sup = mkcls(c); break
            else:
                return None
        c = STClass(d.name, d.ns or 'Smalltalk', sup, False)
        W.classes[full] = c
        c.d = d
        c.ivars = (list(sup.ivars) if sup else []) + list(d.ivars)
        c.ivmap = {n: i for i, n in enumerate(c.ivars)}
        if d.shape: c.shape = d.shape
        elif d.name in cshape and c.ns == 'Smalltalk': c.shape = cshape[d.name]
        elif sup: c.shape = sup.shape
        return c
    for full in list(db): mkcls(full)
    C = W.classes
    classcls = C['Class']
    for full, c in C.items():
        m = STClass(c.name + ' class', c.ns, None, True)
        m.inst = c; c.cls = m; m.d = c.d
    for full, c in C.items():
        c.cls.sup = c.sup.cls if c.sup else classcls
        c.cls.cls = C['Metaclass']
    def setiv(m):
        if m.ivmap or getattr(m, 'done', None): return
        m.done = True
        if m.sup.meta: setiv(m.sup)
        m.ivars = list(m.sup.ivars) + list(m.inst.d.civars)
        m.ivmap = {n: i for i, n in enumerate(m.ivars)}
        m.inst.f = [None] * len(m.ivars)
    for c in C.values(): setiv(c.cls)
    for n in ('SmallInteger', 'LargePositiveInteger', 'LargeNegativeInteger', 'True', 'False', 'UndefinedObject', 'Character',
              'UnicodeCharacter', 'FloatD', 'BlockClosure', 'String', 'Symbol', 'Array', 'ByteArray', 'Class', 'Metaclass', 'Object', 'Message', 'Exception', 'UnicodeString', 'LargeZeroInteger'):
        setattr(W, n, C.get(n))
    W.ns = {'Smalltalk': Namespace('Smalltalk')}
    for c in C.values():
        if c.ns not in W.ns: W.ns[c.ns] = Namespace(c.ns)
    W.ns.setdefault('SystemExceptions', Namespace('SystemExceptions'))
    W.ns.setdefault('Kernel', Namespace('Kernel'))

def define(src):
    """load extra class definitions from source text"""
    import tempfile
    raise NotImplementedError

# ---------------------------------------------------------------- values
def cls_of(v):
    t = type(v)
    if t is STObj: return v.cls
    if t is int:
        if SMALL_MIN <= v <= SMALL_MAX: return W.SmallInteger
        return W.LargePositiveInteger if v > 0 else W.LargeNegativeInteger
    if t is SInt:
        if SMALL_MIN <= v.lo and v.hi <= SMALL_MAX: return W.SmallInteger
        if v > SMALL_MAX: return W.LargePositiveInteger
        if v < SMALL_MIN: return W.LargeNegativeInteger
        return W.SmallInteger
    if t is bool: return W.True_ if v else W.False_
    if v is None: return W.UndefinedObject
    if t is STClass: return v.cls
    if t is Char: return W.UnicodeCharacter if v.uni else W.Character
    if t is STBlock: return W.BlockClosure
    if t is float: return W.FloatD
    if t is Namespace: return W.classes['Namespace'] if v.name != 'Smalltalk' else W.classes['SystemDictionary']
    if t is SBool: return W.True_ if v else W.False_
    raise Unsupported('class of %r' % (v,))

def truth(v):
    if v is True or v is False: return v
    if type(v) is SBool: return sym.E.decide(v.e)
    send(v, 'mustBeBoolean')
    raise Unsupported('non-boolean receiver')

def ident(a, b):
    ta, tb = type(a), type(b)
    if ta is SBool: a = bool(a); ta = bool
    if tb is SBool: b = bool(b); tb = bool
    if ta is SInt or tb is SInt:
        if ta in (int, SInt) and tb in (int, SInt): return a == b
        return False
    if ta is int or ta is float: return tb is ta and a == b
    if ta is Char:
        if tb is not Char or a.uni != b.uni: return False
        return a.v == b.v
    return a is b

def lookup(c, sel):
    k = c
    while k is not None:
        fn = NATIVE.get((k.key(), sel))
        if fn is not None: break
        d = k.inst.d.cmethods if k.meta else (k.d.methods if k.d else {})
        md = d.get(sel)
        if md is not None:
            fn = k.own.get(sel)
            if fn is None:
                fn = compile_method(md, k)
                k.own[sel] = fn
            break
        k = k.sup
    else:
        fn = None
    c.cache[sel] = fn
    return fn

STEPLIMIT = 400000
def send(r, sel, *a):
    if type(r) is SBool: r = bool(r)
    c = cls_of(r)
    try: fn = c.cache[sel]
    except KeyError: fn = lookup(c, sel)
    if fn is None: return dnu(r, sel, a)
    e = sym.E
    e.steps += 1
    if e.steps > STEPLIMIT: raise Limit('step limit')
    return fn(r, *a)

def supersend(c, r, sel, *a):
    if type(r) is SBool: r = bool(r)
    c = c.sup
    if c is None: return dnu(r, sel, a)
    try: fn = c.cache[sel]
    except KeyError: fn = lookup(c, sel)
    if fn is None: return dnu(r, sel, a)
    return fn(r, *a)

def dnu(r, sel, a):
    if os.environ.get('ST_DNU'): print('DNU', r, cls_of(r).name, sel, a)
    m = STObj(W.Message, [None] * len(W.Message.ivars), None)
    m.f[W.Message.ivmap['selector']] = symbol(sel)
    m.f[W.Message.ivmap['args']] = mkarray(list(a))
    return send(r, 'doesNotUnderstand:', m)

def tick():
    e = sym.E
    e.steps += 1
    if e.steps > STEPLIMIT: raise Limit('step limit')

def ro(o): o.ro = True; return o
def mkarray(lst): return STObj(W.Array, [], lst)
def mkstr(s): return STObj(W.String, [], [ord(c) for c in s] if isinstance(s, str) else list(s))
def mkbytes(b): return STObj(W.ByteArray, [], list(b))
def symbol(s):
    o = W.symbols.get(s)
    if o is None:
        o = STObj(W.Symbol, [], [ord(c) for c in s])
        o.h = (sum((i + 1) * ord(c) for i, c in enumerate(s)) * 7919) & 0xffffff
        W.symbols[s] = o
    return o
def pystr(o):
    """concrete Python string of a string-like object"""
    return ''.join(chr(sym.E.concretize(c)) for c in o.x)
def isstr(o): return type(o) is STObj and o.cls.shape == 'character'

def giv(o, i):
    t = type(o)
    if t is Char: return o.v
    if t is STBlock: raise Unsupported('block internals')
    return o.f[i]
def piv(o, i, v):
    if type(o) in (Char, STBlock, int, SInt): raise Unsupported('immediate state')
    o.f[i] = v
    if type(o) is STClass: W.touched.add(o)
    return v

# arithmetic fast paths: small integers whose result is certainly small
def _small(a):
    t = type(a)
    return t is int and SMALL_MIN <= a <= SMALL_MAX or t is SInt and SMALL_MIN <= a.lo and a.hi <= SMALL_MAX
def o_add(a, b):
    if type(a) in INTS and type(b) in INTS:
        r = a + b
        if _small(a) and _small(b) and _small(r): return r
    return send(a, '+', b)
def o_sub(a, b):
    if type(a) in INTS and type(b) in INTS:
        r = a - b
        if _small(a) and _small(b) and _small(r): return r
    return send(a, '-', b)
INTS = (int, SInt)
def o_mul(a, b):
    if type(a) in INTS and type(b) in INTS and _small(a) and _small(b):
        r = a * b
        if _small(r): return r
    return send(a, '*', b)
def _cmp(sel, op):
    def f(a, b):
        if type(a) in INTS and type(b) in INTS and _small(a) and _small(b): return op(a, b)
        return send(a, sel, b)
    return f
import operator as _op
o_lt = _cmp('<', _op.lt); o_gt = _cmp('>', _op.gt); o_le = _cmp('<=', _op.le); o_ge = _cmp('>=', _op.ge)
o_eq = _cmp('=', _op.eq); o_ne = _cmp('~=', _op.ne)
FAST = {'+': 'o_add', '-': 'o_sub', '*': 'o_mul', '<': 'o_lt', '>': 'o_gt', '<=': 'o_le', '>=': 'o_ge', '=': 'o_eq', '~=': 'o_ne'}

# ---------------------------------------------------------------- globals
def resolve(name, c):
    """returns ('const', value) | ('cvar', key) | ('glob', name) | None"""
    base = c.inst if c.meta else c
    parts = name.split('.')
    if len(parts) == 1:
        k = base
        while k is not None:
            if k.d and name in k.d.cvars: return ('cvar', (k, name))
            k = k.sup
        k = base
        while k is not None:
            if k.d:
                for imp in k.d.imports or ():
                    t = W.classes.get(imp) or W.classes.get(k.ns + '.' + imp)
                    if t is not None and name in t.d.cvars: return ('cvar', (t, name))
            k = k.sup
        k = base
        seen = []
        while k is not None:
            if k.ns not in seen: seen.append(k.ns)
            k = k.sup
        for ns in seen + ['Smalltalk']:
            full = name if ns == 'Smalltalk' else ns + '.' + name
            if full in W.classes: return ('const', W.classes[full])
            if ns != 'Smalltalk':
                pass
        if name in W.ns: return ('const', W.ns[name])
        return ('glob', name)
    if parts[0] == 'Smalltalk': parts = parts[1:]
    full = '.'.join(parts)
    if full in W.classes: return ('const', W.classes[full])
    if full in W.ns: return ('const', W.ns[full])
    # relative to the namespace
    if base.ns != 'Smalltalk' and base.ns + '.' + full in W.classes: return ('const', W.classes[base.ns + '.' + full])
    pre = '.'.join(parts[:-1])
    if pre in W.classes:
        k = W.classes[pre]
        while k is not None:
            if parts[-1] in k.d.cvars: return ('cvar', (k, parts[-1]))
            k = k.sup
    return ('glob', full)

def getcv(key):
    try: return W.cvars[key]
    except KeyError: pass
    k, name = key
    init = k.d.cvars.get(name)
    W.cvars[key] = None
    if init is not None:
        src, a, b, f = init
        W.cvars[key] = evaluate(src[a:b], k.cls)
    W.cv0[key] = W.cvars[key]
    # a class-side initialize run at load time
    nm = k.name.split('.')[-1]
    if not getattr(k, 'cinit', False) and nm in W.loadinit:
        k.cinit = True
        d0, h0 = W.dirty, W.handlers
        send(k, 'initialize')
        W.dirty, W.handlers = d0, h0
        for q, x in W.cvars.items():
            if q[0] is k: W.cv0[q] = x
    return W.cvars[key]

def setcv(key, v):
    W.cvars[key] = v
    W.dirty = True
    return v

def getglobal(name):
    if name in W.globals: return W.globals[name]
    if name in NATIVE_GLOBALS:
        v = NATIVE_GLOBALS[name]()
        W.globals[name] = v
        return v
    if name == 'Smalltalk': return W.ns['Smalltalk']
    raise Unsupported('global ' + name)
def setglobal(name, v):
    W.globals[name] = v
    return v

def unsup(msg): raise Unsupported(msg)

# ---------------------------------------------------------------- compiler
class Fn:
    def __init__(self, parent, meth):
        self.parent, self.meth = parent, meth
        self.lines = []; self.ind = 1
        self.nonlocals = set(); self.locals = []
    def emit(self, s): self.lines.append('    ' * self.ind + s)

class CompileError(Exception): pass

class MethodCompiler:
    def __init__(self, c, name):
        self.c = c            # class the method is defined in
        self.name = name
        self.n = 0
        self.consts = {}
        self.scopes = []      # list of dict name -> (pyname, Fn, assignable)
        self.nlr = False
        self.usetok = False
    def fresh(self, p='t'):
        self.n += 1
        return '%s%d' % (p, self.n)
    def const(self, v):
        k = 'K%d' % len(self.consts)
        self.consts[k] = v
        return k
    def find(self, n):
        for s in reversed(self.scopes):
            if n in s: return s[n]
        return None
    def ivar(self, n): return self.c.ivmap.get(n)

    def method(self, params, temps, stmts, primname):
        fn = Fn(None, self)
        self.root = fn
        sc = {}
        args = []
        for p in params:
            py = 'p%d_%s' % (len(args), p); args.append(py); sc[p] = (py, fn, False)
        self.scopes.append(sc)
        for t in temps:
            py = self.fresh('v'); sc[t] = (py, fn, True); fn.locals.append(py)
        fn.ind = 2
        self.statements(fn, stmts, None, top=True)
        if not stmts or stmts[-1][0] != 'ret': fn.emit('return self')
        out = ['def m(%s):' % ', '.join(['self'] + args)]
        if primname:
            out.append('    r = %s(%s)' % (self.const(PRIM.get(primname) or _noprim(primname)), ', '.join(['self'] + args)))
            out.append('    if r is not FAIL: return r')
        if fn.locals: out.append('    ' + ' = '.join(fn.locals) + ' = None')
        if self.nlr:
            out.append('    tok = [True]')
            out.append('    try:')
            out += fn.lines
            out.append('    except NLR as e_:')
            out.append('        if e_.tok is not tok: raise')
            out.append('        return e_.val')
            out.append('    finally: tok[0] = False')
        else:
            out.append('    if True:')
            out += fn.lines
        return '\n'.join(out) + '\n'

    def statements(self, fn, stmts, target, top=False):
        """emit statements; when target given, assign the value of the last one to it. Returns False if control cannot fall through."""
        if not stmts:
            if target: fn.emit('%s = None' % target)
            return True
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            if s[0] == 'ret':
                a = self.expr(fn, s[1])
                self.ret(fn, a)
                return False
            a = self.expr(fn, s, want=last and target is not None)
            if last and target: fn.emit('%s = %s' % (target, a))
        return True

    def ret(self, fn, a):
        if fn.parent is None: fn.emit('return %s' % a)
        else:
            self.nlr = True
            fn.emit('if not tok[0]: unsup("return from a dead method context")')
            fn.emit('raise NLR(tok, %s)' % a)

    # an atom is 'stable' unless it names an assignable variable
    def simple(self, e):
        return e[0] in ('int', 'float', 'char', 'str', 'sym', 'lit', 'bytes', 'var')
    def args(self, fn, es):
        out = []
        for i, e in enumerate(es):
            a = self.expr(fn, e)
            if not all(self.simple(x) for x in es[i + 1:]) and e[0] == 'var' and a not in ('self', 'None', 'True', 'False'):
                v = self.find(e[1])
                if v and v[2]:
                    t = self.fresh(); fn.emit('%s = %s' % (t, a)); a = t
            out.append(a)
        return out

    def readvar(self, fn, n):
        if n in ('self', 'super'): return 'self'
        if n == 'nil': return 'None'
        if n == 'true': return 'True'
        if n == 'false': return 'False'
        if n == 'thisContext':
            return 'thiscontext()'
        v = self.find(n)
        if v: return v[0]
        i = self.ivar(n)
        if i is not None:
            t = self.fresh()
            fn.emit('%s = %s' % (t, 'giv(self, %d)' % i if self.c.name in ('Object', 'Magnitude', 'Character', 'UnicodeCharacter', 'BlockClosure') else 'self.f[%d]' % i))
            return t
        r = resolve(n, self.c)
        if r[0] == 'const': return self.const(r[1])
        t = self.fresh()
        if r[0] == 'cvar': fn.emit('%s = getcv(%s)' % (t, self.const(r[1])))
        else: fn.emit('%s = getglobal(%r)' % (t, r[1]))
        return t

    def assign(self, fn, n, a):
        v = self.find(n)
        if v:
            if v[1] is not fn: fn.nonlocals.add(v[0])
            fn.emit('%s = %s' % (v[0], a)); return
        i = self.ivar(n)
        if i is not None:
            fn.emit('piv(self, %d, %s)' % (i, a) if self.c.meta or self.c.name in ('Character', 'BlockClosure', 'Object') else 'self.f[%d] = %s' % (i, a)); return
        r = resolve(n, self.c)
        if r[0] == 'cvar': fn.emit('setcv(%s, %s)' % (self.const(r[1]), a))
        else: fn.emit('setglobal(%r, %s)' % (n, a))

    def expr(self, fn, e, want=True):
        k = e[0]
        if k == 'var': return self.readvar(fn, e[1])
        if k == 'int': return repr(e[1]) if e[1] >= 0 else '(%r)' % e[1]
        if k == 'float': return self.const(float(e[1]))
        if k == 'scaled':
            t = self.fresh(); fn.emit('%s = mkscaled(%r, %r, %r)' % (t, e[1], e[2], e[3])); return t
        if k == 'char': return self.const(Char(e[1], e[1] > 127))
        if k == 'str': return self.const(ro(mkstr(e[1])))
        if k == 'sym': return self.const(symbol(e[1]))
        if k == 'bytes': return self.const(ro(mkbytes(e[1])))
        if k == 'lit': return self.const(self.literal(e))
        if k == 'bind':
            t = self.fresh(); fn.emit('%s = binding(%r, %s)' % (t, e[1], self.const(self.c))); return t
        if k == 'ctc':
            t = self.fresh(); fn.emit('%s = ctc(%s)' % (t, self.const([self.c, e, FAIL]))); return t
        if k == 'asg':
            a = self.expr(fn, e[2])
            self.assign(fn, e[1], a)
            return a if not a.startswith('v') else a
        if k == 'brace':
            xs = self.args(fn, e[1])
            t = self.fresh(); fn.emit('%s = mkarray([%s])' % (t, ', '.join(xs))); return t
        if k == 'block': return self.block(fn, e)
        if k == 'casc': return self.cascade(fn, e)
        if k == 'send': return self.sendx(fn, e, want)
        if k == 'ret':
            a = self.expr(fn, e[1]); self.ret(fn, a); return 'None'
        raise CompileError('expr ' + k)

    def literal(self, e):
        if e[0] == 'bind': return ro(mkarray([]))   # a variable binding inside a literal array: only its identity is kept
        k = e[0]
        if k == 'int': return e[1]
        if k == 'float': return float(e[1])
        if k == 'char': return Char(e[1], e[1] > 127)
        if k == 'str': return ro(mkstr(e[1]))
        if k == 'sym': return symbol(e[1])
        if k == 'bytes': return ro(mkbytes(e[1]))
        if k == 'lit': return ro(mkarray([self.literal(x) for x in e[1]]))
        if k == 'var':
            return {'nil': None, 'true': True, 'false': False}.get(e[1], symbol(e[1])) if True else None
        raise CompileError('literal ' + k)

    def block(self, fn, e):
        _, params, temps, stmts = e
        b = Fn(fn, self)
        b.ind = 1
        sc = {}
        args = []
        for p in params:
            py = self.fresh('b'); args.append(py); sc[p] = (py, b, False)
        for t in temps:
            py = self.fresh('v'); sc[t] = (py, b, True); b.locals.append(py)
        self.scopes.append(sc)
        res = self.fresh('r')
        ft = self.statements(b, stmts, res)
        self.scopes.pop()
        name = self.fresh('blk')
        fn.emit('def %s(%s):' % (name, ', '.join(args)))
        if b.nonlocals - set(b.locals):
            nl = b.nonlocals - set(b.locals)
            # names owned by outer functions
            fn.emit('    nonlocal ' + ', '.join(sorted(nl)))
            for x in nl:
                if not self.owned(fn, x): fn.nonlocals.add(x)
        if b.locals: fn.emit('    ' + ' = '.join(b.locals) + ' = None')
        for l in b.lines: fn.lines.append('    ' * fn.ind + l)
        if ft: fn.emit('    return %s' % res)
        elif not b.lines: fn.emit('    pass')
        t = self.fresh()
        fn.emit('%s = STBlock(%s, %d, self)' % (t, name, len(params)))
        return t
    def owned(self, fn, py):
        if py in fn.locals: return True
        for s in self.scopes:
            for v in s.values():
                if v[0] == py: return v[1] is fn
        return False

    def inline_block(self, fn, blk, target, args=()):
        """inline a literal block with given arg atoms; returns whether control falls through"""
        _, params, temps, stmts = blk
        sc = {}
        for p, a in zip(params, args): sc[p] = (a, fn, False)
        for t in temps:
            py = self.fresh('v'); sc[t] = (py, fn, True); fn.locals.append(py)
            fn.emit('%s = None' % py)
        self.scopes.append(sc)
        n0 = len(fn.lines)
        ft = self.statements(fn, stmts, target)
        self.scopes.pop()
        if len(fn.lines) == n0: fn.emit('pass')
        return ft

    def isblk(self, e, n=0): return e[0] == 'block' and len(e[1]) == n

    def cond(self, fn, r, parts, want):
        """parts: list of (pytest or None, block or atom-expr)"""
        t = self.fresh()
        first = True
        for test, body in parts:
            fn.emit(('if %s:' if first else 'elif %s:') % test if test else 'else:')
            first = False
            fn.ind += 1
            n0 = len(fn.lines)
            if body is None: fn.emit('%s = None' % t)
            elif isinstance(body, str): fn.emit('%s = %s' % (t, body))
            elif body[0] == 'block': self.inline_block(fn, body, t)
            else:
                a = self.expr(fn, body); fn.emit('%s = %s' % (t, a))
            fn.ind -= 1
        return t

    def sendx(self, fn, e, want=True):
        _, rcv, sel, args = e
        isuper = rcv == ('var', 'super')
        B = self.isblk
        if not isuper:
            if sel in ('ifTrue:', 'ifFalse:') and B(args[0]):
                r = self.expr(fn, rcv)
                return self.cond(fn, r, [(('truth(%s)' if sel == 'ifTrue:' else 'not truth(%s)') % r, args[0]), (None, None)], want)
            if sel in ('ifTrue:ifFalse:', 'ifFalse:ifTrue:') and B(args[0]) and B(args[1]):
                r = self.expr(fn, rcv)
                return self.cond(fn, r, [(('truth(%s)' if sel[2] == 'T' else 'not truth(%s)') % r, args[0]), (None, args[1])], want)
            if sel in ('and:', 'or:') and B(args[0]):
                r = self.expr(fn, rcv)
                if sel == 'and:': return self.cond(fn, r, [('truth(%s)' % r, args[0]), (None, 'False')], want)
                return self.cond(fn, r, [('truth(%s)' % r, 'True'), (None, args[0])], want)
            if sel in ('ifNil:', 'ifNotNil:', 'ifNil:ifNotNil:', 'ifNotNil:ifNil:') and all(a[0] == 'block' for a in args):
                ok = True
                parts = dict(zip(sel.split(':')[:-1], args))
                nb, nnb = parts.get('ifNil'), parts.get('ifNotNil')
                if nb is not None and len(nb[1]): ok = False
                if nnb is not None and len(nnb[1]) > 1: ok = False
                if ok:
                    a = self.expr(fn, rcv)
                    r = self.fresh('v'); fn.locals.append(r); fn.emit('%s = %s' % (r, a))
                    t = self.fresh()
                    fn.emit('if %s is None:' % r)
                    fn.ind += 1
                    if nb is None: fn.emit('%s = None' % t)
                    else: self.inline_block(fn, nb, t)
                    fn.ind -= 1
                    fn.emit('else:')
                    fn.ind += 1
                    if nnb is None: fn.emit('%s = %s' % (t, r))
                    else: self.inline_block(fn, nnb, t, [r])
                    fn.ind -= 1
                    return t
            if sel in ('whileTrue:', 'whileFalse:', 'whileTrue', 'whileFalse', 'repeat') and B(rcv) and (not args or B(args[0])):
                fn.emit('while True:')
                fn.ind += 1
                fn.emit('tick()')
                if sel == 'repeat':
                    self.inline_block(fn, rcv, None)
                else:
                    t = self.fresh()
                    if self.inline_block(fn, rcv, t):
                        fn.emit(('if not truth(%s): break' if 'True' in sel else 'if truth(%s): break') % t)
                        if args: self.inline_block(fn, args[0], None)
                fn.ind -= 1
                return 'None'
            if sel == 'to:do:' and B(args[1], 1) or sel == 'to:by:do:' and B(args[2], 1) and args[1][0] == 'int' and args[1][1] != 0:
                blk = args[-1]
                a0, a1 = self.args(fn, [rcv, args[0]])
                i = self.fresh('v'); fn.locals.append(i)
                fn.emit('%s = %s' % (i, a0))
                lim = self.fresh(); fn.emit('%s = %s' % (lim, a1))
                step = args[1][1] if sel == 'to:by:do:' else 1
                fn.emit('while True:')
                fn.ind += 1
                fn.emit('tick()')
                fn.emit('if not truth(%s(%s, %s)): break' % ('o_le' if step > 0 else 'o_ge', i, lim))
                self.inline_block(fn, blk, None, [i])
                fn.emit('%s = o_add(%s, %d)' % (i, i, step))
                fn.ind -= 1
                return a0
            if sel == 'timesRepeat:' and B(args[0]):
                a0 = self.expr(fn, rcv)
                i = self.fresh()
                lim = self.fresh(); fn.emit('%s = %s' % (lim, a0))
                fn.emit('%s = 1' % i)
                fn.emit('while True:')
                fn.ind += 1
                fn.emit('tick()')
                fn.emit('if not truth(o_le(%s, %s)): break' % (i, lim))
                self.inline_block(fn, args[0], None)
                fn.emit('%s = o_add(%s, 1)' % (i, i))
                fn.ind -= 1
                return lim
        xs = self.args(fn, [rcv] + list(args))
        t = self.fresh()
        fn.emit('%s = %s' % (t, self.sendcode(isuper, xs, sel)))
        return t

    def sendcode(self, isuper, xs, sel):
        if isuper: return 'supersend(%s, self, %s)' % (self.const(self.c), ', '.join([repr(sel)] + xs[1:]))
        if sel == '==': return 'ident(%s, %s)' % (xs[0], xs[1])
        if sel == 'isNil': return '(%s is None)' % xs[0]
        if sel == 'notNil': return '(%s is not None)' % xs[0]
        if sel in FAST: return '%s(%s, %s)' % (FAST[sel], xs[0], xs[1])
        return 'send(%s)' % ', '.join([xs[0], repr(sel)] + xs[1:])

    def cascade(self, fn, e):
        _, rcv, msgs = e
        isuper = rcv == ('var', 'super')
        a = self.expr(fn, rcv)
        r = self.fresh('v'); fn.locals.append(r); fn.emit('%s = %s' % (r, a))
        name = ' casc%d' % self.n
        self.scopes.append({name: (r, fn, False)})
        res = 'None'
        for sel, args in msgs:
            res = self.sendx(fn, ('send', ('var', 'super') if isuper else ('var', name), sel, args))
        self.scopes.pop()
        return res

def _noprim(n):
    def f(*a): raise Unsupported('primitive ' + n)
    return f

ENCODED = set()
def genv():
    g = dict(globals())
    return g

def finish_compile(mc, code, label):
    g = W.genv
    ns = dict(g)
    ns.update(mc.consts)
    try:
        exec(compile(code, label, 'exec'), ns)
    except SyntaxError as ex:
        raise Unsupported('codegen: %s in %s' % (ex, label))
    return ns['m']

def compile_method(md, c):
    label = '%s>>%s' % (c.key(), md.sel)
    try:
        temps, stmts, primname, prag = md.ast()
        mc = MethodCompiler(c, md.sel)
        code = mc.method(md.params, temps, stmts, primname)
    except (ParseError, CompileError) as ex:
        msg = 'cannot compile %s: %s' % (label, ex)
        def bad(*a): raise Unsupported(msg)
        return bad
    if os.environ.get('ST_DUMP') == label: print(code)
    ENCODED.add(label)
    fn = finish_compile(mc, code, label)
    return fn

def compile_snippet(src, names, c=None):
    """compile Smalltalk statements with free variables `names` to a Python function"""
    c = c or W.UndefinedObject
    lx = Lexer(src)
    temps, stmts, prag = Parser(lx).body('')
    if stmts and stmts[-1][0] != 'ret': stmts = list(stmts[:-1]) + [('ret', stmts[-1])]
    mc = MethodCompiler(c, 'doit')
    code = mc.method(names, temps, stmts, None)
    if os.environ.get('ST_DUMP') == 'doit': print(code)
    return finish_compile(mc, code, 'doit')

def evaluate(src, c=None):
    fn = compile_snippet(src, [], c)
    return fn(None if c is None or not c.meta else c.inst)

def ctc(cell):
    if cell[2] is FAIL:
        c, e, _ = cell
        mc = MethodCompiler(c, 'ctc')
        st = list(e[2])
        if st and st[-1][0] != 'ret': st = st[:-1] + [('ret', st[-1])]
        code = mc.method([], e[1], st, None)
        cell[2] = finish_compile(mc, code, 'ctc')(c.inst if c.meta else None)
    return cell[2]

def binding(name, c):
    raise Unsupported('variable binding literal')

def mkscaled(num, den, scale):
    return send(W.classes['ScaledDecimal'], 'newFromNumber:scale:', num if den == 1 else send(num, '/', den), scale)

def thiscontext():
    return CONTEXT
class ContextStub:
    pass
CONTEXT = None

def init(extra=()):
    boot(extra)
    W.True_ = W.classes['True']; W.False_ = W.classes['False']
    om = open(REPO + '/kernel/ObjMemory.st').read()
    m = re.search(r'ObjectMemory class >> initialize \[(.*?)\n    \]', om, re.S)
    W.loadinit = set(re.findall(r'(\w+) initialize\b', m.group(1) if m else ''))
    for (f, a, b, ns, src) in W.evals: W.loadinit |= set(re.findall(r'(\w+) initialize\b', src[a:b]))
    W.evals4 = [(f, s) for (f, a, b, ns, src) in W.evals for s in [src[a:b]]]
    from . import prims
    W.genv = dict(globals())
    W.genv.update(prims.EXPORT)
    W.dirty = False

def reset_path():
    """restore class-level state changed by the previous path"""
    W.handlers = ()
    W.hashes = {}; W.exstate = {}; W.exkeep = []
    if W.dirty or W.touched:
        W.cvars = dict(W.cv0)
        W.dirty = False
        for c in W.touched: c.f = list(c.f0) if getattr(c, 'f0', None) else [None] * len(c.f)
        W.touched = set()
