"""Parser for GNU Smalltalk sources (bracket class syntax), giving class definitions
whose method bodies are parsed lazily into small tuple-ASTs."""
import re

class ParseError(Exception):
    pass

BINCH = set('+-*/\\<>=~@%|&?,!')
TOK_RE = re.compile(r'''
   (?P<ws>(?:\s+|"[^"]*")+)
 | (?P<num>(?:\d+r-?[0-9A-Z_]+(?:\.[0-9A-Z]+)?(?:[edqs](?:[0-9_]+|-[0-9_]+)?)?)|(?:\d[\d_]*(?:\.\d[\d_]*)?(?:[edqs](?:-?[0-9_]+)?(?![a-zA-Z]))?))
 | (?P<kw>[A-Za-z_][A-Za-z0-9_]*:(?!=))
 | (?P<id>[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*)
 | (?P<char>\$(?:<\s*[0-9][^>]*>|[\s\S]))
 | (?P<str>'(?:[^']|'')*')
 | (?P<symstr>\#'(?:[^']|'')*')
 | (?P<symkw>\#(?:[A-Za-z_][A-Za-z0-9_.]*:?)(?:[A-Za-z_][A-Za-z0-9_]*:)*)
 | (?P<hash2>\#\#\()
 | (?P<litarr>\#\()
 | (?P<bytearr>\#\[)
 | (?P<bind>\#\{[^}]*\})
 | (?P<scopearr>\#\{)
 | (?P<symbin>\#[+\-*/\\<>=~@%|&?,!]+)
 | (?P<assign>:=)
 | (?P<bin>[+\-*/\\<>=~@%|&?,!]+)
 | (?P<p>[()\[\]{}.;^:!])
''', re.X)

class Lexer:
    def __init__(self, s, pos=0, end=None):
        self.s = s
        self.pos = pos
        self.end = len(s) if end is None else end
        self.toks = []      # list of (kind, text, start)
        self.i = 0
        self._lex()

    def _lex(self):
        s, pos, end = self.s, self.pos, self.end
        out = self.toks
        m = TOK_RE.match
        while pos < end:
            g = m(s, pos, end)
            if not g:
                raise ParseError('lex error at %d: %r' % (pos, s[pos:pos+30]))
            k = g.lastgroup
            t = g.group()
            if k == 'id' and '.' in t and False:
                pass
            if k != 'ws':
                if k == 'bin' and len(t) > 1 and t[-1] == '-' and g.end() < end and s[g.end()].isdigit():
                    # e.g. "a>-1": split off the minus sign
                    t = t[:-1]
                    out.append((k, t, pos)); pos += len(t); continue
                if k == 'bin' and t == '||':
                    out.append(('bin', '|', pos)); out.append(('bin', '|', pos+1)); pos = g.end(); continue
                out.append((k, t, pos))
            pos = g.end()
        out.append(('eof', '', end))

def parse_number(t):
    """-> ('int', v) | ('float', v, kind) | ('scaled', num, den, scale)"""
    t = t.replace('_', '')
    m = re.match(r'^(\d+)r(-?)([0-9A-Z]+)(?:\.([0-9A-Z]+))?(?:([edqs])(-?\d*))?$', t)
    radix = 10
    if m:
        radix = int(m.group(1)); neg = m.group(2); ip = m.group(3); fp = m.group(4); ec = m.group(5); ev = m.group(6)
    else:
        m = re.match(r'^(-?)(\d+)(?:\.(\d+))?(?:([edqs])(-?\d*))?$', t)
        if not m:
            raise ParseError('number ' + t)
        neg, ip, fp, ec, ev = m.groups()
    num = int(ip, radix)
    den = 1
    if fp:
        num = num * radix ** len(fp) + int(fp, radix)
        den = radix ** len(fp)
    if neg == '-':
        num = -num
    if ec == 's':
        return ('scaled', num, den, int(ev) if ev else (len(fp) if fp else 0))
    ex = int(ev) if ev not in (None, '', '-') else 0
    if ec in ('d', 'q', 'e') or fp is not None:
        from fractions import Fraction
        v = Fraction(num, den) * Fraction(radix) ** ex
        return ('float', float(v), ec or 'd')
    if ex >= 0:
        return ('int', num * radix ** ex)
    from fractions import Fraction
    return ('float', float(Fraction(num) * Fraction(radix) ** ex), 'd')

class Parser:
    """Statement/expression parser over a Lexer."""
    def __init__(self, lx):
        self.lx = lx
        self.t = lx.toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k]

    def nxt(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def isp(self, ch):
        t = self.t[self.i]
        return t[1] == ch and t[0] in ('p', 'bin')

    def expect(self, ch):
        t = self.nxt()
        if t[1] != ch:
            raise ParseError('expected %r got %r at %d' % (ch, t, t[2]))
        return t

    # ---- statements
    def body(self, stop):
        """temps + statements until the token `stop` (not consumed).
        -> (temps, stmts, pragmas)"""
        temps, stmts, prag = [], [], []
        while True:
            t = self.peek()
            if t[1] == stop and t[0] in ('p', 'eof'):
                break
            if t[0] == 'eof':
                if stop == '':
                    break
                raise ParseError('eof')
            if t[0] == 'bin' and t[1] == '|':
                self.nxt()
                while not self.isp('|'):
                    temps.append(self.nxt()[1])
                self.nxt()
                continue
            if t[0] == 'bin' and t[1] == '<' and self.peek(1)[0] == 'kw':
                prag.append(self.pragma())
                continue
            if t[0] == 'p' and t[1] in '.!':
                self.nxt()
                continue
            stmts.append(self.statement())
        return temps, stmts, prag

    def pragma(self):
        self.expect('<')
        out = []
        while not (self.peek()[0] == 'bin' and self.peek()[1].startswith('>')):
            k = self.nxt()
            if k[0] == 'id' or k[0] == 'bin':
                continue
            if k[0] != 'kw':
                raise ParseError('pragma %r' % (k,))
            # value: a primary, possibly a sequence
            v = self.pragma_value()
            out.append((k[1], v))
        self.nxt()
        return out

    def pragma_value(self):
        # binary operators cannot start with '>' here
        t = self.peek()
        if t[0] == 'id':
            self.nxt()
            v = ('var', t[1])
            # e.g. <shape: CSymbols.CLongSize ...> keep simple
            return v
        return self.primary()

    def statement(self):
        t = self.peek()
        if t[1] == '^' and t[0] == 'p':
            self.nxt()
            return ('ret', self.expression())
        return self.expression()

    def expression(self):
        t = self.peek()
        if t[0] == 'id' and self.peek(1)[0] == 'assign':
            name = self.nxt()[1]
            self.nxt()
            return ('asg', name, self.expression())
        return self.cascade()

    def cascade(self):
        e = self.keyword()
        if self.isp(';'):
            # receiver of the last message in e
            if e[0] != 'send':
                raise ParseError('cascade on non-send at %d' % self.peek()[2])
            rcv = e[1]
            msgs = [(e[2], e[3])]
            while self.isp(';'):
                self.nxt()
                msgs.append(self.message())
            return ('casc', rcv, msgs)
        return e

    def message(self):
        t = self.peek()
        if t[0] == 'id':
            self.nxt()
            return (t[1], [])
        if t[0] == 'bin':
            self.nxt()
            op = t[1]
            arg = self.unary()
            return (op, [arg])
        if t[0] == 'kw':
            sel = ''
            args = []
            while self.peek()[0] == 'kw':
                sel += self.nxt()[1]
                args.append(self.binary())
            return (sel, args)
        raise ParseError('message %r' % (t,))

    def keyword(self):
        e = self.binary()
        if self.peek()[0] == 'kw':
            sel = ''
            args = []
            while self.peek()[0] == 'kw':
                sel += self.nxt()[1]
                args.append(self.binary())
            e = ('send', e, sel, args)
        return e

    def binary(self):
        e = self.unary()
        while self.peek()[0] == 'bin':
            op = self.nxt()[1]
            e = ('send', e, op, [self.unary()])
        return e

    def unary(self):
        e = self.primary()
        while self.peek()[0] == 'id' and self.peek(1)[0] != 'assign':
            t = self.nxt()
            if '.' in t[1]:
                # "foo.\nbar" cannot reach here (dot followed by space); "x y.z" is odd
                raise ParseError('dotted unary %r at %d' % (t[1], t[2]))
            e = ('send', e, t[1], [])
        return e

    def primary(self):
        t = self.nxt()
        k = t[0]
        if k == 'id':
            return ('var', t[1])
        if k == 'num':
            return self.numtok(t[1])
        if k == 'bin' and t[1] == '-' and self.peek()[0] == 'num':
            n = self.numtok(self.nxt()[1])
            return self.neg(n)
        if k == 'char':
            return ('char', self.charval(t[1]))
        if k == 'str':
            return ('str', t[1][1:-1].replace("''", "'"))
        if k == 'symstr':
            return ('sym', t[1][2:-1].replace("''", "'"))
        if k == 'symkw' or k == 'symbin':
            return ('sym', t[1][1:])
        if k == 'litarr':
            return ('lit', self.litarray())
        if k == 'bytearr':
            v = []
            while not self.isp(']'):
                v.append(parse_number(self.nxt()[1])[1])
            self.nxt()
            return ('bytes', v)
        if k == 'bind':
            return ('bind', t[1][2:-1].strip())
        if k == 'hash2':
            temps, stmts, _ = self.body(')')
            self.expect(')')
            return ('ctc', temps, stmts)
        if k == 'p' and t[1] == '(':
            e = self.expression()
            self.expect(')')
            return e
        if k == 'p' and t[1] == '[':
            params = []
            while self.isp(':'):
                self.nxt()
                params.append(self.nxt()[1])
            if params:
                if self.isp('|'):
                    self.nxt()
                elif not self.isp(']'):
                    raise ParseError('block params at %d' % t[2])
            temps, stmts, _ = self.body(']')
            self.expect(']')
            return ('block', params, temps, stmts)
        if k == 'p' and t[1] == '{':
            elts = []
            while not self.isp('}'):
                elts.append(self.expression())
                if self.isp('.'):
                    self.nxt()
            self.nxt()
            return ('brace', elts)
        raise ParseError('primary %r at %d' % (t, t[2]))

    def numtok(self, t):
        return parse_number(t)

    def neg(self, n):
        if n[0] == 'int':
            return ('int', -n[1])
        if n[0] == 'float':
            return ('float', -n[1], n[2])
        return ('scaled', -n[1], n[2], n[3])

    def charval(self, t):
        if t.startswith('$<') and len(t) > 2:
            return parse_number(t[2:-1].strip())[1]
        return ord(t[1])

    def litarray(self):
        out = []
        while not self.isp(')'):
            out.append(self.litelt())
        self.nxt()
        return out

    def litelt(self):
        t = self.nxt()
        k = t[0]
        if k == 'num':
            return self.numtok(t[1])
        if k == 'bin' and t[1] == '-' and self.peek()[0] == 'num':
            return self.neg(self.numtok(self.nxt()[1]))
        if k == 'id':
            s = t[1]
            if s == 'nil': return ('nil',)
            if s == 'true': return ('true',)
            if s == 'false': return ('false',)
            return ('sym', s)
        if k == 'kw':
            s = t[1]
            while self.peek()[0] == 'kw' and self.peek()[2] == t[2] + len(s):
                s += self.nxt()[1]
            return ('sym', s)
        if k in ('bin', 'assign'):
            return ('sym', t[1])
        if k in ('litarr',) or (k == 'p' and t[1] == '('):
            return ('lit', self.litarray())
        if k == 'p' and t[1] == '[':
            v = []
            while not self.isp(']'):
                v.append(parse_number(self.nxt()[1])[1])
            self.nxt()
            return ('bytes', v)
        if k == 'p' and t[1] == '{':
            s = ''
            while not self.isp('}'):
                s += self.nxt()[1]
            self.nxt()
            return ('bind', s)
        self.i -= 1
        return self.primary()

class MethodDef:
    __slots__ = ('cls', 'meta', 'sel', 'params', 'src', 'start', 'end', 'file', '_ast')
    def __init__(self, cls, meta, sel, params, src, start, end, file):
        self.cls, self.meta, self.sel, self.params = cls, meta, sel, params
        self.src, self.start, self.end, self.file = src, start, end, file
        self._ast = None
    def ast(self):
        if self._ast is None:
            lx = Lexer(self.src, self.start, self.end)
            p = Parser(lx)
            temps, stmts, prag = p.body('')
            prim = None
            for pr in prag:
                for k, v in pr:
                    if k == 'primitive:':
                        prim = v[1]
            self._ast = (temps, stmts, prim, prag)
        return self._ast
    def line(self):
        return self.src.count('\n', 0, self.start) + 1

class ClassDef:
    def __init__(self, name, ns):
        self.name = name
        self.ns = ns
        self.super = None          # name text or None
        self.ivars = []
        self.civars = []
        self.cvars = {}            # name -> (src, start, end) or None
        self.shape = None
        self.imports = []
        self.methods = {}          # sel -> MethodDef
        self.cmethods = {}
        self.files = []
        self.defined = False
        self.superns = None

SKIP_RE = re.compile(r'(?:\s+|"[^"]*")+')

class FileParser:
    """Top-level parser of one .st file; registers into `db` (dict full name -> ClassDef)."""
    def __init__(self, db, fname, src, evals):
        self.db = db
        self.f = fname
        self.s = src
        self.evals = evals

    def matching(self, pos):
        """pos is just after '[': offset of the matching ']' (handles strings, comments, chars)"""
        s = self.s
        depth = 1
        n = len(s)
        pat = FileParser.SCAN
        while True:
            m = pat.search(s, pos)
            if not m:
                raise ParseError('%s: unbalanced [' % self.f)
            c = m.group()
            pos = m.end()
            if c == '[':
                depth += 1
            elif c == ']':
                depth -= 1
                if depth == 0:
                    return m.start()
    SCAN = re.compile(r'\$<[0-9][0-9r A-F]*>|\$[\s\S]|\'[^\']*\'|"[^"]*"|\[|\]')

    def skip(self, pos):
        m = SKIP_RE.match(self.s, pos)
        return m.end() if m else pos

    def run(self):
        self.top(0, len(self.s), 'Smalltalk')

    HEAD = re.compile(r'[^\[\]"\'!]*?\[')

    def cls(self, name, ns):
        # resolve name -> full
        if '.' in name:
            parts = name.split('.')
            if parts[0] == 'Smalltalk':
                parts = parts[1:]
            full = '.'.join(parts)
            nsn = '.'.join(['Smalltalk'] + parts[:-1])
        else:
            full = None
            # search ns chain
            n = ns
            cands = []
            while True:
                pre = '' if n == 'Smalltalk' else n[len('Smalltalk.'):] + '.'
                cands.append(pre + name)
                if n == 'Smalltalk':
                    break
                n = n.rsplit('.', 1)[0]
            for c in cands:
                if c in self.db:
                    full = c
                    break
            if full is None:
                full = cands[0]
            nsn = ns
        d = self.db.get(full)
        if d is None:
            d = self.db[full] = ClassDef(full, nsn)
        return d

    def newcls(self, name, ns):
        if '.' in name:
            return self.cls(name, ns)
        pre = '' if ns == 'Smalltalk' else ns[len('Smalltalk.'):] + '.'
        full = pre + name
        d = self.db.get(full)
        if d is None:
            d = self.db[full] = ClassDef(full, ns)
        return d

    def top(self, pos, end, ns):
        s = self.s
        while True:
            pos = self.skip(pos)
            if pos >= end:
                return
            m = re.compile(r'([A-Za-z_][\w.]*)\s*(?:(subclass:)\s*([A-Za-z_][\w.]*)|(class\s+extend|extend)|(current:)\s*([A-Za-z_][\w.]*)|(class)\s*>>|(>>)|)\s*').match(s, pos)
            if m and m.end() < end and s[m.end()] == '[':
                b = m.end() + 1
                e = self.matching(b)
                head = m.group(1)
                if m.group(2):
                    d = self.newcls(m.group(3), ns)
                    d.super = None if head == 'nil' else head
                    d.superns = ns
                    d.defined = True
                    d.files.append(self.f)
                    self.classbody(d, b, e, ns)
                elif m.group(4):
                    d = self.cls(head, ns)
                    self.classbody(d, b, e, ns, meta='class' in m.group(4))
                elif m.group(5):
                    n2 = m.group(6)
                    n2 = n2 if n2.startswith('Smalltalk') else 'Smalltalk.' + n2
                    self.top(b, e, n2)
                elif head == 'Eval':
                    self.evals.append((self.f, b, e, ns, s))
                pos = e + 1
                continue
            # "Foo class >> sel [ ]" or "Foo >> sel [ ... ]"
            m = re.compile(r'([A-Za-z_][\w.]*)\s*(class)?\s*>>\s*').match(s, pos)
            if m:
                d = self.cls(m.group(1), ns)
                sel, params, bpos = self.pattern(m.end())
                if sel is not None and s[bpos] == '[':
                    e = self.matching(bpos + 1)
                    md = MethodDef(d.name, bool(m.group(2)), sel, params, s, bpos + 1, e, self.f)
                    (d.cmethods if m.group(2) else d.methods)[sel] = md
                    pos = e + 1
                    continue
            # a plain statement: skip to '.' or '!' at depth 0
            pos = self.skip_statement(pos, end)

    def skip_statement(self, pos, end):
        s = self.s
        while pos < end:
            m = FileParser.STMT.search(s, pos, end)
            if not m:
                return end
            c = m.group()
            pos = m.end()
            if c == '[':
                pos = self.matching(pos) + 1
            elif c in '.!':
                return pos
        return end
    STMT = re.compile(r'\$<[0-9][0-9r A-F]*>|\$[\s\S]|\'[^\']*\'|"[^"]*"|\[|\.(?=\s|$)|!')

    def pattern(self, pos):
        """method pattern at pos -> (selector, params, pos of '[' )"""
        s = self.s
        pos = self.skip(pos)
        m = re.compile(r'([A-Za-z_]\w*)(?![\w:.])').match(s, pos)
        if m:
            p = self.skip(m.end())
            return m.group(1), [], p
        m = re.compile(r'([+\-*/\\<>=~@%|&?,!]+)\s*([A-Za-z_]\w*)').match(s, pos)
        if m:
            return m.group(1), [m.group(2)], self.skip(m.end())
        sel, params = '', []
        kwre = re.compile(r'([A-Za-z_]\w*:)')
        idre = re.compile(r'([A-Za-z_]\w*)')
        while True:
            m = kwre.match(s, pos)
            if not m:
                break
            sel += m.group(1)
            p = self.skip(m.end())
            g = idre.match(s, p)
            if not g:
                return None, None, pos
            params.append(g.group(1))
            pos = self.skip(g.end())
        if sel:
            return sel, params, pos
        return None, None, pos

    def classbody(self, d, pos, end, ns, meta=False):
        s = self.s
        base = d.name.rsplit('.', 1)[-1]
        while True:
            pos = self.skip(pos)
            if pos >= end:
                return
            c = s[pos]
            if c == '|' and not re.compile(r'\|\s*[A-Za-z_]\w*\s*\[').match(s, pos):
                e = s.index('|', pos + 1)
                names = re.sub(r'"[^"]*"', ' ', s[pos+1:e]).split()
                (d.civars if meta else d.ivars).extend(n for n in names if n not in (d.civars if meta else d.ivars))
                pos = e + 1
                continue
            if c == '<':
                m = re.compile(r'<\s*([A-Za-z]\w*:)\s*').match(s, pos)
                if m:
                    # find the closing '>' outside strings
                    p = m.end()
                    g = re.compile(r'(?:\'[^\']*\'|"[^"]*"|[^>\'"])*>').match(s, p)
                    txt = s[p:g.end()-1].strip()
                    if m.group(1) == 'shape:':
                        d.shape = txt.lstrip('#') if txt != 'nil' else None
                    elif m.group(1) == 'import:':
                        d.imports.append(txt)
                    pos = g.end()
                    continue
            m = re.compile(r'([A-Za-z_]\w*)\s*:=\s*').match(s, pos)
            if m:
                e = self.skip_statement(m.end(), end)
                stop = e
                if s[e-1:e] == '.':
                    stop = e - 1
                d.cvars[m.group(1)] = (s, m.end(), stop, self.f)
                if meta:
                    pass
                pos = e
                continue
            m = re.compile(r'([A-Za-z_][\w.]*)\s+class\s*\[').match(s, pos)
            if m:
                e = self.matching(m.end())
                self.classbody(d, m.end(), e, ns, meta=True)
                pos = e + 1
                continue
            ismeta = meta
            m = re.compile(r'([A-Za-z_][\w.]*)\s+class\s*>>\s*').match(s, pos)
            if m:
                ismeta = True
                pos = m.end()
            else:
                m = re.compile(r'([A-Za-z_][\w.]*)\s*>>\s*').match(s, pos)
                if m:
                    pos = m.end()
            m2 = re.compile(r'([A-Za-z_]\w*)\s*\.').match(s, pos)
            if m2:     # "Foo." declares a class variable
                d.cvars.setdefault(m2.group(1), None)
                pos = m2.end()
                continue
            sel, params, bpos = self.pattern(pos)
            if sel is None or bpos >= end or s[bpos] not in '[<':
                raise ParseError('%s:%d: class body of %s: %r' % (self.f, s.count('\n', 0, pos) + 1, d.name, s[pos:pos+60]))
            attrs = ''
            while s[bpos] == '<':
                g = re.compile(r'<[^>]*>').match(s, bpos)
                bpos = self.skip(g.end())
            e = self.matching(bpos + 1)
            md = MethodDef(d.name, ismeta, sel, params, s, bpos + 1, e, self.f)
            (d.cmethods if ismeta else d.methods)[sel] = md
            pos = e + 1

def load_files(paths, db=None, evals=None):
    db = {} if db is None else db
    evals = [] if evals is None else evals
    for p in paths:
        with open(p, encoding='latin-1') as f:
            src = f.read()
        FileParser(db, p, src, evals).run()
    return db, evals
