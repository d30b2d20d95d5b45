"""Scratch copies of the C sources under test, with generated files regenerated
from the current tree and x86 inline assembly translated to C."""
import os, re, shutil, subprocess, tempfile, atexit

REPO = os.environ.get('VP_REPO', '/repo')

CONDS = {'o': '__of', 'no': '!__of', 'c': '__cf', 'b': '__cf', 'nc': '!__cf', 'ae': '!__cf',
         's': '__sf', 'ns': '!__sf', 'z': '__zf', 'e': '__zf', 'nz': '!__zf', 'ne': '!__zf',
         'l': '(__sf != __of)', 'ge': '(__sf == __of)', 'le': '(__zf || __sf != __of)',
         'g': '(!__zf && __sf == __of)', 'be': '(__cf || __zf)', 'a': '!(__cf || __zf)'}

class AsmUnsupported(Exception):
    pass

def _split_top(s, sep):
    out, depth, cur, q = [], 0, '', False
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            cur += c
            if c == '\\':
                i += 1; cur += s[i]
            elif c == '"':
                q = False
        elif c == '"':
            q = True; cur += c
        elif c in '([':
            depth += 1; cur += c
        elif c in ')]':
            depth -= 1; cur += c
        elif c == sep and depth == 0:
            out.append(cur); cur = ''
        else:
            cur += c
        i += 1
    out.append(cur)
    return out

def translate_asm_stmt(body):
    """body: text between the outer parentheses of an asm statement (x86-64, AT&T)."""
    parts = _split_top(body, ':')
    tmpl = parts[0].replace('OP_SUFFIX', '"q"')
    tmpl = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', tmpl)).replace('\\n', '\n').replace('\\t', ' ')
    ops = []
    for grp, isout in ((parts[1] if len(parts) > 1 else '', True), (parts[2] if len(parts) > 2 else '', False)):
        for o in _split_top(grp, ','):
            o = o.strip()
            if not o:
                continue
            m = re.match(r'^((?:"[^"]*"|[A-Z_]+|\s)+)\((.*)\)$', o, re.S)
            if not m:
                raise AsmUnsupported(o)
            ops.append((m.group(1).strip(), m.group(2).strip(), isout))
    nout = sum(1 for o in ops if o[2])
    code = ['{ long __a[%d]; int __of=0,__cf=0,__sf=0,__zf=0;' % max(1, len(ops))]
    for i, (c, e, isout) in enumerate(ops):
        cc = c.strip('"')
        if isout and '+' in cc:
            code.append('__a[%d] = (long)(%s);' % (i, e))
        elif not isout:
            code.append('__a[%d] = (long)(%s);' % (i, e))
    alias = {}
    for i, (c, e, isout) in enumerate(ops):
        cc = c.strip('"')
        if not isout and cc.isdigit():
            alias[i] = int(cc)
            code.append('__a[%d] = __a[%d];' % (int(cc), i))
    def opn(t):
        t = t.strip()
        m = re.match(r'^%([a-z]?)(\d)$', t)
        if m:
            n = int(m.group(2)); n = alias.get(n, n)
            return '__a[%d]' % n
        m = re.match(r'^\$(-?\w+)$', t)
        if m:
            return '%sL' % m.group(1)
        raise AsmUnsupported(t)
    for ins in re.split(r'[\n;]', tmpl):
        ins = ins.strip()
        if not ins:
            continue
        m = re.match(r'^(\w+)\s*(.*)$', ins)
        mn, args = m.group(1), [a for a in m.group(2).split(',') if a.strip()]
        if mn in ('addq', 'subq'):
            s, d = opn(args[0]), opn(args[1])
            o = '+' if mn == 'addq' else '-'
            fn = 'add' if mn == 'addq' else 'sub'
            code.append('{ long __s=%s, __d=%s, __r; unsigned long __u; __of=__builtin_%s_overflow(__d,__s,&__r); __cf=__builtin_%s_overflow((unsigned long)__d,(unsigned long)__s,&__u); %s=__r; __sf=__r<0; __zf=__r==0; }' % (s, d, fn, fn, d))
        elif mn in ('decq', 'incq'):
            d = opn(args[0]); fn = 'add' if mn == 'incq' else 'sub'
            code.append('{ long __d=%s, __r; __of=__builtin_%s_overflow(__d,1L,&__r); %s=__r; __sf=__r<0; __zf=__r==0; }' % (d, fn, d))
        elif mn == 'movq':
            code.append('%s = %s;' % (opn(args[1]), opn(args[0])))
        elif mn.startswith('set') and mn[3:] in CONDS:
            d = opn(args[0])
            code.append('%s = (%s & ~255L) | (%s ? 1 : 0);' % (d, d, CONDS[mn[3:]]))
        else:
            raise AsmUnsupported(ins)
    for i, (c, e, isout) in enumerate(ops):
        if isout:
            code.append('%s = (__typeof__(%s)) __a[%d];' % (e, e, i))
    code.append('}')
    return ' '.join(code)

def translate_asm(src):
    out, pos, n, bad = '', 0, 0, []
    for m in re.finditer(r'\basm\s*(?:volatile\s*)?\(', src):
        if m.start() < pos:
            continue
        i, depth, q = m.end(), 1, False
        while depth:
            c = src[i]
            if q:
                if c == '\\': i += 1
                elif c == '"': q = False
            elif c == '"': q = True
            elif c == '(': depth += 1
            elif c == ')': depth -= 1
            i += 1
        body = src[m.end():i-1]
        try:
            rep = translate_asm_stmt(body)
            j = i
            while src[j] in ' \t\n': j += 1
            if src[j] == ';': i = j + 1
            out += src[pos:m.start()] + rep
            pos = i; n += 1
        except AsmUnsupported as e:
            bad.append(str(e))
    return out + src[pos:], n, bad

CFLAGS = ['-std=gnu99', '-DHAVE_CONFIG_H', '-D__NO_CTYPE']

class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp-csym-')
        os.environ.get('VP_KEEP') or atexit.register(shutil.rmtree, self.dir, True)
        self.notes = []
        lg = os.path.join(self.dir, 'libgst')
        os.mkdir(lg)
        src = os.path.join(REPO, 'libgst')
        for f in os.listdir(src):
            if f.endswith(('.c', '.h', '.inl', '.def', '.gperf')):
                shutil.copy(os.path.join(src, f), lg)
        for d in ('lib-src', 'snprintfv'):
            sd = os.path.join(REPO, d)
            dd = os.path.join(self.dir, d)
            os.mkdir(dd)
            for root, ds, fs in os.walk(sd):
                ds[:] = [x for x in ds if not x.startswith('.')]
                rel = os.path.relpath(root, sd)
                os.makedirs(os.path.join(dd, rel), exist_ok=True)
                for f in fs:
                    if f.endswith(('.c', '.h', '.inl')):
                        shutil.copy(os.path.join(root, f), os.path.join(dd, rel))
        self.lg = lg
        # variable-length trailing arrays: harnesses may give CBMC their true length
        for f, a, n in (('gst.h', 'OOP data[1];', 'VP_DATAN'), ('interp.h', 'OOP contextStack[1];', 'VP_STACKN')):
            p = os.path.join(lg, f)
            t = open(p, encoding='latin-1').read()
            if a in t:
                open(p, 'w', encoding='latin-1').write('#ifndef %s\n#define %s 1\n#endif\n' % (n, n) + t.replace(a, a.replace('1', n)))
        self._regen()
        # the bytecode dispatcher's body (generated from vm.def): no harness runs it; the operations
        # themselves are taken from vm.def (extract_vm_ops).  Its macros and its tables' names stay.
        p = os.path.join(lg, 'vm.inl')
        if os.path.exists(p):
            t = open(p, encoding='latin-1').read()
            tabs = sorted(set(re.findall(r'^ *static void \*(?:const )?(\w+)\[256\]', t, re.M)))
            if tabs:
                ms = re.findall(r'^#(?:define|undef|if|ifdef|ifndef|else|elif|endif)\b(?:.*\\\n)*.*$', t, re.M)
                open(p, 'w', encoding='latin-1').write('\n'.join(ms) + '\n' + ''.join('static void *%s[256];\n' % x for x in tabs))
        p = os.path.join(lg, 'interp.inl')
        s = open(p).read()
        # the asm in interp.inl is guarded by x86 macros; translate it in place
        t, n, bad = translate_asm(s)
        if bad:
            self.notes.append('untranslated inline asm in interp.inl: %s' % bad)
        self.asm_translated = n
        open(p + '.orig', 'w').write(s)
        self.asm_inl = t
        open(p, 'w').write(t)

    def _regen(self):
        b = os.path.join(REPO, 'libgst')
        def gen(tool, args, inp, out, post=None):
            exe = os.path.join(b, tool)
            if not os.access(exe, os.X_OK):
                self.notes.append('%s missing; generated %s taken as found' % (tool, out)); return
            try:
                r = subprocess.run([exe] + args, stdin=open(inp) if inp else subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.lg, timeout=60)
            except Exception as e:
                self.notes.append('%s failed: %s' % (tool, e)); return
            if r.returncode != 0:
                self.notes.append('%s failed: %s' % (tool, r.stderr[-200:])); return
            s = r.stdout.decode('latin-1')
            if post: s = post(s)
            open(os.path.join(self.lg, out), 'w', encoding='latin-1').write(s)
        def ol(s):
            o = []
            for i, l in enumerate(s.split('\n')):
                if l.startswith('#'): l = l.replace('__oline__', str(i + 2))
                o.append(l)
            return '\n'.join(o)
        gen('genprims', [], os.path.join(self.lg, 'prims.def'), 'prims.inl')
        gen('genvm', [], os.path.join(self.lg, 'vm.def'), 'vm.inl', ol)
        gen('genbc', ['byte.def', 'byte.c', 'opt.c', 'xlat.c'], None, 'match.h')

    def archive(self):
        """All of libgst compiled natively from the scratch copy, to satisfy replays' links."""
        out = os.path.join(self.dir, 'all.a')
        if os.path.exists(out): return out
        from concurrent.futures import ThreadPoolExecutor
        skip = {'genbc.c', 'genbc-decl.c', 'genbc-impl.c', 'genbc-scan.c', 'genpr-parse.c', 'genpr-scan.c', 'genvm-parse.c',
                'genvm-scan.c', 'valgrind.c'}
        srcs = [os.path.join(self.lg, f) for f in sorted(os.listdir(self.lg)) if f.endswith('.c') and f not in skip]
        srcs += [os.path.join(self.dir, 'lib-src', f) for f in ('pointer-set.c', 'md5.c', 'obstack.c')]
        def cc(f):
            o = os.path.join(self.dir, 'n_' + os.path.basename(f)[:-2] + '.o')
            subprocess.run(['gcc', '-c', '-w', '-O0', '-g', '-fno-pie', '-Dvisibility(x)=unused', '-DDEFAULT_EXECUTABLE=""'] + CFLAGS + self.incs() + ['-o', o, f],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            return o if os.path.exists(o) else None
        with ThreadPoolExecutor(8) as ex:
            objs = [o for o in ex.map(cc, srcs) if o]
        subprocess.run(['ar', 'rcs', out] + objs, check=True)
        return out

    def incs(self):
        return ['-I' + self.lg, '-I' + REPO, '-I' + os.path.join(self.dir, 'lib-src'),
                '-I' + os.path.join(self.dir, 'snprintfv'), '-I' + os.path.join(self.dir, 'snprintfv', 'snprintfv'),
                '-I' + os.path.join(REPO, 'lightning'), '-I/usr/include']


def extract_vm_ops(scratch, names=None):
    """Turn `operation NAME args ( ins -- outs ) { body }' of vm.def into C functions
    void vmop_NAME (long arg...), leaving vm.def's macros to the harness."""
    s = open(os.path.join(scratch.lg, 'vm.def')).read()
    nc = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)
    out, got = [], []
    for m in re.finditer(r'^operation\s+(\w+)((?:\s+\w+)*)\s*\(([^)]*)\)\s*\{', nc, re.M):
        name, args, eff = m.group(1), m.group(2).split(), m.group(3)
        if names is not None and name not in names:
            continue
        i, depth = m.end(), 1
        while depth:
            c = nc[i]
            if c == '{': depth += 1
            elif c == '}': depth -= 1
            i += 1
        body = nc[m.end():i-1]
        ins, outs = [x.split() for x in eff.split('--')]
        decl = []
        n = len(ins)
        for k, v in enumerate(ins):
            decl.append('OOP %s = STACK_AT (%d);' % (v, n - 1 - k))
        for v in outs:
            if v not in ins: decl.append('OOP %s = NULL;' % v)
        post = 'sp -= %d; sp += %d;' % (n, len(outs)) + ' '.join('STACK_AT (%d) = %s;' % (len(outs)-1-k, v) for k, v in enumerate(outs))
        out.append('static void vmop_%s (%s)\n{ %s\n do {%s\n} while (0);\n %s vm_out = VM_DONE; }\n'
                   % (name, ', '.join('long ' + a for a in args) or 'void', ' '.join(decl), body, post))
        got.append(name)
    # helper macros (RAW_INT_OP, INTERP_BASIC_OP ...) precede the first operation
    pre = s[:s.index('operation ')] if 'operation ' in s else ''
    macros = []
    for m in re.finditer(r'^#define (RAW_INT_OP|RAW_FLOATD_OP|INTERP_BASIC_OP|INTERP_BASIC_BOOL)\b(?:.*\\\n)+.*\n', s, re.M):
        macros.append(m.group(0))
    return '\n'.join(macros) + '\n' + '\n'.join(out), got
