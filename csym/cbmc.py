"""Driver: compile a harness with goto-cc, decide each entry point with CBMC, replay
counterexamples natively against the same sources."""
import os, json, subprocess, time, re, signal, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import prep

HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(HERE, 'harness')

CHECKFLAGS = {
    'mem': ['--bounds-check', '--pointer-check'],
    'none': [],
}

class Case:
    def __init__(self, fn, bounds, unwind=4, unwindset=(), checks='none', timeout=120,
                 extra=(), encodes='', defs=(), thorough=False, mem_gb=6, hang=True, solver=None):
        self.__dict__.update(locals())
        del self.__dict__['self']

class Result:
    def __init__(self, case):
        self.case = case; self.status = None; self.props = 0; self.fails = []
        self.time = 0; self.vcc = 0; self.vars = 0; self.inputs = None; self.detail = ''
        self.nobody = []; self.witness = None; self.clauses = 0; self.steps = 0; self.witness_in = None
    def __repr__(self):
        return '<%s %s %.1fs %s>' % (self.case.fn, self.status, self.time, self.detail[:200])

def run_proc(cmd, timeout, cwd=None, mem_gb=8, env=None):
    def pre():
        os.setsid()
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=pre if mem_gb else os.setsid, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return None, b'', b''

class Unit:
    """One harness file; entry points are its Cases."""
    def __init__(self, scratch, harness, cases, extra_srcs=(), defs=(), quiet=False):
        self.s = scratch; self.h = os.path.join(HARN, harness); self.cases = cases
        self.extra = list(extra_srcs); self.defs = list(defs)
        self.name = os.path.splitext(harness)[0]
        self._gb = {}
        self._lock = threading.Lock(); self._keylocks = {}
        self._wit = False

    def srcs(self):
        return [self.h] + [os.path.join(self.s.dir, x) for x in self.extra]

    def compile(self, defs=()):
        with self._lock:
            k = self._keylocks.setdefault(tuple(defs), threading.Lock())
        with k:
            return self._compile(defs)

    def _extra(self, x, base, defs):
        # the other source files do not depend on a case's own definitions
        key = (x,) + tuple(defs)
        with self._lock:
            k = self._keylocks.setdefault(key, threading.Lock())
        with k:
            if key not in self._gb:
                out = os.path.join(self.s.dir, '%s-%s.gb' % (self.name, hashlib.md5(repr(key).encode()).hexdigest()))
                rc, o, e = run_proc(['goto-cc', '-c', '-o', out] + base + defs + [os.path.join(self.s.dir, x)], 180, mem_gb=0)
                self._gb[key] = (out, '') if rc == 0 else (None, (o + e).decode('utf8', 'replace')[-3000:])
            return self._gb[key]

    def _compile(self, defs=()):
        key = tuple(defs)
        if key in self._gb: return self._gb[key]
        out = os.path.join(self.s.dir, '%s-%s.gb' % (self.name, hashlib.md5(repr(key).encode()).hexdigest()))
        base = ['-D__NO_STRING_INLINES', '-DVP_CBMC', '-Dmain=vp_main'] + prep.CFLAGS + self.s.incs() + ['-I' + HARN] + self.defs
        objs = []
        for x in self.extra:
            ob, err = self._extra(x, base, [d for d in defs if d.startswith('-DVP_')])
            if ob is None:
                self._gb[key] = (None, err); return self._gb[key]
            objs.append(ob)
        cmd = ['goto-cc', '-o', out] + base + list(defs) + [self.h] + objs
        rc, o, e = run_proc(cmd, 180, mem_gb=0)
        if rc != 0:
            self._gb[key] = (None, (o + e).decode('utf8', 'replace')[-3000:])
        else:
            self._gb[key] = (out, '')
        return self._gb[key]

    def native(self, defs=()):
        with self._lock:
            return self._native(defs)

    def _native(self, defs=()):
        out = os.path.join(self.s.dir, '%s-%d.exe' % (self.name, abs(hash(tuple(defs)))))
        if os.path.exists(out): return out, ''
        cmd = ['gcc', '-o', out, '-DVP_NATIVE', '-O0', '-g', '-w', '-no-pie', '-fsanitize=address',
               '-fno-sanitize-recover=all', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,muldefs', '-Dvisibility(x)=unused'] + prep.CFLAGS + self.s.incs() \
            + ['-I' + HARN] + self.defs + list(defs) + self.srcs() + [self.s.archive(), '-ldl', '-lgmp', '-lm', '-lpthread']
        rc, o, e = run_proc(cmd, 300, mem_gb=0)
        if rc != 0:
            return None, (o + e).decode('utf8', 'replace')[-3000:]
        return out, ''

    def run_case(self, c, tmul=1.0, _trace=False):
        r = Result(c)
        gb, err = self.compile(c.defs)
        if gb is None:
            r.status = 'ERROR'; r.detail = 'goto-cc: ' + err; return r
        cmd = ['cbmc', gb, '--function', c.fn, '--json-ui', '--verbosity', '8', '--drop-unused-functions', '--no-standard-checks', '--no-malloc-may-fail',
               '--unwinding-assertions', '--unwind', str(c.unwind), '--object-bits', '10'] + (['--trace'] if _trace else ['--slice-formula']) + CHECKFLAGS[c.checks]
        if c.unwindset: cmd += ['--unwindset', ','.join(c.unwindset)]
        if c.solver: cmd += c.solver
        cmd += list(c.extra)
        t = time.time()
        rc, o, e = run_proc(cmd, c.timeout * tmul, mem_gb=c.mem_gb)
        r.time = time.time() - t
        if rc is None:
            r.status = 'TIMEOUT'; r.detail = 'cbmc exceeded %ds' % (c.timeout * tmul); return r
        try:
            js = json.loads(o)
        except Exception:
            r.status = 'ERROR'; r.detail = 'cbmc rc %s: %s' % (rc, (o[-300:] + e[-300:]).decode('utf8', 'replace')); return r
        props = None
        for m in js:
            if 'result' in m: props = m['result']
            t = m.get('messageText', '')
            g = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
            if g: r.vcc = int(g.group(2))
            g = re.search(r'size of program expression: (\d+) steps', t)
            if g: r.steps = int(g.group(1))
            g = re.search(r'^(\d+) variables, (\d+) clauses', t)
            if g: r.vars = int(g.group(1)); r.clauses = int(g.group(2))
            g = re.search(r'no body for (?:function|callee) [\'"]?([\w$:]+)', t)
            if g and not g.group(1).startswith('nondet_'): r.nobody.append(g.group(1))
            if m.get('messageType') == 'ERROR' and not r.detail: r.detail = t
        if props is None:
            r.status = 'ERROR'; r.detail = 'cbmc rc %s: %s %s' % (rc, r.detail, e[-300:].decode('utf8', 'replace')); return r
        wit = [p for p in props if p.get('description') == 'VP_WITNESS']
        r.witness = bool(wit) and any(p['status'] == 'FAILURE' for p in wit)
        rest = [p for p in props if p.get('description') != 'VP_WITNESS']
        r.props = len(rest)
        bad = [p for p in rest if p['status'] not in ('SUCCESS',)]
        for p in bad:
            ins = self._inputs(p)
            r.fails.append((p['property'], p.get('description', ''), ins))
        if bad and not _trace:
            # decide again, unsliced, for complete input traces
            r2 = self.run_case(c, tmul, _trace=True)
            r2.time += r.time
            return r2
        if bad:
            unw = [f for f in r.fails if '.unwind.' in f[0] or 'recursion' in f[0] or 'unwinding' in f[1]]
            oth = [f for f in r.fails if f not in unw]
            if oth:
                r.status = 'CEX'
            else:
                r.status = 'BOUND'
            r.fails = oth + unw
            r.detail = '; '.join('%s: %s' % (f[0], f[1]) for f in r.fails[:3])
        elif not r.witness:
            r.status = 'VACUOUS'; r.detail = 'reachability witness not violated'
        else:
            r.status = 'PASS'
            if not self._wit and not _trace:
                self._wit = True
                cmd2 = [x for x in cmd if x != '--slice-formula'] + ['--trace', '--property', wit[0]['property']]
                rc, o, e = run_proc(cmd2, 60, mem_gb=c.mem_gb)
                try:
                    for m in json.loads(o):
                        for p in m.get('result', []):
                            if 'trace' in p: r.witness_in = self._inputs(p)
                except Exception:
                    pass
        return r

    @staticmethod
    def _inputs(p):
        ins = []
        for st in p.get('trace', []):
            if st.get('stepType') == 'assignment' and st.get('lhs') == '__nd_log' and st.get('sourceLocation', {}).get('function') == 'ND':
                v = st['value']
                ins.append(int(v['binary'], 2) if 'binary' in v else int(v['data']))
        return ins


    def replay(self, r, outdir):
        """Confirm counterexamples natively. -> list of (desc, inputs, message) that reproduce."""
        exe, err = self.native(r.case.defs)
        if exe is None:
            r.detail += ' [native build failed: %s]' % err[-800:]
            return []
        ok = []
        seen = set()
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
        for prop, desc, ins in r.fails[:12]:
            key = tuple(ins)
            if key in seen: continue
            seen.add(key)
            rc, o, e = run_proc([exe, r.case.fn] + [str(i) for i in ins], 20, mem_gb=0, env=env)
            txt = (o + e).decode('utf8', 'replace')
            if rc is None:
                if r.case.hang: ok.append((prop, desc, ins, 'native run does not terminate within 20 s'))
            elif rc == 0:
                continue
            elif rc == 77:      # assumption violated
                continue
            elif 'VP_ASSERT' in txt:
                ok.append((prop, desc, ins, re.search(r'VP_ASSERT[^\n]*', txt).group(0)))
            elif r.case.checks == 'mem' or rc < 0:
                m = re.search(r'ERROR: AddressSanitizer[^\n]*', txt)
                if m and ('pc 0x000000000000' in txt or 'pc points to the zero page' in txt):
                    continue    # stubbed-out external was called
                ok.append((prop, desc, ins, m.group(0) if m else 'native run died (rc %s)' % rc))
            else:
                m = re.search(r'ERROR: AddressSanitizer[^\n]*', txt)
                if m and not ('pc 0x000000000000' in txt or 'pc points to the zero page' in txt):
                    ok.append((prop, desc, ins, m.group(0)))
        return ok
