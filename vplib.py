"""Shared by all checks: obligations, violations, known findings, evidence."""
import os, sys, json, time, re, threading

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
NCPU = int(os.environ.get('VP_JOBS', '8'))

def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obl = []            # dicts
        self.violations = []
        self.known = [k for k in load_known() if k['property'] == prop and k.get('status') == 'known']
        self.known_hit = {}
        self.states = 0; self.transitions = 0; self.validated = 0; self.queries = 0; self.solver_s = 0.0
        self.samples = []; self.assumptions = []; self.functions = set(); self.notes = []
        self._lock = threading.Lock()
        self.lines = []

    thorough = property(lambda s: s.tier == 'thorough')

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def obligation(self, name, status, bounds='', **kw):
        """status: PASS | CEX | INCONCLUSIVE"""
        d = dict(name=name, status=status, bounds=bounds, **kw)
        with self._lock:
            self.obl.append(d)
        return d

    def violation(self, key, what, replay):
        """A counterexample confirmed on the real code. key identifies it stably."""
        with self._lock:
            for k in self.known:
                if re.fullmatch(k['match'], key):
                    if k['match'] not in self.known_hit:
                        self.known_hit[k['match']] = key
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                    return False
            n = len(self.violations) + 1
            d = os.path.join(ROOT, 'evidence', 'replays')
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, '%s-%d.json' % (self.prop, n))
            json.dump(dict(property=self.prop, key=key, what=what, replay=replay), open(p, 'w'), indent=1, default=str)
            self.violations.append((key, what, p))
            print('%s: %s' % (key, what), flush=True)
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(p, ROOT)), flush=True)
            return True

    def finish(self):
        npass = sum(1 for o in self.obl if o['status'] == 'PASS')
        ninc = [o for o in self.obl if o['status'] == 'INCONCLUSIVE']
        known_o = sum(1 for o in self.obl if o['status'] == 'KNOWN')
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=(self.samples[:8] or [o['name'] + ' [' + o.get('bounds', '') + '] ' + o['status'] for o in self.obl[:8]]),
                   obligations=len(self.obl), discharged=npass,
                   inconclusive=[dict(name=o['name'], why=str(o.get('detail', ''))[:300]) for o in ninc],
                   known_findings=list(self.known_hit.values()),
                   solver_queries=self.queries, solver_seconds=round(self.solver_s, 2),
                   functions_encoded=sorted(self.functions)[:400],
                   bounds=sorted(set(o['name'] + ': ' + o.get('bounds', '') for o in self.obl))[:200],
                   counting='states = symbolic paths explored to an end (Smalltalk engine) or SSA program steps (CBMC); '
                            'transitions = branch decisions posed to the solver or verification conditions; '
                            'obligations = assertions-over-all-values-in-bounds, each one solver verdict')
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=sorted(set(self.assumptions)),
                  violations=len(self.violations), notes=self.notes)
        ev['obligations'] = self.obl
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1, default=str)
        print('%s [%s]: %d obligations, %d discharged, %d inconclusive, %d violations, %.1f s' % (
            self.prop, self.tier, len(self.obl), npass, len(ninc), len(self.violations), time.time() - self.t0))
        for o in ninc:
            print('  INCONCLUSIVE %s: %s' % (o['name'], str(o.get('detail', ''))[:200]))
        if self.violations: return 1
        if npass == 0 and not self.known_hit: return 2
        return 0

def run_units(ctx, units, budget=None, tmul=1.0):
    """Engine A: decide all cases of all units in parallel, replay counterexamples."""
    from concurrent.futures import ThreadPoolExecutor
    jobs = [(u, c) for u in units for c in u.cases if ctx.thorough or not c.thorough]
    def one(j):
        u, c = j
        r = u.run_case(c, tmul)
        return u, r
    # the expensive ones first (times seen earlier; only the order depends on them)
    try: costs = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'csym', 'costs.json')))
    except Exception: costs = {}
    order = sorted(range(len(jobs)), key=lambda i: -costs.get('%s.%s%s' % (jobs[i][0].name, jobs[i][1].fn, ''.join(jobs[i][1].defs)), 3))
    with ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(one, [jobs[i] for i in order]))
    res = [None] * len(jobs)
    for i, r in zip(order, done): res[i] = r
    first = True
    for u, r in res:
        c = r.case
        name = '%s.%s%s' % (u.name, c.fn, ''.join(c.defs))
        st = r.status
        ctx.states += r.steps; ctx.transitions += max(r.vcc, r.props); ctx.queries += r.props; ctx.solver_s += r.time
        ctx.functions.update(c.encodes if isinstance(c.encodes, (list, tuple, set)) else c.encodes.split())
        if st == 'PASS':
            ctx.obligation(name, 'PASS', c.bounds, time=round(r.time, 2), assertions=r.props, vcc=r.vcc, unwind=c.unwind, nobody=r.nobody)
        elif st in ('CEX', 'BOUND'):
            hits = u.replay(r, None)
            if hits:
                new = False
                for prop, desc, ins, msg in hits[:3]:
                    key = '%s.%s:%s' % (u.name, c.fn, desc)
                    new |= ctx.violation(key, '%s; inputs %s; native replay: %s' % (desc, ins, msg),
                                  dict(harness=u.h, entry=c.fn, defs=list(c.defs), inputs=ins, message=msg))
                ctx.obligation(name, 'CEX' if new else 'KNOWN', c.bounds, detail=r.detail)
            else:
                ctx.obligation(name, 'INCONCLUSIVE', c.bounds, detail=('counterexample not reproduced natively: ' if st == 'CEX' else 'unwinding bound exceeded: ') + r.detail)
        else:
            ctx.obligation(name, 'INCONCLUSIVE', c.bounds, detail='%s %s' % (st, r.detail))
    # replay one witness natively per unit: the real code must run clean on a passing input
    for u in units:
        ok = [r for uu, r in res if uu is u and r.status == 'PASS' and r.witness_in is not None]
        if ok:
            r = ok[0]
            exe, err = u.native(r.case.defs)
            if exe:
                from csym.cbmc import run_proc
                rc, o, e = run_proc([exe, r.case.fn] + [str(i) for i in r.witness_in], 20, mem_gb=0,
                                    env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
                if rc == 0: ctx.validated += 1
                else: ctx.notes.append('witness replay of %s: rc %s %s' % (r.case.fn, rc, e[-200:]))
            else:
                ctx.notes.append('native build of %s failed: %s' % (u.name, err[-300:]))
    return res
