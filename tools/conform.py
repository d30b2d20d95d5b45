#!/usr/bin/env python3-vt
"""Compare Engine B with the built gst on concrete snippets (one per line; # comments)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from stsym import vm, sym, oblig, prims
import threading
def main():
    snips = [l.rstrip('\n') for f in sys.argv[1:] for l in open(f) if l.strip() and not l.startswith('#')]
    real = oblig.Real()
    vm.init()
    obs = [oblig.O(str(i), {}, s, None) for i, s in enumerate(snips)]
    mine = []
    for s in snips:
        sym.set_engine(sym.Engine()); vm.reset_path()
        try: mine.append(repr(oblig.run_code(vm.compile_snippet(s, []), [])))
        except BaseException as ex: mine.append('EXC %s %s' % (type(ex).__name__, ex))
    got = real.batch([(o, {}) for o in obs])
    bad = 0
    for s, m, g in zip(snips, mine, got):
        if m != repr(g):
            bad += 1
            print('%s\n    engine %s\n    real   %s' % (s, m[:300], repr(g)[:300]))
    print('%d snippets, %d differ' % (len(snips), bad))
    real.close()
sys.setrecursionlimit(200000)
threading.stack_size(512 << 20)
t = threading.Thread(target=main); t.start(); t.join()
