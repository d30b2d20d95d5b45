#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import sys, os, importlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
import vplib

def main():
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        print("nothing to build")
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('props.' + prop)
    ctx = vplib.Ctx(prop, tier, seed)
    mod.run(ctx)
    rc = ctx.finish()
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
main()
