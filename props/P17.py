"""P17 large integer arithmetic (mpz.c, prims.def)"""
from csym import prep
from props import largeint
import vplib
def run(ctx):
    s = prep.Scratch()
    ctx.notes += s.notes
    ctx.assumptions += largeint.ASSUME
    vplib.run_units(ctx, [largeint.unit(s, ['add', 'cmp', 'mul', 'div'], ctx.thorough)])
