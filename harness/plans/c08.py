"""What is computed while compiling: constants, const functions, lists, maps,
text, compile-time conditions and loops (spec/CtSem.tla)."""
import copy
import random

import ct
from ctgen import CtGen, mutate

ASSUME = ["programs whose evaluation leaves the modelled range (floats that are not eighths or are large, "
          "very long loops or lists) are skipped (counted as void)",
          "function arguments are not changed through two names at once"]


def account(ctx, o):
    ctx.failures += o.failures
    ctx.add({"programs": o.programs, "disagreements_checked": o.programs,
             "programs_conforming": o.ok + o.rejected, "programs_rejected_as_specified": o.rejected,
             "void_behaviours": o.void, "states": o.distinct, "transitions": o.states,
             "printed_lines_compared": o.lines, "void_reasons": o.voids})
    for a in ASSUME:
        if a not in ctx.assumptions:
            ctx.assumptions.append(a)


def run(ctx):
    def rnd(*a):
        return random.Random("%d/%s/%s" % (ctx.seed, ctx.prop, "/".join(map(str, a))))
    rounds = 1 if ctx.tier == "quick" else 12
    for k in range(rounds):
        if ctx.late() or len(ctx.failures) > 25:
            break
        ps = [("v%d_%d" % (k, i), CtGen(rnd("v", k, i)).program()) for i in range(210)]
        small = [("s%d_%d" % (k, i), CtGen(rnd("s", k, i), depth=3).program(5, 2)) for i in range(120)]
        ct.repair(ps + small)
        account(ctx, ct.check(ps))
        ms = []
        for cid, p in small:
            for j in range(3):
                ms.append(("%sm%d" % (cid, j), mutate(copy.deepcopy(p), rnd(cid, j))))
        account(ctx, ct.check(ms))
        account(ctx, ct.check([("e%d_%d" % (k, i), CtGen(rnd("e", k, i), err=0.01).program(3, 1))
                               for i in range(120)]))
