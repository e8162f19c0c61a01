"""Shared by C22 and C25: histories of compiler runs (spec/Cli.tla)."""
import random

import clirun
import ctgen
import modgen
from entgen import EGen
from filtgen import FGen
from gen import Gen
from schedgen import SGen
from textgen import TGen
from worldgen import WGen


def account(ctx, o):
    ctx.failures += o.failures
    ctx.add({"programs": o.programs, "runs": o.compiled, "disagreements_checked": o.compiled, "histories_conforming": o.conformed,
             "states": o.distinct, "transitions": o.states, "exit_codes": o.rc})
    ctx.assumptions[:] = ["no other program changes the directory during a run", "the disk does not fail"]


def rnd(ctx, *a):
    return random.Random("%d/%s/%s" % (ctx.seed, ctx.prop, "/".join(map(str, a))))


def random_project(r):
    k = r.randrange(12)
    if k == 0:
        return modgen.ModGen(r, 0.003).project().sources()
    if k == 1:
        p = EGen(r, ents=2, meth=1, groups=0.6).program(ntpl=4, nmeth=3, nst=8, nent=2, ninp=1)
    elif k == 2:
        p = FGen(r).program(nst=8, ninp=1)
    elif k == 3:
        p = ctgen.CtGen(r).program()
    elif k in (4, 5, 6):
        p = WGen(r, fn=0.6, inl=0.3, edu=k == 4).program(nst=25, nfn=2, nent=6)
    elif k == 7:
        p = SGen(r, fn=1, inl=0.5, callargs=r.choice([0, 1])).program(nsched=6)
    elif k == 8:
        p = TGen(r, fn=0.6, inl=0.4).program(nst=20, nfn=2)
    elif k == 9:
        p = FGen(r, geo=3, value=2).program(nst=20, ninp=1)
    else:
        p = Gen(r, structs=1, fn=0.8, inl=0.3, alias=0.3, ctrl=1.2, cont=0.5).program(nst=9, nfn=3, nstruct=2, depth=2, ninp=1, iface=1)
    return dict(p.sources, **{"main.aca": p.text()})


def histories(ctx, tag, n, nproj=0):
    for k in range(0, n, 100):
        if ctx.late() or len(ctx.failures) > 25:
            return
        scs = []
        for i in range(k, min(n, k + 100)):
            r = rnd(ctx, tag, i)
            extra = [("x%d" % j, random_project(r), []) for j in range(nproj)]
            scs.append(clirun.Scenario(r, "%s%d" % (tag, i), extra))
        account(ctx, clirun.check(scs))
