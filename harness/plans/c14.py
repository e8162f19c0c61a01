"""Several source files (spec/Modules.tla, spec/ModRefine.tla)."""
import random

import modgen
import modrun
from astlib import Fn, Printer
from entgen import EGen
from gen import Gen
from plans.common import refine


def account(ctx, o):
    ctx.failures += o.failures
    ctx.add({"programs": o.programs, "compilations": o.compiled, "disagreements_checked": o.programs,
             "programs_conforming": o.conformed, "compilations_rejected_as_specified": o.rejected,
             "rejection_reasons": o.reasons, "void_behaviours": o.void, "void_reasons": o.voids,
             "states": o.distinct, "transitions": o.states})
    for a in ("projects with run-time recursion have no defined meaning and are skipped",
              "behaviours that read variables of a file whose body has not run yet are skipped"):
        if a not in ctx.assumptions:
            ctx.assumptions.append(a)


class Split:
    """A program whose top-level items are spread over several files, each
    importing everything from the files before it: the meaning is the same."""
    def __init__(self, p, rnd):
        self.__dict__.update(p.__dict__)
        self.p = p
        cuts = sorted(rnd.sample(range(len(p.items) + 1), min(len(p.items), rnd.choice([1, 1, 2, 3]))))
        self.main_sources(p, [0] + cuts + [len(p.items)], rnd)

    def main_sources(self, p, cuts, rnd):
        names = rnd.sample(["lib", "core", "m1", "sub/part", "sub/deep/x"], len(cuts) - 2)
        self.sources = dict(p.sources)
        items = p.items
        done = []
        for a, b, n in zip(cuts, cuts[1:], names + [None]):
            p.items = items[a:b]
            body = p.text()
            p.items = items
            pre = "\n".join(p.pre)
            assert body.startswith(pre)
            imps = [x for x in p.pre if x.startswith(("import ", "from "))] if done else p.pre
            body = "\n".join(list(imps) + ["from .%s import *" % x.replace("/", ".") for x in done] + [body[len(pre):]])
            if n:
                self.sources[n + ".aca"] = body
                done.append(n)
            else:
                self._main = body

    def text(self, full=False):
        return self._main

    def case(self, cid):
        return self.p.case(cid)


def run(ctx):
    def rnd(*a):
        return random.Random("%d/%s/%s" % (ctx.seed, ctx.prop, "/".join(map(str, a))))
    vs = ("std", "nl0", "O", "init")
    for k in range(1 if ctx.tier == "quick" else 12):
        for tag, n, err in (("m", 300, 0.003), ("e", 250, 0.02), ("z", 150, 0.0)):
            if ctx.late() or len(ctx.failures) > 25:
                return
            account(ctx, modrun.check([("%s%d_%d" % (tag, k, i), modgen.ModGen(rnd(tag, k, i), err).project())
                                       for i in range(n)], vs))
        ps = []
        for i in range(70):
            g = Gen(rnd("s", k, i), structs=1, fn=0.8, inl=0.5, alias=0.3, ctrl=1.2)
            ps.append(("s%d_%d" % (k, i), Split(g.program(nst=8, nfn=3, nstruct=2, depth=2, ninp=3, iface=1), rnd("c", k, i))))
        for i in range(40):
            g = EGen(rnd("t", k, i), ents=2, meth=1)
            ps.append(("t%d_%d" % (k, i), Split(g.program(ntpl=3, nmeth=2, nst=7, nent=2, ninp=2), rnd("d", k, i))))
        refine(ctx, ps, ("std",))
