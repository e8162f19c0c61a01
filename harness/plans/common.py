"""Shared by the plans: run refinement batches and account for them."""
import random

import conform
from gen import Bad, Gen

ASSUME = ["Minecraft commands behave as stated in spec/World.tla and spec/McMachine.tla",
          "operands of one expression do not have side effects on each other",
          "programs that divide by zero, read unset variables or exceed the loop bound "
          "have no defined meaning and are skipped (counted as void)"]


def account(ctx, o):
    ctx.failures += o.failures
    ctx.add({"programs": o.programs, "compilations": o.compiled,
             "disagreements_checked": o.done,
             "programs_conforming": o.conformed, "void_behaviours": o.void,
             "states": o.distinct, "transitions": o.states,
             "void_reasons": o.voids, "command_kinds_executed": o.seen_commands, "samples": o.samples})
    for a in ASSUME:
        if a not in ctx.assumptions:
            ctx.assumptions.append(a)
    if o.machine_error:
        raise RuntimeError(o.machine_error)


def refine(ctx, programs, variants=("std",), batch=400, **kw):
    """programs: list of (id, Program); checked in chunks while time is left."""
    size = max(40, 1200 // max(1, len(variants)))
    for i in range(0, len(programs), size):
        if ctx.late() or len(ctx.failures) > 25:
            break
        account(ctx, conform.check(programs[i:i + size], variants, batch=batch, **kw))


def fuzz(ctx, tag, n, feats, prog, variants=("std",), cls=Gen, **kw):
    ps = []
    for i in range(n):
        g = cls(random.Random("%d/%s/%s/%d" % (ctx.seed, ctx.prop, tag, i)), **feats)
        try:
            p = g.program(**prog)
        except Bad:
            continue
        if p is not None:
            ps.append(("%s%d" % (tag, i), p))
    refine(ctx, ps, variants, **kw)


def dense(ctx, tag, n, variants=("std",), **kw):
    import shapes
    ps = []
    for i in range(n):
        r = random.Random("%d/%s/%s/%d" % (ctx.seed, ctx.prop, tag, i))
        ps.append(("%s%d" % (tag, i), shapes.dense(r, **kw)))
    refine(ctx, ps, variants)


def shaped(ctx, tag, n, make, variants=("std",), **kw):
    ps = []
    for i in range(n):
        ps.append(("%s%d" % (tag, i), make(random.Random("%d/%s/%s/%d" % (ctx.seed, ctx.prop, tag, i)), **kw)))
    refine(ctx, ps, variants)


def sources(ctx, tag, n, kw, variants=("std",), make=None):
    """Source texts judged by spec/Source.tla (SrcRefine)."""
    import srcgen
    import srcrun
    ps = [("%s%d" % (tag, i), (make or srcgen.make)(random.Random("%d/%s/%s/%d" % (ctx.seed, ctx.prop, tag, i)), **kw))
          for i in range(n)]
    for i in range(0, n, 600):
        if ctx.late() or len(ctx.failures) > 25:
            break
        o = srcrun.check(ps[i:i + 600], variants)
        account(ctx, o)
        ctx.add({"texts_refused": o.rejected, "refusals": o.reasons})
        ctx.add({"samples": [p.src for _, p in ps[i:i + 1]]})
