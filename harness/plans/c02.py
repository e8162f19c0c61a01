"""Boolean expressions and comparisons."""
import random

import shapes
from plans.common import fuzz, refine


def run(ctx):
    rnd = random.Random(ctx.seed)
    pk = shapes.Packer("s", 12, shapes.PRE, shapes.fns(), shapes.setup)
    for s in shapes.bool_snips(rnd, ctx.n(2400, 100000)):
        pk.add(s)
    refine(ctx, pk.programs(rnd))
    pk = shapes.Packer("r", 14, shapes.PRE, shapes.fns(), shapes.setup)
    for s in shapes.range_snips(ctx.n(1100, 60000), rnd):
        pk.add(s)
    refine(ctx, pk.programs(rnd, vecs=shapes.small_vectors))
    fuzz(ctx, "b", ctx.n(300), dict(bools=2.0, ctrl=1, fn=0.4, inl=0.4, const=0.3, structs=0.4),
         dict(nst=8, nfn=1, nstruct=1, depth=1, ninp=6))
