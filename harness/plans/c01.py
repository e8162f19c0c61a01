"""Integer expressions."""
import random

import shapes
from plans.common import fuzz, refine


def run(ctx):
    rnd = random.Random(ctx.seed)
    pk = shapes.Packer("s", 12, shapes.PRE, shapes.fns(), shapes.setup)
    items = shapes.int_ops()
    for it in rnd.sample(items, min(len(items), ctx.n(2400, len(items)))):
        pk.add(shapes.int_snip(it))
    refine(ctx, pk.programs(rnd))
    fuzz(ctx, "e", ctx.n(300), dict(bools=0.3, ctrl=0.3, minmax=0.3, const=0.3, fn=0.3, inl=0.3),
         dict(nst=8, nfn=1, depth=1, ninp=6))
