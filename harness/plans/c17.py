"""Two projects in one world (harness/duorun.py; spec/Refine.tla)."""
import random

import duorun
from plans.common import account


def run(ctx):
    for k in range(1 if ctx.tier == "quick" else 15):
        if ctx.late() or len(ctx.failures) > 25:
            return
        ds = [("d%d_%d" % (k, i), duorun.make(random.Random("%d/%s/%d/%d" % (ctx.seed, ctx.prop, k, i))))
              for i in range(320)]
        account(ctx, duorun.check([x for x in ds if x[1]]))
