"""Entity filters select the entities that meet their conditions."""
from filtgen import FGen
from plans.common import fuzz


def run(ctx):
    fuzz(ctx, "f", ctx.n(130), {}, dict(nst=10, ninp=4), ("std", "O"), cls=FGen)
    fuzz(ctx, "v", ctx.n(90), dict(value=3, geo=0.3, player=0.2), dict(nst=10, ninp=4, nent=9),
         ("std",), cls=FGen)
    fuzz(ctx, "l", ctx.n(90), dict(lim=3, geo=0.8, player=0.6, value=0.5), dict(nst=9, ninp=4),
         ("nl0",), cls=FGen)
    fuzz(ctx, "s", ctx.n(90), dict(same=0.7, player=2.5, geo=0.7, lim=0.4, value=0.7), dict(nst=10, ninp=4),
         ("std",), cls=FGen)
