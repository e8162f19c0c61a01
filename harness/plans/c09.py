"""Structures."""
from plans.common import fuzz


def run(ctx):
    fuzz(ctx, "s", ctx.n(250), dict(structs=2.5, ctrl=0.6, aug=1, swap=0.3),
         dict(nst=10, nstruct=3, depth=1, ninp=5))
    fuzz(ctx, "t", ctx.n(130), dict(structs=2.5, ctrl=0.6, fn=1, inl=1, alias=0.6),
         dict(nst=8, nstruct=3, nfn=3, depth=1, ninp=5), ("std", "O"))
