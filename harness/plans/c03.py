"""Branches and loops."""
from plans.common import dense, fuzz


def run(ctx):
    fuzz(ctx, "c", ctx.n(260), dict(ctrl=3, bools=1, swap=0.2),
         dict(nst=7, depth=3, ninp=6), ("std",))
    fuzz(ctx, "n", ctx.n(160), dict(ctrl=3, bools=1, fn=0.7, inl=0.7, const=0.3, alias=0.3,
                                    lists=0.3, structs=0.3),
         dict(nst=7, nfn=3, nstruct=1, depth=3, ninp=5), ("std", "O"))
    dense(ctx, "d", ctx.n(200), nfn=2, nst=10)
