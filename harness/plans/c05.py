"""Functions executed at run time."""
import shapes
from plans.common import dense, fuzz, shaped


def run(ctx):
    fuzz(ctx, "f", ctx.n(250), dict(fn=2, aug=1, ctrl=0.6), dict(nst=8, nfn=4, depth=1, ninp=5))
    fuzz(ctx, "g", ctx.n(150), dict(fn=2, inl=0.4, structs=0.8, ctrl=0.5, const=0.3),
         dict(nst=8, nfn=4, nstruct=2, depth=1, ninp=5, iface=1), ("std", "O"))
    dense(ctx, "d", ctx.n(150), nst=6)
    shaped(ctx, "c", ctx.n(120), shapes.calls)
    shaped(ctx, "k", ctx.n(120), shapes.counters)
