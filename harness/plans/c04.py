"""Variables keep their own values."""
import shapes
from plans.common import fuzz, shaped


def run(ctx):
    fuzz(ctx, "v", ctx.n(180), dict(ctrl=0.5, aug=2, swap=1, alias=1, structs=0.5, const=0.3),
         dict(nst=14, nstruct=1, depth=1, ninp=5), ("std", "O"))
    fuzz(ctx, "w", ctx.n(110), dict(ctrl=0.5, aug=1.5, fn=1.2, inl=1, swap=0.5, alias=0.5),
         dict(nst=10, nfn=4, depth=2, ninp=5, iface=1), ("std",))
    shaped(ctx, "c", ctx.n(160), shapes.calls)
