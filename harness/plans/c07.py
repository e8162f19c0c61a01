"""The optimizer changes nothing that can be observed."""
import shapes
from plans.common import dense, fuzz, shaped

VS = ("std", "O", "nl0", "nl1", "nlbig", "init", "names")


def run(ctx):
    fuzz(ctx, "o", ctx.n(50), dict(ctrl=2, bools=1.2, fn=0.8, inl=0.5, structs=0.4, alias=0.4),
         dict(nst=8, nfn=3, nstruct=1, depth=3, ninp=4, iface=1), VS, batch=60)
    fuzz(ctx, "q", ctx.n(20), dict(ctrl=2.5, bools=1.2, fn=1.4, swap=0.3),
         dict(nst=7, nfn=3, depth=2, ninp=4), VS, batch=60)
    dense(ctx, "d", ctx.n(90), ("std", "O", "nl0", "nlbig"))
    dense(ctx, "e", ctx.n(200), ("std",), nfn=1, nst=14)
    shaped(ctx, "g", ctx.n(300), shapes.guards)
    shaped(ctx, "n", ctx.n(90), shapes.edense, ("std", "nlbig"))
