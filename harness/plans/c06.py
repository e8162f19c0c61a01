"""Functions expanded in place; references and constants."""
import shapes
from plans.common import fuzz, shaped


def run(ctx):
    fuzz(ctx, "i", ctx.n(250), dict(inl=2, alias=0.7, const=0.7, ctrl=0.6, aug=1),
         dict(nst=8, nfn=4, depth=1, ninp=5))
    fuzz(ctx, "j", ctx.n(150), dict(inl=2, fn=0.6, alias=0.6, const=0.6, structs=0.8, ctrl=0.6,
                                    lists=0.4, swap=0.3),
         dict(nst=8, nfn=4, nstruct=2, depth=2, ninp=5), ("std", "O"))
    shaped(ctx, "e", ctx.n(120), shapes.edense)
