"""Entity variables, fields and creation."""
import shapes
from entgen import EGen
from plans.common import fuzz, shaped


def run(ctx):
    fuzz(ctx, "e", ctx.n(150), dict(ents=2.5, meth=0.3, kills=0.3, swap=0.4),
         dict(ntpl=3, nmeth=2, nst=9, nent=3, ninp=3), ("std", "O"), cls=EGen)
    fuzz(ctx, "f", ctx.n(100), dict(ents=2.5, meth=0.5, structs=0.8, inl=0.7, fn=0.7, alias=0.3),
         dict(ntpl=2, nmeth=2, nst=8, nfn=3, nent=3, nstruct=1, ninp=3), ("std", "nl0"), cls=EGen)
    fuzz(ctx, "g", ctx.n(60), dict(ents=2, groups=1, meth=0.3, kills=0.6),
         dict(ntpl=2, nmeth=2, nst=9, nent=2, ninp=2), ("std",), cls=EGen)
    shaped(ctx, "d", ctx.n(80), shapes.edense)
    fuzz(ctx, "n", ctx.n(60), dict(ents=2.5, meth=0.5, groups=0.5, kills=0.2, structs=0.4),
         dict(ntpl=2, nmeth=2, nst=6, nent=3, nstruct=1, ninp=1, iface=2), ("std",), cls=EGen)
