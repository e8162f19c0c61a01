"""Methods, virtual dispatch and method resolution."""
import shapes
from entgen import EGen
from plans.common import fuzz, shaped


def run(ctx):
    fuzz(ctx, "m", ctx.n(110), dict(ents=1.5, meth=2.5, virt=2),
         dict(ntpl=4, nmeth=4, nst=8, nent=4, ninp=2), ("std", "O"), cls=EGen)
    fuzz(ctx, "v", ctx.n(80), dict(ents=1, meth=2.5, virt=3, inlm=0.6, kills=0.2),
         dict(ntpl=4, nmeth=4, nst=8, nent=4, ninp=2), ("std", "nl0"), cls=EGen)
    fuzz(ctx, "i", ctx.n(50), dict(ents=1, meth=2, virt=1.5, inlm=0.5, inl=0.6, fn=0.6, structs=0.5),
         dict(ntpl=3, nmeth=3, nst=7, nent=3, nfn=2, nstruct=1, ninp=2), ("std", "nl1"), cls=EGen)
    shaped(ctx, "d", ctx.n(120), shapes.edense)
    fuzz(ctx, "n", ctx.n(40), dict(ents=1, meth=2.5, virt=3, inlm=0.4, kills=0.2),
         dict(ntpl=4, nmeth=4, nst=5, nent=4, ninp=1, iface=2), ("std",), cls=EGen)
