"""Entity groups are sets of entities."""
from entgen import EGen
from plans.common import fuzz


def run(ctx):
    fuzz(ctx, "g", ctx.n(200), dict(ents=1, groups=3, kills=0.5),
         dict(ntpl=2, nmeth=1, nst=10, nent=3, ninp=2), ("std", "O"), cls=EGen)
    fuzz(ctx, "h", ctx.n(120), dict(ents=1, groups=3, meth=0.7, inl=0.6, fn=0.6, virt=0.5),
         dict(ntpl=2, nmeth=2, nst=8, nent=3, nfn=3, ninp=2), ("std", "nl0"), cls=EGen)
    fuzz(ctx, "w", ctx.n(150), dict(ents=0.3, groups=4, again=5),
         dict(ntpl=2, nmeth=0, nst=5, nent=4, ninp=1), ("std",), cls=EGen)
    fuzz(ctx, "n", ctx.n(60), dict(ents=0.7, groups=3, kills=0.4),
         dict(ntpl=2, nmeth=1, nst=6, nent=3, ninp=1, iface=2), ("std",), cls=EGen)
