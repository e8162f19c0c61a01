"""The math module (AcaciaSem: MathFn)."""
from mathgen import MGen
from plans.common import fuzz


def run(ctx):
    vs = ("std", "O", "nl0")
    for k in range(1 if ctx.tier == "quick" else 12):
        fuzz(ctx, "m%d_" % k, 400, {}, dict(nst=7, ninp=5), vs[:1], cls=MGen)
        fuzz(ctx, "v%d_" % k, 110, dict(fn=0.5, inl=0.4, structs=0.3), dict(nst=7, nfn=2, nstruct=1, ninp=4), vs, cls=MGen)
        fuzz(ctx, "w%d_" % k, 80, dict(math=0.7, ctrl=0.3), dict(nst=5, ninp=8), vs[:1], cls=MGen)
