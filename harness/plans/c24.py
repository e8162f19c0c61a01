"""Acting on the world: positions, offsets, rotations, blocks, items and the
functions of the world module (AcaciaSem: OffOf, CxOf, RotOf, wcmd)."""
from plans.common import fuzz
from worldgen import WGen


def run(ctx):
    vs = ("std", "O", "nl0")
    for k in range(1 if ctx.tier == "quick" else 10):
        fuzz(ctx, "w%d_" % k, 500, dict(fn=0.3, inl=0.3, minmax=0), {}, vs[:1], cls=WGen)
        fuzz(ctx, "v%d_" % k, 120, dict(fn=0.6, inl=0.6, minmax=0, edu=True, ver=(1, 20, 10)), dict(nst=9, nfn=2), vs, cls=WGen)
        for v in ((1, 19, 60), (1, 19, 70), (1, 20, 0)):
            fuzz(ctx, "o%d_%d_%d_" % ((k,) + v[1:]), 50, dict(fn=0.3, inl=0.3, minmax=0, ver=v), {}, vs[:1], cls=WGen)
