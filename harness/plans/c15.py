"""Tasks and loops over game ticks (AcaciaSem: Turns; schedule module)."""
from plans.common import fuzz
from schedgen import SGen


def run(ctx):
    vs = ("std", "O", "nl0", "names", "init")
    for k in range(1 if ctx.tier == "quick" else 12):
        fuzz(ctx, "a%d_" % k, 45, dict(fn=1, inl=0.6, callargs=0), {}, vs, cls=SGen)
        fuzz(ctx, "b%d_" % k, 40, dict(fn=1, inl=0.3, callargs=1), {}, vs[:3], cls=SGen)
