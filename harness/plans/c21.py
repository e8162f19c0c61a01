"""Texts shown to players (AcaciaSem: FText; print module)."""
from plans.common import fuzz
from textgen import TGen


def run(ctx):
    vs = ("std", "O", "nl0")
    for k in range(1 if ctx.tier == "quick" else 12):
        fuzz(ctx, "t%d_" % k, 450, dict(fn=0.3, inl=0.3), {}, vs[:1], cls=TGen)
        fuzz(ctx, "v%d_" % k, 120, dict(fn=0.6, inl=0.6, structs=0.3), dict(nst=7, nfn=2), vs, cls=TGen)
