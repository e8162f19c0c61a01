"""Layout: what separates tokens, lines and blocks does not matter beyond
that; what is no program is refused with its line."""
from plans.common import sources


def run(ctx):
    sources(ctx, "l", ctx.n(500), dict(layout=0.8, depth=1, nst=4), ("std",))
    sources(ctx, "k", ctx.n(200), dict(layout=1.0, depth=1, nst=2), ("std", "O"))
    sources(ctx, "d", ctx.n(900), dict(layout=0.4, depth=1, nst=3, bad=1.0), ("std",))
