"""The grammar of expressions and statements: how tokens group, what types
they need, which names they may use."""
from plans.common import sources


def run(ctx):
    sources(ctx, "e", ctx.n(260), dict(layout=0.1, depth=2, nst=5), ("std",))
    sources(ctx, "s", ctx.n(500), dict(layout=0.1, depth=1, nst=4), ("std", "O"))
    sources(ctx, "w", ctx.n(600), dict(layout=0.1, depth=1, wrong=0.03, nst=4), ("std",))
