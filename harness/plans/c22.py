"""The same sources and options always give the same output files."""
from plans.cli import histories


def run(ctx):
    histories(ctx, "r", ctx.n(150), 2)
    histories(ctx, "k", ctx.n(40))
