"""The command line: what a run may change, and when it must refuse."""
from plans.cli import histories


def run(ctx):
    histories(ctx, "h", ctx.n(300))
