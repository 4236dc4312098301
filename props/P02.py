from . import nbcommon


def run(ctx):
    nbcommon.run_both(ctx, "P02")
