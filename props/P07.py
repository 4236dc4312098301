from . import pycommon


def run(ctx):
    pycommon.run(ctx, ["super"])
