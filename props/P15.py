from . import mvcommon


def run(ctx):
    mvcommon.run(ctx, lambda op: op.startswith("m_"))
