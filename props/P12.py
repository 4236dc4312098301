from . import mvcommon


def run(ctx):
    mvcommon.run(ctx, lambda op: not op.startswith("m_"))
