from harness.props import wrap


def run(ctx):
    wrap.check(ctx, [dict(kind='tl', limit=k) for k in (1, 2, 3, 5, 8)] +
               [dict(kind='monitor')] * 3, ctx.pick(700, 8000))
