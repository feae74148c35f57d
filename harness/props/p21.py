from harness.props import wrap


def run(ctx):
    wrap.check(ctx, [dict(kind='life')] * 4 + [
        dict(kind='skip', skip=k) for k in (1, 2, 3, 4)] + [
        dict(kind='noop', max=m, override=o)
        for m, o in ((1, 0), (3, 0), (5, 0), (5, 4))] + [
        dict(kind='fire')] * 3 + [dict(kind='clip')], ctx.pick(1000, 12000))
