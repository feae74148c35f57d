from harness.props import wrap


def run(ctx):
    ps = []
    for k in (1, 2, 3, 4):
        for order in ('chw', 'hwc'):
            for dtype in ('uint8', 'float32'):
                ps.append(dict(kind='stack', k=k, order=order, dtype=dtype))
                ps.append(dict(kind='vstack', k=k, order=order, dtype=dtype,
                               n=1 + (len(ps) // 2) % 4))
    wrap.check(ctx, ps, ctx.pick(700, 8000))
