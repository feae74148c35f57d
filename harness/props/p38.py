from harness.props import wrap


def run(ctx):
    ps = [dict(kind='scale', scale4=k) for k in (1, 2, -6, 12)]
    ps += [dict(kind='cast', dtype=d, short=s, **{'from': f})
           for f in ('uint8', 'float64', 'float32')
           for d, s in (('float32', True), ('float32', False),
                        ('float64', False), ('int32', False))]
    ps += [dict(kind='normact', low=lo, high=hi)
           for lo, hi in (([-2, 0], [4, 1]), ([3], [8]),
                          ([-1, -1, -5], [1, 1, -4]))] * 2
    ps += [dict(kind='randact', frac=f) for f in (0, 30, 100)]
    ps += [dict(kind='clip'), dict(kind='float'), dict(kind='render')]
    sc = wrap.check(ctx, ps, ctx.pick(900, 10000))
    jobs = [dict(n=ctx.pick(4000, 20000), frac=f, seed=17 + f + ctx.seed,
                 b=sc[0]['b']) for f in (0, 5, 30, 50, 95, 100)]
    ctx.validate('WrappersTrace', ctx.drive('wrap', 'randact_counts', jobs),
                 label='replacement frequencies')
