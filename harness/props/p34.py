"""P34: observation normalization."""


def run(ctx):
    ctx.design('NormalizerMC')
    ctx.design('NormalizerMC', 'NormalizerMCu.cfg')
    if ctx.thorough:
        ctx.design('NormalizerMC', 'NormalizerMCL.cfg', workers=8,
                   timeout=1500)
    n = ctx.pick(500, 6000)
    bs = ctx.generate('NormalizerGen', depth=30, simulate=n, limit=n)
    bs += ctx.generate('NormalizerGen', 'NormalizerGenL.cfg', depth=40,
                       simulate=n // 4, limit=n // 4)
    r = ctx.rng
    jobs = []
    for b in bs:
        shape, axis = r.choice([([4], 0), ([4], 0), ([4], 1), ([2, 2], 0),
                                ([2, 2], 1), ([2, 2], 2), ([4, 1], 1),
                                ([1, 4], 0)])
        dtype = r.choice(['float32', 'float32', 'float64'])
        xd = r.choice([dtype, dtype, 'float64', 'int32'])
        jobs.append(dict(b=b['b'], c=dict(
            D=4, shape=shape, axis=axis, dtype=dtype, xdtype=xd,
            off=r.choice([0, 0, 0, 256]),
            intshape=r.random() < .5,
            eps=r.choice([None, None, .25, 1.0]),
            until=r.choice([-1, -1, 1, 3, 8, 20]),
            clip=r.choice([None, None, .5, 1.25, 5]))))
    ctx.validate('NormalizerTrace', ctx.drive('funcs', 'normalizer', jobs),
                 workers=8)
