"""Shared by the wrapper properties."""


def check(ctx, params, n):
    ctx.design('WrappersMC')
    if ctx.thorough:
        ctx.design('WrappersMC', 'WrappersMC4.cfg', workers=8, short=False,
                   timeout=1500)
    sc = ctx.generate('WrapGen', depth=200, simulate=n)
    jobs = [dict(s, p=params[k % len(params)], seed=k)
            for k, s in enumerate(sc)]
    ctx.validate('WrappersTrace', ctx.drive(
        'wrap', 'single', [j for j in jobs if j['p']['kind'] != 'vstack']))
    vs = [j for j in jobs if j['p']['kind'] == 'vstack']
    if vs:
        ctx.validate('WrappersTrace',
                     sum(ctx.drive('wrap', 'vstack', vs), []),
                     label='VectorFrameStack')
    return sc
