"""P42: networks and differentiable functions compute what they document."""
NETS = ['mlp', 'v', 'sq', 'dist', 'mlpbn', 'sa', 'bnsa', 'late', 'bnlate',
        'lstmsq', 'lstmsa', 'quad', 'bnquad']
OTHER = ['direct', 'fns', 'noise', 'init', 'seq']


def run(ctx):
    ctx.design('NetsMC', 'NetsMC.cfg')
    if ctx.thorough:
        ctx.design('NetsMC', 'NetsMCL.cfg', workers=8, short=False)
    r = ctx.rng
    kinds = NETS * ctx.pick(16, 160) + OTHER * ctx.pick(14, 100) + \
        ['duel'] * ctx.pick(6, 30)
    bs = ctx.generate('NetsGen', depth=3, simulate=len(kinds) + 40,
                      limit=len(kinds))
    jobs = [dict(b=b, kind=k, seed=r.randrange(2 ** 31), which=j,
                 dist=j % 2 == 0)
            for j, (b, k) in enumerate(zip(bs, kinds))]
    traces = ctx.drive('nets', 'run', jobs, timeout=ctx.pick(400, 3000))
    for j in range(0, len(traces), 800):
        ctx.validate('NetsTrace', traces[j:j + 800])
