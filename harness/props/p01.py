from harness.props import buf


def run(ctx):
    ctx.design('ReplayBufferMC')
    if ctx.thorough:
        ctx.design('ReplayBufferMC', 'ReplayBufferMC3.cfg')
        ctx.design('ReplayBufferMC', 'ReplayBufferMC2.cfg')
    kinds = ['uniform', 'prioritized']
    short = ctx.generate('ReplayBufferGen', limit=ctx.pick(2500, None))
    jobs = []
    for n in (1, 2, 3):
        jobs += buf.jobs(ctx, short[n - 1::3] if not ctx.thorough else short,
                         kinds, [(n, -1)], 2)
    if ctx.thorough:
        deep = ctx.generate('ReplayBufferGen', 'ReplayBufferGen1.cfg')
        for n in (2, 3, 4):
            jobs += buf.jobs(ctx, deep, kinds, [(n, -1)], 1)
    long_ = ctx.generate('ReplayBufferGen', 'ReplayBufferGenLong.cfg',
                         simulate=ctx.pick(25, 300), depth=80,
                         limit=ctx.pick(200, 2000))
    jobs += buf.jobs(ctx, long_, kinds, [(n, -1) for n in (1, 2, 3, 4, 5, 7)],
                     3, every=5)
    ctx.validate('ReplayBufferTrace', ctx.drive('buffers', 'history', jobs))
