from harness.props import buf, prio


def run(ctx):
    ctx.design('ReplayBufferMC')
    ctx.design('EpisodicMC')
    h1 = ctx.generate('ReplayBufferGen', 'BufferGenReload.cfg',
                      limit=ctx.pick(1200, None))
    h2 = ctx.generate('ReplayBufferGen', 'BufferGenReloadLong.cfg', depth=60,
                      simulate=ctx.pick(25, 300), limit=ctx.pick(200, 2500))
    h1 = [h for h in h1 if any(o['op'] in ('reload', 'save') for o in h)]
    k1, k2 = ['uniform', 'prioritized'], ['episodic', 'pepisodic']
    jobs = buf.jobs(ctx, h1, k1, [(1, 2), (2, 3), (3, -1), (1, 1)], 2)
    jobs += buf.jobs(ctx, h2, k1, [(1, 6), (2, 11), (3, 8), (2, -1)], 2,
                     every=2)
    ctx.validate('ReplayBufferTrace', ctx.drive('buffers', 'history', jobs))
    jobs = buf.jobs(ctx, h1, k2, [(1, 2), (1, 3), (1, -1), (1, 1)], 2)
    jobs += buf.jobs(ctx, h2, k2, [(1, 6), (1, 11), (1, 8), (1, -1)], 2,
                     every=2)
    ctx.validate('EpisodicTrace', ctx.drive('buffers', 'history', jobs))
    prio.histories(ctx, reload=True, short=ctx.pick(400, 4000),
                   long_=ctx.pick(120, 1500))
