from harness.props import buf


def run(ctx):
    ctx.design('EpisodicMC')
    kinds = ['episodic', 'pepisodic']
    h1 = ctx.generate('ReplayBufferGen', limit=ctx.pick(1000, None))
    h2 = ctx.generate('ReplayBufferGen', 'EpisodicGenLong.cfg',
                      simulate=ctx.pick(25, 300), depth=80,
                      limit=ctx.pick(250, 3000))
    jobs = buf.jobs(ctx, h1, kinds, [(1, 3), (1, 2), (1, -1), (1, 1)], 2)
    for w, wait, wt in ((0, True, True), (1, False, True), (2, True, False)):
        jobs += buf.jobs(ctx, h2[w::3], kinds,
                         [(1, 10), (1, 6), (1, -1), (1, 20), (1, 3)],
                         3, kw=dict(wait=wait, weights=wt))
    ctx.validate('EpisodicTrace', ctx.drive('buffers', 'history', jobs))
