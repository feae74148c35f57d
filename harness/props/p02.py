from harness.props import buf


def run(ctx):
    ctx.design('FifoMC')
    ctx.design('FifoMC', 'FifoMCu.cfg')
    ctx.design('ReplayBufferMC')
    # the queue
    short = ctx.generate('FifoGen', limit=ctx.pick(3000, None))
    long_ = ctx.generate('FifoGen', 'FifoGenLong.cfg', depth=70,
                         simulate=ctx.pick(15, 200), limit=ctx.pick(150, 2000))
    jobs = []
    for k, h in enumerate(short):
        jobs.append(dict(kind='queue', cap=[2, 0, 1, 3, -1][k % 5], ops=h,
                         seed=k))
    for k, h in enumerate(long_):
        jobs.append(dict(kind='queue', cap=[5, 8, 1, 13, -1][k % 5], ops=h,
                         seed=k))
    # the prioritized queue: no indexing, no extend
    for k, h in enumerate(long_):
        h = [o if o['op'] in ('new', 'append', 'popleft') else
             {'op': 'append'} for o in h]
        jobs.append(dict(kind='prioritized', cap=[4, 8, 1, 13, -1][k % 5],
                         ops=h, seed=k))
    ctx.validate('FifoTrace', ctx.drive('buffers', 'queue', jobs))
    # the replay buffers
    h1 = ctx.generate('ReplayBufferGen', limit=ctx.pick(800, None))
    h2 = ctx.generate('ReplayBufferGen', 'ReplayBufferGenLong.cfg',
                      simulate=ctx.pick(20, 200), depth=80,
                      limit=ctx.pick(120, 1500))
    kinds = ['uniform', 'prioritized']
    jobs = buf.jobs(ctx, h1, kinds, [(1, 2), (2, 3), (3, 2), (1, 1), (2, 1)],
                    2)
    jobs += buf.jobs(ctx, h2, kinds,
                     [(1, 8), (2, 5), (3, 9), (1, 17), (4, 3), (2, 32)], 3,
                     every=3)
    ctx.validate('ReplayBufferTrace', ctx.drive('buffers', 'history', jobs))
