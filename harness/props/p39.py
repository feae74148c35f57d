"""P39: distributions of actions are what their parameters say."""


def run(ctx):
    ctx.design('FixedPointMC', 'FixedPointMC.cfg')
    ctx.design('DistribMC', ctx.pick('DistribMC.cfg', 'DistribMCL.cfg'))
    n = ctx.pick(800, 8000)
    bs = ctx.generate('DistribGen', depth=3, simulate=n, limit=n)
    jobs = [dict(b=b, seed=ctx.rng.randrange(2 ** 31), N=ctx.pick(1200, 4000))
            for b in bs]
    ctx.validate('DistribTrace',
                 ctx.drive('distrib', 'run', jobs,
                           timeout=ctx.pick(300, 3000)))
