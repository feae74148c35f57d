def run(ctx):
    ctx.design('TrainLoopMC', 'TrainLoopMCx.cfg')
    ctx.design('TrainBatchMC', 'TrainBatchMCx.cfg')
    for gen, drv, tr in (('TrainGenX.cfg', 'serial', 'TrainLoopTrace'),
                         ('TrainGenBX.cfg', 'batch', 'TrainBatchTrace')):
        sc = ctx.generate('TrainGen', gen, depth=40,
                          simulate=ctx.pick(200, 2500),
                          limit=ctx.pick(1200, 15000))
        ctx.validate(tr, ctx.drive('loops', drv, sc))
