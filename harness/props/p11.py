def run(ctx):
    ctx.design('TrainBatchMC')
    if ctx.thorough:
        ctx.design('TrainBatchMC', 'TrainBatchMC5.cfg', workers=8, short=False)
        ctx.design('TrainBatchMC', 'TrainBatchMCn3.cfg', workers=8,
                   short=False, timeout=1500)
    sc = ctx.generate('TrainGen', 'TrainGenB.cfg', limit=ctx.pick(2500, 40000))
    sc += ctx.generate('TrainGen', 'TrainGenBL.cfg', depth=40,
                       simulate=ctx.pick(120, 1500),
                       limit=ctx.pick(500, 6000))
    ctx.validate('TrainBatchTrace', ctx.drive('loops', 'batch', sc))
