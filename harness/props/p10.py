def run(ctx):
    ctx.design('TrainLoopMC')
    if ctx.thorough:
        ctx.design('TrainLoopMC', 'TrainLoopMC5.cfg', workers=8, short=False,
                   timeout=1500)
    sc = ctx.generate('TrainGen', 'TrainGenS.cfg', limit=ctx.pick(2500, None))
    sc += ctx.generate('TrainGen', 'TrainGenL.cfg', depth=40,
                       simulate=ctx.pick(120, 1500),
                       limit=ctx.pick(400, 5000))
    ctx.validate('TrainLoopTrace', ctx.drive('loops', 'serial', sc))
