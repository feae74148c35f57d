def run(ctx):
    ctx.design('EvalBatchMC')
    if ctx.thorough:
        ctx.design('EvalBatchMC', 'EvalBatchMC3.cfg', workers=8, short=False,
                   timeout=1500)
    sc = ctx.generate('EvalGen', 'EvalGenB.cfg', limit=ctx.pick(2500, None))
    sc += ctx.generate('EvalGen', 'EvalGenBL.cfg', depth=60,
                       simulate=ctx.pick(150, 2000),
                       limit=ctx.pick(700, 8000))
    ctx.validate('EvalBatchTrace', ctx.drive('loops', 'eval_batch', sc))
