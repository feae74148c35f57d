def scenarios(ctx):
    sc = ctx.generate('EvalGen', 'EvalGenS.cfg', limit=ctx.pick(2500, None))
    sc += ctx.generate('EvalGen', 'EvalGenL.cfg', depth=40,
                       simulate=ctx.pick(120, 1500),
                       limit=ctx.pick(500, 6000))
    return sc


def run(ctx):
    ctx.design('EvalRunMC')
    sc = [dict(s, perf=k % 3 == 0) for k, s in enumerate(scenarios(ctx))]
    ctx.validate('EvalRunTrace', ctx.drive('loops', 'eval_serial', sc))
