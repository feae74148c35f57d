from harness.props import p15


def run(ctx):
    ctx.design('EvalRunMC')
    ctx.validate('EvalRunTrace', ctx.drive('loops', 'demos',
                                           p15.scenarios(ctx)))
