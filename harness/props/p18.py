"""P18: vector envs."""


def run(ctx):
    ctx.design('VecEnvMC', 'VecEnvMC3.cfg')
    ctx.design('VecEnvMC', 'VecEnvMCl.cfg')
    if ctx.thorough:
        ctx.design('VecEnvMC', 'VecEnvMC4.cfg', workers=8, short=False,
                   timeout=1500)
    b = ctx.generate('VecEnvGen', depth=60, simulate=ctx.pick(250, 2000))
    b += ctx.generate('VecEnvGen', 'VecEnvGenL.cfg', depth=80,
                      simulate=ctx.pick(50, 500))
    jobs = []
    for k, x in enumerate(b):
        for mp in (False, True):
            jobs.append(dict(
                n=x['n'], b=x['b'], mp=mp, close=k % 2 == 0,
                delay=[0, 0.002, 0.005][k % 3] if mp else 0,
                spaces=[-1, 0, 1, 5][k % 4]))
        if k < 8:
            jobs.append(dict(n=x['n'], b=[], mp=True, close=True, delay=0,
                             spaces=-1))
    ctx.validate('VecEnvTrace', ctx.drive(
        'vec', 'run', jobs, timeout=ctx.pick(120, 400)))
