"""P37: the emulator env."""
import itertools


def run(ctx):
    ctx.design('AleMC')
    if ctx.thorough:
        ctx.design('AleMC', 'AleMC3.cfg', workers=8, short=False,
                   timeout=1500)
    ps = [dict(skip=s, n=n, life=l, crop=c, nulls=u, seed=sd)
          for s, n, l, c, (u, sd) in itertools.product(
              (1, 2, 3, 4), (1, 2, 4), (False, True), (False, True),
              ((0, 5), (3, -1)))]
    sc = ctx.generate('AleGen', depth=200, simulate=ctx.pick(800, 8000))
    jobs = [dict(s, p=ps[k % len(ps)], seed=k) for k, s in enumerate(sc)]
    ctx.validate('AleTrace', ctx.drive('ale', 'run', jobs))
