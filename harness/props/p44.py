"""P44: optimizers, parameter copies, schedules and solvers take exactly their
documented steps."""
from ..core import CheckError


def run(ctx):
    ctx.design('OptimMC', 'OptimMC.cfg')
    if ctx.thorough:
        ctx.design('OptimMC', 'OptimMCL.cfg', workers=8, short=False)
    for bug in ('alias', 'biasdecay'):
        if ctx.tlc('OptimMC', 'OptimMCx_%s.cfg' % bug).ok:
            raise CheckError('a broken design is not rejected: ' + bug)
    r = ctx.rng
    kinds = ['bench'] * ctx.pick(500, 5000) + ['solve'] * ctx.pick(150, 1500)
    bs = ctx.generate('OptimGen', depth=3, simulate=len(kinds) + 40,
                      limit=len(kinds))
    jobs = [dict(b=b, kind=k) for b, k in zip(bs, kinds)]
    r.shuffle(jobs)
    traces = ctx.drive('optim', 'run', jobs, timeout=ctx.pick(400, 3000))
    for j in range(0, len(traces), 1500):
        ctx.validate('OptimTrace', traces[j:j + 1500])
