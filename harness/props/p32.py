"""P32: parameters, persistent values and optimizer states in shared memory."""

from ..core import CheckError


def run(ctx):
    ctx.design('SharedMC')
    r = ctx.tlc('SharedMC', 'SharedMCx.cfg')
    if r.ok:
        raise CheckError('the broken design was not rejected')
    if ctx.thorough:
        ctx.design('SharedMC', 'SharedMCL.cfg', workers=8, timeout=1500)
    n = ctx.pick(260, 3000)
    bs = ctx.generate('SharedGen', depth=30, simulate=n, limit=n)
    bs += ctx.generate('SharedGen', 'SharedGenL.cfg', depth=60,
                       simulate=n // 5, limit=n // 5)
    r = ctx.rng
    jobs = []
    for b in bs:
        jobs.append(dict(b=b['b'], c=dict(
            kind=r.choice(['linear', 'bn', 'list', 'nest', 'seq', 'scalar']),
            dtype=r.choice(['float32', 'float32', 'float64']),
            opt=r.choice(['momentum'] * 4 + [
                'sgd', 'adam', 'amsgrad', 'rmsprop', 'adagrad',
                'async', 'async']),
            warm=r.random() < .5, seed=r.randrange(10 ** 6))))
    tr = ctx.drive('shared', 'run', jobs)
    for k in range(0, len(tr), 800):
        ctx.validate('SharedTrace', tr[k:k + 800], workers=8)
