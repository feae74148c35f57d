"""P43: env modifiers, reward filters and the toy env do what they document."""
from ..core import CheckError


def run(ctx):
    ctx.design('ToysMC', 'ToysMC.cfg')
    if ctx.thorough:
        ctx.design('ToysMC', 'ToysMCL.cfg', workers=8, short=False)
    if ctx.tlc('ToysMC', 'ToysMCx_stale.cfg').ok:
        raise CheckError('time limits that survive resets are not rejected')
    r = ctx.rng
    kinds = ['mods'] * ctx.pick(600, 6000) + ['abc'] * ctx.pick(300, 3000) + \
        ['freq'] * ctx.pick(20, 100)
    bs = ctx.generate('ToysGen', depth=3, simulate=len(kinds) + 40,
                      limit=len(kinds))
    jobs = [dict(b=b, kind=k, seed=r.randrange(2 ** 31),
                 N=ctx.pick(6000, 20000)) for b, k in zip(bs, kinds)]
    traces = ctx.drive('toys', 'run', jobs, timeout=ctx.pick(400, 3000))
    for j in range(0, len(traces), 2000):
        ctx.validate('ToysTrace', traces[j:j + 2000])
