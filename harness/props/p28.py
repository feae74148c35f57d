"""P28: evaluating an agent changes nothing it has learned or is learning."""
from .. import kinds
from ..core import CheckError


def run(ctx):
    for c in ('plain', 'pend', 'separate', 'stateful'):
        ctx.design('LifecycleMC', 'LifecycleMC_%s.cfg' % c)
    for c in ('pend', 'stateful'):
        if ctx.tlc('LifecycleMC', 'LifecycleMCx_%s.cfg' % c).ok:
            raise CheckError('the broken design was not rejected')
    if ctx.thorough:
        for c in ('plain', 'pend', 'separate', 'stateful'):
            ctx.design('LifecycleMC', 'LifecycleMCL_%s.cfg' % c, workers=8,
                       timeout=1500)
    jobs = []
    for cfg, names, batch in (
            ('es', kinds.SERIAL + kinds.STATEFUL, False),
            ('em', kinds.SEPARATE, False), ('eb', kinds.BATCH, True)):
        n = len(names) * ctx.pick(2, 24)
        bs = ctx.generate('LifecycleGen', 'LifecycleGen_%s.cfg' % cfg,
                          depth=60, simulate=n, limit=n)
        for k, b in enumerate(bs):
            jobs.append(dict(
                kind=names[k % len(names)], batch=batch, b=b['b'],
                evals=True, probe=True,
                seed=ctx.rng.randrange(10 ** 6),
                p=kinds.params(ctx.rng)))
    ctx.validate('LifecycleTrace', ctx.drive('lifecycle', 'run', jobs))
