"""P31: what an agent has learned survives saving and loading."""
from .. import kinds
from ..core import CheckError


# Asynchronous workers take the running statistics of their models from the
# shared model, which has none: what they are after loading is not specified.
NOT_SPECIFIED = ('a3c_bn', 'nsq_bn', 'acer_bn')


def run(ctx):
    for c in ('plain', 'pend', 'separate', 'stateful'):
        ctx.design('LifecycleMC', 'LifecycleMC_%s.cfg' % c)
    if ctx.tlc('LifecycleMC', 'LifecycleMCx_saved.cfg').ok:
        raise CheckError('the broken design was not rejected')
    jobs = []
    for cfg, names, batch in (
            ('ss', [k for k in kinds.SERIAL if k not in NOT_SPECIFIED]
             + kinds.STATEFUL + kinds.SEPARATE +
             ['nested'], False),
            ('sb', kinds.BATCH, True)):
        n = len(names) * ctx.pick(2, 24)
        bs = ctx.generate('LifecycleGen', 'LifecycleGen_%s.cfg' % cfg,
                          depth=80, simulate=n, limit=n)
        for k, b in enumerate(bs):
            jobs.append(dict(
                kind=names[k % len(names)], batch=batch, b=b['b'],
                evals=False, probe=k // len(names) % 2 == 0 and not batch,
                seed=ctx.rng.randrange(10 ** 6),
                p=kinds.params(ctx.rng)))
    ctx.validate('LifecycleTrace', ctx.drive('lifecycle', 'run', jobs))
