"""P29: recurrent states follow the episodes of their envs."""
from .. import kinds
from ..core import CheckError, Violation


def stack(r):
    return [r.choice(['lstm', 'gru', 'relu', 'tanh', 'lstm-in', 'gru-in'])
            for _ in range(r.choice([1, 1, 2, 3]))]


def agents(ctx):
    r = ctx.rng
    jobs = []
    sep = kinds.DQNS + ['ppo', 'trpo', 'ppo', 'trpo']
    for cfg, names, batch, k in (
            ('em', sep, False, 8), ('eb', sep, True, 6),
            ('es', kinds.COUNTING_STATEFUL, False, 4)):
        n = len(names) * ctx.pick(k, 12 * k)
        bs = ctx.generate('LifecycleGen', 'LifecycleGen_%s.cfg' % cfg,
                          depth=60, simulate=n, limit=n)
        for k, b in enumerate(bs):
            jobs.append(dict(
                kind=names[k % len(names)], batch=batch, b=b['b'],
                seed=r.randrange(10 ** 6), p=dict(
                    stack=stack(r), stack2=stack(r), B=r.choice([1, 2]),
                    ui=r.choice([1, 2, 4]), len=r.choice([1, 2, 3, 5]),
                    det=r.random() < .5, n_envs=r.choice([1, 2, 3]),
                    n_eval=r.choice([1, 2, 3]))))
    tr = ctx.drive('recur', 'run', jobs)
    ctx.validate('RecurTrace', tr, workers=8)


TREES = ['lstm', 'mid', 'two', 'mix', 'nest', 'deep', 'branch', 'bare',
         'join']


def tuples(ctx):
    """Sequences that are tuples: the listed finding, and what works."""
    e = dict(op='fwd', x=[[1, 2, 3], [3]], idx=[], how=0)
    one = [dict(e, x=[[1, 2, 3]]), dict(e, x=[[2]], how=1),
           dict(e, op='mask', idx=[0]), dict(e, x=[[3, 1]])]
    bad, good = ctx.drive('reclinks', 'run', [
        dict(b=b, tree='pair', seed=1, copy=False) for b in ([e], one)])
    ctx.validate('RecLinksTrace', [good], workers=1)
    try:
        ctx.validate('RecLinksTrace', [bad], workers=1)
    except Violation:
        if not ctx.report_known(
                'StatelessRecurrentSequential:tuple-sequences',
                'StatelessRecurrentSequential cuts sequences of tuples as if '
                'every one had as many steps as its tuples have elements'):
            raise


def containers(ctx):
    n = ctx.pick(160, 3000)
    bs = ctx.generate('RecLinksGen', depth=40, simulate=n, limit=n)
    jobs = [dict(b=b['b'], tree=TREES[k % len(TREES)], seed=k,
                 copy=ctx.rng.random() < .3) for k, b in enumerate(bs)]
    tr = ctx.drive('reclinks', 'run', jobs)
    tuples(ctx)
    for k in range(0, len(tr), 800):
        ctx.validate('RecLinksTrace', tr[k:k + 800], workers=8)


def designs(ctx):
    for cfg in ctx.pick(['RecurMC'], ['RecurMC', 'RecurMC3', 'RecurMCL']):
        ctx.design('RecurMC', cfg + '.cfg', workers=8, timeout=600)
    for cfg in ('done', 'after', 'eval'):
        if ctx.tlc('RecurMC', 'RecurMCx_%s.cfg' % cfg).ok:
            raise CheckError('a broken bookkeeping is not rejected: ' + cfg)


def run(ctx):
    designs(ctx)
    containers(ctx)
    agents(ctx)
