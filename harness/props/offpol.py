"""Jobs for the replay-based agents (P09, P22-P25)."""
import itertools

DISC = ['dqn', 'double', 'sarsa', 'al', 'pal', 'dpal', 'dpp', 'dppl',
        'dppg', 'residual', 'cat', 'catd', 'iqn', 'diqn']
CONT = ['ddpg', 'td3', 'sac']
BASE = dict(n_envs=1, nstep=1, cap=-1, prio=False, start=4, B=2, ui=1, ti=3,
            sync='hard', tau=[1, 4], times=1, clip=True, acc='mean',
            g=[3, 4], lr=[1, 2], bn=False, burn=False, delay=2, ent=None,
            store=False)


def params(rng, kind, mode, check, **kw):
    p = dict(BASE, kind=kind, mode=mode, check=check)
    p['n_envs'] = 1 if mode == 'single' else rng.choice([1, 2, 3])
    p['nstep'] = rng.choice([1, 1, 2, 3])
    p['B'] = rng.choice([1, 2, 3])
    p['start'] = rng.choice([p['B'], 4, 5, 7])
    p['cap'] = rng.choice([-1, -1, p['start'], p['start'] + 3, 9])
    p['ui'] = rng.choice([1, 1, 2, 3, 4])
    p['ti'] = rng.choice([1, 2, 3, 5, 7])
    p['times'] = rng.choice([1, 1, 2, 3])
    p['sync'] = rng.choice(['hard', 'soft'])
    p['clip'] = rng.choice([True, False])
    p['acc'] = rng.choice(['mean', 'sum']) if kind in DISC else 'mean'
    p['g'] = rng.choice([[3, 4], [1, 2], [1, 2], [1, 1]])
    p['lr'] = rng.choice([[1, 2], [1, 4], [1, 8]])
    if kind in CONT + ['pgt'] or p['acc'] == 'sum':
        p['lr'] = rng.choice([[1, 8], [1, 16]])
    p['tau'] = rng.choice([[1, 4], [1, 2], [1, 1]])
    p['delay'] = rng.choice([1, 2, 3])
    p['cbs'] = rng.random() < .3
    p['ent'] = rng.choice([None, -4, 2])
    p['burn'] = rng.choice([False, True]) and kind in CONT
    p.update(kw)
    return p


def jobs(ctx, check, single, batch, **kw):
    """kinds and behaviours, crossed by rotation"""
    out = []
    for mode, bs in (('single', single), ('batch', batch)):
        kinds = DISC + CONT * 2 + (['pgt'] if mode == 'single' else [])
        for j, (mid, b) in enumerate(bs):
            ks = [q for q in kinds if mid is False or q in DISC]
            kind = ks[j % len(ks)]
            p = params(ctx.rng, kind, mode, check,
                       **{a: (v(ctx.rng, kind) if callable(v) else v)
                          for a, v in kw.items()})
            s0 = [ctx.rng.randrange(4) for _ in range(3)]
            out.append(dict(p=p, b=b['b'], s0=s0, seed=ctx.rng.randrange(
                10 ** 6)))
    return out


def behaviours(ctx, names, quick, thorough):
    """names: generator configurations; L variants in the thorough tier"""
    single, batch = [], []
    for n in names:
        g = ctx.generate('OffPolicyGen', 'OffPolicyGen%s.cfg' % n, depth=200,
                         simulate=ctx.pick(quick, thorough),
                         limit=ctx.pick(quick, thorough))
        if ctx.thorough:
            g += ctx.generate('OffPolicyGen', 'OffPolicyGen%sL.cfg' % n,
                              depth=400, simulate=thorough // 4)
        (batch if n == 'B' else single).extend(
            (n == 'S', b) for b in g)
    return single, [(False, b) for _, b in batch]


def design(ctx, quick, thorough):
    for n in quick:
        ctx.design('OffPolicyMC', 'OffPolicyMC%s.cfg' % n)
    if ctx.thorough:
        for n in thorough:
            ctx.design('OffPolicyMC', 'OffPolicyMC%s.cfg' % n, workers=8,
                       short=False, timeout=3000)


def validate(ctx, js):
    traces = ctx.drive('offpol', 'run', js)
    # TLC reads one file at a time; keep them moderate
    for k in range(0, len(traces), 800):
        ctx.validate('OffPolicyTrace', traces[k:k + 800], workers=8)
