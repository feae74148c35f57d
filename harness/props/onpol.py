"""Jobs for the on-policy agents (P26, P27)."""
from harness.props import offpol

SINGLE = ['ppo', 'trpo', 'a3c', 'reinforce']
BATCH = ['ppo', 'trpo', 'a2c']


def params(rng, kind, mode, check):
    p = dict(kind=kind, mode=mode, check=check, n_envs=1, lr=[1, 4],
             g=rng.choice([[3, 4], [1, 2], [1, 1]]),
             lam=rng.choice([[1, 1], [1, 2], [3, 4]]),
             ec=rng.choice([0, 1, 2]), vc=rng.choice([1, 2, 3]),
             pc=rng.choice([1, 2, 3]), epochs=rng.choice([1, 2, 3]),
             eps=rng.choice([1, 2, 4]), epsv=rng.choice([0, 0, 1, 2, 8]),
             std=rng.random() < .3, maxlen=rng.choice([0, 1, 2, 3]),
             kl=rng.choice([80, 400, 1000, 4000]), gae=rng.random() < .5,
             keep=rng.random() < .5, norm=rng.random() < .5,
             avg=rng.random() < .3, cbs=rng.random() < .3)
    if mode == 'batch':
        p['n_envs'] = rng.choice([1, 2, 3])
    p['ui'] = {'a2c': rng.choice([1, 2, 3, 4]),
               'a3c': rng.choice([1, 2, 3, 5]),
               'reinforce': rng.choice([1, 2, 3])}.get(
                   kind, rng.choice([2, 3, 5, 7, 8, 11]))
    p['B'] = rng.choice([b for b in (1, 2, 3, 4, 5, 8) if b <= p['ui']])
    if kind in ('a3c', 'reinforce'):
        p['lr'] = rng.choice([[1, 16], [1, 32]])
    elif kind in ('ppo', 'trpo'):
        p['lr'] = rng.choice([[1, 4], [1, 8], [1, 2]])
    if kind[-2:] == '_r':
        # the standardization needs two different advantages
        p['std'] = p['std'] and p['ui'] > 1
    return p


def jobs(ctx, check, single, batch, recurrent):
    out = []
    for mode, bs in (('single', single), ('batch', batch)):
        kinds = list(SINGLE if mode == 'single' else BATCH)
        if recurrent:
            kinds += ['ppo_r', 'trpo_r'] * 2
        else:
            kinds += ['ppo', 'trpo']
        for j, (_, b) in enumerate(bs):
            p = params(ctx.rng, kinds[j % len(kinds)], mode, check)
            s0 = [ctx.rng.randrange(4) for _ in range(3)]
            out.append(dict(p=p, b=b['b'], s0=s0,
                            seed=ctx.rng.randrange(10 ** 6)))
    return out


def validate(ctx, js):
    traces = ctx.drive('onpol', 'run', js)
    for k in range(0, len(traces), 800):
        ctx.validate('OnPolicyTrace', traces[k:k + 800], workers=8)


def behaviours(ctx, quick, thorough):
    return offpol.behaviours(ctx, ['E', 'B'], quick, thorough)


def design(ctx):
    for n in 'SBACR':
        ctx.design('OnPolicyMC', 'OnPolicyMC%s.cfg' % n)
    if ctx.thorough:
        for n in ('BL', 'AL', 'SL'):
            ctx.design('OnPolicyMC', 'OnPolicyMC%s.cfg' % n, workers=8,
                       short=False, timeout=1500)
