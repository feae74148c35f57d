"""P33: explorers."""


def run(ctx):
    ctx.design('ExplorerMC')
    n = ctx.pick(160, 1500)
    bs = ctx.generate('ExplorerGen', depth=4, simulate=n, limit=n)
    r = ctx.rng
    N = ctx.pick(2500, 8000)
    jobs = []
    for k, b in enumerate(bs):
        base = dict(N=N, seed=r.randrange(10 ** 9), objects=r.random() < .5,
                    ts=b['ts'], ks=b['ks'])
        kind = ['linear', 'linear', 'linear', 'const', 'boltz'][k % 5]
        if kind == 'linear':
            c = dict(kind=kind, start=b['start'], end=b['end'],
                     steps=b['steps'])
        elif kind == 'const':
            c = dict(kind=kind, start=b['start'])
        else:
            c = dict(kind=kind, T=r.choice([None, None, .25, 2.0, 10.0]),
                     shift=r.choice([0, -3, 5]))
            base['N'] = N // 2
        jobs.append(dict(base, c=c))
    jobs += [dict(N=200, seed=1, objects=True, ts=[0, 5, 100], ks=[],
                  c=dict(kind='greedy'))]
    # every step of some whole schedules
    for s, e, st in ((100, 10, 20), (10, 100, 20), (30, 30, 5), (100, 0, 1),
                     (50, 5, 0)):
        jobs.append(dict(N=N // 4, seed=s + e + st, objects=False, ks=[],
                         ts=list(range(st + 4)) + [10 ** 9],
                         c=dict(kind='linear', start=s, end=e, steps=st)))
    tr = ctx.drive('funcs', 'explorer', jobs)
    js = []
    for k in range(ctx.pick(24, 120)):
        D = r.choice([1, 2, 3])
        arr = r.random() < .4
        scale = [r.choice([.25, 1.0, 3.0]) for _ in range(D)] if arr else \
            r.choice([.1, .3, 1.0, 2.0])
        shape = r.choice([[D], [D], [1, D]])
        lowq, highq = r.choice([(0, 0), (10, 0), (0, 70), (30, 90),
                                (10, 70)])
        kind = ['gauss', 'ou'][k % 2]
        js.append(dict(
            c=dict(kind=kind), N=N * 2, seed=r.randrange(10 ** 9), arr=arr,
            scale=scale, shape=shape, g=[r.choice([-1, 0, .5, 2])
                                         for _ in range(D)],
            lowq=lowq, highq=highq, mu=r.choice([None, 0.5, -1.0]),
            theta=r.choice([None, .5, 1.0]),
            start_with_mu=r.random() < .4))
    tr += ctx.drive('funcs', 'noise', js)
    ctx.validate('ExplorerTrace', tr, workers=8)
