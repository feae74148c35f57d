GRID = [-5, -1, 0, 2, 3, 5, 7, 10, 40]


def run(ctx):
    ctx.design('WeightsMC')
    sc = ctx.generate('WeightsGen', depth=10, simulate=ctx.pick(12, 150),
                      limit=ctx.pick(2500, 25000))
    jobs = []
    for k, s in enumerate(sc):
        c = dict(s['c'])
        eps = {1: 0.01, 2: 0.5}[c.pop('epsi')]
        low = c['emin'] if c['emin'] != -99 else None
        rounds = s['rounds']
        if low is None:
            # unclipped: keep priorities positive
            rounds = [dict(r, errs=[max(a, 3 + (eps < .1) * 0) for a in
                                    r['errs']]) for r in rounds]
        jobs.append(dict(c, eps=eps, rounds=rounds, grid=GRID, seed=k))
    ctx.validate('WeightsTrace', ctx.drive('prio', 'weights', jobs))
