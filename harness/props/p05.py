from harness.props import prio


def run(ctx):
    ctx.design('PrioMC')
    if ctx.thorough:
        ctx.design('PrioMC', 'PrioMC3.cfg', workers=8, short=False,
                   timeout=1500)
    prio.histories(ctx, reload=False, short=ctx.pick(1600, 12000),
                   long_=ctx.pick(400, 4000))
    # selection frequencies
    N = ctx.pick(1500, 12000)
    jobs, seed = [], ctx.rng.randrange(1 << 30)
    configs = [[1], [1, 1], [1, 3], [5, 1, 2], [1, 2, 3, 4], [7, 1, 1, 1, 2],
               [1, 9, 1, 4, 2, 2, 1], [1] * 9, [2, 1, 1, 1, 5, 1, 1, 3]]
    for ps in configs:
        for pre in (0, 1, 5):
            for n in (1, 2):
                for kind, waits in (('buffer', True), ('buffer', False),
                                    ('replay', True), ('pepisodic', True),
                                    ('pepisodic', False)):
                    for rn in ((0,) if n == 2 or kind == 'replay'
                               else (0, 1, 4)):
                        if n > len(ps) or (rn == 4 and pre):
                            continue
                        jobs.append(dict(
                            kind=kind, waits=waits, normarg='memory', m0=1,
                            cap=len(ps), dpf=True, rn=rn, ps=ps, pre=pre,
                            n=n, N=N, viaset=pre == 1,
                            seed=seed + len(jobs)))
    ctx.notes['assumptions'] = [
        'selection probabilities are tested by frequency; a correct sampler '
        'is rejected with probability below 1e-9 per event']
    tr = ctx.drive('prio', 'counts', [j for j in jobs
                                      if not (j['kind'] == 'pepisodic'
                                              and j['viaset'])])
    ctx.validate('PrioTrace', tr)
