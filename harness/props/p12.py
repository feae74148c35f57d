def run(ctx):
    ctx.design('AsyncMC', workers=8)
    if ctx.thorough:
        for cfg in ('AsyncMCs3.cfg', 'AsyncMC3.cfg'):
            ctx.design('AsyncMC', cfg, workers=8, short=False, timeout=3000)
    # without the lock the model must fail: the model can tell
    r = ctx.tlc('AsyncMC', 'AsyncMCrace.cfg')
    assert 'is violated' in r.out, r.out
    sc = ctx.generate('AsyncMC', 'AsyncGen.cfg', depth=400,
                      simulate=ctx.pick(150, 2500))
    for k, s in enumerate(sc):
        s['agent'] = k % 3 == 0
    ctx.validate('AsyncTrace', ctx.drive('asynctrain', 'controlled', sc,
                                         timeout=1500))
    free = []
    for k in range(ctx.pick(24, 200)):
        n = 2 + k % 4
        succ = [-1, 1][k // 2 % 2]
        free.append(dict(
            c=dict(n=n, steps=[7, 40, 150][k % 3], maxlen=[0, 1, 3][k // 3 % 3],
                   hooks=1 + k % 2, ev=succ >= 0 or k % 5 == 0, succ=succ,
                   int=1 + k % 2),
            agent=k % 2 == 0, p=[0.3, 1.0][k % 2], pause=[0.002, 0.0005][k % 2],
            ans=[dict(env=[dict(done=ctx.rng.random() < .3, nr=False)
                           for _ in range(60)],
                      ev=[int(ctx.rng.random() < [.1, .9][k % 2])
                          for _ in range(100)]) for _ in range(n)]))
    ctx.validate('AsyncTrace', ctx.drive('asynctrain', 'free', free),
                 label='free running')
