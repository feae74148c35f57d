def run(ctx):
    ctx.design('EvaluatorMC')
    ctx.design('AsyncEvalMC')
    ctx.design('AsyncEvalMC', 'AsyncEvalMC3.cfg')
    for cfg in ('AsyncEvalMCrace.cfg', 'AsyncEvalMCrace2.cfg'):
        r = ctx.tlc('AsyncEvalMC', cfg)
        assert 'is violated' in r.out, r.out
    sc = ctx.generate('EvaluatorMC', 'EvaluatorGen.cfg',
                      limit=ctx.pick(1500, None))
    sc += ctx.generate('EvaluatorMC', 'EvaluatorGenL.cfg', depth=20,
                       simulate=ctx.pick(500, 10000))
    for k, s in enumerate(sc):
        s['base'] = [0, 0, 100000000, -50000][k % 4]
        s['long'] = k % 5 == 0
        for h in s['h']:
            h['rets'] = list(h['rets'])
    ctx.validate('EvaluatorTrace', ctx.drive('evals', 'calls', sc))
    rng = ctx.rng
    jobs = []
    for k in range(ctx.pick(120, 1500)):
        n = 1 + k % 3
        jobs.append(dict(
            c={'off': [0, 0, 3, 10][k % 4], 'int': [1, 2, 5, 7][k // 3 % 4],
               'n': n, 'save': k % 7 != 0, 'async': False,
               'succ': [[], [0], [2], [-1]][k // 2 % 4]},
            steps=[12, 25, 40][k % 3], nenv=[0, 1, 2, 3][k // 5 % 4],
            maxlen=[0, 1, 4][k // 7 % 3],
            rets=[rng.choice([-3, -1, 0, 1, 2, 5]) for _ in range(40)]
            if k % 4 else [rng.choice([-3, -2, -1]) for _ in range(40)],
            script=[dict(done=rng.random() < .3, nr=rng.random() < .1)
                    for _ in range(60)]))
    ctx.validate('EvaluatorTrace', ctx.drive('evals', 'training', jobs),
                 label='train_agent(_batch)_with_evaluation')
    jobs = []
    for k in range(ctx.pick(64, 800)):
        n = 1 + k % 2
        jobs.append(dict(
            c={'off': [0, 5][k % 2], 'int': [1, 3, 10][k % 3], 'n': n,
               'save': k % 5 != 0, 'async': True},
            base=[0, 100000000][k // 2 % 2], seed=ctx.seed * 1000 + k,
            p=[.3, 1][k % 2], pause=[.004, .001][k // 2 % 2],
            workers=[[dict(d=rng.choice([0, 1, 2, 5, 11]),
                           rets=[rng.randrange(-5, 6) for _ in range(n)])
                      for _ in range(rng.choice([1, 3, 8]))]
                     for _ in range(2 + k % 3)]))
    ctx.validate('EvaluatorTrace', ctx.drive('evals', 'shared', jobs),
                 label='shared evaluator')
