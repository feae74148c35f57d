def run(ctx):
    ctx.design('SamplingMC')
    sc = ctx.generate('SamplingGen')
    N = ctx.pick(1500, 12000)
    seed = ctx.rng.randrange(1 << 30)
    jobs = [dict(s, N=N, seed=seed + k, pairs=s['m'] <= 6)
            for k, s in enumerate(sc)]
    traces = [dict(cfg={}, ev=[e])
              for e in ctx.drive('buffers', 'counts', jobs)]
    off = [dict(kind=k, L=L, maxlen=M, N=N, seed=seed + L * 100 + M)
           for k in ('episodic', 'pepisodic')
           for L in (1, 2, 3, 5, 8) for M in (1, 2, 3, 5, 7)]
    traces += [dict(cfg={}, ev=[e])
               for e in ctx.drive('buffers', 'offsets', off)]
    sz = [dict(kind=k, m=m, seed=seed + m) for k in ('uniform', 'episodic')
          for m in list(range(0, 12)) + [19, 30, 61]
          for _ in range(ctx.pick(1, 4))]
    traces += [dict(cfg={}, ev=ev)
               for ev in ctx.drive('buffers', 'sizes', sz)]
    ctx.notes['assumptions'] = [
        'uniformity is a frequency test; a correct sampler is rejected with '
        'probability below 1e-9 per event']
    ctx.validate('SamplingTrace', traces)
