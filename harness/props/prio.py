def histories(ctx, reload, short, long_):
    suf = 'Reload' if reload else ''
    h1 = ctx.generate('PrioGen', 'PrioGen%s.cfg' % suf, limit=short)
    h2 = ctx.generate('PrioGen', 'PrioGen%sLong.cfg' % suf, depth=70,
                      simulate=max(20, long_ // 8), limit=long_)
    kinds = [('buffer', True, 'memory'), ('buffer', False, 'memory'),
             ('replay', True, 'memory'), ('replay', True, 'batch'),
             ('replay', True, 'true'), ('pepisodic', True, 'memory'),
             ('pepisodic', False, 'memory'), ('pepisodic', True, 'batch')]
    jobs = []
    for k, h in enumerate(h1 + h2):
        kind, waits, na = kinds[k % len(kinds)]
        kk = k // len(kinds)
        caps = [2, 3, -1, 1] if k < len(h1) else [6, 9, 4, 12]
        jobs.append(dict(kind=kind, waits=waits, normarg=na, m0=[1, 3][kk % 2],
                         cap=caps[kk % 4], dpf=kk % 3 == 0, rn=[0, 1, 2][kk % 3],
                         ops=h, seed=k))
    ctx.validate('PrioTrace', ctx.drive('prio', 'history', jobs))
