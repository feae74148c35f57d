def run(ctx):
    sc = ctx.generate('BatchGen')
    sc += ctx.generate('BatchGen', 'BatchGenLong.cfg', depth=40,
                       simulate=ctx.pick(100, 1500),
                       limit=ctx.pick(2500, 30000))
    jobs = [dict(s, gden=4) for s in sc]
    ctx.validate('BatchTrace', [dict(cfg={}, ev=[e]) for e in
                                ctx.drive('buffers', 'batching', jobs)])
