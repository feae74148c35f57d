"""P35: action values."""


def run(ctx):
    ctx.design('ActionValueMC')
    n = ctx.pick(1600, 20000)
    bs = ctx.generate('ActionValueGen', depth=4, simulate=n, limit=n)
    jobs = [dict(b=b, seed=ctx.rng.randrange(10 ** 9)) for b in bs]
    tr = ctx.drive('funcs', 'actionvalue', jobs)
    for k in range(0, len(tr), 4000):
        ctx.validate('ActionValueTrace', tr[k:k + 4000], workers=8)
