"""P40: what the asynchronous agents NSQ, PCL and ACER learn."""
from ..core import CheckError


def params(rng, kind):
    W = rng.choice([1, 1, 2])
    asy = kind != 'pcl' or W == 2 or rng.random() < .5
    p = dict(kind=kind, W=W, A=2 if kind == 'acerc' else 3, tmax=rng.choice([1, 2, 3, 5]),
             g=rng.choice([[3, 4], [1, 2], [1, 1]]), lr=rng.choice([[1, 8], [1, 16]]),
             it=rng.choice([1, 2, 3, 5, 7]), tau=rng.choice([1, 2, 8]),
             rl=rng.choice([1, 2, 3, 10]), B=1, B1=1, dis=False,
             nrep=rng.choice([0, 1, 2, 3]), rss=rng.choice([1, 3, 6]),
             norm=rng.random() < .5, bfv=rng.random() < .5, pc=rng.choice([1, 2, 3]),
             vc=rng.choice([1, 2, 3]), ec=rng.choice([0, 1, 2]), det=rng.random() < .5,
             expl=False, buf=rng.choice(['none', 'plain', 'plain']),
             tr=False, al=rng.choice([[1, 2], [3, 4], [1, 4]]),
             delta=rng.choice([100, 400, 2000, 8192]),
             trunc=rng.choice([0, 4096, 8192, 16384, 81920]),
             opc=rng.random() < .4, share=W > 1 or rng.random() < .5)
    p['async'] = asy
    if kind == 'nsq':
        p.update(buf='none', expl=True)
    elif kind == 'pcl':
        p['share'] = p['share'] and asy
        p['B'] = p['B1'] = rng.choice([1, 1, 2, 3])
        p['expl'] = rng.random() < .4
        p['buf'] = rng.choice(['none', 'plain', 'plain', 'prio'])
        p['tmax'] = rng.choice([0, 1, 2, 3, 5])
    elif kind == 'acer':
        p['tr'] = rng.random() < .7
        if p['tr'] and rng.random() < .6:
            # a constraint that is active: the average policy lags behind
            p.update(delta=rng.choice([0, 0, 20, 100]), lr=[1, 4],
                     al=rng.choice([[3, 4], [7, 8], [15, 16]]))
    else:
        p['trunc'] = rng.choice([0, 0, 16000000])
        p['ec'] = 0
        p['lr'] = [1, 32]
    if p['buf'] != 'none':
        p['dis'] = rng.random() < .2
    return p


def run(ctx):
    ctx.design('AsyncLearnMC', 'AsyncLearnMC.cfg')
    ctx.design('AsyncWorkersMC', 'AsyncWorkersMC.cfg')
    for bug in ('reread', 'keep', 'nofetch', 'cross'):
        r = ctx.tlc('AsyncWorkersMC', 'AsyncWorkersMCx_%s.cfg' % bug)
        if r.ok:
            raise CheckError('the broken variant %s satisfies all invariants'
                             % bug)
    if ctx.thorough:
        ctx.design('AsyncLearnMC', 'AsyncLearnMCL.cfg', short=False)
        ctx.design('AsyncWorkersMC', 'AsyncWorkersMCL.cfg', workers=8,
                   short=False)
    g = ctx.generate('AsyncLearnGen', 'AsyncLearnGen.cfg', depth=200,
                     simulate=ctx.pick(200, 1600), limit=ctx.pick(200, 1600))
    if ctx.thorough:
        g += ctx.generate('AsyncLearnGen', 'AsyncLearnGenL.cfg', depth=400,
                          simulate=300)
    kinds = ['nsq', 'pcl', 'acer', 'acer', 'pcl', 'acerc']
    js = [dict(p=params(ctx.rng, kinds[j % len(kinds)]), b=b['b'],
               seed=ctx.rng.randrange(10 ** 6)) for j, b in enumerate(g)]
    traces = ctx.drive('asynclearn', 'run', js)
    for j in range(0, len(traces), 800):
        ctx.validate('AsyncLearnTrace', traces[j:j + 800], workers=8)
