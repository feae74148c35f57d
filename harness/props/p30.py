"""P30: contexts that keep or reset the states of stateful models."""
from ..core import CheckError

TREES = ['flat', 'list', 'plain', 'deep', 'rec', 'mixed', 'seq', 'sseq',
         'own', 'fclstmq', 'fclstmsa', 'fclstmpi', 'ddpg', 'a3cs', 'a3ch',
         'acers', 'acerh']


def run(ctx):
    ctx.design('StateStackMC',
               ctx.pick('StateStackMC.cfg', 'StateStackMCL.cfg'),
               workers=8, timeout=800)
    for bug in ('shallow', 'initial', 'throw'):
        if ctx.tlc('StateStackMC', 'StateStackMCx_%s.cfg' % bug).ok:
            raise CheckError('a broken state stack is not rejected: ' + bug)
    n = ctx.pick(340, 6000)
    bs = ctx.generate('StateStackGen', depth=40, simulate=n, limit=n)
    jobs = [dict(b=b['b'], tree=TREES[k % len(TREES)],
                 seed=ctx.rng.randrange(10 ** 6)) for k, b in enumerate(bs)]
    tr = ctx.drive('statestack', 'run', jobs)
    for k in range(0, len(tr), 800):
        ctx.validate('StateStackTrace', tr[k:k + 800], workers=8)
