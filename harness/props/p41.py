"""P41: agents act on what their models say."""
from ..core import CheckError

GREEDY = ['dqn', 'double', 'sarsa', 'al', 'pal', 'dpal', 'dpp', 'residual',
          'cat', 'catd', 'iqn', 'diqn', 'nsq']
BATCH = [k for k in GREEDY if k != 'nsq'] + [
    'ddpg', 'td3', 'sac', 'ppo', 'trpo', 'a2c']
BOTH = ['ppo', 'trpo', 'a3c', 'reinforce', 'acer', 'pcl']
CONT = ['ddpg', 'td3', 'sac', 'pgt']


def run(ctx):
    ctx.design('ActingMC', 'ActingMC.cfg')
    for bug in ('evalexplores', 'evalcounts', 'late'):
        if ctx.tlc('ActingMC', 'ActingMCx_%s.cfg' % bug).ok:
            raise CheckError('a broken way of acting is not rejected: ' + bug)
    r = ctx.rng
    kinds = []
    for batch in (False, True):
        for k in GREEDY + CONT + BOTH + ['a2c']:
            if batch and k not in BATCH or k == 'a2c' and not batch:
                continue
            for cont in ((False, True) if k in BOTH + ['a2c'] else
                         (k in CONT,)):
                if k == 'a2c' and cont:
                    continue
                kinds.append((k, cont, batch))
                if k not in GREEDY:
                    kinds += [(k, cont, batch)] * 3
                elif k in ('iqn', 'diqn', 'dqn', 'nsq', 'cat'):
                    kinds += [(k, cont, batch)] * 2
    kinds *= ctx.pick(2, 25)
    bs = ctx.generate('ActingGen', depth=3, simulate=len(kinds),
                      limit=len(kinds))
    jobs = []
    for b, (k, cont, batch) in zip(bs, kinds):
        slopes = r.random() < .5 and (
            k == 'pcl' or k in ('iqn', 'diqn') and b['det'])
        jobs.append(dict(b=b, kind=k, cont=cont, batch=batch, slopes=slopes,
                         batchact=batch and r.random() < .5,
                         seed=r.randrange(2 ** 31), N=ctx.pick(400, 1500)))
    ctx.validate('ActingTrace', ctx.drive('acting', 'run', jobs,
                                          timeout=ctx.pick(400, 3000)))
