"""P36: after seeding, a run is a function of the seed."""
from .. import kinds
from ..core import CheckError


def run(ctx):
    ctx.design('SameRunMC', ctx.pick('SameRunMC.cfg', 'SameRunMCL.cfg'))
    ctx.design('SameRunMC', 'SameRunMCp.cfg')
    for bug in ('one', 'own', 'const', 'order'):
        if ctx.tlc('SameRunMC', 'SameRunMCx_%s.cfg' % bug).ok:
            raise CheckError('a broken way of seeding is not rejected: ' + bug)
    r = ctx.rng
    rec = kinds.SEPARATE + kinds.STATEFUL
    progs = [('agent', k, False) for k in kinds.SERIAL + rec]
    progs += [('agent', k, True) for k in kinds.BATCH]
    progs += [('draws', '', False)] * 3 + [('workers', '', False)] * 3
    progs += [('async_workers', '', False)] * 2
    progs += [('async_one', k, False)
              for k in ('a3c', 'nsq', 'acer', 'pcl_async')]
    progs += [('randact', '', False)] * 6 + [('vecenv', '', False)] * 8
    progs *= ctx.pick(1, 12)
    bs = ctx.generate('SameRunGen', depth=6, simulate=len(progs),
                      limit=len(progs))
    jobs = []
    for k, (b, (prog, kind, batch)) in enumerate(zip(bs, progs)):
        p = kinds.params(r)
        p['frac'] = r.choice([0, .1, .5, 1])
        if prog == 'async_one':
            p['opt'] = 'rms'
        for q in b['b']:
            jobs.append(dict(q, prog=prog, kind=kind, batch=batch, p=p, k=k,
                             len=b['len']))
    out = ctx.drive('samerun', 'run', jobs, timeout=ctx.pick(400, 3000))
    traces = {}
    for j, runs in zip(jobs, out):
        cfg = dict(tol=40, own=j['prog'] in ('workers', 'async_workers'),
                   differs=j['prog'] in ('draws', 'workers'),
                   prog=j['prog'] + ' ' + j['kind'])
        t = traces.setdefault(j['k'], dict(cfg=cfg, ev=[]))
        for u in runs:
            e = dict(op='begin', seed=u['seed'], d=[], exc=u['exc'])
            t['ev'].append(e)
            for d in u['ds']:
                t['ev'].append(dict(e, op='step', d=d))
            t['ev'].append(dict(e, op='end'))
    ctx.validate('SameRunTrace', list(traces.values()), workers=8)
