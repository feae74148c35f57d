"""Drivers for prioritized buffers (PrioritizedBuffer and the two replay
buffers built on it)."""
import math
import os
import tempfile
import pickle

import numpy as np

from chainerrl.misc.prioritized import PrioritizedBuffer
from chainerrl import replay_buffers as rbs

F = 65536
# patterns of new priorities; keep totals small (32-bit arithmetic in TLC)
PATTERNS = [[1], [3, 1, 7], [2], [9, 4, 1, 1], [1, 6]]


class Buf(object):
    """One interface for the three kinds."""

    def __init__(self, job):
        self.job = job
        self.kind = job['kind']
        cap = None if job['cap'] < 0 else job['cap']
        self.cap = cap
        self.b = self.make()

    def make(self):
        k, cap, job = self.kind, self.cap, self.job
        kw = dict(alpha=1.0, beta0=1.0, betasteps=job.get('betasteps'),
                  eps=0.0, error_min=None, error_max=None,
                  normalize_by_max={'memory': 'memory', 'batch': 'batch',
                                    'true': True}[job['normarg']])
        if k == 'buffer':
            return PrioritizedBuffer(
                capacity=cap, wait_priority_after_sampling=job['waits'],
                initial_max_priority=float(job['m0']))
        if k == 'replay':
            return rbs.PrioritizedReplayBuffer(capacity=cap, **kw)
        f = (lambda ep: float(ep[0]['pri'])) if job['dpf'] else None
        return rbs.PrioritizedEpisodicReplayBuffer(
            capacity=cap, wait_priority_after_sampling=job['waits'],
            default_priority_func=f, uniform_ratio=job['rn'] / 4.0, **kw)

    def append(self, x, p):
        if self.kind == 'buffer':
            self.b.append(x, priority=float(p) if p else None)
        elif self.kind == 'replay':
            self.b.append(x, 0, 0.0, None, is_state_terminal=True)
        else:
            self.b.append(x, 0, 0.0, None, is_state_terminal=True, pri=p)

    def sample(self, k, rn):
        if self.kind == 'buffer':
            s, probs, minp = self.b.sample(k, uniform_ratio=rn / 4.0)
            return list(s), probs, minp
        if self.kind == 'replay':
            s = self.b.sample(k)
            return ([w[0]['state'] for w in s], [w[0]['weight'] for w in s],
                    0.0)
        s, w = self.b.sample_episodes(k)
        return [ep[0]['state'] for ep in s], w, 0.0

    def update(self, ps):
        if self.kind == 'buffer':
            self.b.set_last_priority(ps)
        else:
            self.b.update_errors(ps)

    def __len__(self):
        return self.b.n_episodes if self.kind == 'pepisodic' else len(self.b)

    def reload(self):
        if self.kind == 'buffer':
            self.b = pickle.loads(pickle.dumps(self.b))
            return
        fd, fn = tempfile.mkstemp()
        os.close(fd)
        try:
            self.b.save(fn)
            self.b = self.make()
            self.b.load(fn)
        finally:
            os.unlink(fn)


def history(job):
    np.random.seed(job['seed'])
    b = Buf(job)
    stored, last, pending, x = [], [], False, 0
    ev = []
    kind = job['kind']
    for op in job['ops']:
        e = dict(op, exc='', ids=[], vals=[], minp=0)
        o = op['op']
        if o == 'popleft' and (kind != 'buffer' or not stored):
            continue
        if o == 'set':
            if not job['waits'] and not pending:
                continue
            pat = PATTERNS[op['v']]
            n = len(last) if pending else 1
            e['prios'] = [pat[j % len(pat)] for j in range(n)]
            if pending:
                e['prios'] = [p if i in stored else 1
                              for i, p in zip(last, e['prios'])]
        if o == 'sample':
            if not stored:
                continue
            e['k'] = min(op['k'], len(stored))
            e['rn'] = job['rn'] if kind == 'pepisodic' else \
                0 if kind == 'replay' else op['rn']
        try:
            if o == 'append':
                x += 1
                e['x'] = x
                if kind == 'replay' or (kind == 'pepisodic' and
                                        not job['dpf']):
                    e['p'] = 0
                elif kind == 'pepisodic':
                    e['p'] = op['p'] or 1
                b.append(x, e['p'])
                stored.append(x)
                if job['cap'] >= 0 and len(stored) > job['cap']:
                    stored.pop(0)
            elif o == 'popleft':
                b.b.popleft()
                stored.pop(0)
            elif o == 'sample':
                ids, vals, minp = b.sample(e['k'], e['rn'])
                e['ids'] = [int(i) for i in ids]
                e['vals'] = [int(round(float(v) * F)) for v in vals]
                e['minp'] = int(round(float(minp) * F))
                last, pending = e['ids'], True
            elif o == 'set':
                b.update([float(p) for p in e['prios']])
                pending = False
            elif o == 'reload':
                b.reload()
        except Exception as ex:
            e['exc'] = type(ex).__name__
        e['len'] = len(b)
        ev.append(e)
    return dict(cfg=dict(kind=kind, cap=job['cap'], waits=job['waits'],
                         m0=job['m0'] if kind == 'buffer' else 1,
                         norm='memory' if job['normarg'] == 'memory'
                         else 'batch'), ev=ev)


def counts(job):
    """A fixed configuration, then repeated samples (no priority changes)."""
    np.random.seed(job['seed'])
    ps, N, n, kind = job['ps'], job['N'], job['n'], job['kind']
    m = len(ps)
    b = Buf(job)
    x, ev = 0, []
    pre = job['pre']

    def app(p):
        nonlocal x
        x += 1
        b.append(x, p)
        ev.append(dict(op='append', x=x, p=p, exc='', len=len(b)))

    direct = kind != 'replay' and not job['viaset']
    for _ in range(pre):
        app(3 if direct else 0)
    for p in ps:
        app(p if direct else 0)
    if not direct:
        # give the stored items their priorities by an update
        k = len(b)
        ids, vals, minp = b.sample(k, job['rn'])
        ev.append(dict(op='sample', k=k, rn=job['rn'], ids=ids, exc='',
                       vals=[int(round(float(v) * F)) for v in vals],
                       minp=int(round(float(minp) * F)), len=len(b)))
        new = [ps[i - pre - 1] for i in ids]
        b.update([float(p) for p in new])
        ev.append(dict(op='set', prios=new, exc='', len=len(b)))
    first = [0] * m
    second = [[0] * m for _ in range(m)]
    bad = 0
    for _ in range(N):
        ids, vals, _mp = b.sample(n, job['rn'])
        if len(set(ids)) != n or any(not pre < i <= pre + m for i in ids):
            bad += 1
        else:
            first[ids[0] - pre - 1] += 1
            if n > 1:
                second[ids[0] - pre - 1][ids[1] - pre - 1] += 1
        if job['waits']:
            b.update([float(ps[i - pre - 1]) for i in ids])
    ev.append(dict(op='counts', N=N, n=n, rn=job['rn'], first=first,
                   second=second, bad=bad, pairs=n > 1 and job['rn'] == 0))
    return dict(cfg=dict(kind=kind, cap=job['cap'], waits=job['waits'],
                         m0=job['m0'], norm='memory'), ev=ev)


# ------------------------------------------------- weights in the log domain
L = 4096


def lg(v):
    return int(round(math.log2(v) * L)) if v > 0 else -10 ** 6


def weights(job):
    """General alpha, beta, annealing, clipping; logs scaled by 4096."""
    np.random.seed(job['seed'])
    eps = job['eps']
    kw = dict(alpha=job['anum'] / 4.0, beta0=job['b0'] / 16.0,
              betasteps=None if job['bs'] == 0 else job['bs'], eps=eps,
              error_min=None if job['emin'] == -99 else job['emin'] / 10.0,
              error_max=None if job['emax'] == 99 else job['emax'] / 10.0,
              normalize_by_max={'memory': 'memory', 'batch': 'batch',
                                'true': True, 'none': False}[job['normarg']])
    epi = job['kind'] == 'pepisodic'
    if epi:
        b = rbs.PrioritizedEpisodicReplayBuffer(**kw)
    else:
        b = rbs.PrioritizedReplayBuffer(**kw)
    m = job['m']
    for x in range(1, m + 1):
        b.append(x, 0, 0.0, None, is_state_terminal=True)
    ev = []
    grid = job['grid']
    tab = [lg(g / 10.0 + eps) for g in grid]
    for rnd in job['rounds']:
        e = dict(op='round', k=rnd['k'], exc='')
        if epi:
            s, w = b.sample_episodes(rnd['k'])
            e['ids'] = [ep[0]['state'] for ep in s]
        else:
            s = b.sample(rnd['k'])
            e['ids'] = [w[0]['state'] for w in s]
            w = [w[0]['weight'] for w in s]
        e['lw'] = [lg(float(v)) for v in w]
        e['errs'] = [rnd['errs'][j % len(rnd['errs'])]
                     for j in range(rnd['k'])]      # indices into the grid
        errs = [grid[j - 1] / 10.0 for j in e['errs']]
        pri = b.priority_from_errors(errs)
        e['lp'] = [lg(float(p)) for p in pri]
        b.update_errors(errs)
        ev.append(e)
    return dict(cfg=dict(anum=job['anum'], b0=job['b0'], bs=job['bs'],
                         emin=job['emin'], emax=job['emax'], m=m,
                         grid=grid, tab=tab,
                         norm={'true': 'batch'}.get(job['normarg'],
                                                    job['normarg'])),
                ev=ev)
