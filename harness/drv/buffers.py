"""Drivers replaying buffer histories on the real replay buffers."""
import os
import tempfile

import numpy as np

from chainerrl.misc.collections import RandomAccessQueue
from chainerrl.misc.prioritized import PrioritizedBuffer
from chainerrl import replay_buffer as rb
from chainerrl import replay_buffers as rbs

TAGS = ['a', 0, ('t', 1), 7, 'b']


def fields(x, term):
    return dict(state=np.full((2,), x, dtype=np.float32), action=1000 + x,
                reward=2000.0 + x,
                next_state=np.full((2,), x + 0.5, dtype=np.float32),
                next_action=3000 + x, is_state_terminal=bool(term),
                tag='t%d' % x)


def ident(tr, terms):
    """Id of a stored transition, or -1 if any field is not what was
    appended under that id."""
    try:
        x = int(tr['state'][0])
        if x not in terms:
            return -1
        f = fields(x, terms[x])
        for k, v in f.items():
            w = tr[k]
            if isinstance(v, np.ndarray):
                if not (np.asarray(w).shape == v.shape and (w == v).all()):
                    return -1
            elif w != v or type(w) != type(v):
                return -1
        return x
    except Exception:
        return -1


def make(kind, n, cap, **kw):
    if kind == 'uniform':
        return rbs.ReplayBuffer(cap, num_steps=n)
    if kind == 'prioritized':
        return rbs.PrioritizedReplayBuffer(
            capacity=cap, num_steps=n, alpha=1.0, beta0=1.0, betasteps=None,
            eps=0.0, normalize_by_max=kw.get('norm', 'memory'),
            error_min=None, error_max=None)
    if kind == 'episodic':
        return rbs.EpisodicReplayBuffer(cap)
    if kind == 'pepisodic':
        return rbs.PrioritizedEpisodicReplayBuffer(
            capacity=cap, alpha=1.0, beta0=1.0, betasteps=None, eps=0.0,
            normalize_by_max='memory',
            wait_priority_after_sampling=kw.get('wait', True),
            return_sample_weights=kw.get('weights', True))
    raise ValueError(kind)


def windows(buf, kind, terms):
    k = len(buf)
    s = buf.sample(k) if k else []
    if kind == 'prioritized' and k:
        buf.update_errors([1.0] * k)
    return sorted([ident(t, terms) for t in w] for w in s)


def episodes(buf, kind, terms, kw):
    k = buf.n_episodes
    if k == 0:
        return []
    r = buf.sample_episodes(k)
    if kind == 'pepisodic':
        if kw.get('weights', True):
            r = r[0]
        if kw.get('wait', True):
            buf.update_errors([1.0] * k)
    return sorted([ident(t, terms) for t in ep] for ep in r)


def reload(buf, kind, n, cap, kw):
    fd, fn = tempfile.mkstemp()
    os.close(fd)
    os.unlink(fn)
    try:
        buf.save(fn)
        new = make(kind, n, kw.get('load_cap', cap), **kw)
        new.load(fn)
        return new
    finally:
        if os.path.exists(fn):
            os.unlink(fn)


def history(job):
    """Replay ops on an n-step or episodic buffer; record after each."""
    np.random.seed(job.get('seed', 0))
    kind, n, cap = job['kind'], job['n'], job['cap']
    kw = job.get('kw', {})
    capv = None if cap < 0 else cap
    buf = make(kind, n, capv, **kw)
    epi = kind in ('episodic', 'pepisodic')
    nenv = job['envs']
    terms, x, ev = {}, 0, []
    ops = job['ops']
    every = job.get('every', 1)
    for k, op in enumerate(ops):
        e = dict(op)
        e['exc'] = ''
        try:
            if op['op'] == 'append':
                x += 1
                terms[x] = op['term']
                e['x'] = x
                a = {} if nenv == 1 else dict(env_id=TAGS[op['env'] - 1])
                buf.append(**dict(fields(x, op['term']), **a))
            elif op['op'] == 'stop':
                a = {} if nenv == 1 else dict(env_id=TAGS[op['env'] - 1])
                buf.stop_current_episode(**a)
            elif op['op'] == 'reload':
                buf = reload(buf, kind, n, capv, kw)
            elif op['op'] == 'save':
                reload(buf, kind, n, capv, kw)
            elif op['op'] == 'sub':
                e['obs'] = []
                r = buf.sample_episodes(op['k'], op['maxlen'])
                if kind == 'pepisodic':
                    if kw.get('weights', True):
                        r = r[0]
                    if kw.get('wait', True):
                        buf.update_errors([1.0] * op['k'])
                e['obs'] = [[ident(t, terms) for t in ep] for ep in r]
            elif op['op'] == 'sample':
                e['obs'] = []
                r = buf.sample(op['k'])
                if kind == 'prioritized':
                    buf.update_errors([1.0] * op['k'])
                e['obs'] = [[ident(t, terms) for t in w] for w in r]
        except Exception as ex:
            e['exc'] = type(ex).__name__
        e['len'] = len(buf)
        e['seen'] = (k % every == every - 1) or k == len(ops) - 1
        if op['op'] in ('append', 'stop', 'reload', 'save'):
            e['obs'] = windows(buf, kind, terms) if e['seen'] else []
        if epi:
            e['neps'] = buf.n_episodes
            e['eps'] = episodes(buf, kind, terms, kw) if e['seen'] else []
        ev.append(e)
    return dict(cfg=dict(n=n, cap=cap, envs=nenv, kind=kind), ev=ev)


def queue(job):
    """Replay ops on a RandomAccessQueue (or PrioritizedBuffer)."""
    np.random.seed(job.get('seed', 0))
    cap = job['cap']
    capv = None if cap < 0 else cap
    ev = []
    q, x = None, 0
    for op in job['ops']:
        e = dict(op, exc='', ret=0, items=[], it=[], neg=[])
        try:
            o = op['op']
            if o == 'new':
                xs = list(range(x + 1, x + 1 + op['k']))
                x += op['k']
                e['xs'] = xs
                if job['kind'] == 'prioritized':
                    q = PrioritizedBuffer(capacity=capv)
                    for v in xs:
                        q.append(v)
                elif not xs:
                    q = RandomAccessQueue(maxlen=capv)
                else:
                    src = [xs, tuple(xs), iter(xs)][x % 3]
                    q = RandomAccessQueue(src, maxlen=capv)
            elif o == 'append':
                x += 1
                e['xs'] = [x]
                q.append(x)
            elif o == 'extend':
                xs = list(range(x + 1, x + 1 + op['k']))
                x += op['k']
                e['xs'] = xs
                q.extend([xs, tuple(xs), iter(xs)][x % 3])
            elif o == 'popleft':
                e['ret'] = q.popleft()
            elif o == 'get':
                e['ret'] = q[op['i']]
            elif o == 'set':
                x += 1
                e['xs'] = [x]
                q[op['i']] = x
            elif o == 'sample':
                e['smp'] = []
                e['smp'] = [int(v) for v in q.sample(op['k'])]
        except Exception as ex:
            e['exc'] = type(ex).__name__
        e['len'] = len(q)
        if job['kind'] == 'prioritized':
            n = len(q)
            if n:
                s = q.sample(n)[0]
                q.set_last_priority([1.0] * n)
                e['items'] = sorted(s)
        else:
            e['items'] = [q[i] for i in range(len(q))]
            e['it'] = list(q)
            e['neg'] = [q[-i - 1] for i in range(len(q))]
        ev.append(e)
    return dict(cfg=dict(cap=cap, kind=job['kind']), ev=ev)


def counts(job):
    """Selection counts of repeated uniform samples."""
    np.random.seed(job['seed'])
    m, n, N, kind = job['m'], job['n'], job['N'], job['kind']
    if kind == 'queue':
        q = RandomAccessQueue(maxlen=m)
        for v in range(job['pre'] + m):
            q.append(v)
        for _ in range(job['pops']):
            q.popleft()
            q.append(v + 1)
            v += 1
        lo = v - m + 1
        draw = lambda: [x - lo for x in q.sample(n)]     # noqa
    elif kind in ('uniform', 'episodic_t'):
        b = make('uniform' if kind == 'uniform' else 'episodic', 1, m)
        for v in range(job['pre'] + m):
            b.append(v, 0, 0.0, v + 1,
                     is_state_terminal=kind == 'episodic_t')
        lo = v - m + 1
        draw = lambda: [w[0]['state'] - lo for w in b.sample(n)]   # noqa
    else:   # whole episodes
        b = make('episodic', 1, None)
        for v in range(m):
            for j in range(1 + v % 3):
                b.append(v, j, 0.0, v, is_state_terminal=j == v % 3)
        draw = lambda: [ep[0]['state']            # noqa
                        for ep in b.sample_episodes(n)]
    cnt = [0] * m
    pair = [[0] * m for _ in range(m)]
    dup, bad = 0, 0
    for _ in range(N):
        s = draw()
        if len(s) != n or any(not 0 <= x < m for x in s):
            bad += 1
            continue
        if len(set(s)) != n:
            dup += 1
        for x in s:
            cnt[x] += 1
        if job['pairs']:
            ss = sorted(s)
            for a in range(len(ss)):
                for c in range(a + 1, len(ss)):
                    pair[ss[a]][ss[c]] += 1
    return dict(op='counts', m=m, n=n, N=N, cnt=cnt, dup=dup, bad=bad,
                pairs=job['pairs'], pair=pair if job['pairs'] else [[]])


def offsets(job):
    """Start offsets of sampled sub-episodes."""
    np.random.seed(job['seed'])
    L, M, N = job['L'], job['maxlen'], job['N']
    b = make(job['kind'], 1, None, wait=False, weights=False)
    for v in range(L):
        b.append(v, 0, 0.0, v + 1, is_state_terminal=v == L - 1)
    k = min(M, L)
    cnt = [0] * (L - k + 1)
    bad = 0
    for _ in range(N):
        ep, = b.sample_episodes(1, M)
        s = [t['state'] for t in ep]
        if len(s) != k or s != list(range(s[0], s[0] + k)) or \
                s[0] + k > L:
            bad += 1
        else:
            cnt[s[0]] += 1
    return dict(op='offsets', L=L, maxlen=M, N=N, cnt=cnt, bad=bad)


def sizes(job):
    """Every n from 0 to the size, and beyond it."""
    np.random.seed(job['seed'])
    kind, m = job['kind'], job['m']
    b = make(kind, 1, None)
    for v in range(m):
        b.append(v, 0, 0.0, v + 1, is_state_terminal=(kind == 'episodic'))
    ev = []
    for n in list(range(0, m + 3)):
        for via in (['sample', 'episodes'] if kind == 'episodic'
                    else ['sample', 'queue']):
            e = dict(op='size', m=m, n=n, exc='', got=[], via=via)
            try:
                if via == 'sample':
                    e['got'] = [w[0]['state'] for w in b.sample(n)]
                elif via == 'queue':
                    q = RandomAccessQueue(range(m))
                    e['got'] = [int(v) for v in q.sample(n)]
                else:
                    e['got'] = [ep[0]['state'] for ep in b.sample_episodes(n)]
            except Exception as ex:
                e['exc'] = type(ex).__name__
            ev.append(e)
    return ev


def batching(job):
    """batch_experiences on windows given as integer rewards."""
    from chainerrl.misc.batch_states import batch_states
    g = job['gnum'] / job['gden']
    exps, x = [], 0
    for w in job['windows']:
        exp = []
        for t in w:
            x += 1
            exp.append(dict(
                state=np.full((3,), x, dtype=np.float32), action=x,
                reward=t['r'], next_state=np.full((3,), x + .5, np.float32),
                next_action=(1000 + x) if t['na'] else None,
                is_state_terminal=t['term']))
        exps.append(exp)
    S = job['gden'] ** 4
    e = dict(op='batch', windows=job['windows'], gnum=job['gnum'],
             gden=job['gden'], exc='', phi=job['phi'])
    phi = (lambda s: s * 2) if job['phi'] == 2 else (lambda s: s)
    try:
        b = rb.batch_experiences(exps, np, phi, g, batch_states)
        e.update(
            state=[sorted(set(int(v) for v in r)) for r in b['state']],
            next=[sorted(set(int(round(v * 2)) for v in r))
                  for r in b['next_state']],
            action=[int(a) for a in b['action']],
            rew=[int(round(float(r) * S)) for r in b['reward']],
            disc=[int(round(float(d) * S)) for d in b['discount']],
            term=[int(round(float(t) * 100)) for t in b['is_state_terminal']],
            hasna='next_action' in b,
            na=[int(a) for a in b['next_action']] if 'next_action' in b
            else [])
    except Exception as ex:
        e['exc'] = type(ex).__name__ + str(ex)[:80]
        e.update(state=[], next=[], action=[], rew=[], disc=[], term=[],
                 hasna=False, na=[])
    return e
