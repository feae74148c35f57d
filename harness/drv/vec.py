"""Drivers for vector envs (serial and multiprocess)."""
import os
import shutil
import tempfile
import time

import gym
import gym.spaces
import numpy as np

import chainerrl

M = 9973


class Spec(object):
    id = 'vec-1'


class HashEnv(gym.Env):
    """Answers with a hash of all calls received so far."""
    metadata = {}
    spec = Spec()

    def __init__(self, k, d, delay):
        self.h, self.k, self.d, self.delay = k + 1, k, d, delay
        self.action_space = gym.spaces.Discrete(3)
        self.observation_space = gym.spaces.Box(
            low=0, high=M, shape=(1,), dtype=np.int64)
        self.rs = np.random.RandomState(k)
        with open(os.path.join(d, 'pid%d' % k), 'w') as f:
            f.write(str(os.getpid()))

    def wait(self):
        if self.delay:
            time.sleep(self.rs.rand() * self.delay)

    def obs(self):
        return np.array([self.h])

    def reset(self):
        self.wait()
        self.h = (31 * self.h + 1) % M
        return self.obs()

    def step(self, a):
        self.wait()
        self.h = (31 * self.h + 2 + 7 * int(a)) % M
        return (self.obs(), (self.h % 5) - 2, self.h % 7 == 0,
                {'h': self.h})

    def seed(self, s=None):
        self.h = (31 * self.h + 3 + 13 * int(s)) % M
        return [s]

    def close(self):
        with open(os.path.join(self.d, 'closed%d' % self.k), 'a') as f:
            f.write('x')


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except (OSError, IndexError):
        return False


def flat(o):
    return [int(np.asarray(x).reshape(-1)[0]) for x in o]


def run(job):
    """One call sequence on one implementation."""
    d = tempfile.mkdtemp()
    n, mp = job['n'], job['mp']
    try:
        if mp:
            def make(k):
                return lambda: HashEnv(k, d, job['delay'])
            env = chainerrl.envs.MultiprocessVectorEnv(
                [make(k) for k in range(n)])
        else:
            env = chainerrl.envs.SerialVectorEnv(
                [HashEnv(k, d, 0) for k in range(n)])
        ev, kept = [], []

        def attempt(e, f):
            e['raised'] = False
            try:
                f(e)
            except Exception as x:
                e['raised'], e['error'] = True, repr(x)[:200]
            ev.append(e)

        def spaces(e):
            e.update(na=env.action_space.n,
                     shape=list(env.observation_space.shape),
                     spec=env.spec.id, n=env.num_envs)
        pos = 0
        at = job['spaces']
        for x in job['b']:
            if pos == at:
                attempt(dict(op='spaces'), spaces)
            pos += 1
            v = x['v']
            if x['op'] == 'step':
                def f(e):
                    a = [list(v), np.array(v), tuple(v)][pos % 3]
                    o, r, dn, info = env.step(a)
                    kept.append((o, flat(o)))
                    e.update(obs=flat(o), r=[int(y) for y in r],
                             done=[bool(y) for y in dn],
                             info=[int(y['h']) for y in info])
                attempt(dict(op='step', a=v), f)
            elif x['op'] in ('reset', 'resetall'):
                mask = [bool(y) for y in v]

                def f(e):
                    if x['op'] == 'resetall':
                        o = env.reset()
                    else:
                        o = env.reset(
                            [mask, np.array(mask), tuple(mask)][pos % 3])
                    kept.append((o, flat(o)))
                    e.update(obs=flat(o))
                attempt(dict(op='reset', mask=mask), f)
            else:
                attempt(dict(op='seed', s=v),
                        lambda e: env.seed([int(y) for y in v]) and None)
        ev.append(dict(op='recheck', raised=False,
                       same=all(flat(o) == c for o, c in kept)))
        if mp or job['close']:
            def close(e):
                env.close()
                end = time.time() + 5
                pids = [int(open(os.path.join(d, 'pid%d' % k)).read())
                        for k in range(n)]
                live = n
                while mp and time.time() < end:
                    live = sum(alive(p) for p in pids)
                    if not live:
                        break
                    time.sleep(0.01)
                cl = []
                for k in range(n):
                    fn = os.path.join(d, 'closed%d' % k)
                    cl.append(os.path.getsize(fn)
                              if os.path.exists(fn) else 0)
                e.update(closed=cl, alive=live if mp else 0)
            attempt(dict(op='close'), close)
        if mp:
            zero = [0] * n
            attempt(dict(op='step', a=zero), lambda e: env.step(zero))
            attempt(dict(op='reset', mask=[False] * n),
                    lambda e: env.reset())
            attempt(dict(op='reset', mask=[True] * n),
                    lambda e: env.reset([True] * n))
            attempt(dict(op='seed', s=zero), lambda e: env.seed(zero))
        return dict(cfg=dict(n=n, mp=mp), ev=ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)
