"""Driver for env modifiers, reward filters and the toy env."""
import numpy as np

from chainerrl.envs.abc import ABC
from chainerrl.misc import env_modifiers as em
from chainerrl.misc.reward_filter import AverageRewardFilter
from chainerrl.misc.reward_filter import NormalizedRewardFilter

K = 8192


class Base(object):
    def __init__(self, script):
        self.script, self.n, self.log = script, 0, []

    def step(self, a):
        z = self.script[self.n % len(self.script)]
        self.n += 1
        self.log.append(['step', a])
        return self.n, z['r'] / 4, z['done'], {}

    def reset(self):
        self.n += 1
        self.log.append(['reset', 0])
        return self.n

    def render(self, mode=0, close=False, extra=0):
        self.log.append(['render', mode + extra + (100 if close else 0)])

    def close(self):
        self.log.append(['close', 0])


def mods(job):
    b = job['b']
    env = Base(b['script'])
    M = []
    norm = False
    for m in b['mods'][:b['nm']]:
        t, k = m['t'], m['k']
        z = dict(t=t, k=k)
        if t in ('norm', 'avg'):
            amp = np.prod([y['k'] for y in M
                           if y['t'] in ('reward', 'repeat')])
            if norm or amp > 8:     # errors add up; 32-bit integers
                continue
            norm = True
        if t == 'limit':
            em.make_timestep_limited(env, k)
        elif t == 'repeat':
            if [y for y in M if y['t'] == 'norm']:
                continue        # relative errors, which sums magnify
            if [y for y in M if y['t'] == 'repeat']:
                k = z['k'] = min(k, 2)
            em.make_action_repeated(env, k)
        elif t == 'rendered':
            if k % 2:
                em.make_rendered(env, k)
            else:
                em.make_rendered(env, extra=k)
        elif t == 'clip':
            lo, hi = m['lo'], m['hi']
            em.make_reward_clipped(env, lo / 4, hi / 4)
            z.update(lo=lo * K // 4, hi=hi * K // 4)
        elif t == 'reward':
            em.make_reward_filtered(env, lambda r, k=k: r * k)
        elif t == 'action':
            em.make_action_filtered(env, lambda a, k=k: a * k + 1)
        elif t == 'avg':
            z.update(tau=m['tau'])
            f = AverageRewardFilter(tau=m['tau'] / 1000)
            em.make_reward_filtered(env, f)
        else:
            z.update(tau=m['tau'], eps=m['eps'] * K // 64 if m['eps'] != 10 else 819,
                     scale=m['scale'])
            kw = {}
            if m['eps'] != 10:
                kw['eps'] = m['eps'] / 64
            if m['scale'] != 1:
                kw['scale'] = m['scale']
            f = NormalizedRewardFilter(tau=m['tau'] / 1000, **kw)
            em.make_reward_filtered(env, f)
        M.append(z)
    ev = []
    for o in [dict(op='reset', a=0)] + b['ops']:
        env.log = []
        e = dict(op=o['op'], a=o['a'], exc='', obs=0, r=0, done=False)
        try:
            if o['op'] == 'reset':
                e['obs'] = env.reset()
            elif o['op'] == 'close':
                env.close()
            else:
                obs, r, done, info = env.step(o['a'])
                if not np.isfinite(r):
                    r = 10 ** 4
                e.update(obs=obs, r=int(round(float(r) * K)), done=bool(done))
        except Exception as exc:  # noqa
            e['exc'] = repr(exc)[:200]
        e['calls'] = env.log
        ev.append(e)
        if e['exc']:
            break
    S = [dict(r=z['r'] * K // 4, done=z['done']) for z in b['script']]
    return dict(cfg=dict(kind='mods', M=M, S=S), ev=ev)


def abc(job):
    b = job['b']
    np.random.seed(job['seed'])
    kw = dict(size=b['size'], discrete=b['discrete'], episodic=b['episodic'],
              partially_observable=b['po'], deterministic=b['det'])
    env = ABC(**kw)
    ev = []
    done = True
    good = 0
    for j, o in enumerate(b['ops']):
        op = 'reset' if done else o['op'].replace('close', 'step')
        e = dict(op=op, exc='', r=0, done=False, a=0, av=[])
        try:
            if op == 'reset':
                obs = env.reset()
                done, good, ins = False, 0, True
            else:
                right = o['g'] < 7
                if b['discrete']:
                    a = good % b['size'] if right else o['a'] % b['size']
                    e['a'] = a
                else:
                    v = [b['av'][(j * 3 + k) % 40] for k in range(b['size'])]
                    if right:
                        v[good % b['size']] = 7
                    a = np.asarray(v, np.float32) / 4
                    e['av'] = [x * K // 4 for x in v]
                ins = True
                obs, r, done, _ = env.step(a)
                e.update(r=int(r) if r == int(r) else -1, done=bool(done))
                good += 1
            e['inspace'] = bool(
                env.observation_space.contains(obs) and obs.dtype == 'f')
            e['obs'] = [int(x) if x == int(x) else -1 for x in obs]
            if hasattr(env.action_space, 'n') != b['discrete']:
                e['inspace'] = False
        except Exception as exc:  # noqa
            e['exc'] = repr(exc)[:200]
        ev.append(e)
        if e['exc']:
            break
    return dict(cfg=dict(kind='abc', **{
        k: b[k] for k in ('size', 'discrete', 'episodic', 'po', 'det')}),
        ev=ev)


def freq(job):
    b, N = job['b'], job['N']
    np.random.seed(job['seed'])
    ev = []
    env = ABC(size=b['size'], partially_observable=True)
    ev.append(dict(op='freq', exc='', N=N, av=[], count=int(sum(
        env.reset()[0] for _ in range(N)))))
    env = ABC(size=max(b['size'], 2), discrete=False, episodic=True)
    v = b['av'][:max(b['size'], 2)]
    c = 0
    for _ in range(N):
        env.reset()
        c += not env.step(np.asarray(v, np.float32) / 4)[2]
    ev.append(dict(op='freq', exc='', N=N, av=[x * K // 4 for x in v],
                   count=c))
    return dict(cfg=dict(kind='abc'), ev=ev)


def run(job):
    return dict(mods=mods, abc=abc, freq=freq)[job['kind']](job)
