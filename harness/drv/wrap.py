"""Drivers for env wrappers: scripted base envs that log the calls they get."""
import json
import os
import glob
import tempfile
import warnings

import gym
import gym.spaces
import numpy as np

from chainerrl import env as env_mod
from chainerrl import wrappers
from chainerrl.wrappers import atari_wrappers as aw


def rint(v):
    v = float(v)
    return int(v) if v == int(v) else -12345


class Ale(object):
    def __init__(self, env):
        self.env = env

    def lives(self):
        return self.env.lives


class Base(gym.Env):
    metadata = {}
    reward_range = (-10, 10)

    def __init__(self, script, shape=(1, 1, 2), dtype=np.uint8, cont=None):
        self.script, self.pos, self.log = script, 0, []
        self.shape, self.dtype = shape, dtype
        self.lives = 0
        self.ale = Ale(self)
        self.np_random = np.random.RandomState(5)
        self.action_space = gym.spaces.Discrete(4) if cont is None else cont
        self.observation_space = gym.spaces.Box(
            low=0, high=255, shape=shape, dtype=dtype)

    def get_action_meanings(self):
        return ['NOOP', 'FIRE', 'RIGHT', 'LEFT']

    def answer(self):
        x = self.script[self.pos % len(self.script)]
        self.pos += 1
        o = np.array([x['x'] + 10 * (self.pos % 20), x['y']],
                     dtype=self.dtype).reshape(self.shape)
        return x, o

    def reset(self, **kw):
        x, o = self.answer()
        self.lives = 3
        self.log.append(dict(op='reset', a=0, av=[], obs=ints(o), r=0,
                             done=False, nr=False, lives=self.lives))
        return o

    def step(self, a):
        x, o = self.answer()
        if x['lost']:
            self.lives = max(self.lives - 1, 0) if x['x'] != 9 else \
                self.lives + 1
        done = x['done']
        av = []
        if isinstance(a, np.ndarray) and a.shape:
            av, a = [rint(8 * y) for y in a], 0
        self.log.append(dict(op='step', a=int(a), av=av, obs=ints(o),
                             r=x['r'], done=done, nr=x['nr'],
                             lives=self.lives))
        info = {'needs_reset': True} if x['nr'] else \
            [{}, {'needs_reset': False}][self.pos % 2]
        return o, [x['r'], float(x['r'])][self.pos % 2], done, info

    def render(self, *a, **k):
        pass

    def close(self):
        pass


def ints(o):
    return [rint(v) for v in np.asarray(o).ravel()]


CHW, HWC = (1, 1, 2), (1, 2, 1)


def build(kind, job, rng):
    """(wrapped env, base env, cfg, fields of the obs)"""
    p = job['p']
    b = job['b']
    if kind == 'life':
        base = Base(b)
        return aw.EpisodicLifeEnv(base), base, dict(kind=kind)
    if kind == 'skip':
        base = Base(b)
        return (aw.MaxAndSkipEnv(base, skip=p['skip']), base,
                dict(kind=kind, skip=p['skip']))
    if kind == 'noop':
        base = Base(b)
        e = aw.NoopResetEnv(base, noop_max=p['max'])
        if p['override']:
            e.override_num_noops = p['override']
        return e, base, dict(kind=kind, max=p['max'], override=p['override'])
    if kind == 'fire':
        base = Base(b)
        return aw.FireResetEnv(base), base, dict(kind=kind)
    if kind == 'clip':
        base = Base(b)
        return aw.ClipRewardEnv(base), base, dict(kind=kind)
    if kind == 'tl':
        base = Base(b)
        return (wrappers.ContinuingTimeLimit(
            base, max_episode_steps=p['limit']), base,
            dict(kind=kind, limit=p['limit']))
    if kind == 'stack':
        order = p['order']
        base = Base(b, CHW if order == 'chw' else HWC, p['dtype'])
        return (aw.FrameStack(base, p['k'], channel_order=order), base,
                dict(kind=kind, k=p['k'], order=order))
    if kind == 'scale':
        base = Base(b)
        return (wrappers.ScaleReward(base, p['scale4'] / 4.0), base,
                dict(kind=kind, scale4=p['scale4'], unit=4))
    if kind == 'cast':
        base = Base(b, dtype=p['from'])
        if p['dtype'] == 'float32' and p['short']:
            e = wrappers.CastObservationToFloat32(base)
        else:
            e = wrappers.CastObservation(base, p['dtype'])
        return e, base, dict(kind=kind, dtype=p['dtype'])
    if kind == 'float':
        base = Base(b)
        return (aw.ScaledFloatFrame(base), base,
                dict(kind=kind, dtype='float32'))
    if kind == 'normact':
        lo, hi = p['low'], p['high']
        sp = gym.spaces.Box(low=np.array(lo, dtype='f'),
                            high=np.array(hi, dtype='f'), dtype=np.float32)
        base = Base(b, cont=sp)
        e = wrappers.NormalizeActionSpace(base)
        assert np.all(e.action_space.low == -1)
        assert np.all(e.action_space.high == 1)
        return e, base, dict(kind=kind, low=lo, high=hi)
    if kind == 'randact':
        base = Base(b)
        return (wrappers.RandomizeAction(base, p['frac'] / 100.0), base,
                dict(kind=kind, frac=p['frac'], na=4))
    if kind == 'render':
        base = Base(b)
        return wrappers.Render(base), base, dict(kind=kind)
    if kind == 'monitor':
        base = Base(b)
        base.spec = None
        return (wrappers.Monitor(base, job['dir'], video_callable=False,
                                 force=True), base, dict(kind=kind))
    raise KeyError(kind)


def single(job):
    kind = job['p']['kind']
    rng = np.random.RandomState(job['seed'])
    with tempfile.TemporaryDirectory() as d:
        job['dir'] = d
        env, base, cfg = build(kind, job, rng)
        ev, over, kept = [], True, []
        early = kind == 'tl'
        for u in job['u']:
            base.log = []
            e = dict(a=u['a'], raised=False, obs=[], r=0, done=False,
                     nr=False, dtype='', av=[], kept=True, orig=0)
            if over and not early or not (over or not u['reset']):
                op = 'reset'
            else:
                op = 'step'
            early = False
            try:
                if op == 'reset':
                    o = env.reset()
                    over = False
                else:
                    a = u['a']
                    if kind == 'normact':
                        a = np.array([rng.randint(-4, 5) / 4.0
                                      for _ in cfg['low']], dtype='f')
                        e['av'] = [rint(4 * x) for x in a]
                        keep = a.copy()
                    o, r, done, info = env.step(a)
                    if kind == 'normact':
                        e['kept'] = bool(np.all(a == keep))
                    e['r'] = rint(r * cfg.get('unit', 1))
                    e['done'] = bool(done)
                    e['nr'] = bool(info.get('needs_reset', False))
                    over = e['done'] or e['nr']
                    if kind == 'tl' and e['nr'] and not done and \
                            not base.log[-1]['nr'] and u['a'] < 2:
                        over = False       # go on past the limit
                    if kind == 'scale':
                        e['orig'] = rint(env.original_reward)
            except AssertionError as ex:
                e['raised'] = True
            else:
                e['dtype'] = str(getattr(o, 'dtype', ''))
                if kind == 'stack':
                    arr = np.asarray(o)
                    ax = {'chw': 0, 'hwc': 2}[cfg['order']]
                    e['obs'] = ints(np.moveaxis(arr, ax, 0))
                    kept.append((o, arr))
                elif kind == 'float':
                    o = np.asarray(o) * 255.
                    assert np.allclose(o, np.round(o), atol=1e-3)
                    e['obs'] = ints(np.round(o))
                else:
                    e['obs'] = ints(o)
            ev.append(dict(e, op=op, inner=base.log))
        if kind == 'stack':
            ev.append(dict(op='recheck', same=all(
                bool(np.all(np.asarray(o) == a)) for o, a in kept)))
        if kind == 'monitor':
            inmem = (list(env.get_episode_lengths()),
                     list(env.get_episode_rewards()))
            env.close()
            with open(glob.glob(os.path.join(d, '*.stats.json'))[0]) as f:
                st = json.load(f)
            assert inmem[0] == st['episode_lengths'][:len(inmem[0])]
            ev.append(dict(op='stats',
                           lens=[int(x) for x in st['episode_lengths']],
                           rets=[rint(x) for x in st['episode_rewards']]))
    cfg.pop('order', None)
    return dict(cfg=cfg, ev=ev)


class VBase(env_mod.VectorEnv):
    """Independent base envs, stepped in order."""

    def __init__(self, envs):
        self.envs = envs
        self.action_space = envs[0].action_space
        self.observation_space = envs[0].observation_space
        self.last = None
        self.closed = self.seeded = None

    @property
    def num_envs(self):
        return len(self.envs)

    def reset(self, mask=None):
        self.last = [e.reset() if mask is None or not mask[i]
                     else self.last[i] for i, e in enumerate(self.envs)]
        return self.last

    def step(self, actions):
        self.last, r, d, i = zip(*[e.step(a) for e, a in
                                   zip(self.envs, actions)])
        return self.last, r, d, i

    def seed(self, seeds=None):
        self.seeded = seeds

    def close(self):
        self.closed = True


def vstack(job):
    """VectorFrameStack, seen from each env."""
    p = job['p']
    n = p['n']
    rng = np.random.RandomState(job['seed'])
    bs = [Base([job['b'][(3 * i + j) % len(job['b'])]
                for j in range(len(job['b']))],
               CHW if p['order'] == 'chw' else HWC, p['dtype'])
          for i in range(n)]
    v = VBase(bs)
    ax = {'chw': 0, 'hwc': 2}[p['order']]
    env = wrappers.VectorFrameStack(v, p['k'], stack_axis=ax)
    assert env.num_envs == n
    evs = [[] for _ in range(n)]
    over = np.ones(n, dtype=bool)
    kept, first = [], True
    for u in job['u']:
        for x in bs:
            x.log = []
        do_reset = first or over.any()
        if do_reset:
            if first:
                mask = None
                o = env.reset()
            else:
                extra = rng.rand(n) < .2
                mask = np.logical_not(np.logical_or(over, extra))
                m2 = [mask, list(mask), mask.astype('i')][u['a'] % 3]
                o = env.reset(mask=m2) if u['a'] % 2 else env.reset(m2)
        else:
            acts = [int(x) for x in rng.randint(4, size=n)]
            o, r, done, info = env.step(acts)
        for i in range(n):
            arr = np.asarray(o[i])
            kept.append((o[i], arr))
            e = dict(obs=ints(np.moveaxis(arr, ax, 0)), inner=bs[i].log,
                     raised=False, r=0, done=False, nr=False, a=0)
            if do_reset:
                e['op'] = 'reset' if first or not mask[i] else 'kept'
                over[i] = False
            else:
                e.update(op='step', a=acts[i], r=rint(r[i]),
                         done=bool(done[i]),
                         nr=bool(info[i].get('needs_reset', False)))
                over[i] = e['done'] or e['nr']
            evs[i].append(e)
        first = False
    same = all(bool(np.all(np.asarray(o) == a)) for o, a in kept)
    for e in evs:
        e.append(dict(op='recheck', same=same))
    env.seed([1] * n)
    env.close()
    assert v.seeded == [1] * n and v.closed
    return [dict(cfg=dict(kind='stack', k=p['k']), ev=e) for e in evs]


def randact_counts(job):
    n, frac = job['n'], job['frac']
    base = Base(job['b'])
    env = wrappers.RandomizeAction(base, frac / 100.0)
    env.seed(job['seed'])
    count = [[0] * 4 for _ in range(4)]
    env.reset()
    for a in range(4):
        for k in range(n):
            base.log = []
            env.step(a)
            count[a][base.log[0]['a']] += 1
    return dict(cfg=dict(kind='randact', na=4, frac=frac),
                ev=[dict(op='freq', n=n, count=count)])
