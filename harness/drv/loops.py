"""Drivers for the experiment loops, with scripted envs and agents that log
every call made to them."""
import os
import re
import tempfile

import numpy as np

from chainerrl import experiments
from chainerrl import env as env_mod


class Boom(Exception):
    pass


class Script(object):
    """Shared log, scripted answers and planned failures."""

    def __init__(self, job):
        self.ev = []
        self.job = job
        c = job['c']
        self.crash = c.get('crash', 'none')
        self.k = c.get('k', 1)
        self.exc = Boom('planned')
        if self.crash.startswith('kbd_'):
            self.exc = KeyboardInterrupt()
            self.crash = self.crash[4:]
        self.calls = {}
        self.raised = False

    def log(self, **e):
        self.ev.append(e)

    def maybe(self, where):
        n = self.calls[where] = self.calls.get(where, 0) + 1
        if where == self.crash and n == self.k and not self.raised:
            self.raised = True
            self.log(op='raise', exc=type(self.exc).__name__, where=where)
            raise self.exc


class Env(object):
    """Scripted env; observations are numbered."""

    def __init__(self, s, script, base=0, src='env', rewards=None):
        self.s, self.script, self.pos = s, script, 0
        self.o, self.src, self.base = base, src, base
        self.first = True
        self.rewards = rewards

    def obs(self):
        self.o += 1
        return np.array([self.o], dtype=np.float64)

    def reset(self):
        if not self.first:
            self.s.maybe('reset')
        self.first = False
        o = self.obs()
        self.s.log(op='reset', obs=self.o)
        return o

    def step(self, a):
        self.s.maybe('step')
        x = self.script[self.pos] if self.pos < len(self.script) else \
            dict(done=False, nr=False)
        self.pos += 1
        o = self.obs()
        r = self.rewards[(self.pos - 1) % len(self.rewards)] \
            if self.rewards else 3 * self.pos + 1
        info = {}
        if x['nr']:
            info = {'needs_reset': True}
        elif self.pos % 2:
            info = {'needs_reset': False}
        self.s.log(op='step', a=int(a), obs=self.o, r=r, done=x['done'],
                   nr=x['nr'])
        # all the ways a reward or a flag may be typed
        r = [r, float(r), np.float32(r)][self.pos % 3]
        d = [x['done'], bool(x['done']), np.bool_(x['done'])][self.pos % 3]
        return o, r, d, info

    def close(self):
        self.s.log(op='close', src=self.src)


class Agent(object):
    def __init__(self, s, has_t=True):
        self.s, self.a = s, 0
        if has_t:
            self.t = 0

    def act_and_train(self, obs, r):
        self.s.maybe('act')
        self.a += 1
        self.s.log(op='act', obs=int(obs[0]), r=rint(r), a=self.a)
        return self.a

    def act(self, obs):
        self.a += 1
        self.s.log(op='eact', obs=int(obs[0]), a=self.a)
        return self.a

    def stop_episode_and_train(self, obs, r, done=False):
        self.s.maybe('stop')
        self.s.log(op='stop', obs=int(obs[0]), r=rint(r), done=bool(done))

    def stop_episode(self):
        self.s.log(op='estop')

    def get_statistics(self):
        return [('stat', 1)]

    def save(self, dirname):
        b = os.path.basename(dirname)
        m = re.match(r'^(\d+)_(checkpoint|finish|except)$', b)
        if m:
            self.s.log(op={'checkpoint': 'chk'}.get(m.group(2), m.group(2)),
                       t=int(m.group(1)))
        else:
            self.s.log(op='save', name=b)

    def load(self, dirname):
        raise AssertionError('load called')


def rint(r):
    v = float(r)
    return int(v) if v == int(v) else -12345


class StubEvaluator(object):
    def __init__(self, s, best, env, agent_env):
        self.s, self.env = s, env
        self.max_score = -100.0
        self.target, self.n = best, 0

    def evaluate_if_necessary(self, t, episodes):
        self.s.maybe('eval')
        self.n += 1
        # the target is reached at the second call
        if self.n >= 2 and self.target > 0:
            self.max_score = float(self.target)
        elif self.n >= 2:
            self.max_score = 0.0
        best = int(self.max_score)
        self.s.log(op='eval', t=int(t), episodes=int(episodes), best=best)
        return self.max_score if self.n % 2 == 0 else None


def make_hooks(s, n, env, agent):
    def mk(j):
        def hook(e, a, t):
            s.maybe('hook')
            s.log(op='hook', j=j, t=int(t), same=e is env and a is agent)
        return hook
    return [mk(j + 1) for j in range(n)]


def cfg(c):
    return dict(steps=c['steps'], off=c['off'], maxlen=c['maxlen'],
                freq=c['freq'], hooks=c['hooks'], ev=bool(c['ev']),
                succ=c['succ'], n=c['n'])


def run_guarded(s, f):
    try:
        f()
        s.log(op='end', exc='')
    except BaseException as ex:
        if isinstance(ex, (SystemExit, GeneratorExit)):
            raise
        s.log(op='end', exc=type(ex).__name__ if ex is s.exc
              else 'other:' + type(ex).__name__ + str(ex)[:100])


def serial(job):
    c = job['c']
    s = Script(job)
    env = Env(s, job['script'])
    agent = Agent(s, has_t=c['steps'] % 2 == 0)
    ev = StubEvaluator(s, c['best'], env, env) if c['ev'] else None
    with tempfile.TemporaryDirectory() as d:
        run_guarded(s, lambda: experiments.train_agent(
            agent, env, c['steps'], d, checkpoint_freq=c['freq'] or None,
            max_episode_len=c['maxlen'] or None, step_offset=c['off'],
            evaluator=ev,
            successful_score=None if c['succ'] < 0 else c['succ'],
            step_hooks=make_hooks(s, c['hooks'], env, agent)))
    return dict(cfg=cfg(c), ev=s.ev)


def ints(xs):
    return [rint(np.asarray(x).reshape(())) for x in xs]


class VEnv(env_mod.VectorEnv):
    """Scripted vector env; observation of env i at its k-th change is
    1000 i + k."""

    def __init__(self, s, script, n, src='env', rewards=None):
        self.s, self.script, self.n, self.src = s, script, n, src
        self.pos, self.k, self.first = 0, 0, True
        self.cur = [0] * n
        self.rewards = rewards

    @property
    def num_envs(self):
        return self.n

    def out(self):
        obs = [np.array([x], dtype=np.float32) for x in self.cur]
        return tuple(obs) if self.k % 2 else obs

    def reset(self, mask=None):
        if not self.first:
            self.s.maybe('reset')
        self.first = False
        which = [i for i in range(self.n) if mask is None or not mask[i]]
        self.k += 1
        for i in which:
            self.cur[i] = 1000 * (i + 1) + self.k
        self.s.log(op='reset', reset=[i + 1 for i in which],
                   obs=list(self.cur))
        return self.out()

    def step(self, actions):
        self.s.maybe('step')
        ds, nrs, rs = [], [], []
        self.k += 1
        for i in range(self.n):
            p = self.pos * self.n + i
            x = self.script[p] if p < len(self.script) else \
                dict(done=False, nr=False)
            ds.append(x['done'])
            nrs.append(x['nr'])
            self.cur[i] = 1000 * (i + 1) + self.k
            rs.append(self.rewards[p % len(self.rewards)] if self.rewards
                      else 7 * p + 1)
        self.pos += 1
        self.s.log(op='step', a=ints(actions), obs=list(self.cur), r=rs,
                   done=ds, nr=nrs)
        infos = [{'needs_reset': x} if x or (i + self.pos) % 2 else {}
                 for i, x in enumerate(nrs)]
        m = self.pos % 3
        if m == 0:
            return self.out(), tuple(rs), tuple(ds), tuple(infos)
        if m == 1:
            return (self.out(), np.array(rs, dtype='f'),
                    np.array(ds, dtype=bool), infos)
        return self.out(), [float(r) for r in rs], list(ds), infos

    def seed(self, seeds):
        raise AssertionError('seeded')

    def close(self):
        self.s.log(op='close', src=self.src)


class BatchAgent(Agent):
    def _act(self, op, obss):
        self.s.maybe('act')
        self.a += 1
        acts = [10 * self.a + i for i in range(len(obss))]
        self.s.log(op=op, obs=[int(o[0]) for o in obss], a=acts)
        return [np.array(acts), acts, tuple(acts)][self.a % 3]

    def _observe(self, op, obss, rs, dones, resets):
        self.s.maybe('stop')
        self.s.log(op=op, obs=[int(o[0]) for o in obss], r=ints(rs),
                   done=[bool(d) for d in dones],
                   reset=[bool(d) for d in resets])

    def batch_act_and_train(self, obss):
        return self._act('act', obss)

    def batch_act(self, obss):
        return self._act('eact', obss)

    def batch_observe_and_train(self, obss, rs, dones, resets):
        self._observe('observe', obss, rs, dones, resets)

    def batch_observe(self, obss, rs, dones, resets):
        self._observe('eobserve', obss, rs, dones, resets)


class Closer(object):
    def __init__(self, s, src):
        self.s, self.src = s, src

    def close(self):
        self.s.log(op='close', src=self.src)


def batch(job):
    c = job['c']
    s = Script(job)
    env = VEnv(s, job['script'], c['n'])
    agent = BatchAgent(s, has_t=c['steps'] % 2 == 0)
    ev = StubEvaluator(s, c['best'], Closer(s, 'evalenv'), env) \
        if c['ev'] else None
    kw = {}
    if c['freq'] == 3:
        kw['log_interval'] = 2
    with tempfile.TemporaryDirectory() as d:
        run_guarded(s, lambda: experiments.train_agent_batch(
            agent, env, c['steps'], d, checkpoint_freq=c['freq'] or None,
            max_episode_len=c['maxlen'] or None, step_offset=c['off'],
            evaluator=ev,
            successful_score=None if c['succ'] < 0 else c['succ'],
            step_hooks=make_hooks(s, c['hooks'], env, agent), **kw))
    return dict(cfg=cfg(c), ev=s.ev)


REW = [1, -2, 5, 0, 3, -7, 11]


class EndingEnv(Env):
    """All further steps are terminal."""

    def step(self, a):
        if self.pos >= len(self.script):
            self.script = list(self.script) + [dict(done=True, nr=False)]
        return Env.step(self, a)


class EndingVEnv(VEnv):
    def step(self, actions):
        while len(self.script) < (self.pos + 1) * self.n:
            self.script = list(self.script) + [dict(done=True, nr=False)]
        return VEnv.step(self, actions)


def eval_serial(job):
    from chainerrl.experiments import evaluator as em
    c = job['c']
    s = Script(job)
    env = EndingEnv(s, job['script'], rewards=REW)
    agent = Agent(s)
    kw = dict(max_episode_len=c['maxlen'] or None)
    stats = []
    if job['perf']:
        st = em.eval_performance(env, agent, c['steps'] or None,
                                 c['eps'] or None, **kw)
        scores = job.get('scores') or []
        n = st['episodes']
        stats = [int(n), int(round(st['mean'] * n)), rint(st['max']),
                 rint(st['min'])]
        scores = None
    else:
        scores = [rint(x) for x in em.run_evaluation_episodes(
            env, agent, c['steps'] or None, c['eps'] or None, **kw)]
    if scores is None:
        # the same run again, for the scores behind the statistics
        s2 = Script(job)
        scores = [rint(x) for x in em.run_evaluation_episodes(
            EndingEnv(s2, job['script'], rewards=REW), Agent(s2),
            c['steps'] or None, c['eps'] or None, **kw)]
    s.log(op='end', scores=scores, stats=stats, recs=[])
    return dict(cfg=dict(steps=c['steps'], eps=c['eps'], maxlen=c['maxlen'],
                         kind='eval'), ev=s.ev)


def eval_batch(job):
    from chainerrl.experiments import evaluator as em
    c = job['c']
    s = Script(job)
    env = EndingVEnv(s, job['script'], c['n'], rewards=REW)
    agent = BatchAgent(s)
    scores = em.batch_run_evaluation_episodes(
        env, agent, c['steps'] or None, c['eps'] or None,
        max_episode_len=c['maxlen'] or None)
    s.log(op='end', scores=[rint(x) for x in scores])
    return dict(cfg=dict(n=c['n'], steps=c['steps'], eps=c['eps'],
                         maxlen=c['maxlen']), ev=s.ev)


class DemoEnv(EndingEnv):
    def step(self, a):
        o, r, d, i = EndingEnv.step(self, a)
        return o, r, d, dict(i, k=self.pos)


def demos(job):
    import chainer
    c = job['c']
    s = Script(job)
    env = DemoEnv(s, job['script'], rewards=REW)
    agent = Agent(s)
    with tempfile.TemporaryDirectory() as d:
        experiments.collect_demonstrations(
            agent, env, c['steps'] or None, c['eps'] or None, d,
            max_episode_len=c['maxlen'] or None)
        recs = []
        with chainer.datasets.open_pickle_dataset(
                os.path.join(d, 'demos.pickle')) as ds:
            for k in range(len(ds)):
                obs, a, r, nobs, done, info = ds[k]
                recs.append(dict(obs=int(obs[0]), a=int(a), r=rint(r),
                                 nobs=int(nobs[0]), done=bool(done),
                                 nr=info.get('needs_reset', False),
                                 k=info['k']))
    s.log(op='end', scores=[], stats=[], recs=recs)
    return dict(cfg=dict(steps=c['steps'], eps=c['eps'], maxlen=c['maxlen'],
                         kind='demo'), ev=s.ev)
