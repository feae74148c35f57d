"""Drivers for Evaluator / AsyncEvaluator."""
import json
import multiprocessing as mp
import os
import random
import tempfile
import time

import numpy as np

from chainerrl import experiments
from chainerrl.experiments import evaluator as ev_mod
from harness.drv import loops

BASIC = ('steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev', 'max',
         'min')


def near(x):
    k = round(x)
    return int(k) if abs(x - k) < 1e-4 else -777777


def read_scores(d, base, n, skip=0):
    """(number of headers, header is first, rows after the first skip)"""
    with open(os.path.join(d, 'scores.txt')) as f:
        lines = f.read().split('\n')
    assert lines[-1] == '', lines[-1]
    lines = [x.split('\t') for x in lines[:-1]]
    heads = [k for k, x in enumerate(lines) if x[0] == 'steps']
    cols = lines[heads[0]] if heads else []
    rows = [x for x in lines if x[0] != 'steps'][skip:]
    out = []
    for r in rows:
        v = dict(zip(cols, r))
        ok = len(r) == len(cols) and set(BASIC) <= set(cols) and \
            v['custom'] == '17'
        if not ok:
            out.append(dict(ok=False, steps=-1, episodes=-1, meanN=0,
                            median2=0, var=0, max=0, min=0))
            continue
        out.append(dict(
            ok=True, steps=int(v['steps']), episodes=int(v['episodes']),
            meanN=near((float(v['mean']) - base) * n),
            median2=near((float(v['median']) - base) * 2),
            var=near(float(v['stdev']) ** 2 * n * (n - 1)),
            max=near(float(v['max']) - base),
            min=near(float(v['min']) - base)))
    return len(heads), bool(heads) and heads[0] == 0, out


class EEnv(object):
    """One-step episodes with the returns given; with long=True, episodes of
    several steps adding up to them."""

    def __init__(self, base, long=False):
        self.base, self.rets, self.used = base, [], []
        self.long, self.k = long, 0

    def reset(self):
        self.k = 0
        return np.zeros(1)

    def step(self, a):
        x = self.rets[len(self.used)]
        n = 1 + (len(self.used) % 3 if self.long else 0)
        self.k += 1
        if self.k < n:
            return np.zeros(1), 1, False, {}
        self.used.append(x)
        return np.zeros(1), self.base + x - (n - 1), True, {}

    def close(self):
        pass


class EAgent(object):
    def __init__(self):
        self.saves = 0

    def act(self, obs):
        return 0

    def stop_episode(self):
        pass

    def get_statistics(self):
        return [('custom', 17)]

    def save(self, dirname):
        assert os.path.basename(dirname) == 'best', dirname
        self.saves += 1


def calls(job):
    c, base = job['c'], job['base']
    n = c['n']
    evs = []
    with tempfile.TemporaryDirectory() as d:
        env, agent = EEnv(base, job['long']), EAgent()
        kw = dict(n_steps=None, n_episodes=n, eval_interval=c['int'],
                  outdir=d, step_offset=c['off'],
                  save_best_so_far_agent=c['save'])
        if c['async']:
            ev = experiments.evaluator.AsyncEvaluator(**kw)
        else:
            ev = experiments.evaluator.Evaluator(agent=agent, env=env, **kw)
        t, rows = c['off'], 0
        for k, h in enumerate(job['h']):
            t += h['d']
            env.rets, env.used, agent.saves = h['rets'], [], 0
            if c['async']:
                r = ev.evaluate_if_necessary(t, k // 2, env, agent)
            elif k % 2:
                r = ev.evaluate_if_necessary(t=t, episodes=k // 2)
            else:
                r = ev.evaluate_if_necessary(t, k // 2)
            heads, first, new = read_scores(d, base, n, rows)
            rows += len(new)
            evs.append(dict(
                op='call', t=t, episodes=k // 2, rets=env.used, rows=new,
                headers=heads, headfirst=first, saves=agent.saves,
                seenret=True,
                ret=[] if r is None else [near((float(r) - base) * n)],
                seenmax=True, max=[near((float(ev.max_score) - base) * n)]
                if rows else []))
    return dict(cfg=dict(c, succ=[], episodes=True), ev=evs)


# ------------------------------------------------- several workers
def shared(job):
    from multiprocessing import sharedctypes
    c, base = job['c'], job['base']
    n = c['n']
    mp.set_start_method('fork', force=True)
    orig = sharedctypes.Synchronized.value
    rng = random.Random()
    inside = []

    def pause():
        if inside and rng.random() < job['p']:
            time.sleep(rng.random() * job['pause'])

    class Agent(EAgent):
        def get_statistics(self):
            pause()
            return EAgent.get_statistics(self)

        def save(self, dirname):
            pause()
            EAgent.save(self, dirname)
            with open(os.path.join(job['d'], 'saved'), 'a') as f:
                f.write('%d\n' % sum(self.cur))
            pause()

    def get(self):
        v = orig.fget(self)
        pause()
        return v

    def set_(self, v):
        pause()
        orig.fset(self, v)

    with tempfile.TemporaryDirectory() as d:
        job['d'] = d
        ev = experiments.evaluator.AsyncEvaluator(
            n_steps=None, n_episodes=n, eval_interval=c['int'], outdir=d,
            step_offset=c['off'], save_best_so_far_agent=c['save'])

        def worker(w):
            inside.append(1)
            rng.seed(job['seed'] * 100 + w)
            env, agent = EEnv(base), Agent()
            res, t = [], c['off']
            for h in job['workers'][w]:
                t += h['d']
                env.rets, env.used = h['rets'], []
                agent.cur = h['rets']
                r = ev.evaluate_if_necessary(t, w, env, agent)
                res.append(dict(
                    t=t, rets=env.used, episodes=w,
                    ret=[] if r is None else [near((float(r) - base) * n)]))
            with open(os.path.join(d, 'res%d' % w), 'w') as f:
                json.dump(res, f)
        sharedctypes.Synchronized.value = property(get, set_)
        try:
            ps = [mp.Process(target=worker, args=(w,))
                  for w in range(len(job['workers']))]
            for p in ps:
                p.start()
            for p in ps:
                p.join(60)
                assert p.exitcode == 0, p.exitcode
        finally:
            sharedctypes.Synchronized.value = orig
        cs = []
        for w in range(len(ps)):
            with open(os.path.join(d, 'res%d' % w)) as f:
                cs += json.load(f)
        saved = []
        if os.path.exists(os.path.join(d, 'saved')):
            with open(os.path.join(d, 'saved')) as f:
                saved = [int(x) for x in f]
        heads, first, rows = read_scores(d, base, n)
        return dict(cfg=dict(c, succ=[], episodes=True), ev=[dict(
            op='shared', calls=cs, headers=heads, headfirst=first, rows=rows,
            saved=saved,
            max=[near((float(ev.max_score) - base) * n)] if rows else [])])


# ------------------------------------------------- inside training
class Follow(object):
    """Turns a training run with evaluations into a sequence of calls."""

    def __init__(self, d, env, n):
        self.d, self.env, self.n = d, env, n
        self.evs, self.open, self.rows = [], None, 0
        self.t = None

    def boundary(self, t, episodes):
        self.flush()
        self.open = (t, episodes)
        self.env.used, self.saves = [], 0

    def flush(self):
        if self.open is None:
            return
        t, episodes = self.open
        self.open = None
        heads, first, new = read_scores(self.d, 0, self.n, self.rows)
        self.rows += len(new)
        self.evs.append(dict(
            op='call', t=t, episodes=episodes, rets=list(self.env.used),
            rows=new, headers=heads, headfirst=first, saves=self.saves,
            seenret=False, ret=[], seenmax=False, max=[]))


class TAgent(object):
    """Marks the places where evaluations are due."""
    t = 0

    def __init__(self, f, off, n):
        self.f, self.n, self.t = f, n, off
        self.cnt, self.eps = off, 0

    def get_statistics(self):
        return [('custom', 17)]

    def save(self, dirname):
        b = os.path.basename(dirname)
        if b == 'best':
            self.f.saves += 1
        else:
            self.f.flush()
            assert b == '%d_finish' % self.cnt, (b, self.cnt)
            self.f.t = self.cnt

    def act_and_train(self, obs, r):
        self.f.flush()
        self.cnt += 1
        return 0

    def stop_episode_and_train(self, obs, r, done=False):
        self.eps += 1
        self.f.boundary(self.cnt, self.eps)

    def act(self, obs):
        return 0

    def stop_episode(self):
        pass

    def batch_act_and_train(self, obss):
        self.f.flush()
        return [0] * len(obss)

    def batch_observe_and_train(self, obss, rs, dones, resets):
        self.cnt += len(obss)
        self.eps += sum(bool(a or b) for a, b in zip(dones, resets))
        self.f.boundary(self.cnt, self.eps)


class Answers(EEnv):
    def __init__(self, rets):
        EEnv.__init__(self, 0)
        self.all = rets
        self.count = 0

    def step(self, a):
        x = self.all[self.count % len(self.all)]
        self.count += 1
        self.used.append(x)
        return np.zeros(1), x, True, {}


class Mute(loops.Script):
    def log(self, **e):
        pass


def training(job):
    c = job['c']
    s = Mute(dict(c={}))
    with tempfile.TemporaryDirectory() as d:
        ev_env = Answers(job['rets'])
        f = Follow(d, ev_env, c['n'])
        agent = TAgent(f, c['off'], job['nenv'])
        kw = dict(steps=job['steps'], eval_n_steps=None,
                  eval_n_episodes=c['n'], eval_interval=c['int'], outdir=d,
                  step_offset=c['off'], eval_env=ev_env,
                  successful_score=c['succ'][0] if c['succ'] else None,
                  save_best_so_far_agent=c['save'])
        maxlen = job['maxlen'] or None
        if job['nenv'] == 0:
            env = loops.Env(s, job['script'])
            experiments.train_agent_with_evaluation(
                agent, env, train_max_episode_len=maxlen, **kw)
        else:
            env = loops.VEnv(s, job['script'], job['nenv'])
            experiments.train_agent_batch_with_evaluation(
                agent, env, max_episode_len=maxlen, **kw)
        f.flush()
        assert f.t is not None, 'no final agent'
        f.evs.append(dict(op='stop', t=f.t))
    return dict(cfg=dict(c, steps=job['steps'], episodes=True), ev=f.evs)
