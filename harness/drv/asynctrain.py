"""Asynchronous training under a controlled schedule: every call a worker
makes to its env, agent or hooks blocks until the controller lets it go on."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import sys
import tempfile
import time
import warnings

import numpy as np

from chainerrl import experiments
from harness.drv.loops import rint


class Chan(object):
    """Worker side of the line to the controller."""
    w = None        # worker number (1..n), per process
    conns = None
    log = None

    @classmethod
    def call(cls, **e):
        if cls.w is None:
            return
        e['w'] = cls.w
        if cls.log is not None:       # free running
            cls.log.write(json.dumps(e) + '\n')
            cls.log.flush()
            return
        c = cls.conns[cls.w - 1]
        c.send(e)
        c.recv()


class AEnv(object):
    def __init__(self, w, ans, test):
        self.w, self.ans, self.test = w, ans, test
        self.pos, self.o = 0, 0

    def obs(self):
        self.o += 1
        return np.array([1000 * self.w + self.o], dtype=np.float64)

    def reset(self):
        o = self.obs()
        if self.test:
            Chan.call(op='ereset')
        else:
            Chan.call(op='reset', obs=int(o[0]))
        return o

    def step(self, a):
        o = self.obs()
        p, self.pos = self.pos, self.pos + 1
        if self.test:
            sc = self.ans[p] if p < len(self.ans) else 0
            Chan.call(op='estep', score=sc)
            return o, float(sc), True, {}
        x = self.ans[p] if p < len(self.ans) else dict(done=False, nr=False)
        r = 3 * p + self.w
        Chan.call(op='step', a=int(a), obs=int(o[0]), r=r, done=x['done'],
                  nr=x['nr'])
        return o, [r, float(r)][p % 2], x['done'], \
            {'needs_reset': True} if x['nr'] else {}

    def close(self):
        Chan.call(op='close', src='evalenv' if self.test else 'env')


class AAgent(object):
    shared_attributes = ()

    def __init__(self):
        self.a, self.process_idx = 0, None

    def mine(self):
        return self.process_idx == Chan.w - 1

    def act_and_train(self, obs, r):
        self.a += 1
        Chan.call(op='act' if self.mine() else 'foreign', obs=int(obs[0]),
                  r=rint(r), a=self.a)
        return self.a

    def act(self, obs):
        return 0

    def stop_episode_and_train(self, obs, r, done=False):
        Chan.call(op='stop' if self.mine() else 'foreign', obs=int(obs[0]),
                  r=rint(r), done=bool(done))

    def stop_episode(self):
        pass

    def get_statistics(self):
        return [('stat', 1)]

    def save(self, dirname):
        b = os.path.basename(dirname)
        m = re.match(r'^(\d+)_finish$', b)
        if m:
            Chan.call(op='finish', t=int(m.group(1)))
        elif b in ('successful', 'best'):
            Chan.call(op=b)
        else:
            Chan.call(op='save ' + b)


def run_training(job, d, out):
    """In a process of its own."""
    c = job['c']
    envs, agents = {}, {}

    def make_env(idx, test):
        # the first thing a worker does
        Chan.w = idx + 1
        if job.get('free') and Chan.log is None:
            Chan.log = open(os.path.join(d, 'log%d' % Chan.w), 'w')
        a = job['ans'][idx]
        e = AEnv(Chan.w, a['ev'] if test else a['env'], test)
        envs[test] = e
        return e

    def make_agent(idx):
        agents[idx] = AAgent()
        return agents[idx]

    def mk(j):
        def hook(env, agent, t):
            Chan.call(op='hook', j=j, t=int(t),
                      same=env is envs[False] and (
                          agent is agents.get(Chan.w - 1) or job['agent'])
                      and agent.process_idx == Chan.w - 1)
        return hook
    kw = dict(agent=AAgent()) if job['agent'] else dict(make_agent=make_agent)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        experiments.train_agent_async(
            d, c['n'], make_env, steps=c['steps'],
            eval_interval=c['int'] if c['ev'] else None,
            eval_n_episodes=1, max_episode_len=c['maxlen'] or None,
            successful_score=None if c['succ'] < 0 else c['succ'],
            global_step_hooks=[mk(j + 1) for j in range(c['hooks'])], **kw)
    bad = [str(w.message) for w in ws
           if 'exited with nonzero' in str(w.message) or
           'terminated by signal' in str(w.message)]
    with open(out, 'w') as f:
        json.dump(bad, f)


def cfg(c):
    return dict(n=c['n'], steps=c['steps'], maxlen=c['maxlen'],
                hooks=c['hooks'], ev=c['ev'], succ=c['succ'])


def controlled(job):
    c = job['c']
    n = c['n']
    ev = []
    mp.set_start_method('fork', force=True)
    with tempfile.TemporaryDirectory() as d:
        pairs = [mp.Pipe() for _ in range(n)]
        Chan.conns = [p[1] for p in pairs]
        out = os.path.join(d, 'result.json')
        proc = mp.Process(target=run_training, args=(job, d, out))
        proc.start()
        for p in pairs:
            p[1].close()
        mine = [p[0] for p in pairs]
        pend = [False] * n         # waiting to be let go
        alive = [True] * n
        sched = list(job['sched'])
        deadline = time.time() + 60

        def poll(timeout):
            ready = mp.connection.wait(
                [mine[i] for i in range(n) if alive[i]], timeout)
            for i in range(n):
                if mine[i] in ready:
                    try:
                        ev.append(mine[i].recv())
                        pend[i] = True
                    except (EOFError, OSError):
                        alive[i] = False
            return bool(ready)

        def settle(need, patience):
            """Wait until all running workers block in a call or finish."""
            t = time.time() + patience
            while any(alive[i] and not pend[i] for i in need):
                left = t - time.time()
                if left <= 0:
                    return
                poll(left)
        settle(range(n), 10)
        k = rr = 0
        while any(alive):
            if time.time() > deadline:
                proc.kill()
                raise AssertionError('training did not stop')
            cand = [i for i in range(n) if alive[i] and pend[i]]
            if not cand:
                poll(0.5)
                continue
            while k < len(sched) and sched[k] - 1 not in cand:
                k += 1
            if k < len(sched):
                i = sched[k] - 1
                k += 1
            else:
                rr += 1
                i = cand[rr % len(cand)]
            pend[i] = False
            mine[i].send(1)
            # a worker may be held up by a lock another worker holds
            settle([i], 0.25 if any(alive[j] for j in range(n) if j != i)
                   else 10)
        proc.join(10)
        ok = not proc.is_alive() and proc.exitcode == 0 and \
            os.path.exists(out) and json.load(open(out)) == []
        if proc.is_alive():
            proc.kill()
        for m in mine:
            m.close()
    ev.append(dict(op='end', ok=ok))
    return dict(cfg=cfg(c), ev=ev)


def free(job):
    """Workers run freely, with pauses at the accesses to shared values."""
    from multiprocessing import sharedctypes
    c = job['c']
    mp.set_start_method('fork', force=True)
    orig = sharedctypes.Synchronized.value
    rng = random.Random()

    def pause():
        if Chan.w is not None and rng.random() < job['p']:
            time.sleep(rng.random() * job['pause'])

    def get(self):
        v = orig.fget(self)
        pause()
        return v

    def set_(self, v):
        pause()
        orig.fset(self, v)
    sharedctypes.Synchronized.value = property(get, set_)
    try:
        with tempfile.TemporaryDirectory() as d:
            out = os.path.join(d, 'result.json')
            proc = mp.Process(target=run_training,
                              args=(dict(job, free=True), d, out))
            proc.start()
            proc.join(120)
            ok = not proc.is_alive() and proc.exitcode == 0 and \
                os.path.exists(out) and json.load(open(out)) == []
            if proc.is_alive():
                proc.kill()
            logs = []
            for w in range(c['n']):
                with open(os.path.join(d, 'log%d' % (w + 1))) as f:
                    logs.append([json.loads(x) for x in f])
    finally:
        sharedctypes.Synchronized.value = orig
    ts = [[e['t'] for e in log if e['op'] == 'hook' and e['j'] == 1]
          for log in logs]
    saves = [sorted([e['t'] for e in log if e['op'] == 'finish'])
             for log in logs]
    return dict(cfg=cfg(c), ev=[dict(
        op='summary', ts=ts, hooks=sum(e['op'] == 'hook' for log in logs
                                       for e in log),
        steps=[sum(e['op'] == 'step' for e in log) for log in logs],
        finish=saves, ok=ok,
        succ=[sum(e['op'] == 'successful' for e in log) for log in logs],
        won=any(e['op'] == 'estep' and e['score'] >= c['succ'] >= 0
                for log in logs for e in log))])
