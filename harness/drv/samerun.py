"""Driver: one run of a program after seeding."""
import os
import random
import tempfile

import chainer
import gym
import numpy as np

import chainerrl
from chainerrl import envs
from chainerrl import experiments
from chainerrl import explorers
from chainerrl import initializers
from chainerrl.envs.abc import ABC
from chainerrl import links
from chainerrl import misc
from chainerrl import replay_buffers as rbs
from chainerrl import wrappers
from chainerrl.action_value import DiscreteActionValue
from chainerrl.distribution import SoftmaxDistribution
from chainerrl.distribution import GaussianDistribution
from chainerrl.distribution import MellowmaxDistribution
from chainerrl.misc import async_
from chainerrl.misc import prioritized
from chainerrl.misc.init_like_torch import init_like_torch
from chainerrl.misc.random import sample_n_k

from harness.drv import zoo


class Env(chainerrl.env.Env):
    """Deterministic; remembers the actions."""

    observation_space = gym.spaces.Box(-1, 1, (zoo.D,), np.float32)

    def __init__(self, disc, k=0):
        self.disc, self.t, self.k, self.log = disc, k, 0, []
        self.action_space = (
            gym.spaces.Discrete(zoo.A) if disc
            else gym.spaces.Box(-1, 1, (zoo.A,), np.float32))

    def obs(self):
        return zoo.OBS[(self.t * 7 + self.k) % 16]

    def reset(self):
        self.k = 0
        return self.obs()

    def step(self, a):
        self.log += zoo.sc(a)
        self.t += 1
        self.k += 1
        r = (float(a) if self.disc else (self.t % 5)) / 4
        return self.obs(), r, self.t % 6 == 5, {'needs_reset': self.k == 5}

    def close(self):
        pass


def nums(x):
    return zoo.digest([np.asarray(x, dtype=np.float64)])


def flat(agent, buf):
    out = []
    for k, v in sorted(zoo.view(agent, buf).items()):
        out += v[1:]
    for n, v in agent.get_statistics():
        v = np.clip(np.nan_to_num(float(v), nan=-7), -1e4, 1e4)
        out.append(int(round(float(v) * 4096)))
    return out


def agent_run(job, out):
    kind, p = job['kind'], dict(job['p'])
    agent, buf, ex = zoo.make(kind, p)
    disc = zoo.discrete(kind)
    out.append(flat(agent, buf))
    d = tempfile.mkdtemp()
    logs = []

    def hook(env, agent, step):
        acts = []
        for e in logs:
            acts += e.log
            e.log = []
        out.append(acts)
        if step % 6 == 0:
            out.append(flat(agent, buf))

    if job['batch']:
        logs = [Env(disc, k) for k in range(p['n_envs'])]
        venv = envs.SerialVectorEnv(logs)
        experiments.train_agent_batch(
            agent, venv, steps=job['len'], outdir=d, step_hooks=[hook],
            max_episode_len=4)
    else:
        logs = [Env(disc)]
        experiments.train_agent(agent, logs[0], steps=job['len'], outdir=d,
                                step_hooks=[hook], max_episode_len=4)
    out.append(flat(agent, buf))
    if job['batch']:
        for k in range(3):
            out.append(zoo.sc(agent.batch_act(
                [zoo.OBS[k + j] for j in range(p['n_envs'])])))
            agent.batch_observe([zoo.OBS[0]] * p['n_envs'], [0.] * p['n_envs'],
                                [False] * p['n_envs'], [k == 2] * p['n_envs'])
    else:
        for k in range(3):
            out.append(zoo.sc(agent.act(zoo.OBS[k])))
        agent.stop_episode()


def draws(job, out):
    """What else draws random numbers."""
    n = job['len']
    av = DiscreteActionValue(chainer.Variable(
        np.linspace(0, 1, 4, dtype=np.float32)[None]))
    rnd = chainerrl.explorers.ConstantEpsilonGreedy(
        .5, lambda: np.random.randint(4))
    exs = [rnd, explorers.LinearDecayEpsilonGreedy(
        1, 0, n, lambda: random.randrange(4)),
        explorers.Boltzmann(T=.3), explorers.AdditiveGaussian(.3),
        explorers.AdditiveOU(), explorers.AdditiveOU(
            start_with_mu=True, mu=.2, theta=.3, sigma=.1)]
    for ex in exs:
        cont = isinstance(ex, (explorers.AdditiveGaussian,
                               explorers.AdditiveOU))
        greedy = ((lambda: np.zeros(3, np.float32)) if cont else (lambda: 3))
        out.append([v for t in range(n) for v in zoo.sc(
            ex.select_action(t, greedy, action_value=av))])
    for k, m in ((3, 3), (10, 3), (40, 2), (50, 30), (1000, 5)):
        out.append(zoo.sc(list(sample_n_k(k, m))))
    for buf in (rbs.ReplayBuffer(40), rbs.ReplayBuffer(40, num_steps=3),
                rbs.PrioritizedReplayBuffer(40),
                rbs.EpisodicReplayBuffer(60),
                rbs.PrioritizedEpisodicReplayBuffer(
                    60, uniform_ratio=.3, wait_priority_after_sampling=False,
                    default_priority_func=lambda e: 1. + len(e)),
                rbs.PrioritizedEpisodicReplayBuffer(
                    60, wait_priority_after_sampling=False,
                    default_priority_func=lambda e: 1. + len(e))):
        for t in range(30):
            buf.append(t, 0, float(t), next_state=t + 1, next_action=0,
                       is_state_terminal=t % 5 == 4)
            if t % 5 == 4:
                buf.stop_current_episode()
        for _ in range(4):
            if hasattr(buf, 'sample_episodes'):
                x = buf.sample_episodes(3, 3)
                if isinstance(x, tuple):
                    x = x[0]
            else:
                x = buf.sample(6)
            if isinstance(buf, rbs.PrioritizedReplayBuffer):
                buf.update_errors([.1 * k for k in range(6)])
            out.append(zoo.sc([t['state'] for e in x for t in e]))
    pb = prioritized.PrioritizedBuffer()
    for k in range(20):
        pb.append(k, priority=1. + k % 4)
    for _ in range(3):
        items, _p, _m = pb.sample(5, uniform_ratio=.4)
        out.append(zoo.sc(items))
        pb.set_last_priority([1.] * 5)
    for init in (initializers.Orthogonal(), initializers.LeCunNormal()):
        w = np.zeros((3, 4), np.float32)
        init(w)
        out.append(nums(w)[1:])
    lin = chainer.Sequential(chainer.links.Linear(3, 2))
    init_like_torch(lin)
    out.append(nums(lin[0].W.array)[1:])
    nz = links.FactorizedNoisyLinear(lin[0])
    x = np.ones((2, 3), np.float32)
    for _ in range(3):
        out.append(nums(nz(x).array)[1:])
    mlp = links.MLPBN(3, 2, (4,))
    out.append(nums(mlp(x).array)[1:])
    for ds in (SoftmaxDistribution(x), MellowmaxDistribution(x),
               GaussianDistribution(x, x)):
        out.append([v for _ in range(10) for v in zoo.sc(ds.sample().array)])
    for kw in (dict(partially_observable=True), dict(discrete=False)):
        env = ABC(size=3, episodic=False, **kw)
        log = []
        for t in range(6):
            o = env.reset()
            log += zoo.sc(o)
            for k in range(3):
                a = np.array([.5, .1, -.2]) if 'discrete' in kw else k
                o = env.step(a)[0]
                log += zoo.sc(o)
        out.append(log)


def workers(job, out):
    """Processes of run_async: their random numbers."""
    n = 2 + job['len'] % 3
    pipes = [async_.mp.Pipe() for _ in range(n)] if hasattr(
        async_.mp, 'Pipe') else None

    def f(k):
        pipes[k][1].send([int(np.random.randint(2 ** 30)),
                          random.randrange(2 ** 30)])

    async_.run_async(n, f)
    for k in range(n):
        assert pipes[k][0].poll(10)
        out.append(pipes[k][0].recv())


class Drawer(chainerrl.agent.AsyncAgent):
    shared_attributes = ()
    process_idx = None

    def __init__(self, pipes):
        self.pipes, self.got, self.sent = pipes, [], False

    def act_and_train(self, obs, reward):
        if len(self.got) < 3:
            self.got.append(int(np.random.randint(2 ** 30)))
            self.got.append(random.randrange(2 ** 30))
        elif not self.sent:
            self.sent = True
            self.pipes[self.process_idx][1].send(self.got)
        return 0

    def stop_episode_and_train(self, state, reward, done=False):
        pass

    def act(self, obs):
        return 0

    def stop_episode(self):
        pass

    def save(self, d):
        pass

    def load(self, d):
        pass

    def get_statistics(self):
        return []


def async_workers(job, out):
    """Workers of train_agent_async."""
    n = 2 + job['len'] % 2
    pipes = [async_.mp.Pipe() for _ in range(n)]
    d = tempfile.mkdtemp()

    def hook(env, agent, step):
        # all workers have their turn
        import time
        time.sleep(.002)

    experiments.train_agent_async(
        d, n, lambda k, test: Env(True, k), steps=200,
        agent=Drawer(pipes), eval_interval=None, eval_n_steps=None,
        eval_n_episodes=1, global_step_hooks=[hook])
    for k in range(n):
        assert pipes[k][0].poll(1), 'a worker did not run'
        out.append(pipes[k][0].recv())


def async_one(job, out):
    """An agent trained by train_agent_async with a single worker."""
    p = dict(job['p'])
    agent, buf, _ = zoo.make(job['kind'], p)
    pipe = async_.mp.Pipe()

    def hook(env, agent, step):
        if step % 4 == 0:
            pipe[1].send([env.log, flat(agent, None)])

    experiments.train_agent_async(
        tempfile.mkdtemp(), 1, lambda k, test: Env(True), steps=job['len'],
        agent=agent, eval_interval=None, eval_n_steps=None,
        eval_n_episodes=1, max_episode_len=4, global_step_hooks=[hook])
    while pipe[0].poll(.05):
        out += pipe[0].recv()


class Actions(gym.Env):
    """Shows the actions it gets and the seeds, and draws from its own."""

    observation_space = gym.spaces.Box(-1, 1, (1,), np.float32)

    def __init__(self, n=5):
        self.action_space = gym.spaces.Discrete(n)
        self.rng = np.random.RandomState()
        self.log = []

    def seed(self, seed=None):
        self.rng = np.random.RandomState(seed)
        return [seed]

    def reset(self):
        return np.array([self.rng.rand()], np.float32)

    def step(self, a):
        self.log += zoo.sc([a, self.rng.randint(1000)])
        return np.array([self.rng.rand()], np.float32), 0., False, {}


def randact(job, out):
    base = Actions(job['p']['n_envs'] + 2)
    env = wrappers.RandomizeAction(base, job['p']['frac'])
    if job['p']['gae']:
        # used before, and seeded again
        env.reset()
        for k in range(5):
            env.step(k % 2)
        base.log = []
    env.seed(job['seed'] + job['p']['bs'])
    out.append(zoo.sc(env.reset()))
    for k in range(job['len']):
        out.append(zoo.sc(env.step(k % 3)[0]))
    out.append(base.log)


class Obs(Actions):
    def step(self, a):
        o, r, d, i = super().step(a)
        return o * (1 + a), r, d, i


def vecenv(job, out):
    """out: one run for every env."""
    p = job['p']
    n = p['n_envs'] + 1
    seeds = [job['seed'] * 10 + (k % 2 if p['det'] else k) for k in range(n)]
    if p['avg']:
        env = envs.SerialVectorEnv([Obs() for _ in range(n)])
    else:
        env = envs.MultiprocessVectorEnv([Obs for _ in range(n)])
    rows = [[] for _ in range(n)]

    def note(obs):
        for r, o in zip(rows, obs):
            r.append(zoo.sc(o))
    try:
        if p['gae']:
            env.reset()
            env.step([1] * n)
        env.seed(seeds)
        note(env.reset())
        for t in range(min(job['len'], 20)):
            note(env.step([t % 4] * n)[0])
            if t % 5 == 4:
                note(env.reset([True] * n))
    finally:
        env.close()
    out.append(list(zip(seeds, rows)))


PROGS = dict(agent=agent_run, draws=draws, workers=workers,
             async_workers=async_workers, async_one=async_one,
             randact=randact, vecenv=vecenv)


def run(job):
    # whatever the process did before
    np.random.seed(job['junk'])
    random.seed(job['junk'] + 1)
    for _ in range(job['noise']):
        np.random.normal()
        random.random()
    out = []
    try:
        if job['prog'] not in ('randact', 'vecenv'):
            misc.set_random_seed(job['seed'])
        PROGS[job['prog']](job, out)
        exc = ''
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'):
            raise
        exc = repr(ex)
    if job['prog'] == 'vecenv' and not exc:
        return [dict(seed=s, ds=r, exc='') for s, r in out[0]]
    return [dict(seed=job['seed'], ds=out, exc=exc)]
