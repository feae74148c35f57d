"""Every agent of the library, with small real models, by name."""
import copy
import hashlib
import random

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

import chainerrl
from chainerrl import agents
from chainerrl import explorers
from chainerrl import links
from chainerrl import policies
from chainerrl import q_functions
from chainerrl import replay_buffers as rbs
from chainerrl import v_functions
from chainerrl.action_value import DistributionalDiscreteActionValue
from chainerrl.action_value import DiscreteActionValue
from chainerrl.agents import a2c
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents import iqn
from chainerrl.agents.ddpg import DDPGModel
from chainerrl import distribution
from chainerrl.optimizers import rmsprop_async

from harness.kinds import DQNS

D, A = 3, 3      # observation size, number of actions / action size
OBS = np.random.RandomState(0).uniform(-1, 1, (16, D)).astype(np.float32)


class BN(chainer.Chain):
    def __init__(self, n, on):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(D, n)
            if on:
                self.bn = L.BatchNormalization(n)
        self.on = on

    def __call__(self, x):
        h = self.l(x)
        return F.tanh(self.bn(h) if self.on else h)


class PV(chainer.Chain):
    """Policy and value function in one model, as A2C and A3C want it."""

    def __init__(self, bn):
        super().__init__()
        with self.init_scope():
            self.h = BN(5, bn)
            self.pi = policies.FCSoftmaxPolicy(5, A, n_hidden_layers=0)
            self.v = v_functions.FCVFunction(5, n_hidden_layers=0)

    def pi_and_v(self, x):
        h = self.h(x)
        return self.pi(h), self.v(h)


class A2CPV(PV, a2c.A2CModel):
    pass


class A3CPV(PV, a3c.A3CModel):
    pass


class RecPV(chainer.Chain, a3c.A3CModel, chainerrl.recurrent.
            RecurrentChainMixin):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.lstm = L.LSTM(D, 5)
            self.pi = policies.FCSoftmaxPolicy(5, A, n_hidden_layers=0)
            self.v = v_functions.FCVFunction(5, n_hidden_layers=0)

    def pi_and_v(self, x):
        h = self.lstm(x)
        return self.pi(h), self.v(h)


class SoftQ(chainer.Chain):
    """Distributional Q function with batch normalization or without."""

    def __init__(self, bn):
        super().__init__()
        with self.init_scope():
            self.h = BN(5, bn)
            self.o = L.Linear(5, A * 5)

    def __call__(self, x):
        q = F.reshape(self.o(self.h(x)), (len(x), A, 5))
        return DistributionalDiscreteActionValue(
            F.softmax(q, axis=2), np.linspace(-1, 1, 5, dtype=np.float32))


def one_more(bn, *rest):
    return links.Sequence(BN(5, bn), *rest)


class SA(chainer.Chain):
    """Q(s, a)"""

    def __init__(self, bn):
        super().__init__()
        with self.init_scope():
            self.h = BN(5, bn)
            self.o = L.Linear(5 + A, 1)

    def __call__(self, x, a):
        return self.o(F.concat([self.h(x), a], axis=1))


class RecSA(chainer.Chain, chainerrl.recurrent.RecurrentChainMixin):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.lstm = L.LSTM(D + A, 4)
            self.o = L.Linear(4, 1)

    def __call__(self, x, a):
        return self.o(self.lstm(F.concat([x, a], axis=1)))


class Nested(chainerrl.agent.AttributeSavingMixin, chainerrl.agent.Agent):
    """An agent made of agents, some of whose attributes are not there."""

    saved_attributes = ('link', 'none', 'first', 'second', 'opt')

    def __init__(self, depth, ok):
        self.link = BN(2, True)
        self.opt = opt(self.link, ok)
        self.first = Nested(depth - 1, ok) if depth else None
        self.second = Nested(depth - 1, ok) if depth > 1 else None
        self.none = None

    def act_and_train(self, obs, reward):
        a = self.act(obs)
        self.link.cleargrads()
        F.sum((self.link(np.stack([obs, obs * reward])) - reward) ** 2
              ).backward()
        self.opt.update()
        for x in (self.first, self.second):
            if x is not None:
                a = a + x.act_and_train(obs + 1, reward)
        return a

    def act(self, obs):
        with chainer.using_config('train', False), chainer.no_backprop_mode():
            a = self.link(obs[None]).array[0]
        for x in (self.first, self.second):
            if x is not None:
                a = a + x.act(obs)
        return a

    def stop_episode_and_train(self, state, reward, done=False):
        self.act_and_train(state, reward)

    def stop_episode(self):
        pass

    def get_statistics(self):
        return []


class Watched(object):
    """An explorer that notes what it is asked."""

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def __getattr__(self, name):
        return getattr(self.__dict__['inner'], name)

    def select_action(self, t, f, action_value=None):
        self.seen.append(int(t))
        return self.inner.select_action(t, f, action_value)


def opt(link, kind='adam'):
    o = dict(adam=lambda: chainer.optimizers.Adam(1e-2),
             mom=lambda: chainer.optimizers.MomentumSGD(1e-2),
             rms=lambda: rmsprop_async.RMSpropAsync(lr=1e-2),
             sgd=lambda: chainer.optimizers.SGD(1e-2))[kind]()
    o.setup(link)
    return o


def discrete(kind):
    return kind.split('_')[0] not in (
        'ddpg', 'td3', 'sac', 'pgt', 'ppo', 'trpo') and kind != 'acer_sdn'


def make(kind, p):
    """Returns (agent, replay buffer or None, explorer or None)."""
    base, _, var = kind.partition('_')
    bn, rec, prio = var == 'bn', var == 'r', var == 'prio'
    ok = p.get('opt', 'adam')
    n = p.get('n_envs', 1)
    com = dict(gamma=.9)
    buf, ex = None, None
    if base in DQNS or base in ('ddpg', 'td3', 'sac', 'pgt'):
        if rec:
            buf = rbs.EpisodicReplayBuffer(p.get('cap', 60))
        elif prio:
            buf = rbs.PrioritizedReplayBuffer(p.get('cap', 60), betasteps=40)
        else:
            buf = rbs.ReplayBuffer(p.get('cap', 60),
                                   num_steps=p.get('nstep', 1))
        com.update(replay_buffer=buf, replay_start_size=p.get('start', 5),
                   minibatch_size=p.get('B', 2 if rec else 4),
                   update_interval=p.get('ui', 2))
        if rec:
            com.update(episodic_update_len=3)
            if base not in DQNS:
                com.update(episodic_update=True)
    if base in DQNS:
        dist = base in ('cat', 'catd')
        if base in ('iqn', 'diqn'):
            if rec:
                q = iqn.StatelessRecurrentImplicitQuantileQFunction(
                    psi=links.StatelessRecurrentSequential(
                        L.Linear(D, 4), L.NStepGRU(1, 4, 5, 0)),
                    phi=chainer.Sequential(
                        iqn.CosineBasisLinear(4, 5), F.relu),
                    f=L.Linear(5, A))
            else:
                q = iqn.ImplicitQuantileQFunction(
                    psi=one_more(bn), phi=chainer.Sequential(
                        iqn.CosineBasisLinear(4, 5), F.relu),
                    f=L.Linear(5, A))
        elif rec:
            q = links.StatelessRecurrentSequential(
                L.Linear(D, 4), F.tanh, L.NStepLSTM(1, 4, 5, 0),
                L.Linear(5, A), DiscreteActionValue)
        elif dist:
            q = SoftQ(bn)
        else:
            q = links.Sequence(BN(5, bn), L.Linear(5, A),
                               DiscreteActionValue)
        if var == 'noisy':
            q = q_functions.FCStateQFunctionWithDiscreteAction(
                D, A, n_hidden_layers=1, n_hidden_channels=4)
            links.to_factorized_noisy(q)
            ex = Watched(explorers.Greedy())
        elif base in ('dqn', 'double', 'sarsa', 'cat', 'iqn'):
            ex = Watched(explorers.LinearDecayEpsilonGreedy(
                1., .1, 20, lambda: np.random.randint(A)))
        elif base in ('al', 'dpp'):
            ex = Watched(explorers.Boltzmann(T=.5))
        else:
            ex = Watched(explorers.ConstantEpsilonGreedy(
                .5, lambda: np.random.randint(A)))
        cls = {
            'dqn': agents.DQN, 'double': agents.DoubleDQN,
            'sarsa': agents.SARSA, 'al': agents.AL, 'pal': agents.PAL,
            'dpal': agents.DoublePAL, 'dpp': agents.DPP,
            'dppl': agents.dpp.DPPL, 'dppg': agents.dpp.DPPGreedy,
            'residual': agents.ResidualDQN, 'cat': agents.CategoricalDQN,
            'catd': agents.CategoricalDoubleDQN, 'iqn': agents.IQN,
            'diqn': agents.DoubleIQN}[base]
        kw = {}
        if rec:
            kw['recurrent'] = True
        if base == 'residual':
            kw['grad_scale'] = .5
        a = cls(q, opt(q, ok), explorer=ex, n_times_update=p.get('times', 1),
                target_update_interval=p.get('ti', 5),
                target_update_method=p.get('sync', 'hard'),
                soft_update_tau=.25, **dict(com, **kw))
    elif base in ('ddpg', 'pgt'):
        if p.get('ou'):
            ex = Watched(explorers.AdditiveOU(mu=0., sigma=.3))
        else:
            ex = Watched(explorers.AdditiveGaussian(.3, low=-1, high=1))
        if rec:
            q = RecSA()
            pi = links.Sequence(
                L.LSTM(D, 4), L.Linear(4, A), F.tanh,
                distribution.ContinuousDeterministicDistribution)
        else:
            q = SA(bn)
            pi = links.Sequence(
                BN(5, bn), L.Linear(5, A), F.tanh,
                distribution.ContinuousDeterministicDistribution)
        if base == 'pgt':
            pi = links.Sequence(
                *([L.LSTM(D, 5)] if rec else [BN(5, bn)]),
                policies.FCGaussianPolicy(
                    5, A, n_hidden_layers=0, var_type='diagonal',
                    min_var=.01))
        m = DDPGModel(q_func=q, policy=pi)
        cls = agents.DDPG if base == 'ddpg' else agents.PGT
        a = cls(m, opt(pi, ok), opt(q, ok), explorer=ex,
                target_update_interval=p.get('ti', 5),
                target_update_method=p.get('sync', 'hard'),
                soft_update_tau=.25, n_times_update=p.get('times', 1), **com)
    elif base == 'td3':
        ex = Watched(explorers.AdditiveGaussian(.3))
        pi = links.Sequence(
            BN(5, bn), L.Linear(5, A), F.tanh,
            distribution.ContinuousDeterministicDistribution)
        q1, q2 = SA(bn), SA(bn)
        a = agents.TD3(pi, q1, q2, opt(pi, ok), opt(q1, ok), opt(q2, ok),
                       explorer=ex, soft_update_tau=.25,
                       policy_update_delay=2, **com)
    elif base == 'sac':
        pi = links.Sequence(
            BN(5, bn), policies.FCGaussianPolicy(
                5, A, n_hidden_layers=0, var_type='diagonal', min_var=.01))
        q1, q2 = SA(bn), SA(bn)
        kw = {}
        if var == 't':
            kw = dict(entropy_target=-1.,
                      temperature_optimizer=chainer.optimizers.Adam(1e-2))
        a = agents.SoftActorCritic(
            pi, q1, q2, opt(pi, ok), opt(q1, ok), opt(q2, ok),
            soft_update_tau=.25, act_deterministically=p.get('det', True),
            **dict(com, **kw))
    elif base in ('ppo', 'trpo'):
        norm = links.EmpiricalNormalization(D, clip_threshold=5) \
            if p.get('norm', True) else None
        if rec:
            pi = links.StatelessRecurrentSequential(
                L.NStepLSTM(1, D, 4, 0), L.Linear(4, A),
                policies.GaussianHeadWithStateIndependentCovariance(
                    A, var_type='diagonal', var_func=F.softplus))
            vf = links.StatelessRecurrentSequential(
                L.NStepGRU(1, D, 4, 0), L.Linear(4, 1))
        else:
            pi = chainer.Sequential(
                BN(5, bn), L.Linear(5, A),
                policies.GaussianHeadWithStateIndependentCovariance(
                    A, var_type='diagonal', var_func=F.softplus))
            vf = chainer.Sequential(BN(5, bn), L.Linear(5, 1))
        kw = dict(recurrent=True, max_recurrent_sequence_len=3) if rec else {}
        if base == 'ppo':
            m = (links.StatelessRecurrentBranched if rec else
                 links.Branched)(pi, vf)
            a = agents.PPO(
                m, opt(m, ok), obs_normalizer=norm, gamma=.9,
                update_interval=4 + p.get('ui', 3), minibatch_size=4, epochs=2,
                act_deterministically=p.get('det', False), **kw)
        else:
            a = agents.TRPO(
                pi, vf, opt(vf, ok), obs_normalizer=norm, gamma=.9,
                update_interval=4 + p.get('ui', 3), vf_epochs=2, vf_batch_size=4,
                act_deterministically=p.get('det', False), **kw)
    elif base == 'nested':
        a = Nested(2, ok)
    elif base == 'a2c':
        m = A2CPV(bn)
        a = agents.A2C(m, opt(m, ok), gamma=.9, num_processes=n,
                       update_steps=p.get('ui', 3),
                       act_deterministically=p.get('det', False),
                       use_gae=p.get('gae', False))
    elif base == 'a3c':
        m = RecPV() if rec else A3CPV(bn)
        a = agents.A3C(m, opt(m, ok), t_max=p.get('ui', 3), gamma=.9,
                       act_deterministically=p.get('det', False),
                       use_average_reward=p.get('avg', False))
    elif base == 'reinforce':
        m = links.Sequence(
            L.LSTM(D, 5) if rec else BN(5, bn),
            policies.FCSoftmaxPolicy(5, A, n_hidden_layers=0))
        a = agents.REINFORCE(m, opt(m, ok), beta=.01,
                             batchsize=p.get('bs', 2),
                             backward_separately=p.get('sep', False),
                             act_deterministically=p.get('det', False))
    elif base == 'nsq':
        q = links.Sequence(L.LSTM(D, 5) if rec else BN(5, bn),
                           L.Linear(5, A), DiscreteActionValue)
        ex = Watched(explorers.LinearDecayEpsilonGreedy(
            1., .1, 20, lambda: np.random.randint(A)))
        a = agents.NSQ(q, opt(q, ok), t_max=p.get('ui', 3), gamma=.9,
                       i_target=p.get('ti', 5), explorer=ex)
    elif base == 'acer':
        buf = rbs.EpisodicReplayBuffer(p.get('cap', 60))
        if var == 'sdn':
            m = acer.ACERSDNSeparateModel(
                pi=policies.FCGaussianPolicy(
                    D, A, n_hidden_layers=0, var_type='diagonal',
                    min_var=.1),
                v=v_functions.FCVFunction(D, n_hidden_layers=0),
                adv=q_functions.FCSAQFunction(
                    D, A, n_hidden_channels=4, n_hidden_layers=1))
        else:
            m = acer.ACERSharedModel(
                shared=links.Sequence(L.LSTM(D, 5) if rec else BN(5, bn)),
                pi=links.Sequence(
                    L.Linear(5, A), distribution.SoftmaxDistribution),
                q=links.Sequence(L.Linear(5, A), DiscreteActionValue))
        a = agents.ACER(
            m, opt(m, ok), t_max=p.get('ui', 3), gamma=.9, replay_buffer=buf,
            n_times_replay=2, replay_start_size=p.get('start', 5),
            trust_region_alpha=.75,
            act_deterministically=p.get('det', False))
    elif base == 'pcl':
        buf = rbs.EpisodicReplayBuffer(p.get('cap', 60))
        m = RecPV() if rec else A3CPV(bn)
        a = agents.PCL(
            m, opt(m, ok), replay_buffer=buf, t_max=p.get('ui', 3), gamma=.9,
            tau=.1, rollout_len=2, batchsize=p.get('bs', 1), replay_start_size=p.get('start', 5),
            train_async=var == 'async',
            act_deterministically=p.get('det', False))
    else:
        raise KeyError(kind)
    return a, buf, ex


# ---------------------------------------------------------------- views
PROJ = np.random.RandomState(1).choice([-1., 1.], size=(3, 4096))


def digest(arrs):
    """[exact hash, three projections in 1/4096]"""
    h = hashlib.sha1()
    fl = []
    for a in arrs:
        a = np.asarray(a)
        h.update(str((a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
        fl.append(np.asarray(a, dtype=np.float64).ravel())
    v = np.concatenate(fl) if fl else np.zeros(0)
    v = np.clip(np.nan_to_num(v, nan=77.), -1e3, 1e3)
    out = [int(h.hexdigest()[:7], 16)]
    for k in range(3):
        pr = np.resize(PROJ[k], v.size)
        s = float((v * pr).sum())
        out.append(int(round(max(-2e5, min(2e5, s)) * 4096)))
    return out


def link_arrays(link, persistents=True):
    out = []
    for _, p in sorted(link.namedparams()):
        out.append(p.array if p.array is not None else np.zeros(0))
    for ln, l in sorted(link.namedlinks()):
        for n in sorted(l._persistent) if persistents else ():
            out.append(np.asarray(getattr(l, n)))
    return out


def opt_arrays(o):
    out = [np.asarray(o.t), np.asarray(o.epoch)]
    for _, p in sorted(o.target.namedparams()):
        u = p.update_rule
        if u is None:
            continue
        out.append(np.asarray(u.t))
        st = u.state
        if st is None and p.array is not None:
            # the state it starts with
            u = copy.copy(u)
            u._state = {}
            u.init_state(p)
            st = u.state
        for k in sorted(st or {}):
            out.append(np.asarray(st[k]))
    return out


def learned(agent):
    """{attribute name: link or optimizer} of everything the agent holds."""
    d = {}
    for k in sorted(vars(agent)):
        v = getattr(agent, k)
        if isinstance(v, (chainer.Link, chainer.Optimizer)):
            d[k] = v
        elif isinstance(v, chainerrl.agent.AttributeSavingMixin):
            for m, x in learned(v).items():
                d[k + '.' + m] = x
    return d


def unused_optimizers(agent):
    return [k for k, v in sorted(learned(agent).items())
            if isinstance(v, chainer.Optimizer) and any(
                q.update_rule is not None and q.update_rule.state is None
                for q in v.target.params())]


def learned_view(agent):
    d = {}
    for k, v in learned(agent).items():
        # the persistent values of the models that asynchronous workers share
        # are not used: every worker has its own
        d[k] = digest(
            link_arrays(v, k not in ('shared_model', 'shared_q_function'))
            if isinstance(v, chainer.Link) else opt_arrays(v))
    return d


def numbers(x, out):
    if isinstance(x, dict):
        for k in sorted(x):
            numbers(x[k], out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            numbers(y, out)
    elif isinstance(x, chainer.Variable):
        out.append(x.array)
    elif isinstance(x, distribution.Distribution):
        numbers(list(x.params), out)
    elif x is not None:
        out.append(np.asarray(x, dtype=np.float64))


def keeping_rng(f):
    st, pst = np.random.get_state(), random.getstate()
    try:
        return f()
    finally:
        np.random.set_state(st)
        random.setstate(pst)


def buffer_view(buf):
    """Contents of a buffer, whatever the order they are handed out in."""
    def look():
        b = copy.deepcopy(buf)
        n = len(b)
        rows = []
        if not n:
            return [0, 0, 0, 0]
        if hasattr(b, 'sample_episodes'):
            if b.n_episodes:
                for e in b.sample_episodes(b.n_episodes):
                    x = [np.asarray(len(e))]
                    numbers(e, x)
                    rows.append(np.concatenate([y.ravel() for y in x]))
        for w in b.sample(n):
            for t in w:
                t.pop('weight', None)
            x = [np.asarray(len(w))]
            numbers(w, x)
            rows.append(np.concatenate([y.ravel() for y in x]))
        rows.sort(key=lambda r: [round(float(z), 5) for z in r])
        return digest([np.asarray([n])] + rows)
    return keeping_rng(look)


def view(agent, buf):
    d = learned_view(agent)
    if buf is not None:
        d['(buffer)'] = buffer_view(buf)
    d['(config)'] = [int(chainer.config.train),
                     int(chainer.config.enable_backprop), 0, 0]
    return d


def as_list(d):
    return [dict(n=k, d=d[k]) for k in sorted(d)]


def seed(*xs):
    s = int(hashlib.sha1(repr(xs).encode()).hexdigest()[:7], 16)
    np.random.seed(s)
    random.seed(s)


def sc(x):
    """An action, as a list of integers in 1/4096."""
    return [int(round(max(-1e5, min(1e5, float(y))) * 4096))
            for y in np.asarray(x).ravel()]
