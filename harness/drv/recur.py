"""Driver: recurrent agents whose recurrent layers count exactly.

The recurrent layers below are the library's own kinds (NStepRNN, GRU, LSTM,
and the stateful LSTM) whose arithmetic is replaced by whole numbers: the
state is a code of all observations since it was the initial state.
"""
import os

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from chainerrl import agents
from chainerrl import distribution
from chainerrl import explorers
from chainerrl import links
from chainerrl import recurrent
from chainerrl import replay_buffers as rbs
from chainerrl.action_value import DiscreteActionValue
from chainerrl.action_value import DistributionalDiscreteActionValue
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents import iqn
from chainerrl.agents.ddpg import DDPGModel

from harness.drv import zoo

A = 37
M, N = 251, 241
CALLS = []
ON = [False]


def note(branch, layer, h, ids):
    if ON[0]:
        CALLS.append(dict(br=branch, l=layer, h=h, ids=ids))


class Count(object):
    """Counting instead of the arithmetic of an NStepRNN."""

    n_layers = 1
    out_size = 1

    def start(self, branch, layer):
        chainer.ChainList.__init__(self)
        self.branch, self.layer = branch, layer

    def go(self, h, xs):
        """h: B x k list of numbers; returns new h and outputs."""
        ys, new = [], []
        for s, x in zip(h, xs):
            x = x.array if isinstance(x, chainer.Variable) else x
            note(self.branch, self.layer, [int(v) for v in s],
                 [int(v) for v in x[:, 0]])
            out = []
            for v in x[:, 1]:
                s = self.step(s, int(v))
                out.append(sum(s) % M)
            new.append(s)
            ys.append(np.stack([x[:, 0], np.array(out, np.float32)], axis=1))
        return new, [chainer.Variable(y.astype(np.float32)) for y in ys]

    def step(self, s, v):
        if len(s) == 1:
            return [(5 * s[0] + v + 1) % M]
        return [(5 * s[0] + v + 1) % M, (7 * s[1] + v + 2) % N]


def cells(s, xs):
    if s is None:
        return [0] * len(xs)
    assert s.shape == (1, len(xs), 1), 'shape of a recurrent state'
    s = s.array if isinstance(s, chainer.Variable) else s
    return [int(round(float(v))) for v in s[0, :, 0]]


def pack(vals):
    return chainer.Variable(np.array(vals, np.float32)[None, :, None])


def simple(base):
    class CountRNN(Count, base):
        def __init__(self, branch, layer):
            self.start(branch, layer)

        def __call__(self, h, xs):
            new, ys = self.go([[v] for v in cells(h, xs)], xs)
            return pack([s[0] for s in new]), ys

        forward = __call__
    return CountRNN


class CountLSTM(Count, L.NStepLSTM):
    def __init__(self, branch, layer):
        self.start(branch, layer)

    def __call__(self, h, c, xs):
        new, ys = self.go(
            [list(p) for p in zip(cells(h, xs), cells(c, xs))], xs)
        return pack([s[0] for s in new]), pack([s[1] for s in new]), ys

    forward = __call__


KINDS = dict(gru=simple(L.NStepGRU), relu=simple(L.NStepRNNReLU),
             tanh=simple(L.NStepRNNTanh), lstm=CountLSTM)


class CountState(L.LSTM):
    """The same with the stateful LSTM."""

    def __init__(self, layer=0):
        super().__init__(1, 1)
        self.layer = layer

    def __call__(self, x):
        x = x.array if isinstance(x, chainer.Variable) else x
        b = len(x)
        h, c = (np.zeros((b, 1)) if s is None else s.array
                for s in (self.h, self.c))
        # sequences that have ended keep their states, as in L.LSTM
        h_rest, c_rest = h[b:], c[b:]
        h = (5 * h[:b] + x[:, 1:2] + 1) % M
        c = (7 * c[:b] + x[:, 1:2] + 2) % N
        y = (h + c) % M
        h, c = np.concatenate([h, h_rest]), np.concatenate([c, c_rest])
        self.set_state(chainer.Variable(c.astype(np.float32)),
                       chainer.Variable(h.astype(np.float32)))
        return chainer.Variable(np.concatenate(
            [x[:, :1], y], axis=1).astype(np.float32))

    forward = __call__


def same(h):
    return h


def layers(kinds, branch):
    """Counting layers, some inside containers, with other layers between."""
    ls = []
    for k, n in enumerate(kinds):
        x = KINDS[n.split('-')[0]](branch, k)
        if n.endswith('-in'):
            x = links.StatelessRecurrentSequential(x, same)
        ls += [x, same]
    return ls if branch or len(kinds) > 1 else ls[:1]


def onehot(x):
    x = x.array if isinstance(x, chainer.Variable) else x
    return np.eye(A, dtype=np.float32)[
        np.round(x[:, 1]).astype(np.int64) % A]


class Q(chainer.Chain):
    """Values that are highest for the code of the history."""

    def __init__(self, dist=False):
        super().__init__()
        with self.init_scope():
            self.b = chainer.Parameter(np.zeros(A, np.float32))
        self.dist = dist

    def __call__(self, x):
        h = onehot(x)
        if self.dist:
            z = np.array([-1., 0., 1.], np.float32)
            w = h[:, :, None] * np.array([-9., 0., 9.], np.float32)
            return DistributionalDiscreteActionValue(F.softmax(
                w + F.broadcast_to(self.b[None, :, None], w.shape) * 1e-3,
                axis=2), z)
        return DiscreteActionValue(
            h + F.broadcast_to(self.b, h.shape) * 1e-3)


class Plus(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.b = chainer.Parameter(np.zeros(A, np.float32))

    def __call__(self, h):
        return h + F.broadcast_to(self.b, h.shape) * 1e-3


class Ones(chainer.Chain):
    def __call__(self, t):
        return chainer.Variable(np.ones(t.shape + (A,), np.float32))


class Mean(chainer.Chain):
    """A mean (and a tiny variance) at the code of the history."""

    def __init__(self, kind):
        super().__init__()
        with self.init_scope():
            self.b = chainer.Parameter(np.zeros(1, np.float32))
            self.v = chainer.Parameter(np.zeros(1, np.float32))
        self.kind = kind

    def __call__(self, x):
        x = x.array if isinstance(x, chainer.Variable) else x
        x = np.ascontiguousarray(x[:, 1:2])
        m = x + F.broadcast_to(self.b, x.shape) * 1e-3
        if self.kind == 'value':
            return m * 1e-3
        if self.kind == 'det':
            return distribution.ContinuousDeterministicDistribution(m)
        return distribution.GaussianDistribution(
            m, 1e-4 * F.broadcast_to(F.exp(self.v * 1e-3), x.shape))


class Pi(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.b = chainer.Parameter(np.zeros(A, np.float32))

    def __call__(self, x):
        h = onehot(x)
        return distribution.SoftmaxDistribution(
            60. * h + F.broadcast_to(self.b, h.shape) * 1e-3)


class PV(chainer.Chain, a3c.A3CModel, recurrent.RecurrentChainMixin):
    def __init__(self, n):
        super().__init__()
        with self.init_scope():
            self.r = chainer.ChainList(*[CountState() for _ in range(n)])
            self.pi, self.v = Pi(), Mean('value')

    def pi_and_v(self, x):
        for r in self.r:
            x = r(x)
        return self.pi(x), self.v(x)


def opt(link):
    o = chainer.optimizers.SGD(1e-4)
    o.setup(link)
    return o


class SAQ(chainer.Chain, recurrent.RecurrentChainMixin):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.r = CountState()
            self.l = L.Linear(3, 1)

    def __call__(self, x, a):
        h = self.r(x)
        return self.l(F.concat([h * 1e-3, a * 1e-3], axis=1))


def make(kind, p):
    st = p['stack']
    com = dict(gamma=.9)
    if kind in zoo.DQNS or kind == 'ddpg':
        com.update(
            replay_buffer=rbs.EpisodicReplayBuffer(60), replay_start_size=5,
            minibatch_size=p['B'], update_interval=p['ui'],
            target_update_interval=5, episodic_update_len=p['len'])
    if kind in zoo.DQNS:
        if kind in ('iqn', 'diqn'):
            q = iqn.StatelessRecurrentImplicitQuantileQFunction(
                psi=links.StatelessRecurrentSequential(
                    *layers(st, 0), onehot_v),
                phi=Ones(),
                f=Plus())
        else:
            q = links.StatelessRecurrentSequential(
                *layers(st, 0), Q(kind in ('cat', 'catd')))
        cls = dict(
            dqn=agents.DQN, double=agents.DoubleDQN, sarsa=agents.SARSA,
            al=agents.AL, pal=agents.PAL, dpal=agents.DoublePAL,
            dpp=agents.DPP, dppl=agents.dpp.DPPL,
            dppg=agents.dpp.DPPGreedy, residual=agents.ResidualDQN,
            cat=agents.CategoricalDQN, catd=agents.CategoricalDoubleDQN,
            iqn=agents.IQN, diqn=agents.DoubleIQN)[kind]
        return cls(q, opt(q), explorer=explorers.Greedy(), recurrent=True,
                   **com)
    if kind == 'ddpg':
        pi = links.Sequence(*[CountState() for _ in st], Mean('det'))
        q = SAQ()
        return agents.DDPG(
            DDPGModel(q_func=q, policy=pi), opt(pi), opt(q),
            explorer=explorers.Greedy(), episodic_update=True, **com)
    if kind in ('ppo', 'trpo'):
        pi = links.StatelessRecurrentSequential(
            *layers(st, 1), Mean('gauss'))
        vf = links.StatelessRecurrentSequential(
            *layers(p['stack2'], 2), Mean('value'))
        com.update(update_interval=3 + p['ui'], recurrent=True,
                   act_deterministically=p['det'])
        if kind == 'ppo':
            m = links.StatelessRecurrentBranched(pi, vf)
            return agents.PPO(
                m, opt(m), minibatch_size=2 + p['B'], epochs=2,
                standardize_advantages=False,
                max_recurrent_sequence_len=p['len'], **com)
        return agents.TRPO(pi, vf, opt(vf), vf_epochs=2,
                           standardize_advantages=False,
                           vf_batch_size=2 + p['B'],
                           max_recurrent_sequence_len=p['len'], **com)
    com.update(t_max=p['ui'] + 1)
    det = dict(act_deterministically=p['det'])
    n = len(st)
    if kind == 'a3c':
        m = PV(n)
        return agents.A3C(m, opt(m), **dict(com, **det))
    if kind == 'reinforce':
        m = links.Sequence(*[CountState() for _ in st], Pi())
        return agents.REINFORCE(m, opt(m), batchsize=p['B'], **det)
    if kind == 'nsq':
        q = links.Sequence(*[CountState() for _ in st], Q())
        return agents.NSQ(q, opt(q), i_target=5,
                          explorer=explorers.Greedy(), **com)
    if kind == 'pcl':
        m = PV(n)
        return agents.PCL(
            m, opt(m), replay_buffer=rbs.EpisodicReplayBuffer(60), tau=.1,
            rollout_len=2, replay_start_size=5, batchsize=p['B'],
            train_async=p['B'] == 1, **dict(com, **det))
    assert kind == 'acer'
    m = acer.ACERSharedModel(
        shared=links.Sequence(*[CountState() for _ in st]), pi=Pi(), q=Q())
    return agents.ACER(
        m, opt(m), replay_buffer=rbs.EpisodicReplayBuffer(60),
        n_times_replay=2, replay_start_size=5, **dict(com, **det))


def onehot_v(x):
    return chainer.Variable(onehot(x))


def run(job):
    p, batch = job['p'], job['batch']
    zoo.seed(job['seed'])
    agent = make(job['kind'], p)
    cont = job['kind'] in ('ppo', 'trpo', 'ddpg')
    mod = M if cont else A
    n, m = (p['n_envs'], p['n_eval']) if batch else (1, 1)
    nid, eid = [0], [10000]

    def new(c):
        c[0] += 1
        return c[0]

    def ob(k):
        return np.array([k, k], np.float32)

    def ints(a):
        return [int(round(float(x))) for x in np.asarray(a).ravel()]

    cur = [new(nid) for _ in range(n)]
    ecur = [new(eid) for _ in range(m)]
    evs = []
    for q in job['b']:
        op = q['op'].lower()
        e = dict(op='', o=[], a=[], nx=[], end=[], calls=[], exc='')
        del CALLS[:]
        try:
            ON[0] = True
            if batch and op == 't':
                e['op'], e['o'] = 'act', list(cur)
                e['a'] = ints(agent.batch_act_and_train([ob(k) for k in cur]))
                e['calls'] = CALLS[:]
                evs.append(e)
                del CALLS[:]
                nx = [new(nid) for _ in range(n)]
                e = dict(op='obs', o=[], a=[], nx=nx, calls=[], exc='',
                         end=[bool(x or y) for x, y in
                              zip(q['done'][:n], q['reset'][:n])])
                agent.batch_observe_and_train(
                    [ob(k) for k in nx], [x / 2. for x in q['r'][:n]],
                    q['done'][:n], q['reset'][:n])
                cur = [new(nid) if x else k for k, x in zip(nx, e['end'])]
            elif batch:
                ON[0] = False
                e['op'], e['o'] = 'eact', list(ecur)
                e['a'] = ints(agent.batch_act([ob(k) for k in ecur]))
                e['end'] = [bool(x or y) for x, y in
                            zip(q['done'][:m], q['reset'][:m])]
                ecur = [new(eid) for k in ecur]
                agent.batch_observe(
                    [ob(k) for k in ecur], [x / 2. for x in q['r'][:m]],
                    q['done'][:m], q['reset'][:m])
                ecur = [new(eid) if x else k for k, x in zip(ecur, e['end'])]
            elif op == 't':
                e['op'], e['o'] = 'act', list(cur)
                e['a'] = ints(agent.act_and_train(
                    ob(cur[0]), q['r'][0] / 2.))
                # what it observes next, if the episode goes on or not
                cur = e['nx'] = [new(nid)]
                e['end'] = [False]
            elif op in ('d', 'u'):
                e['op'], e['end'] = 'stop', [True]
                agent.stop_episode_and_train(
                    ob(cur[0]), q['r'][0] / 2., op == 'd')
                cur = [new(nid)]
            elif op == 'e':
                ON[0] = False
                e['op'], e['o'], e['end'] = 'eact', list(ecur), [False]
                e['a'] = ints(agent.act(ob(ecur[0])))
                ecur = [new(eid)]
            else:
                ON[0] = False
                e['op'], e['end'] = 'estop', [True]
                agent.stop_episode()
        except Exception as ex:
            if os.environ.get('VERIF_DEBUG'):
                raise
            e['op'], e['exc'] = e['op'] or 'stop', repr(ex)
        finally:
            ON[0] = False
        e['calls'] = CALLS[:]
        evs.append(e)
        if e['exc']:
            break
    st = [k.split('-')[0] for k in p['stack']]
    stateful = job['kind'] in (
        'ddpg', 'a3c', 'nsq', 'acer', 'pcl', 'reinforce')
    if stateful:
        st = ['lstm'] * len(st)
        for e in evs:
            e['calls'] = []
    st2 = [k.split('-')[0] for k in p['stack2']]
    br = [st2] if stateful else []
    # branch 0: the only one; 1: the policy; 2: the value function
    return dict(cfg=dict(
        kind=job['kind'], n=n, m=m, mod=mod, shared=stateful,
        stacks=[[x == 'lstm' for x in s] for s in (st, st, st2)]), ev=evs)
