"""Driver for replay-based agents: tabular models, recorded samples.

Every call made on the agent becomes one event carrying what went in and out,
the replay buffer's contents, and a log ("micro") of the appends and samples
the agent made, each with a snapshot of every parameter.  Reals are recorded
as integers, scaled by K."""
import copy
import random

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from chainerrl import agents
from chainerrl import distribution
from chainerrl import replay_buffers as rbs
from chainerrl.action_value import DiscreteActionValue
from chainerrl.action_value import DistributionalDiscreteActionValue
from chainerrl.action_value import QuantileDiscreteActionValue
from chainerrl.agents.ddpg import DDPGModel
from chainerrl.explorer import Explorer
from chainerrl import policies

K = 8192
Z = np.array([-2, -1, 0, 1, 2], dtype=np.float32)

DISCRETE = {
    'dqn': agents.DQN, 'double': agents.DoubleDQN, 'sarsa': agents.SARSA,
    'al': agents.AL, 'pal': agents.PAL, 'dpal': agents.DoublePAL,
    'dpp': agents.DPP, 'dppl': agents.dpp.DPPL,
    'dppg': agents.dpp.DPPGreedy, 'residual': agents.ResidualDQN,
    'cat': agents.CategoricalDQN, 'catd': agents.CategoricalDoubleDQN,
    'iqn': agents.IQN, 'diqn': agents.DoubleIQN,
}


def k(x):
    """Scaled integer, saturated."""
    x = float(x)
    if not abs(x) < 24:
        x = -24. if x < 0 else 24.
    return int(round(x * K))


def ks(xs):
    return [k(x) for x in np.asarray(xs).ravel()]


class Side(chainer.Chain):
    """A batch-normalization link run along with a model."""

    def __init__(self, n):
        super().__init__()
        with self.init_scope():
            self.bn = L.BatchNormalization(n)

    def __call__(self, x):
        # an input with batch statistics other than the running ones
        return 0. * F.sum(self.bn(x * 3 + 1), axis=1, keepdims=True)


class Base(chainer.Chain):
    def __init__(self, n, bn):
        super().__init__()
        if bn:
            with self.init_scope():
                self.side = Side(n)
        else:
            self.side = None

    def extra(self, x):
        return 0. if self.side is None else self.side(x)


class TabQ(Base):
    def __init__(self, w, bn=False, dist=False):
        super().__init__(w.shape[0], bn)
        self.dist = dist
        with self.init_scope():
            self.w = chainer.Parameter(w)

    def __call__(self, x):
        n, m = self.w.shape[0], self.w.shape[1]
        q = F.matmul(x, F.reshape(self.w, (n, -1))) + (
            F.broadcast_to(self.extra(x), (len(x), int(np.prod(
                self.w.shape[1:])))) if self.side is not None else 0.)
        if self.dist:
            q = F.reshape(q, (len(x), m, len(Z)))
            return DistributionalDiscreteActionValue(
                F.softmax(q, axis=2), Z)
        return DiscreteActionValue(q)


class TabIQ(TabQ):
    """Quantile function that is the same at every threshold."""

    def __call__(self, x):
        q = F.matmul(x, self.w)
        if self.side is not None:
            q = q + F.broadcast_to(self.extra(x), q.shape)

        def at(taus):
            assert taus.min() >= 0 and taus.max() <= 1
            if chainer.config.enable_backprop and self.seen is not None:
                self.seen(taus)
            return QuantileDiscreteActionValue(F.broadcast_to(
                q[:, None], (len(x), taus.shape[1], q.shape[1])))
        return at

    seen = None


class TabSA(Base):
    """Q(s, a) = w0[s] + w1[s] * a"""

    def __init__(self, w, bn=False):
        super().__init__(w.shape[0], bn)
        with self.init_scope():
            self.w = chainer.Parameter(w)

    def __call__(self, x, a):
        y = F.matmul(x, self.w)
        return y[:, :1] + y[:, 1:2] * a + self.extra(x)


class TabMu(Base, policies.Policy):
    """Deterministic policy mu[s]."""

    def __init__(self, mu, bn=False):
        super().__init__(mu.shape[0], bn)
        with self.init_scope():
            self.mu = chainer.Parameter(mu)

    def __call__(self, x):
        return distribution.ContinuousDeterministicDistribution(
            F.matmul(x, self.mu) + self.extra(x))


class FixedDist(distribution.Distribution):
    """Samples are known; their log-probability is a parameter."""

    def __init__(self, m, lp, off=0.):
        self.m, self.lp, self.off = m, lp, off

    def sample_with_log_prob(self):
        return self.m, self.lp

    def sample(self):
        return self.m

    def log_prob(self, x):
        return self.lp

    def prob(self, x):
        return F.exp(self.lp)

    @property
    def most_probable(self):
        return self.m + self.off

    @property
    def entropy(self):
        return -self.lp

    def copy(self):
        return FixedDist(self.m, self.lp, self.off)

    @property
    def params(self):
        return (self.m, self.lp)

    @property
    def kl(self):
        raise NotImplementedError


class TabFixed(Base, policies.Policy):
    def __init__(self, mu, lp, bn=False, off=0.):
        super().__init__(mu.shape[0], bn)
        self.off = off
        with self.init_scope():
            self.mu = chainer.Parameter(mu)
            self.lp = chainer.Parameter(lp)

    def __call__(self, x):
        return FixedDist(F.matmul(x, self.mu) + self.extra(x),
                         F.matmul(x, self.lp)[:, 0], self.off)


class Exploring(Explorer):
    """Greedy or not, by its own coin; for SARSA always one off greedy."""

    def __init__(self, kind, n, seed):
        self.kind, self.n = kind, n
        self.rs = np.random.RandomState(seed)

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        if self.kind == 'sarsa':
            return (int(g) + 1) % self.n
        if self.kind in DISCRETE:
            return int(g) if self.rs.randint(2) else self.rs.randint(self.n)
        return np.asarray(g + self.rs.choice([-.5, 0, .5], size=(1,)),
                          dtype=np.float32)


def recording(cls):
    class Rec(cls):
        rec = None

        def append(self, *a, **kw):
            if self.rec is not None:
                self.rec('append', [], kw.get('env_id', 0))
            return super().append(*a, **kw)

        def sample(self, *a, **kw):
            r, self_rec = None, self.rec
            self.rec = None
            r = super().sample(*a, **kw)
            self.rec = self_rec
            if self.rec is not None:
                self.rec('sample', r, 0)
            return r

        def update_errors(self, errors):
            if self.rec is not None:
                self.rec('errors', list(errors), 0)
            return super().update_errors(errors)
    return Rec


class Run(object):
    def __init__(self, job):
        self.job = job
        p = self.p = job['p']
        np.random.seed(job['seed'])
        random.seed(job['seed'])
        self.S, self.A, self.n = 4, 3, p.get('n_envs', 1)
        self.rs = np.random.RandomState(job['seed'] + 7)
        self.micro, self.ev, self.tab = [], [], []
        self.build()

    # ----------------------------------------------------------- building
    def rnd(self, *shape):
        return self.rs.uniform(-1, 1, size=shape).astype(np.float32)

    def opt(self, link, lr):
        o = chainer.optimizers.SGD(lr)
        o.setup(link)
        return o

    def build(self):
        p, S, A = self.p, self.S, self.A
        kind, bn = p['kind'], p.get('bn', False)
        cap = None if p['cap'] < 0 else p['cap']
        if p.get('prio'):
            buf = recording(rbs.PrioritizedReplayBuffer)(
                cap, num_steps=p['nstep'], alpha=.6, beta0=.5,
                betasteps=50, normalize_by_max='batch')
        else:
            buf = recording(rbs.ReplayBuffer)(cap, num_steps=p['nstep'])
        self.buf = buf
        lr = p['lr'][0] / p['lr'][1]

        def phi(o):
            x = np.zeros(S, dtype=np.float32)
            x[int(o[1])] = 1
            return x

        def one_by_one(states, xp, phi):
            # what phi does not do is done here
            return xp.asarray([onehot(phi(s)) for s in states])
        onehot, common = phi, {}
        if p.get('cbs'):
            common['batch_states'] = one_by_one

            def phi(o):
                return o
        common.update(
            replay_buffer=buf, gamma=p['g'][0] / p['g'][1],
            replay_start_size=p['start'], minibatch_size=p['B'],
            update_interval=p['ui'], phi=phi)
        tau = p['tau'][0] / p['tau'][1]
        ex = Exploring(kind, A, self.job['seed'])
        burn = None
        if p.get('burn'):
            def burn():
                return self.rs.uniform(
                    -1, 1, size=(1,)).astype(np.float32)
        if kind in DISCRETE:
            dist = kind in ('cat', 'catd')
            q = TabQ(self.rnd(S, A, len(Z)) if dist else self.rnd(S, A),
                     bn, dist)
            kw = {}
            if kind in ('al', 'pal', 'dpal'):
                kw['alpha'] = .75
            if kind in ('dpp', 'dppl'):
                kw['eta'] = 2.
            if kind == 'residual':
                kw['grad_scale'] = .5
            if kind in ('iqn', 'diqn'):
                q = TabIQ(q.w.array, bn)
                kw.update(quantile_thresholds_N=8, quantile_thresholds_K=4,
                          quantile_thresholds_N_prime=16)
                # the loss is summed over the thresholds
                lr = lr / 8
            self.agent = DISCRETE[kind](
                q, self.opt(q, lr), explorer=ex,
                target_update_interval=p['ti'],
                target_update_method=p['sync'], soft_update_tau=tau,
                n_times_update=p['times'], clip_delta=p['clip'],
                batch_accumulator=p['acc'], **dict(common, **kw))
            if kind in ('iqn', 'diqn'):
                q.seen = self.tau
            self.links = [('q', q)]
            self.tlinks = [] if kind == 'residual' else [
                ('q', self.agent.target_model)]
        elif kind == 'ddpg':
            q, mu = TabSA(self.rnd(S, 2), bn), TabMu(self.rnd(S, 1), bn)
            m = DDPGModel(q_func=q, policy=mu)
            self.agent = agents.DDPG(
                m, self.opt(mu, lr), self.opt(q, lr), explorer=ex,
                target_update_interval=p['ti'],
                target_update_method=p['sync'], soft_update_tau=tau,
                n_times_update=p['times'], burnin_action_func=burn,
                **common)
            self.links = [('q1', q), ('pi', mu)]
            t = self.agent.target_model
            self.tlinks = [('q1', t['q_function']), ('pi', t['policy'])]
        elif kind == 'pgt':
            q = TabSA(self.rnd(S, 2), bn)
            pi = TabFixed(self.rnd(S, 1), self.rnd(S, 1), bn, .5)
            m = DDPGModel(q_func=q, policy=pi)
            self.agent = agents.PGT(
                m, self.opt(pi, lr), self.opt(q, lr), explorer=ex,
                target_update_interval=p['ti'], beta=.25,
                target_update_method=p['sync'], soft_update_tau=tau,
                n_times_update=p['times'], **common)
            self.links = [('q1', q), ('pi', pi)]
            t = self.agent.target_model
            self.tlinks = [('q1', t['q_function']), ('pi', t['policy'])]
        elif kind == 'td3':
            q1, q2 = TabSA(self.rnd(S, 2), bn), TabSA(self.rnd(S, 2), bn)
            mu = TabMu(self.rnd(S, 1), bn)
            self.agent = agents.TD3(
                mu, q1, q2, self.opt(mu, lr), self.opt(q1, lr),
                self.opt(q2, lr), explorer=ex, soft_update_tau=tau,
                n_times_update=p['times'], burnin_action_func=burn,
                policy_update_delay=p['delay'],
                target_policy_smoothing_func=lambda a: a * .5 + .25,
                **common)
            self.links = [('q1', q1), ('q2', q2), ('pi', mu)]
            a = self.agent
            self.tlinks = [('q1', a.target_q_func1),
                           ('q2', a.target_q_func2),
                           ('pi', a.target_policy)]
        elif kind == 'sac':
            q1, q2 = TabSA(self.rnd(S, 2), bn), TabSA(self.rnd(S, 2), bn)
            pi = TabFixed(self.rnd(S, 1), self.rnd(S, 1), bn)
            kw = {}
            if p.get('ent') is not None:
                kw = dict(entropy_target=p['ent'] / 4,
                          temperature_optimizer=chainer.optimizers.SGD(lr))
            self.agent = agents.SoftActorCritic(
                pi, q1, q2, self.opt(pi, lr), self.opt(q1, lr),
                self.opt(q2, lr), soft_update_tau=tau,
                burnin_action_func=burn, initial_temperature=.5,
                **dict(common, **kw))
            self.links = [('q1', q1), ('q2', q2), ('pi', pi)]
            a = self.agent
            self.tlinks = [('q1', a.target_q_func1),
                           ('q2', a.target_q_func2)]
        else:
            raise ValueError(kind)
        self.dist = kind in ('cat', 'catd')
        buf.rec = self.rec

    # ---------------------------------------------------------- observing
    def look(self, links):
        d = {}
        for name, link in links:
            for pn, pa in sorted(link.namedparams()):
                key = name + pn.replace('/', '_')
                d[key] = ks(pa.array)
            for ln, li in sorted(link.namedlinks()):
                if isinstance(li, L.BatchNormalization):
                    b = name + ln.replace('/', '_')
                    d[b + '_avgmean'] = ks(li.avg_mean)
                    d[b + '_avgvar'] = ks(li.avg_var)
        return d

    def derived(self, d, link):
        """Values that take an exponential to compute."""
        kind = self.p['kind']
        if self.dist:
            w = link.w.array.astype(np.float64)
            e = np.exp(w - w.max(axis=2, keepdims=True))
            d['probs'] = ks(e / e.sum(axis=2, keepdims=True))
        elif kind in ('dpp', 'dppl'):
            w = link.w.array.astype(np.float64)
            e = np.exp(2. * w)
            d['lop'] = ks((e * w).sum(axis=1) / e.sum(axis=1)
                          if kind == 'dpp' else np.log(e.sum(axis=1)) / 2.)
        return d

    def snap(self):
        on, tg = self.look(self.links), self.look(self.tlinks)
        o = dict(on=on, tg=tg)
        if self.p['kind'] in DISCRETE:
            on = self.derived(on, self.links[0][1])
            if self.tlinks:
                tg = self.derived(tg, self.tlinks[0][1])
        if self.p['kind'] == 'sac':
            h = self.agent.temperature_holder
            o['temp'] = k(self.agent.temperature)
            o['ltemp'] = k(np.log(max(self.agent.temperature, 1e-30)))
            assert h is None or self.p.get('ent') is not None
        return o

    def window(self, w):
        return [[int(x['state'][0]), self.action(x['action']),
                 k(x['reward']), int(x['next_state'][0]),
                 bool(x['is_state_terminal'])] for x in w]

    def action(self, a):
        if self.p['kind'] in DISCRETE:
            return int(a)
        return k(np.asarray(a).ravel()[0])

    def rec(self, what, x, env):
        if what == 'errors':
            self.micro[-1]['errors'] = ks(x)
            return
        m = dict(self.snap(), k=what, env=int(env), items=[], w=[],
                 errors=[], tau=[], n=len(self.buf))
        if what == 'sample':
            m['items'] = [self.window(w) for w in x]
            m['w'] = [k(w[0].get('weight', 1.)) for w in x]
        self.micro.append(m)

    def tau(self, taus):
        if self.micro and self.micro[-1]['k'] == 'sample':
            self.micro[-1]['tau'] += ks(taus.mean(axis=1))

    def store(self):
        if self.p.get('prio') or not self.p.get('store', True):
            return [[-1]]
        st, pst = np.random.get_state(), random.getstate()
        rec, self.buf.rec = self.buf.rec, None
        n = len(self.buf)
        r = self.buf.sample(n) if n else []
        self.buf.rec = rec
        np.random.set_state(st)
        random.setstate(pst)
        return sorted(self.window(w) for w in r)

    def obs(self, s, train=True):
        """A fresh observation: [unique id, tabular state]."""
        self.tab.append(s)
        return np.array([len(self.tab), s], dtype=np.float32)

    def call(self, op, f, obs=(), r=(), done=(), reset=()):
        self.micro = []
        e = dict(op=op, obs=[int(o[0]) for o in obs], r=[k(x) for x in r],
                 done=list(done), reset=list(reset), act=[], raised=False)
        try:
            a = f()
            if a is not None:
                a = list(a) if op.startswith('b') else [a]
                e['act'] = [self.action(x) for x in a]
        except Exception as x:
            if self.job.get('strict'):
                raise
            e['raised'], e['error'] = True, repr(x)[:300]
        e.update(self.snap())
        e['micro'], e['n'], e['store'] = self.micro, len(self.buf), \
            self.store()
        st = dict(self.agent.get_statistics())
        e['nupd'] = int(st.get('n_updates', st.get('q_func_n_updates', -1)))
        self.ev.append(e)
        return a if not e['raised'] else None

    # ------------------------------------------------------------ running
    def go(self):
        e = dict(self.snap(), op='init', n=len(self.buf), micro=[],
                 raised=False)
        self.ev.append(e)
        if self.p['mode'] == 'single':
            self.single()
        else:
            self.batch()
        p = dict(self.p)
        p.update(S=self.S, A=self.A, tab=self.tab, n_envs=self.n)
        p['ent'] = -999 if p.get('ent') is None else p['ent']
        p['prio'] = bool(p.get('prio'))
        return dict(cfg=p, ev=self.ev)

    def ok(self):
        return not self.ev[-1]['raised']

    def single(self):
        ag, last_r = self.agent, 0.
        for x in self.job['b']:
            op = x['op']
            if op == 'step':
                o = self.obs(x['s'])
                r = x['r'] / 2
                self.call('step', lambda: ag.act_and_train(o, r), [o], [r])
            elif op == 'end':
                o = self.obs(x['s'])
                r = x['r'] / 2
                self.call('end', lambda: ag.stop_episode_and_train(
                    o, r, x['done']), [o], [r], [x['done']])
            elif op == 'eval':
                o = self.obs(x['s'])
                self.call('eval', lambda: ag.act(o), [o])
            elif op == 'evalstop':
                self.call('evalstop', lambda: ag.stop_episode())
            if not self.ok():
                break

    def batch(self):
        ag, n = self.agent, self.n
        cur = [self.obs(s) for s in self.job['s0'][:n]]
        for x in self.job['b']:
            for s in x['eval']:
                o = [self.obs(s) for _ in range(n)]
                self.call('beval', lambda: ag.batch_act(o), o)
                self.call('bobs', lambda: ag.batch_observe(
                    o, [0.] * n, [bool(s % 2)] * n, [False] * n), o,
                    [0.] * n, [bool(s % 2)] * n, [False] * n)
            self.call('bact', lambda: ag.batch_act_and_train(cur), cur)
            if not self.ok():
                break
            nxt = [self.obs(s) for s in x['s'][:n]]
            r = [v / 2 for v in x['r'][:n]]
            done, reset = x['done'][:n], x['reset'][:n]
            self.call('btrain', lambda: ag.batch_observe_and_train(
                nxt, r, done, reset), nxt, r, done, reset)
            if not self.ok():
                break
            cur = [self.obs(x['s2'][i]) if done[i] or reset[i] else nxt[i]
                   for i in range(n)]


def run(job):
    return Run(job).go()
