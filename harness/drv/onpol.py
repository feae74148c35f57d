"""Driver for on-policy agents: tabular softmax policies and value functions.

Every call becomes one event with the parameters after it and a log of the
batches the agent fed to its model with gradients enabled, each with a
snapshot of the parameters.  Inputs carry the observation's unique id, which
the models ignore.  Reals are integers scaled by K."""
import random

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from chainerrl import agents
from chainerrl import distribution
from chainerrl import links
from chainerrl.agents.a2c import A2CModel
from chainerrl.agents.a3c import A3CModel
from harness.drv.offpol import K, k, ks

S, A = 4, 3


def arr(x):
    return x.array if isinstance(x, chainer.Variable) else x


class Log(object):
    def __init__(self):
        self.f = None

    def __deepcopy__(self, memo):
        return self

    def __call__(self, who, seqs):
        if self.f is not None and chainer.config.enable_backprop:
            self.f(who, seqs)


class Policy(chainer.Chain):
    def __init__(self, logits, log, who='policy'):
        super().__init__()
        with self.init_scope():
            self.l = chainer.Parameter(logits)
        self.log, self.who = log, who

    def __call__(self, x):
        self.log(self.who, [[int(u)] for u in arr(x)[:, S]])
        return distribution.SoftmaxDistribution(
            F.matmul(x[:, :S], self.l))


class Value(chainer.Chain):
    def __init__(self, v, log, who='vf'):
        super().__init__()
        with self.init_scope():
            self.v = chainer.Parameter(v)
        self.log, self.who = log, who

    def __call__(self, x):
        self.log(self.who, [[int(u)] for u in arr(x)[:, S]])
        return F.matmul(x[:, :S], self.v)


class Both(chainer.Chain):
    def __init__(self, logits, v, log):
        super().__init__()
        self.log = log
        quiet = Log()
        with self.init_scope():
            self.policy = Policy(logits, quiet)
            self.value = Value(v, quiet)

    def __call__(self, x):
        self.log('model', [[int(u)] for u in arr(x)[:, S]])
        return self.policy(x), self.value(x)

    def pi_and_v(self, x):
        return self(x)


class A2CBoth(Both, A2CModel):
    __call__ = Both.__call__
    pi_and_v = Both.pi_and_v

    def __init__(self, *a):
        Both.__init__(self, *a)


class A3CBoth(Both, A3CModel):
    __call__ = Both.__call__
    pi_and_v = Both.pi_and_v

    def __init__(self, *a):
        Both.__init__(self, *a)


class Rec(links.StatelessRecurrentSequential):
    """A recurrent model that logs the sequences it is trained on."""

    def setup(self, log, who):
        self.log, self.who = log, who
        return self

    def n_step_forward(self, x, recurrent_state, output_mode):
        if self.log is not None:
            self.log(self.who, [[int(u) for u in arr(q)[:, S]] for q in x])
        return super().n_step_forward(x, recurrent_state, output_mode)


def cut(x):
    return x[:, :S]


def dist(x):
    return distribution.SoftmaxDistribution(x)


class Run(object):
    def __init__(self, job):
        self.job = job
        p = self.p = job['p']
        np.random.seed(job['seed'])
        random.seed(job['seed'])
        self.rs = np.random.RandomState(job['seed'] + 7)
        self.micro, self.ev, self.tab = [], [], []
        self.n = p['n_envs']
        self.log = Log()
        self.build()
        self.log.f = self.rec

    def rnd(self, *shape):
        return self.rs.uniform(-1, 1, size=shape).astype(np.float32)

    def opt(self, link):
        o = chainer.optimizers.SGD(self.p['lr'][0] / self.p['lr'][1])
        o.setup(link)
        return o

    def build(self):
        p = self.p
        kind = p['kind']
        l0, v0 = self.rnd(S, A), self.rnd(S, 1)
        g = p['g'][0] / p['g'][1]
        lam = p['lam'][0] / p['lam'][1]
        ec = p['ec'] / 16
        self.single_links = None

        def phi(o):
            x = np.zeros(S + 1, dtype=np.float32)
            x[int(o[1])] = 1
            x[S] = o[0]
            return x

        def one_by_one(states, xp, phi):
            # what phi does not do is done here
            return xp.asarray([onehot(phi(s)) for s in states])
        onehot, cbs = phi, {}
        if p.get('cbs'):
            cbs['batch_states'] = one_by_one

            def phi(o):
                return o
        if kind in ('ppo', 'ppo_r'):
            kw = dict(cbs)
            if kind == 'ppo':
                m = Both(l0, v0, self.log)
                self.pi, self.vf = m.policy, m.value
            else:
                m = Rec(cut, L.NStepGRU(1, S, 4, 0), links.Branched(
                    chainer.Sequential(L.Linear(4, A), dist),
                    L.Linear(4, 1))).setup(self.log, 'model')
                kw.update(recurrent=True,
                          max_recurrent_sequence_len=p['maxlen'] or None)
                self.pi = self.vf = None
            self.model = m
            self.agent = agents.PPO(
                m, self.opt(m), gamma=g, lambd=lam, phi=phi,
                value_func_coef=p['vc'] / 2, entropy_coef=ec,
                update_interval=p['ui'], minibatch_size=p['B'],
                epochs=p['epochs'], clip_eps=p['eps'] / 16,
                clip_eps_vf=None if p['epsv'] == 0 else p['epsv'] / 16,
                standardize_advantages=p['std'], **kw)
        elif kind in ('trpo', 'trpo_r'):
            kw = dict(cbs)
            if kind == 'trpo':
                pi, vf = Policy(l0, self.log), Value(v0, self.log)
                self.pi, self.vf = pi, vf
            else:
                pi = Rec(cut, L.NStepGRU(1, S, 4, 0), L.Linear(4, A),
                         dist).setup(self.log, 'policy')
                vf = Rec(cut, L.NStepGRU(1, S, 4, 0), L.Linear(4, 1)).setup(
                    self.log, 'vf')
                self.pi = self.vf = None
                kw.update(recurrent=True,
                          max_recurrent_sequence_len=p['maxlen'] or None)
            self.model = chainer.Chain(pi=pi, vf=vf)
            self.agent = agents.TRPO(
                pi, vf, self.opt(vf), gamma=g, lambd=lam, phi=phi,
                entropy_coef=ec, update_interval=p['ui'], max_kl=p['kl'] / K,
                vf_epochs=p['epochs'], vf_batch_size=p['B'],
                standardize_advantages=p['std'],
                conjugate_gradient_max_iter=30,
                policy_step_size_stats_window=1, **kw)
        elif kind == 'a2c':
            m = self.model = A2CBoth(l0, v0, self.log)
            self.pi, self.vf = m.policy, m.value
            self.agent = agents.A2C(
                m, self.opt(m), gamma=g, num_processes=self.n,
                update_steps=p['ui'], phi=phi, pi_loss_coef=p['pc'] / 2,
                v_loss_coef=p['vc'] / 2, entropy_coeff=ec,
                use_gae=p['gae'], tau=lam, **cbs)
        elif kind == 'a3c':
            m = self.model = A3CBoth(l0, v0, self.log)
            self.pi, self.vf = m.policy, m.value
            self.agent = agents.A3C(
                m, self.opt(m), t_max=p['ui'], gamma=g, beta=ec, phi=phi,
                pi_loss_coef=p['pc'] / 2, v_loss_coef=p['vc'] / 2,
                keep_loss_scale_same=p['keep'],
                normalize_grad_by_t_max=p['norm'],
                use_average_reward=p['avg'], average_reward_tau=.25, **cbs)
        elif kind == 'reinforce':
            m = self.model = Policy(l0, self.log)
            self.pi, self.vf = m, None
            self.agent = agents.REINFORCE(
                m, self.opt(m), beta=ec, phi=phi, batchsize=p['ui'],
                backward_separately=p['norm'],
                **cbs)
        else:
            raise ValueError(kind)

    def look(self, pi, vf):
        d = {}
        if pi is not None:
            w = pi.l.array.astype(np.float64)
            e = np.exp(w - w.max(axis=1, keepdims=True))
            pr = e / e.sum(axis=1, keepdims=True)
            lp = np.log(pr)
            h = -(pr * lp).sum(axis=1, keepdims=True)
            d.update(l=ks(w), p=ks(16 * pr), hg=ks(-pr * (lp + h)), h=ks(h))
        if vf is not None:
            d['v'] = ks(vf.v.array)
        if not d:
            d['all'] = [k(sum(float(np.abs(q.array).sum())
                              for q in self.model.params()))]
        return d

    def rec(self, who, seqs):
        self.micro.append(dict(k='fwd', who=who, seqs=seqs,
                               on=self.look(self.pi, self.vf)))

    def obs(self, s):
        self.tab.append(s)
        return np.array([len(self.tab), s], dtype=np.float32)

    def call(self, op, f, obs=(), r=(), done=(), reset=()):
        self.micro = []
        before = None if self.pi is None else self.pi.l.array.copy()
        e = dict(op=op, obs=[int(o[0]) for o in obs], r=[k(x) for x in r],
                 done=list(done), reset=list(reset), act=[], raised=False)
        a = None
        try:
            a = f()
            if a is not None:
                e['act'] = [int(x) for x in (
                    list(a) if op.startswith('b') else [a])]
        except Exception as x:
            if self.job.get('strict'):
                raise
            e['raised'], e['error'] = True, repr(x)[:300]
        e['on'] = self.look(self.pi, self.vf)
        e['micro'] = self.micro
        e['loc'] = e['on']
        if self.p['kind'] == 'a3c':
            m = self.agent.model
            e['loc'] = self.look(m.policy, m.value)
        e['step'], e['kls'] = K, []
        if self.p['kind'] == 'trpo':
            x = dict(self.agent.get_statistics())['average_policy_step_size']
            e['step'] = -1 if x != x else k(x)
            e['kls'] = [int(round(v * K * 16)) for v in
                        kl(before, self.pi.l.array)]
        self.ev.append(e)
        return a

    def go(self):
        self.ev.append(dict(op='init', micro=[], raised=False,
                            on=self.look(self.pi, self.vf)))
        (self.single if self.p['mode'] == 'single' else self.batch)()
        return dict(cfg=dict(self.p, tab=self.tab, S=S, A=A), ev=self.ev)

    def ok(self):
        return not self.ev[-1]['raised']

    def single(self):
        ag = self.agent
        for x in self.job['b']:
            op = x['op']
            if op == 'step':
                o, r = self.obs(x['s']), x['r'] / 2
                self.call('step', lambda: ag.act_and_train(o, r), [o], [r])
            elif op == 'end':
                o, r = self.obs(x['s']), x['r'] / 2
                self.call('end', lambda: ag.stop_episode_and_train(
                    o, r, x['done']), [o], [r], [x['done']])
            elif op == 'eval':
                o = self.obs(x['s'])
                self.call('eval', lambda: ag.act(o), [o])
            elif op == 'evalstop':
                self.call('evalstop', lambda: ag.stop_episode())
            if not self.ok():
                break

    def batch(self):
        ag, n = self.agent, self.n
        cur = [self.obs(s) for s in self.job['s0'][:n]]
        for x in self.job['b']:
            for s in x['eval']:
                o = [self.obs(s) for _ in range(n)]
                self.call('beval', lambda: ag.batch_act(o), o)
                self.call('bobs', lambda: ag.batch_observe(
                    o, [0.] * n, [bool(s % 2)] * n, [False] * n))
            self.call('bact', lambda: ag.batch_act_and_train(cur), cur)
            if not self.ok():
                break
            nxt = [self.obs(s) for s in x['s'][:n]]
            r = [v / 2 for v in x['r'][:n]]
            done, reset = x['done'][:n], x['reset'][:n]
            self.call('btrain', lambda: ag.batch_observe_and_train(
                nxt, r, done, reset), nxt, r, done, reset)
            if not self.ok():
                break
            cur = [self.obs(x['s2'][i]) if done[i] or reset[i] else nxt[i]
                   for i in range(n)]


def kl(a, b):
    a, b = a.astype(np.float64), b.astype(np.float64)

    def lp(x):
        x = x - x.max(axis=1, keepdims=True)
        return x - np.log(np.exp(x).sum(axis=1, keepdims=True))
    a, b = lp(a), lp(b)
    return (np.exp(a) * (a - b)).sum(axis=1)


def run(job):
    return Run(job).go()
