"""Driver for the asynchronous agents NSQ, PCL and ACER with tabular models.

Workers (one agent each) share parameters the way train_agent_async shares
them.  Every call becomes one event with the shared, local and target /
average parameters after it; every time the agent samples episodes from its
replay buffer, the sample and the parameters at that moment are logged."""
import random

import chainer
import chainer.functions as F
import numpy as np

import chainerrl
from chainerrl import action_value
from chainerrl import agents
from chainerrl import distribution
from chainerrl import replay_buffer
from chainerrl.agents.acer import ACERSeparateModel
from chainerrl.agents.pcl import PCLSeparateModel
from chainerrl.misc import async_
from harness.drv.offpol import K, k, ks

S, A = 4, 3


class Logits(chainer.Chain):
    def __init__(self, w):
        super().__init__()
        with self.init_scope():
            self.l = chainer.Parameter(w)

    def __call__(self, x):
        return distribution.SoftmaxDistribution(F.matmul(x, self.l))


class Value(chainer.Chain):
    def __init__(self, w):
        super().__init__()
        with self.init_scope():
            self.v = chainer.Parameter(w)

    def __call__(self, x):
        return F.matmul(x, self.v)


class QTable(chainer.Chain):
    def __init__(self, w):
        super().__init__()
        with self.init_scope():
            self.q = chainer.Parameter(w)

    def __call__(self, x):
        return action_value.DiscreteActionValue(F.matmul(x, self.q))


class Cont(chainer.Chain):
    """ACER model for two-dimensional actions."""

    def __init__(self, l, v, w):
        super().__init__()
        with self.init_scope():
            self.l = chainer.Parameter(l)
            self.v = chainer.Parameter(v)
            self.w = chainer.Parameter(w)

    def __call__(self, x):
        mean = F.matmul(x, self.l)
        v = F.matmul(x, self.v)[:, 0]
        w = F.matmul(x, self.w)

        def evaluate(a):
            return v + F.sum(w * a, axis=1)
        d = distribution.GaussianDistribution(
            mean, np.full(mean.shape, .25, dtype=np.float32))
        return d, action_value.SingleActionValue(evaluate), v


class Explorer(chainerrl.explorer.Explorer):
    def __init__(self, rs, log):
        self.rs, self.log = rs, log

    def select_action(self, t, greedy_action_func, action_value=None):
        g = int(greedy_action_func())
        a = g if self.rs.rand() < .4 else int(self.rs.randint(A))
        self.log.append([int(t), g, a])
        return np.int32(a)


def tables(kind, m):
    d = {}
    if kind == 'nsq':
        return dict(q=ks(m.q.array))
    if kind == 'acerc':
        return dict(l=ks(m.l.array), v=ks(m.v.array), w=ks(m.w.array))
    w = m.pi.l.array.astype(np.float64)
    e = np.exp(w - w.max(axis=1, keepdims=True))
    p = e / e.sum(axis=1, keepdims=True)
    lp = np.log(p)
    h = -(p * lp).sum(axis=1, keepdims=True)
    d.update(l=ks(w), p=ks(16 * p), lp=ks(lp), hg=ks(-p * (lp + h)))
    if kind == 'pcl':
        d['v'] = ks(m.v.v.array)
    else:
        d['q'] = ks(m.q.q.array)
    return d


class Run(object):
    def __init__(self, job):
        self.job = job
        p = self.p = job['p']
        self.kind = p['kind']
        np.random.seed(job['seed'])
        random.seed(job['seed'])
        self.rs = np.random.RandomState(job['seed'] + 7)
        self.tab, self.ev, self.micro, self.asked = [], [], [], []
        self.sampling = False
        n = p['A']
        l0 = self.rnd(S, n)
        v0, q0 = self.rnd(S, 1), self.rnd(S, n)
        w0 = self.rnd(S, n)

        def model():
            # every process builds the same model
            a = [x.copy() for x in (l0, v0, q0, w0)]
            if self.kind == 'nsq':
                return QTable(a[2])
            if self.kind == 'pcl':
                return PCLSeparateModel(pi=Logits(a[0]), v=Value(a[1]))
            if self.kind == 'acer':
                return ACERSeparateModel(pi=Logits(a[0]), q=QTable(a[2]))
            return Cont(a[0], a[1], a[3])
        self.models = [model() for _ in range(p['W'])]
        self.bufs = [self.buffer(w) for w in range(p['W'])]
        self.ags = [self.agent(w) for w in range(p['W'])]
        if p['share']:
            first = self.ags[0]
            shared = {a: async_.as_shared_objects(getattr(first, a))
                      for a in first.shared_attributes}
            for ag in self.ags:
                for a, s in shared.items():
                    setattr(ag, a, async_.synchronize_to_shared_objects(
                        getattr(ag, a), s))
        for w, ag in enumerate(self.ags):
            ag.process_idx = w

    def rnd(self, *shape):
        return self.rs.uniform(-1, 1, size=shape).astype(np.float32)

    def buffer(self, w):
        run, p = self, self.p
        if p['buf'] == 'none':
            return None
        base = (replay_buffer.EpisodicReplayBuffer if p['buf'] == 'plain'
                else replay_buffer.PrioritizedEpisodicReplayBuffer)

        class Buffer(base):
            def sample_episodes(self, n_episodes, max_len=None):
                x = base.sample_episodes(self, n_episodes, max_len)
                eps, wts = x if isinstance(x, tuple) else (x, None)
                run.sampled(w, eps, wts)
                return x
        if p['buf'] == 'plain':
            return Buffer(10 ** 4)
        return Buffer(10 ** 4, default_priority_func=len, uniform_ratio=.1,
                      wait_priority_after_sampling=False)

    def agent(self, w):
        p, m = self.p, self.models[w]
        opt = chainer.optimizers.SGD(p['lr'][0] / p['lr'][1])
        opt.setup(m)
        g = p['g'][0] / p['g'][1]

        def phi(o):
            x = np.zeros(S, dtype=np.float32)
            x[int(o[1])] = 1
            return x
        if self.kind == 'nsq':
            return agents.NSQ(m, opt, t_max=p['tmax'], gamma=g,
                              i_target=p['it'], phi=phi,
                              explorer=Explorer(self.rs, self.asked))
        if self.kind == 'pcl':
            return agents.PCL(
                m, opt, replay_buffer=self.bufs[w], t_max=p['tmax'] or None,
                gamma=g, tau=p['tau'] / 16, phi=phi, pi_loss_coef=p['pc'] / 2,
                v_loss_coef=p['vc'] / 2, rollout_len=p['rl'],
                batchsize=p['B'], disable_online_update=p['dis'],
                n_times_replay=p['nrep'], replay_start_size=p['rss'],
                normalize_loss_by_steps=p['norm'],
                act_deterministically=p['det'],
                explorer=Explorer(self.rs, self.asked) if p['expl'] else None,
                backprop_future_values=p['bfv'], train_async=p['async'])
        return agents.ACER(
            m, opt, t_max=p['tmax'], gamma=g, replay_buffer=self.bufs[w],
            beta=p['ec'] / 16, phi=phi, pi_loss_coef=p['pc'] / 2,
            Q_loss_coef=p['vc'] / 2, use_trust_region=p['tr'],
            trust_region_alpha=p['al'][0] / p['al'][1],
            trust_region_delta=p['delta'] / K,
            truncation_threshold=p['trunc'] / K if p['trunc'] else None,
            disable_online_update=p['dis'], n_times_replay=p['nrep'],
            replay_start_size=p['rss'], normalize_loss_by_steps=p['norm'],
            act_deterministically=p['det'], use_Q_opc=p['opc'])

    # -- snapshots
    def local(self, w):
        ag = self.ags[w]
        return ag.q_function if self.kind == 'nsq' else ag.model

    def look(self):
        ag = self.ags[0]
        sh = tables(self.kind, self.models[0])
        if self.kind == 'nsq':
            av = tables('nsq', ag.target_q_function)
        elif self.kind == 'pcl':
            av = dict(l=[0])
        else:
            av = tables(self.kind, ag.shared_average_model)
        return dict(sh=sh, av=av, lo=[tables(self.kind, self.local(i))
                                      for i in range(self.p['W'])])

    def act_of(self, a):
        return ks(a) if self.kind == 'acerc' else int(a)

    def dist(self, d):
        if self.kind == 'acerc':
            return ks(np.asarray(getattr(d.mean, 'array', d.mean))[0])
        return ks(16 * d.all_prob.array[0].astype(np.float64))

    def tr(self, w, x):
        d = dict(u=int(x['state'][0]), a=self.act_of(x['action']),
                 r=k(x['reward']), u2=int(x['next_state'][0]),
                 nt=not x['is_state_terminal'], mu=self.dist(x['mu']))
        if self.kind == 'acerc':
            s = int(x['state'][1])
            a = np.asarray(x['action'], dtype=np.float64)
            m = self.local(w).l.array[s].astype(np.float64)
            mu = x['mu'].mean
            mu = np.asarray(getattr(mu, 'array', mu), dtype=np.float64)[0]
            rho = np.exp(-2 * ((a - m) ** 2).sum() + 2 * ((a - mu) ** 2).sum())
            d['rho'] = k(min(rho, 100.))
        return d

    def sampled(self, w, eps, wts):
        m = self.look()
        m['eps'] = [[self.tr(w, x) for x in ep] for ep in eps]
        m['wts'] = ([K] * len(eps) if wts is None
                    else [k(float(x)) for x in wts])
        self.micro.append(m)

    def obs(self, s):
        self.tab.append(s)
        return np.array([len(self.tab), s], dtype=np.float32)

    def call(self, op, w, f, o=None, r=0., done=False):
        del self.micro[:]
        del self.asked[:]
        s = 0 if o is None else int(o[1])
        e = dict(op=op, w=w + 1, obs=0 if o is None else int(o[0]), r=k(r),
                 done=done, raised=False, act=0)
        try:
            a = f()
            if a is not None:
                e['act'] = self.act_of(a)
        except Exception as x:
            if self.job.get('strict'):
                raise
            e['raised'], e['error'] = True, repr(x)[:300]
        e.update(self.look(), micro=list(self.micro), asked=list(self.asked),
                 tg=0, avp=[], mup=[])
        if op == 'step' and self.kind not in ('nsq', 'acerc'):
            t = e['lo'][w]['p'][s * A:s * A + A]
            e['mup'] = t
            if self.kind == 'acer':
                e['avp'] = e['av']['p'][s * A:s * A + A]
        if op == 'step' and self.kind == 'acerc':
            n = self.p['A']
            e['mup'] = e['lo'][w]['l'][s * n:s * n + n]
        if self.kind == 'nsq':
            e['tg'] = int(self.ags[0].t_global.value)
        self.ev.append(e)

    def go(self):
        self.ev.append(dict(op='init', raised=False, **self.look()))
        st = [False] * self.p['W']
        for x in self.job['b']:
            w = (x['w'] - 1) % self.p['W']
            ag, op = self.ags[w], x['op']
            if op == 'end' and not st[w]:
                continue
            r = x['r'] / 2
            if op == 'step':
                o = self.obs(x['s'])
                self.call('step', w, lambda: ag.act_and_train(o, r), o, r)
                st[w] = True
            elif op == 'end':
                o = self.obs(x['s'])
                self.call('end', w, lambda: ag.stop_episode_and_train(
                    o, r, x['done']), o, r, x['done'])
                st[w] = False
            elif op == 'eval':
                o = self.obs(x['s'])
                self.call('eval', w, lambda: ag.act(o), o)
            else:
                self.call('evalstop', w, lambda: ag.stop_episode())
            if self.ev[-1]['raised']:
                break
        return dict(cfg=dict(self.p, tab=self.tab, S=S), ev=self.ev)


def run(job):
    return Run(job).go()
