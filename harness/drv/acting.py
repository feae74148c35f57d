"""Driver: how every kind of agent chooses actions, with models whose output
for every observation is known and never changes (learning rate zero)."""
import chainer
from chainer import links as L
import numpy as np

import chainerrl
from chainerrl import agents
from chainerrl import distribution
from chainerrl import links
from chainerrl import replay_buffers as rbs
from chainerrl.action_value import DiscreteActionValue
from chainerrl.action_value import DistributionalDiscreteActionValue
from chainerrl.action_value import QuantileDiscreteActionValue
from chainerrl.agents import a2c
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents.ddpg import DDPGModel

K = 8192.
BIG = 10 ** 6


def _i(x):
    x = float(x)
    if not np.isfinite(x):
        return 2 ** 30
    return int(max(-2 ** 30, min(2 ** 30, round(x * K))))


class Table(L.Linear):
    def __init__(self, rows):
        t = np.asarray(rows, np.float32) / 4
        super().__init__(t.shape[0], t.shape[1], nobias=True, initialW=t.T)


class Quantiles(chainer.Chain):
    def __init__(self, rows, slopes):
        super().__init__()
        with self.init_scope():
            self.q, self.s = Table(rows), Table(slopes)

    def __call__(self, x):
        q, s = self.q(x), self.s(x)

        def f(tau):
            B, N = tau.shape
            F = chainer.functions
            n = q.shape[1]
            e = F.broadcast_to(F.expand_dims(q, 1), (B, N, n))
            g = F.broadcast_to(F.expand_dims(s, 1), (B, N, n))
            t = F.broadcast_to(
                F.expand_dims(chainer.as_variable(tau - .5), 2), (B, N, n))
            return QuantileDiscreteActionValue(e + g * t.array)
        return f


class Atoms(chainer.Chain):
    def __init__(self, rows):
        super().__init__()
        with self.init_scope():
            self.q = Table(rows)

    def __call__(self, x):
        q = self.q(x)
        p = (1 + q / 2) / 2
        p = chainer.functions.stack([1 - p, p * 0, p], axis=2)
        return DistributionalDiscreteActionValue(
            p, np.asarray([-2, 0, 2], np.float32))


class SA(chainer.Chain):
    def __init__(self, no, n):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(no + n, 1)

    def __call__(self, x, a):
        return self.l(chainer.functions.concat([x, a], axis=1))


class PV(chainer.Chain, a3c.A3CModel, a2c.A2CModel):
    def __init__(self, pi, v):
        super().__init__(pi=pi, v=v)

    def pi_and_v(self, x):
        return self.pi(x), self.v(x)

    def __call__(self, x):
        return self.pi(x), self.v(x)


class Asked(chainerrl.explorer.Explorer):
    def __init__(self, discrete, n, av):
        self.discrete, self.n, self.av = discrete, n, av
        self.log, self.shift, self.quiet = [], 0, False

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        if self.quiet:
            return g
        if self.discrete:
            ret = np.int32((g + self.shift) % self.n)
        else:
            ret = (g + np.float32(.25 * self.shift)).astype(np.float32)
        e = dict(t=int(t), g=act_of(g), ret=act_of(ret), av=[])
        if self.av:
            e['av'] = [[_i(x) for x in row]
                       for row in action_value.q_values.array]
        self.log.append(e)
        return ret

    def __repr__(self):
        return 'Asked()'


def act_of(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return [int(a)]
    return [_i(x) for x in a]


def sgd(*ls):
    out = []
    for x in ls:
        o = chainer.optimizers.SGD(lr=0.)
        o.setup(x)
        out.append(o)
    return out


DISCRETE = {
    'dqn': agents.DQN, 'double': agents.DoubleDQN, 'sarsa': agents.SARSA,
    'al': agents.AL, 'pal': agents.PAL, 'dpal': agents.DoublePAL,
    'dpp': agents.DPP, 'residual': agents.ResidualDQN,
    'cat': agents.CategoricalDQN, 'catd': agents.CategoricalDoubleDQN,
    'iqn': agents.IQN, 'diqn': agents.DoubleIQN}


def make(job):
    """(agent, explorer or None, cfg, optimizer that ends the burn-in)"""
    b, kind, cont = job['b'], job['kind'], job['cont']
    n, no = b['n'], b['no']
    det = b['det']
    roll = b['roll']

    def phi(x):
        return np.roll(x, 1) if roll else x
    rows = b['rows']
    v = np.asarray(b['v'], np.float32) / np.float32(K)
    beta = b['beta2'] / 2
    cfg = dict(kind=kind, n=n, roll=roll, det=det, traindet=False, tick=1,
               t0=b['t0'], burnin=False, expl=False, av=False, rows=rows,
               specs=[], batch=job['batch'])
    burned, opt = [], None
    com = dict(gamma=.9, phi=phi)
    off = dict(com, replay_start_size=BIG, minibatch_size=2)

    def gauss(cls=distribution.GaussianDistribution):
        return lambda h: cls(h, chainer.as_variable(
            np.broadcast_to(v, h.shape).copy()))

    def policy():
        """Stochastic policy."""
        if cont:
            cfg.update(mode='gau', specs=[
                dict(via='gauss', rows=[r], vrows=[b['v']]) for r in rows])
            return links.Sequence(Table(rows), gauss())
        cfg.update(mode='cat', specs=[
            dict(via='softmax', rows=[r], beta2=b['beta2'], mp=0)
            for r in rows])
        return links.Sequence(
            Table(rows),
            lambda h: distribution.SoftmaxDistribution(h, beta=beta))

    def value():
        return L.Linear(no, 1)

    def burn():
        a = np.int32(0) if not cont else \
            np.full(n, np.float32(9 + len(burned)), np.float32)
        burned.append(act_of(a))
        return a
    ex = Asked(not cont, n, False)
    if kind in DISCRETE:
        ex.av = True
        cfg.update(mode='greedy', expl=True, av=True)
        if kind in ('iqn', 'diqn'):
            q = Quantiles(rows, (16 * np.asarray(b['slopes'])).tolist()
                          if job['slopes'] else
                          [[0] * n] * no)
            off['act_deterministically'] = det
            cfg['av'] = not job['slopes']
        elif kind in ('cat', 'catd'):
            q = Atoms(rows)
        else:
            q = links.Sequence(Table(rows), DiscreteActionValue)
        a = DISCRETE[kind](q, sgd(q)[0], replay_buffer=rbs.ReplayBuffer(BIG),
                           explorer=ex, **off)
    elif kind in ('ddpg', 'pgt', 'td3', 'sac'):
        if b['burnin'] and kind != 'pgt':
            cfg['burnin'] = True
            off.update(burnin_action_func=burn, replay_start_size=3)
        cfg['expl'] = kind != 'sac'
        buf = rbs.ReplayBuffer(BIG)
        q, q2 = SA(no, n), SA(no, n)
        if kind == 'pgt':
            pi = policy()
            cfg['traindet'] = det
        elif kind == 'sac':
            cfg.update(mode='squ', specs=[
                dict(via='squash', rows=[r], vrows=[b['v']]) for r in rows])
            pi = links.Sequence(
                Table(rows), gauss(distribution.SquashedGaussianDistribution))
        else:
            cfg['mode'] = 'point'
            pi = links.Sequence(
                Table(rows), distribution.ContinuousDeterministicDistribution)
        if kind in ('ddpg', 'pgt'):
            m = DDPGModel(q_func=q, policy=pi)
            o = sgd(pi, q)
            if kind == 'pgt':
                off['act_deterministically'] = det
            cls = agents.DDPG if kind == 'ddpg' else agents.PGT
            a = cls(m, o[0], o[1], replay_buffer=buf, explorer=ex, **off)
        else:
            o = sgd(pi, q, q2)
            if kind == 'td3':
                a = agents.TD3(pi, q, q2, *o, replay_buffer=buf, explorer=ex,
                               **off)
            else:
                a = agents.SoftActorCritic(
                    pi, q, q2, *o, replay_buffer=buf,
                    act_deterministically=det, **off)
        opt = o[0]
    elif kind == 'ppo':
        m = links.Branched(policy(), value())
        a = agents.PPO(m, sgd(m)[0], update_interval=BIG,
                       act_deterministically=det, **com)
    elif kind == 'trpo':
        pi, vf = policy(), value()
        a = agents.TRPO(pi, vf, sgd(vf)[0], update_interval=BIG,
                        act_deterministically=det, **com)
    elif kind == 'a2c':
        m = PV(policy(), value())
        a = agents.A2C(m, sgd(m)[0], num_processes=b['nenv'],
                       update_steps=10 ** 4, act_deterministically=det, **com)
    elif kind == 'a3c':
        m = PV(policy(), value())
        a = agents.A3C(m, sgd(m)[0], t_max=BIG, act_deterministically=det,
                       **com)
    elif kind == 'reinforce':
        pi = policy()
        a = agents.REINFORCE(pi, sgd(pi)[0], batchsize=BIG, phi=phi,
                             act_deterministically=det)
    elif kind == 'nsq':
        cfg.update(mode='greedy', expl=True, av=True)
        ex.av = True
        q = links.Sequence(Table(rows), DiscreteActionValue)
        a = agents.NSQ(q, sgd(q)[0], t_max=BIG, i_target=BIG, explorer=ex,
                       **com)
        a.t_global.value = b['t0']
    elif kind == 'acer':
        if cont:
            m = acer.ACERSDNSeparateModel(
                pi=policy(), v=value(), adv=SA(no, n))
        else:
            m = acer.ACERSeparateModel(
                pi=policy(), q=links.Sequence(Table(rows),
                                              DiscreteActionValue))
        a = agents.ACER(m, sgd(m)[0], t_max=BIG, beta=0,
                        replay_buffer=rbs.EpisodicReplayBuffer(BIG),
                        replay_start_size=BIG, act_deterministically=det,
                        **com)
    elif kind == 'pcl':
        m = PV(policy(), value())
        cfg['expl'] = job['slopes']
        kw = dict(explorer=ex) if job['slopes'] else {}
        a = agents.PCL(m, sgd(m)[0], t_max=BIG, rollout_len=3,
                       replay_buffer=rbs.EpisodicReplayBuffer(BIG),
                       replay_start_size=BIG, disable_online_update=True,
                       act_deterministically=det, **dict(com, **kw))
    if kind in DISCRETE or kind in ('ddpg', 'td3', 'pgt'):
        a.t = b['t0']
    elif kind == 'pcl':
        cfg['t0'] = 0
    return a, ex, cfg, opt, burned


def run(job):
    b = job['b']
    np.random.seed(job['seed'])
    ag, ex, cfg, opt, burned = make(job)
    n, no, batch = b['n'], b['no'], job['batch']
    B = b['nenv'] if batch else 1
    cont = cfg['mode'] not in ('greedy', 'cat')
    iqn_random = job['slopes'] and job['kind'] in ('iqn', 'diqn')
    ev = []
    started = False

    def onehot(o):
        x = np.zeros(no, np.float32)
        x[o - 1] = 1
        return x

    def good(a):
        if cont:
            return isinstance(a, np.ndarray) and a.dtype == np.float32 and \
                a.shape == (n,)
        return np.ndim(a) == 0 and isinstance(
            np.asarray(a).item(), int)

    def train(obs, r=0., done=None, reset=None):
        xs = [onehot(o) for o in obs]
        if not batch:
            return [ag.act_and_train(xs[0], r)]
        return list(ag.batch_act_and_train(xs))

    def observe(obs, r, done, reset):
        if batch:
            ag.batch_observe_and_train(
                [onehot(o) for o in obs], [r] * B, done, reset)

    def act(obs):
        xs = [onehot(o) for o in obs]
        if batch and len(xs) > 1 or job['batchact']:
            return list(ag.batch_act(xs))
        return [ag.act(xs[0])]
    for o in b['ops']:
        op = o['op']
        if op == 'stop' and (batch or job['kind'] == 'acer'):
            continue
        if op == 'stop' and not started:
            continue
        if op == 'many' and cfg['mode'] in ('greedy', 'point'):
            op = 'act'
        if iqn_random and op != 'act':
            continue
        r = o['r'] / 4.
        e = dict(op=op, exc='', shape=True, steps=0, train=False, asked=[],
                 upd=int(opt.t) if opt else 0, burned=[])
        ex.log, ex.quiet, ex.shift = [], False, o['shift']
        del burned[:]
        try:
            if op == 'act':
                obs = o['obs'][:o['nb'] if batch else 1]
                e['obs'] = obs
                out = act(obs)
                e['a'] = [act_of(a) for a in out]
                e['shape'] = all(good(a) for a in out)
                e['asked'] = ex.log
            elif op == 'train':
                obs = o['obs'][:B]
                e['obs'] = obs
                out = train(obs, r)
                e['a'] = [act_of(a) for a in out]
                e['shape'] = all(good(a) for a in out)
                e['asked'] = list(ex.log)
                e['burned'] = list(burned)
                e['steps'] = B
                started = True
                ex.log = []
                observe(o['obs'][::-1][:B], r, o['done'][:B], o['reset'][:B])
            elif op == 'many':
                tr = o['train'] and not (cfg['burnin'])
                if not tr and batch and job['kind'] in ():
                    continue
                ex.quiet = True
                e['train'] = tr
                obs = o['obs'][:B if tr else o['nb'] if batch else 1]
                # the choices of one env among those of others
                k = job['seed'] % len(obs)
                e['obs'] = [obs[k]]
                M = job['N']
                got = []
                for _ in range(M):
                    got.append((train(obs) if tr else act(obs))[k])
                    if tr:
                        observe(obs, 0., [False] * B, [False] * B)
                e['steps'] = M * B
                started = started or tr
                e['N'] = len(got)
                e['shape'] = all(good(a) for a in got)
                a = np.asarray(got)
                if cont:
                    thr = np.asarray(o['thr'], np.float32)[:n] / (
                        8 if cfg['mode'] == 'squ' else 4)
                    e['thr'] = [_i(x) for x in thr]
                    e['cnt'] = (a < thr[None]).sum(0).tolist()
                else:
                    e['cnt'] = [int((a == k).sum()) for k in range(n)]
                e['kinds'] = [act_of(x) for x in np.unique(a, axis=0)][:20]
            else:
                ag.stop_episode_and_train(onehot(o['obs'][0]), r,
                                          o['done'][0])
                started = False
        except Exception as exc:  # noqa
            if job.get('debug'):
                raise
            e['exc'] = repr(exc)[:200]
        ev.append(e)
        if e['exc']:
            break
    return dict(cfg=cfg, ev=ev)
