"""Driver for optimizers, copies of parameters, schedules and solvers."""
import chainer
from chainer import links as L
import numpy as np

from chainerrl.experiments.hooks import LinearInterpolationHook
from chainerrl.misc import copy_param as cp
from chainerrl.misc.batch_states import batch_states
from chainerrl.misc.conjugate_gradient import conjugate_gradient
from chainerrl.optimizers import NonbiasWeightDecay
from chainerrl.optimizers import RMSpropAsync

K = 8192
f32 = np.float32


def _i(x):
    x = float(x)
    if not np.isfinite(x):
        return 2 ** 29
    return int(max(-2 ** 29, min(2 ** 29, round(x * K))))


def _v(a):
    return [_i(x) for x in np.asarray(a).ravel()]


class Leaf(chainer.Link):
    def __init__(self, names):
        super().__init__()
        with self.init_scope():
            for k in names:
                setattr(self, k, chainer.Parameter(np.zeros(2, f32)))


def net(shape):
    """Nested links; parameters called b, beta, W... links called b."""
    m = chainer.Chain()
    with m.init_scope():
        m.l1 = Leaf(['W', 'b'])
        if shape & 1:
            m.b = Leaf(['W', 'b', 'bb'])
        if shape & 2:
            m.cl = chainer.ChainList(Leaf(['beta']), Leaf(['b', 'a']))
        if shape & 4:
            m.bn = L.BatchNormalization(2)
        if shape & 8:
            m.deep = chainer.Sequential(
                chainer.ChainList(L.BatchNormalization(1), Leaf(['b'])))
        if shape & 16:
            m.p = chainer.Parameter(np.zeros((1, 2), f32))
    return m


class Bench(object):
    def __init__(self, b):
        self.b = b
        self.m = [net(b['shape']) for _ in range(2)]
        self.names = [k for k, _ in sorted(self.m[0].namedparams())]
        pool = b['pool']
        at = 0
        self.opt, cfg = [], []
        for m, o in zip(self.m, b['opt']):
            for _, p in sorted(m.namedparams()):
                self.fill(p.array, at)
                at += 5
            for s in self.stats(m):
                self.fill(s, at)
                at += 3
            m.cleargrads()
            lr = o['lr'] / 8
            z = dict(kind=o['kind'], alpha=0, eps=0, decay=o['decay'])
            if o['kind'] == 'rms':
                kw = {}
                if o['eps']:
                    kw['eps'] = o['eps'] / 64
                if o['lr']:
                    kw['lr'] = lr
                if o['alpha'] != 990:
                    kw['alpha'] = o['alpha'] / 1000
                opt = RMSpropAsync(**kw)
                z.update(alpha=o['alpha'], eps=o['eps'] * 64 * K,
                         lr=_i(lr) if o['lr'] else 82)
            else:
                opt = chainer.optimizers.SGD(lr or .125)
                z['lr'] = _i(lr or .125)
            opt.setup(m)
            if o['decay']:
                opt.add_hook(NonbiasWeightDecay(o['decay'] / 8))
            self.opt.append(opt)
            cfg.append(z)
        self.cfg = dict(
            kind='bench', opt=cfg, H=self.snap(),
            names=[k.split('/')[-1] for k in self.names],
            total=b['total'], to=b['to'] * K // 8,
            **{'from': b['from'] * K // 8})

    def fill(self, a, at):
        p = self.b['pool']
        a[...] = np.asarray([p[(at + k) % 60] for k in range(a.size)],
                            f32).reshape(a.shape) / 4

    def stats(self, m):
        return [s for _, x in sorted(m.namedlinks())
                if isinstance(x, L.BatchNormalization)
                for s in (x.avg_mean, x.avg_var)]

    def snap(self):
        return [dict(
            P=[_v(p.array) for _, p in sorted(m.namedparams())],
            G=[[] if p.grad is None else _v(p.grad)
               for _, p in sorted(m.namedparams())],
            S=[_v(s) for s in self.stats(m)]) for m in self.m]

    def do(self, o):
        op, h = o['op'], o['h'] - 1
        m, src = self.m[h], self.m[1 - h]
        e = dict(op=op, h=o['h'], exc='')
        if op == 'grad':
            e['G'] = []
            for k, (_, p) in enumerate(sorted(m.namedparams())):
                if o['none'] >> (k % 7) & 1 and k % 2:
                    p.grad = None
                    e['G'].append([])
                else:
                    g = np.zeros_like(p.array)
                    self.fill(g, o['at'] + 2 * k)
                    p.grad = g
                    e['G'].append(_v(g))
        elif op == 'clear':
            m.cleargrads()
        elif op == 'copy':
            if o['via']:
                cp.synchronize_parameters(src=src, dst=m, method='hard')
            else:
                cp.copy_param(target_link=m, source_link=src)
        elif op == 'soft':
            e['tau'] = o['tau']
            if o['via']:
                cp.synchronize_parameters(src=src, dst=m, method='soft',
                                          tau=o['tau'] / 8)
            else:
                cp.soft_copy_param(m, src, o['tau'] / 8)
        elif op == 'cgrad':
            cp.copy_grad(m, src)
        elif op == 'update':
            self.opt[h].update()
        else:
            got = []
            b = self.b
            env, agent = object(), self.opt[h]

            def setter(*args):
                got.append(args)
                args[1].lr = args[2]
            LinearInterpolationHook(
                b['total'], b['from'] / 8, b['to'] / 8, setter)(
                    env, agent, o['step'])
            e.update(step=o['step'], v=_i(agent.lr), calls=len(
                [1 for x in got if x[0] is env and x[1] is agent]) +
                2 * (len(got) != 1))
        e['H'] = self.snap()
        return e


def bench(job):
    b = job['b']
    x = Bench(b)
    ev = []
    for o in b['ops']:
        try:
            e = x.do(o)
        except Exception as exc:  # noqa
            if job.get('debug'):
                raise
            e = dict(op=o['op'], exc=repr(exc)[:200])
        ev.append(e)
        big = [abs(v) for m in x.m for p in m.params()
               for v in p.array.ravel()]
        if e['exc'] or not max(big) < 8:
            break
    return dict(cfg=x.cfg, ev=ev)


def solve(job):
    b = job['b']
    n, p = b['n'], b['pool']
    ev = []
    for j in range(3):
        T = np.asarray(p[j * 9:j * 9 + n * n], np.float64).reshape(n, n) / 8
        A = T.dot(T.T) + np.eye(n) / 2
        v = np.asarray(p[j * 4 + 30:j * 4 + 30 + n], np.float64) / 4
        if b['zero']:
            v *= 0
        dt = (f32, np.float64)[j % 2]
        A, v = A.astype(dt), v.astype(dt)
        kw = {}
        if b['iters'] != 10:
            kw['max_iter'] = b['iters']
        if b['tol']:
            kw['tol'] = b['tol'] / 4
        e = dict(op='solve', exc='', A=[_v(r) for r in A], b=_v(v),
                 iters=b['iters'], tol=b['tol'] * K // 4)
        v0 = v.copy()
        try:
            x = conjugate_gradient(A.dot, v, **kw)
            e.update(x=_v(x), like=x.dtype == dt and x.shape == v.shape and
                     bool((v == v0).all()), big=int(abs(x).sum() * 4))
        except Exception as exc:  # noqa
            e['exc'] = repr(exc)[:200]
        ev.append(e)
    for nc in (1, 2, 3):
        k = b['total']
        obs = p[:b['B']]
        one = np.ones((2, b['n']), f32)
        try:
            if nc == 1:
                y = batch_states([one * x for x in obs], np,
                                 lambda s: s * k)
                nested = isinstance(y, tuple)
                y = [y]
            else:
                y = batch_states(
                    [tuple(one * x for _ in range(nc)) for x in obs], np,
                    lambda s: tuple(z * k + c for c, z in enumerate(s)))
                nested = isinstance(y, tuple)
            ok = all(a.shape == (len(obs), 2, b['n']) and
                     (a == a[:, :1, :1]).all() for a in y)
            e = dict(op='batch', exc='', nc=nc, obs=obs, phi=k,
                     nested=nested,
                     out=[[int(r[0, 0]) for r in a] for a in y] if ok else [])
        except Exception as exc:  # noqa
            e = dict(op='batch', exc=repr(exc)[:200])
        ev.append(e)
    return dict(cfg=dict(kind='solve'), ev=ev)


def run(job):
    return dict(bench=bench, solve=solve)[job['kind']](job)
