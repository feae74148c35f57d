"""Driver for networks, Q-functions, differentiable functions, initializers."""
import chainer
from chainer import functions as F
from chainer import links as L
import gym.spaces
import numpy as np

from chainerrl import action_value
from chainerrl import functions as cf
from chainerrl.functions.bound_by_tanh import bound_by_tanh
from chainerrl.functions.invert_gradients import invert_gradients
from chainerrl.functions.lower_triangular_matrix import \
    lower_triangular_matrix
from chainerrl.functions.mellowmax import mellowmax
from chainerrl.functions.scale_grad import scale_grad
from chainerrl import initializers
from chainerrl import links
from chainerrl.misc.init_like_torch import init_like_torch
from chainerrl import q_functions as qf
from chainerrl import v_functions as vf

K = 8192.
f32 = np.float32


def _i(x):
    x = float(x)
    if not np.isfinite(x):
        return 2 ** 30
    return int(max(-2 ** 30, min(2 ** 30, round(x * K))))


def _t(a):
    """Nested lists of scaled integers."""
    if isinstance(a, chainer.Variable):
        a = a.array
    if a is None:
        return []
    a = np.asarray(a)
    if a.ndim == 0:
        return _i(a)
    return [_t(x) for x in a]


class Pool(object):
    def __init__(self, pool):
        self.p, self.at = pool, 0

    def __call__(self, *shape, div=4.):
        n = int(np.prod(shape))
        r = [self.p[(self.at + k) % len(self.p)] for k in range(n)]
        self.at += n + 7
        return (np.asarray(r, np.float64).reshape(shape) / div).astype(f32)


def build(b, kind):
    ni, na, no, w, h = b['ni'], b['na'], b['no'], b['w'], b['h']
    nl = F.tanh if b['tanh'] else F.relu
    if kind in ('late', 'bnlate', 'quad', 'bnquad'):
        h = max(h, 1)
    if kind in ('mlpbn', 'bnsa', 'bnlate'):
        h = min(h, 2)
    sp = gym.spaces.Box(np.asarray(b['lo'][:na], f32) / 4,
                        np.asarray(b['hi'][:na], f32) / 4, dtype=f32)
    hid = [w] * h
    hl = ['hidden_layers/%d' % j for j in range(h)]
    bn = []
    sa = kind in ('sa', 'bnsa', 'late', 'bnlate', 'lstmsa')
    lins = None
    if kind == 'mlp':
        m = links.MLP(ni, no, hid, nonlinearity=nl)
        lins, dims = hl + ['output'], [ni] + hid + [no]
    elif kind == 'v':
        m = vf.FCVFunction(ni, h, w, nonlinearity=nl)
        no = 1
        lins = ['model/' + x for x in hl + ['output']]
        dims = [ni] + hid + [1]
    elif kind == 'sq':
        m = qf.FCStateQFunctionWithDiscreteAction(ni, no, w, h,
                                                  nonlinearity=nl)
        lins = ['model/' + x for x in hl + ['output']]
        dims = [ni] + hid + [no]
    elif kind == 'dist':
        m = qf.DistributionalFCStateQFunctionWithDiscreteAction(
            ni, na, b['nz'], b['vmin'] / 4, b['vmax'] / 4, w, h,
            nonlinearity=nl)
        lins = ['model/0/' + x for x in hl + ['output']]
        dims = [ni] + hid + [na * b['nz']]
    elif kind == 'mlpbn':
        m = links.MLPBN(ni, no, hid, normalize_input=b['nin'],
                        normalize_output=b['nout'], nonlinearity=nl)
        lins = [x + '/linear' for x in hl] + ['output']
        dims = [ni] + hid + [no]
        bn = [ni] * b['nin'] + hid + [no] * b['nout']
    elif kind == 'sa':
        m = qf.FCSAQFunction(ni, na, w, h, nonlinearity=nl)
        lins, dims = hl + ['output'], [ni + na] + hid + [1]
    elif kind == 'bnsa':
        m = qf.FCBNSAQFunction(ni, na, w, h, normalize_input=b['nin'],
                               nonlinearity=nl)
        lins = [x + '/linear' for x in hl] + ['output']
        dims = [ni + na] + hid + [1]
        bn = [ni + na] * b['nin'] + hid
    elif kind in ('late', 'bnlate'):
        cls = qf.FCLateActionSAQFunction if kind == 'late' else \
            qf.FCBNLateActionSAQFunction
        kw = {} if kind == 'late' else dict(normalize_input=b['nin'])
        m = cls(ni, na, w, h, nonlinearity=nl, **kw)
        lins = ['obs_mlp/output'] + \
            ['mlp/' + x for x in hl[:-1] + ['output']]
        shapes = [(w, ni)]
        d = [w + na] + hid[1:] + [1]
        shapes += [(o, i) for i, o in zip(d, d[1:])]
        if kind == 'bnlate':
            bn = [ni] * b['nin'] + [w]
    elif kind in ('lstmsq', 'lstmsa'):
        if kind == 'lstmsq':
            m = qf.FCLSTMStateQFunction(ni, no, w, h)
        else:
            m = qf.FCLSTMSAQFunction(ni, na, w, h, nonlinearity=nl)
        i, o = (ni, no) if kind == 'lstmsq' else (ni + na, 1)
        lins = ['fc/' + x for x in hl + ['output']] + ['lstm', 'out']
        d = [i] + hid + [w, w, o]
        shapes = [(q, p) for p, q in zip(d, d[1:])]
    else:
        if kind == 'quad':
            m = qf.FCQuadraticStateQFunction(ni, na, w, h, sp,
                                             scale_mu=b['sc'])
            lins = hl
        else:
            m = qf.FCBNQuadraticStateQFunction(
                ni, na, w, h, sp, scale_mu=b['sc'], normalize_input=b['nin'])
            lins = ['hidden_layers/%s/linear' % x for x in hl[:-1]] + \
                ['hidden_layers/output']
            bn = [ni] * b['nin'] + hid[1:]
        d = [ni] + hid
        shapes = [(q, p) for p, q in zip(d, d[1:])]
        lins = lins + ['v', 'mu', 'mat_diag']
        shapes += [(1, w), (na, w), (na, w)]
        if na > 1:
            lins.append('mat_non_diag')
            shapes.append((na * (na - 1) // 2, w))
    if kind not in ('late', 'bnlate', 'lstmsq', 'lstmsa', 'quad', 'bnquad'):
        shapes = [(o, i) for i, o in zip(dims, dims[1:])]
    cfg = dict(kind=kind, nl='relu' if kind == 'lstmsq' else
               'tanh' if b['tanh'] else 'relu', h=h,
               nin=b['nin'], nout=b['nout'], bn=bn, sa=sa, ni=ni, na=na,
               nz=b['nz'], vmin=b['vmin'] * 2048, vmax=b['vmax'] * 2048,
               sc=b['sc'], lo=_t(sp.low), hi=_t(sp.high))
    return m, cfg, lins, shapes


def put(m, lins, shapes, pool):
    d = dict(m.namedparams())
    P = []
    for name, (o, i) in zip(lins, shapes):
        div = 256. if name == 'mat_diag' else 64. if name == 'mat_non_diag' \
            else 4.
        W, c = pool(o, i, div=div), pool(o, div=div)
        P.append(dict(W=_t(W), b=_t(c)))
        if name == 'lstm':
            # gates: new input open, old state forgotten, output open
            up = np.zeros((4 * o, i), f32)
            ub = np.tile(np.asarray([0, 30, -30, 30], f32), o)
            up[::4], ub[::4] = W, c
            d['/lstm/upward/W'].array[...] = up
            d['/lstm/upward/b'].array[...] = ub
            d['/lstm/lateral/W'].array[...] = pool(4 * o, o)
            continue
        if '/%s/mu/W' % name in d:
            for x, v in (('mu/W', W), ('mu/b', c)):
                d['/%s/%s' % (name, x)].array[...] = v
            for x in ('sigma/W', 'sigma/b'):
                d['/%s/%s' % (name, x)].array[...] = 0
        else:
            d['/%s/W' % name].array[...] = W
            d['/%s/b' % name].array[...] = c
    return P


def net(job):
    b, kind = job['b'], job['kind']
    m, cfg, lins, shapes = build(b, kind)
    quad = kind in ('quad', 'bnquad')
    ev = []
    noisy = False
    pool, xs = Pool(b['pool']), Pool(b['xs'])

    def setp(at):
        pool.at = at
        ev.append(dict(op='set', P=put(m, lins, shapes, pool), exc=''))
    setp(0)
    for o in b['ops']:
        op = o['op']
        try:
            if op == 'set':
                setp(o['p'])
                continue
            if op == 'noisy':
                if noisy or kind in ('lstmsq', 'lstmsa'):
                    continue
                noisy = True
                total = len([x for x in m.links() if isinstance(x, L.Linear)])
                kw = {} if b['scale'] == 8 else \
                    dict(sigma_scale=b['scale'] / 4)
                links.to_factorized_noisy(m, **kw)
                ns = [x for x in m.links()
                      if isinstance(x, links.FactorizedNoisyLinear)]
                pl = [x for x in m.links() if isinstance(x, L.Linear)]
                e = dict(op='noisy', exc='', total=total, noisy=len(ns),
                         plain=len(pl) - 2 * len(ns),
                         scale=_i(kw.get('sigma_scale', .4)))
                for k in ('sigma', 'mu'):
                    W = [getattr(x, k).W.array for x in ns]
                    e['sig' if k == 'sigma' else 'mu'] = [
                        [x.shape[1], _i(x.min()), _i(x.max())] for x in W]
                ev.append(e)
                setp(o['p'])
                continue
            train = op == 'train' and not quad
            B = o['B']
            if train and 'bn' in kind:
                B = max(B, 2)
            xs.at = o['at']
            x = xs(B, b['ni'])
            a = xs(B, b['na'])
            xv, av = chainer.Variable(x), chainer.Variable(a)
            if hasattr(m, 'reset_state'):
                m.reset_state()
            elif hasattr(m, 'lstm'):
                m.lstm.reset_state()
            e = dict(op='look', exc='', train=train, x=_t(x), grad=False,
                     a=_t(a) if cfg['sa'] else [[]] * B)
            with chainer.using_config('train', train):
                if quad:
                    quad_event(e, m(xv), xs, cfg, x)
                    e['direct'] = False
                else:
                    y = m(xv, av) if cfg['sa'] else m(xv)
                    if kind in ('sq', 'lstmsq'):
                        y = y.q_values
                    if kind == 'dist':
                        e['z'] = _t(y.z_values)
                        e['y'] = _t(y.q_dist.array.reshape(B, -1))
                    else:
                        w = xs(*y.shape)
                        m.cleargrads()
                        F.sum(y * w).backward()
                        e.update(y=_t(y), w=_t(w), grad=not (
                            train and cfg['bn']), gx=_t(xv.grad),
                            ga=_t(av.grad) if cfg['sa'] else [])
        except Exception as exc:  # noqa
            if job.get('debug'):
                raise
            e = dict(op=op, exc=repr(exc)[:200])
        ev.append(e)
        if e['exc']:
            break
    return dict(cfg=cfg, ev=ev)


def quad_event(e, q, xs, cfg, x):
    B, n = q.mu.shape
    u, u2 = xs(B, n), xs(B, n)
    uv = chainer.Variable(u)
    val = q.evaluate_actions(uv)
    F.sum(val).backward()
    mx = q.max
    idx = list(range(B))[1:] or [0]
    s = q[idx[0]:]
    e.update(op='quad', u=_t(u), u2=_t(u2), q=_t(val), gu=_t(uv.grad),
             mu=_t(q.mu), mat=_t(q.mat), v=_t(q.v.array.reshape(-1)),
             greedy=_t(q.greedy_actions), max=_t(mx),
             adv=_t(q.compute_advantage(uv)),
             dadv=_t(q.compute_double_advantage(uv, u2)),
             lo=cfg['lo'], hi=cfg['hi'], idx=[k + 1 for k in idx],
             sq=_t(s.evaluate_actions(u[idx[0]:])), smax=_t(s.max))


def direct(job):
    b = job['b']
    n = b['na']
    cfg = dict(kind='quad', h=0, bn=[], sa=False, nin=False, nout=False)
    pool, xs = Pool(b['pool']), Pool(b['xs'])
    ev = []
    for o in b['ops']:
        B = o['B']
        pool.at, xs.at = o['p'], o['at']
        T = np.tril(pool(B, n, n)) / 2
        mat = np.einsum('bij,bkj->bik', T, T)
        lo = np.asarray(b['lo'][:n], f32) / 8 \
            if b['bound'] in ('both', 'lo') else None
        hi = np.asarray(b['hi'][:n], f32) / 8 \
            if b['bound'] in ('both', 'hi') else None
        e = dict(op='quad', exc='', direct=True, x=[], a=[], train=False)
        V = chainer.Variable
        q = action_value.QuadraticActionValue(
            V(xs(B, n)), V(mat), V(xs(B, 1) if b['sc'] else xs(B)),
            min_action=lo, max_action=hi)
        quad_event(e, q, xs, dict(lo=_t(lo), hi=_t(hi)), None)
        ev.append(e)
    return dict(cfg=cfg, ev=ev)


def fns(job):
    b = job['b']
    n = b['w']
    xs, pool = Pool(b['xs']), Pool(b['pool'])
    ev = []
    lo, hi = np.asarray(b['lo'][:n], f32) / 4, np.asarray(b['hi'][:n], f32) / 4

    def wrap(a):
        return chainer.Variable(a)

    def emit(f, **kw):
        ev.append(dict(op='fn', exc='', f=f, **{
            k: (v if isinstance(v, int) else _t(v)) for k, v in kw.items()}))
    for o in b['ops']:
        B = o['B']
        xs.at, pool.at = o['at'], o['p']
        x, g = wrap(xs(B, n)), xs(B, n)
        y = bound_by_tanh(x, lo, hi)
        y.grad = g
        y.backward()
        emit('bound', x=x, y=y, g=g, gx=x.grad, lo=lo, hi=hi)
        x = wrap(xs(B, n))
        y = invert_gradients(x, lo, hi)
        y.grad = g
        y.backward()
        emit('invert', x=x, y=y, g=g, gx=x.grad, lo=lo, hi=hi)
        d, z = wrap(xs(B, b['no'])), wrap(xs(B, b['no'] * (b['no'] - 1) // 2))
        y = lower_triangular_matrix(d, z)
        gm = xs(*y.shape)
        y.grad = gm
        y.backward()
        emit('tril', x=d, z=z, y=y, gm=gm, gx=d.grad, gz=z.grad)
        v = xs(B, n) if b['axis'] == 1 else xs(n, B)
        x = wrap(v)
        kw = {} if b['om'] == 4 else dict(omega=b['om'] / 4)
        if b['axis'] == 0:
            kw['axis'] = 0
        y = mellowmax(x, **kw)
        g1 = xs(*y.shape)
        y.grad = g1
        y.backward()
        t = (lambda a: a) if b['axis'] == 1 else np.transpose
        emit('mellow', x=t(v), y=y, g=g1, gx=t(x.grad), om=b['om'])
        x, z, w = wrap(xs(B, n)), wrap(pool(B, n)), wrap(xs(B, n))
        y = cf.muladd(x, z, w)
        y.grad = g
        y.backward()
        emit('muladd', x=x, z=z, t=w, y=y, g=g, gx=x.grad, gz=z.grad,
             gt=w.grad)
        x = wrap(xs(B, n))
        c = float(pool(1)[0])
        y = scale_grad(x, c)
        y.grad = g
        y.backward()
        emit('scale', x=x, y=y, g=g, gx=x.grad, c=_i(c))
        for f in ('sum', 'wsum'):
            vs = [wrap(xs(n)) for _ in range(B)]
            c = pool(B).tolist() if f == 'wsum' else [1.] * B
            y = cf.sum_arrays(tuple(vs)) if f == 'sum' else \
                cf.weighted_sum_arrays(tuple(vs), c)
            g1 = xs(n)
            y.grad = g1
            y.backward()
            emit(f, x=[a.array for a in vs], y=y, g=g1,
                 gx=[a.grad for a in vs], c=c)
    return dict(cfg=dict(kind='fn', bn=[]), ev=ev)


def duel(job):
    b = job['b']
    rng = np.random.RandomState(job['seed'])
    np.random.seed(job['seed'])
    na, nz, B = b['na'] + 1, (b['nz'] if job['dist'] else 0), 2
    x = rng.uniform(0, 1, (B, 4, 84, 84)).astype(f32)
    pool = Pool(b['xs'])
    if nz:
        m = qf.DistributionalDuelingDQN(na, nz, b['vmin'] / 4, b['vmax'] / 4)
        aw, vw = 'a_stream', 'v_stream'
    else:
        m = qf.DuelingDQN(na)
        aw, vw = 'a_stream/output', 'v_stream/output'
    d = dict(m.namedparams())

    def out():
        with chainer.no_backprop_mode(), chainer.using_config('train', False):
            y = m(x)
        return (y.q_dist if nz else y.q_values).array.copy()
    e = dict(op='duel', exc='', nz=nz, d=[])
    A, V = pool(na, max(nz, 1)), pool(max(nz, 1))
    dA, dV = pool(na), pool(1)
    e.update(dA=_t(dA), dV=_i(dV[0]))
    if not nz:
        q0 = out()
        d['/%s/b' % aw].array[...] += dA
        d['/%s/b' % vw].array[...] += dV
        e['d'] = _t(out() - q0)
    d['/%s/W' % aw].array[...] = 0
    d['/%s/b' % aw].array[...] = 0
    q = out()
    e['m'] = _t(q) if not nz else _t(
        q.transpose(0, 2, 1).reshape(B * nz, na))
    d['/%s/W' % vw].array[...] = 0
    d['/%s/b' % aw].array[...] = A.reshape(-1)
    d['/%s/b' % vw].array[...] = V
    e['q'] = _t(out())
    e.update(A=_t(A[:, 0]) if not nz else _t(A), V=_t(V))
    ev = [e]
    for cls, want, bias in (
            (links.NatureDQNHead, [4, 8, 8, 4, 4, 64, 3, 3, 64], .1),
            (links.NIPSDQNHead, None, .1)):
        h = cls(n_output_channels=5)
        for w in h.params():
            if w.array.ndim == 1:
                continue
        y = h(x)
        sh = [list(w.shape) for k, w in sorted(h.namedparams())
              if w.array.ndim > 1]
        nat = cls is links.NatureDQNHead
        ev.append(dict(op='shape', exc='', nature=nat, got=sh,
                       out=list(y.shape), least=_i(y.array.min())))
    return dict(cfg=dict(kind='duel', bn=[]), ev=ev)


def noise(job):
    b = job['b']
    np.random.seed(job['seed'])
    ni, no, bias = b['ni'], b['no'], not b['sc']
    m = links.FactorizedNoisyLinear(L.Linear(ni, no, nobias=not bias))
    pool = Pool(b['pool'])
    sW = np.sign(pool(no, ni)) * 2. ** (np.abs(pool(no, ni)) - 1)
    sb = np.sign(pool(no)) * 2. ** (np.abs(pool(no)) - 1)
    mW, mb = pool(no, ni), pool(no)
    m.mu.W.array[...], m.sigma.W.array[...] = mW, sW
    if bias:
        m.mu.b.array[...], m.sigma.b.array[...] = mb, sb
    x = np.concatenate([np.zeros((1, ni)), np.eye(ni)]).astype(f32)
    N = 400
    Rs, Es = [], []
    for _ in range(N):
        y = m(x).array.astype(np.float64)
        Rs.append(((y[1:] - y[:1]) - mW.T) / sW.T)
        Es.append((y[0] - mb) / sb if bias else y[0])
    R, E = np.asarray(Rs), np.asarray(Es)
    cnt = [[int((R[:, 0, 0] < 0).sum()), 5000]]
    if bias:
        X = R[:, :, 0] / E[:, :1]
        for z in (E[:, 0], E[:, -1], X[:, 0], X[:, -1]):
            cnt += [[int((z < 0).sum()), 5000],
                    [int((abs(z) < 1).sum()), 6827],
                    [int((abs(z) < .5).sum()), 1974]]
        cnt.append([int(((X[:, 0] < 0) & (E[:, 0] < 0)).sum()), 2500])
        if no > 1:
            cnt.append([int(((E[:, 0] < 0) & (E[:, 1] < 0)).sum()), 2500])
        if ni > 1:
            cnt.append([int(((X[:, 0] < 0) & (X[:, 1] < 0)).sum()), 2500])
    zero = bool(np.all(E == 0))
    return dict(cfg=dict(kind='noise', bn=[]), ev=[dict(
        op='noise', exc='', bias=bias, R=_t(R[:5]), y0=_t(E[:5]), N=N,
        cnt=cnt, zero=zero)])


def init(job):
    b = job['b']
    np.random.seed(job['seed'])
    s = b['scale'] / 4
    w = 40
    mk = [
        (lambda: links.MLP(w, 3, [w], last_wscale=s), 'output'),
        (lambda: links.MLP(w, 3, [], last_wscale=s), 'output'),
        (lambda: links.MLPBN(w, 3, [w], last_wscale=s), 'output'),
        (lambda: links.MLPBN(w, 3, [], last_wscale=s), 'output'),
        (lambda: qf.FCSAQFunction(3, 3, w, 1, last_wscale=s), 'output'),
        (lambda: qf.FCBNSAQFunction(3, 3, w, 1, last_wscale=s), 'output'),
        (lambda: qf.FCLateActionSAQFunction(3, 3, w, 2, last_wscale=s),
         'mlp/output'),
        (lambda: qf.FCBNLateActionSAQFunction(3, 3, w, 2, last_wscale=s),
         'mlp/output'),
        (lambda: qf.FCStateQFunctionWithDiscreteAction(
            3, 3, w, 1, last_wscale=s), 'model/output'),
        (lambda: qf.DistributionalFCStateQFunctionWithDiscreteAction(
            3, 3, 3, 0, 1, w, 1, last_wscale=s), 'model/0/output'),
        (lambda: vf.FCVFunction(3, 1, w, last_wscale=s), 'model/output'),
        (lambda: qf.FCLSTMSAQFunction(3, 3, w, 1, last_wscale=s), 'out'),
    ]
    ev = []
    f, name = mk[job['which'] % len(mk)]
    Ws = []
    while sum(x.size for x in Ws) < 800:
        Ws.append(dict(f().namedparams())['/%s/W' % name].array)
    W = np.concatenate([x.ravel() for x in Ws]) * np.sqrt(Ws[0].shape[1])
    for q, p in ((-.6745 * s, 2500), (0, 5000), (.6745 * s, 7500),
                 (1.6449 * s, 9500)):
        ev.append(dict(op='freq', exc='', z=[int((W < q).sum()), W.size, p]))
    m = links.Sequence(L.Linear(25, 40), L.Convolution2D(3, 20, 2),
                       chainer.ChainList(L.Linear(25, 40)))
    init_like_torch(m)
    for x in m.links():
        if isinstance(x, (L.Linear, L.Convolution2D)):
            for a in (x.W.array, x.b.array):
                n = int(np.prod(x.W.shape[1:]))
                u = a.ravel() * np.sqrt(n)
                ev.append(dict(op='bounds', exc='', z=[
                    n, _i(abs(a).max())]))
                for q, p in ((-.5, 2500), (0, 5000), (.5, 7500)):
                    ev.append(dict(op='freq', exc='', z=[
                        int((u < q).sum()), u.size, p]))
    W = np.zeros((b['no'], b['w']) if b['sc'] else (b['no'], b['ni'], 2), f32)
    o = initializers.Orthogonal(scale=s) if b['scale'] != 8 else \
        initializers.Orthogonal()
    o(W)
    ev.append(dict(op='orth', exc='', W=_t(W.reshape(b['no'], -1)),
                   scale=_i(s if b['scale'] != 8 else 1.1)))
    return dict(cfg=dict(kind='init', bn=[]), ev=ev)


def seq(job):
    b = job['b']
    got = []
    sigs = ['x', 'x, p=0', 'x, q=0', 'x, p=0, q=0', 'x, **kw', 'x, q=0, *z']
    names = [[], ['p'], ['q'], ['p', 'q'], [], ['q']]
    ev = []
    for o in b['ops']:
        branched = o['p'] % 2 == 1
        acc, layers = [], []
        del got[:]
        for j in range(b['w']):
            k = (o['at'] // (j + 1) + o['p']) % (5 if not branched else 2)
            if branched:
                k = 4 if k == 0 else 3
            add = b['pool'][j + o['at'] % 40]
            acc.append(dict(add=add, all=k == 4, names=names[k]))
            ns = {}
            body = "    d = dict(locals()); d.pop('self', None)\n" \
                   "    d.update(d.pop('kw', {}))\n    x = d.pop('x')\n" \
                   "    LOG.append(sorted(n for n in d if d[n] != 0 " \
                   "and n in 'pq'))\n    return x + ADD\n"
            env = dict(LOG=got, ADD=add, chainer=chainer)
            if branched or (o['B'] + j) % 2:
                src = 'class A(chainer.Link):\n  def __call__(self, %s):\n' \
                    % sigs[k] + ''.join(
                        '  ' + x + '\n' for x in body.splitlines())
                exec(src, env, ns)
                layers.append(ns['A']())
            else:
                exec('def f(%s):\n' % sigs[k] + body, env, ns)
                layers.append(ns['f'])
        kw = ['p', 'q'][:o['B'] - 1][-2:] if not branched else \
            [['p'], ['q'], ['p', 'q'], []][o['B'] - 1]
        x = o['at']
        try:
            m = (links.Branched if branched else links.Sequence)(*layers)
            y = m(x, **{k: 5 for k in kw})
            e = dict(op='seq', exc='', out=list(y) if branched else [y])
        except Exception as exc:  # noqa
            if job.get('debug'):
                raise
            e = dict(op='seq', exc=repr(exc)[:200])
        e.update(branched=branched, acc=acc, kw=kw, x=x,
                 got=[list(z) for z in got])
        ev.append(e)
    return dict(cfg=dict(kind='seq', bn=[]), ev=ev)


FAMS = dict(direct=direct, fns=fns, duel=duel, noise=noise, init=init,
            seq=seq)


def run(job):
    return FAMS.get(job['kind'], net)(job)
