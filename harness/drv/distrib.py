"""Driver for action distributions and the policies that make them."""
import chainer
from chainer import functions as F
from chainer import links as L
import numpy as np

from chainerrl import distribution
from chainerrl import links
from chainerrl import policies

K = 8192.


def _i(x):
    x = float(x)
    if not np.isfinite(x):
        return 2 ** 30
    return int(max(-2 ** 30, min(2 ** 30, round(x * K))))


def _m(a):
    return [[_i(x) for x in row] for row in a]


def _arr(v):
    return v.array if isinstance(v, chainer.Variable) else v


def _set(link, bias):
    n = len(bias)
    m, k = link.W.shape if link.W.array is not None else (n, n)
    link.W.array[...] = np.eye(m, k, dtype='f')
    link.b.array[...] = np.asarray(bias, dtype='f')[:m] / 4


def _mlp(m, hid, bo):
    for link, b in zip(getattr(m, 'hidden_layers', []), hid):
        _set(link, b)
    _set(m.output, bo)


def _linears(chain):
    return [x for x in chain.links() if isinstance(x, L.Linear)]


def make(s):
    via = s['via']
    f32 = np.float32
    rows = np.asarray(s['rows'], f32) / 4
    B, n = rows.shape
    var = np.asarray(s['vrows'], f32) / f32(K)
    wrap = chainer.Variable if s['asvar'] else (lambda a: a)
    beta, mp, w = s['beta2'] / 2, s['mp'] / 32, s['w2'] / 2
    nonlin = F.relu if s['relu'] else F.identity
    lo, hi = np.asarray(s['lo'], f32) / 4, np.asarray(s['hi'], f32) / 4
    h = dict(n_hidden_layers=len(s['hid']), n_hidden_channels=n)
    vt = 'spherical' if s['sph'] else 'diagonal'
    bnd = dict(min_action=lo, max_action=hi, bound_mean=s['bound'])
    vfunc = F.exp if s['vexp'] else F.softplus
    vinit = s['vb'][0] / 4 if s['sph'] else 0
    if via == 'softmax':
        kw = {}
        if beta != 1:
            kw['beta'] = beta
        if mp:
            kw['min_prob'] = mp
        return distribution.SoftmaxDistribution(wrap(rows), **kw)
    if via == 'mellow':
        return distribution.MellowmaxDistribution(wrap(rows), omega=w)
    if via == 'gauss':
        return distribution.GaussianDistribution(wrap(rows), wrap(var))
    if via == 'squash':
        return distribution.SquashedGaussianDistribution(
            wrap(rows), wrap(var))
    if via == 'det':
        return distribution.ContinuousDeterministicDistribution(wrap(rows))
    if via == 'softpol':
        if s['dflt'] == 0 and not s['hid']:
            p = policies.SoftmaxPolicy(L.Linear(n, n), beta=beta, min_prob=mp)
            _set(p.model, s['bo'])
        else:
            p = policies.FCSoftmaxPolicy(
                n, n, beta=beta, min_prob=mp, nonlinearity=nonlin, **h)
            _mlp(p.model, s['hid'], s['bo'])
    elif via == 'mellowpol':
        p = policies.MellowmaxPolicy(links.MLP(
            n, n, (n,) * len(s['hid']), nonlinearity=nonlin), omega=w)
        _mlp(p.model, s['hid'], s['bo'])
    elif via == 'gausspol':
        p = policies.FCGaussianPolicy(
            n, n, var_type=vt, nonlinearity=nonlin, var_bias=vinit,
            min_var=s['minv'] / K, **h, **bnd)
        for link, b in zip(p.hidden_layers, s['hid']):
            _set(link, b)
        _set(p.mean_layer, s['bo'])
        p.var_layer.W.array[...] = np.eye(
            *p.var_layer.W.shape, dtype='f')
        if not s['sph']:
            _set(p.var_layer, s['vb'])
    elif via == 'gausssic':
        p = policies.FCGaussianPolicyWithStateIndependentCovariance(
            n, n, var_type=vt, nonlinearity=nonlin, var_func=vfunc,
            var_param_init=vinit, **h, **bnd)
        for link, b in zip(_linears(p), s['hid'] + [s['bo']]):
            _set(link, b)
        if not s['sph']:
            p.var_param.array[...] = np.asarray(s['vb'], 'f') / 4
    elif via == 'gaussfix':
        v = np.asarray(s['vk'], f32) / f32(K)
        p = policies.FCGaussianPolicyWithFixedCovariance(
            n, n, var=float(v[0]) if s['sph'] else v,
            nonlinearity=nonlin, **h, **bnd)
        for link, b in zip(_linears(p), s['hid'] + [s['bo']]):
            _set(link, b)
    elif via == 'gausshead':
        p = policies.GaussianHeadWithStateIndependentCovariance(
            n, var_type=vt, var_func=vfunc, var_param_init=vinit)
        if not s['sph']:
            p.var_param.array[...] = np.asarray(s['vb'], 'f') / 4
        return p(wrap(rows))
    elif via == 'detpol':
        bnd = dict(min_action=lo, max_action=hi, bound_action=s['bound'])
        if s['dflt'] == 0 and not s['hid']:
            f = (lambda y: policies_bound(y, lo, hi)) if s['bound'] else None
            p = policies.ContinuousDeterministicPolicy(
                L.Linear(n, n), action_filter=f)
            _set(p.model, s['bo'])
        elif s['dflt'] == 1 and not s['hid']:
            p = policies.ContinuousDeterministicPolicy(
                L.Linear(n, n), model_call=lambda m, x: m(x),
                action_filter=(lambda y: policies_bound(y, lo, hi))
                if s['bound'] else None)
            _set(p.model, s['bo'])
        else:
            p = policies.FCDeterministicPolicy(
                n, action_size=n, nonlinearity=nonlin, **h, **bnd)
            _mlp(p.model, s['hid'], s['bo'])
    return p(rows)


def policies_bound(y, lo, hi):
    from chainerrl.functions.bound_by_tanh import bound_by_tanh
    return bound_by_tanh(y, lo, hi)


CAT = ('softmax', 'softpol', 'mellow', 'mellowpol')


class Handle:
    def __init__(self, d, s, root, fresh):
        self.d, self.s, self.root = d, s, root
        via = s['via']
        self.cat = via in CAT
        self.squ = via == 'squash'
        self.det = via in ('det', 'detpol')
        graph = fresh and (s['asvar'] or via not in (
            'softmax', 'mellow', 'gauss', 'squash', 'det', 'gausshead'))
        self.hasg = graph and not self.det and not via.startswith('mellow')
        self.hasgv = (fresh and not self.cat and not self.det
                      and (s['asvar'] if via in ('gauss', 'squash')
                           else via != 'gaussfix'))


def grads(y, params):
    y = F.sum(y)
    out = chainer.grad([y], list(params))
    return [np.zeros(p.shape, 'f') if g is None else g.array
            for g, p in zip(out, params)]


def look(hd, e, x, peek):
    d = hd.d
    if hd.det:
        e['most'] = _m(_arr(d.most_probable))
        return
    if peek:
        with chainer.no_backprop_mode():
            d.most_probable
            if hd.cat:
                d.all_prob, d.all_log_prob
            if not hd.squ:
                d.entropy
    if hd.cat:
        n = d.all_prob.shape[1]
        B = d.all_prob.shape[0]
        a = (np.asarray(x)[:B, 0] % n).astype('i')
        e['acts'] = a.tolist()
        lp = d.log_prob(a)
        e['allp'] = _m(_arr(d.all_prob))
        e['alllp'] = _m(_arr(d.all_log_prob))
        e['most'] = [int(v) for v in _arr(d.most_probable)]
        xs = a
    else:
        B = d.params[0].shape[0]
        xs = (np.asarray(x, np.float32)[:B] / (8 if hd.squ else 4))
        e['x'] = _m(xs)
        vx = chainer.Variable(xs)
        lp = d.log_prob(vx)
        e['gx'] = _m(grads(lp, [vx])[0])
        e['most'] = _m(_arr(d.most_probable))
    e['lp'] = [_i(v) for v in _arr(lp)]
    e['prob'] = [_i(v) for v in _arr(d.prob(xs))]
    if not hd.squ:
        e['ent'] = [_i(v) for v in _arr(d.entropy)]
    if hd.hasg or hd.hasgv:
        g = grads(lp, d.params)
        e['glp'] = _m(g[0])
        if hd.cat:
            e['ge'] = _m(grads(d.entropy, d.params)[0])
        else:
            e['glv'] = _m(g[1])
            if not hd.squ and hd.hasgv:
                ge = grads(d.entropy, d.params)
                e['ge'] = _m(ge[1] + 1000 * ge[0])


def sample(hd, e, x, N):
    d = hd.d
    ss = [_arr(d.sample()) for _ in range(N)]
    a = np.asarray(ss)
    if hd.cat:
        B, n = d.all_prob.shape
        e['shape'] = a.shape == (N, B) and a.dtype == np.int32 and \
            int(a.min()) >= 0 and int(a.max()) < n
        hit = a[:, :, None] == np.arange(n)[None, None]
        e['comp'] = -1
    else:
        B, n = d.params[0].shape
        e['shape'] = a.shape == (N, B, n) and a.dtype == np.float32
        thr = np.asarray(x, np.float32)[:B] / (8 if hd.squ else 4)
        e['thr'] = _m(thr)
        hit = a < thr[None]
        e['comp'] = int((hit[:, 0, 0] & hit[:, 0, 1]).sum()) if n > 1 else -1
    e['cnt'] = hit.sum(0).tolist()
    j1, j2 = int(x[0][0]) % n, int(x[-1][-1]) % n
    e.update(N=N, j1=j1 + 1, j2=j2 + 1)
    e['two'] = int((hit[:, 0, j1] & hit[:, 1, j2]).sum()) if B > 1 else -1
    e['succ'] = int((hit[0::2, 0, j1] & hit[1::2, 0, j1]).sum())


def swlp(hd, e):
    d = hd.d
    if hd.det:
        e['y'] = _m(_arr(d.sample()))
        return
    y, lp = d.sample_with_log_prob()
    e['lp'] = [_i(v) for v in _arr(lp)]
    if hd.cat:
        e['acts'] = [int(v) for v in _arr(y)]
        return
    e['y'] = _m(_arr(y))
    if hd.hasg or hd.hasgv:
        g = grads(y, d.params)
        e['gm'], e['gv'] = _m(g[0]), _m(g[1])


def index(o, B):
    how = o['how']
    if how == 1:
        s = o['s'] % B
        return slice(s, s + 1 + o['t'] % (B - s)), None
    if how == 2:
        return slice(None, None, 1 + o['t'] % 2), None
    idx = [o['s'] % B, o['t'] % B] if how == 3 else \
        list(range(B))[::-1]
    return idx, idx


def run(job):
    b = job['b']
    np.random.seed(job['seed'])
    specs = []
    for s in b['d']:
        s = dict(s)
        if s['via'] == 'gausssic' and not s['hid']:
            s['hid'] = [[0] * b['n']]
        specs.append(s)
    ev, hs = [], []
    dead = set()

    def call(e, f, *args):
        try:
            f(*args)
        except Exception as exc:  # noqa
            if job.get('debug'):
                raise
            e['exc'] = repr(exc)[:200]
        ev.append(e)
        return not e['exc']

    def new(s):
        e = dict(s, op='new', exc='')

        def f():
            hs.append(Handle(make(s), s, len(hs), True))
        return call(e, f)

    for s in specs:
        if not new(s):
            return dict(cfg=dict(g=b['g']), ev=ev)
    for o in b['ops']:
        live = [k for k, h in enumerate(hs) if h.root not in dead]
        if not live:
            break
        k = live[o['h'] % len(live)]
        hd = hs[k]
        B = hd.d.params[0].shape[0]
        op = o['op']
        peers = [j for j in live if hs[j].d.params[0].shape[0] == B]
        g = peers[o['g'] % len(peers)]
        if op in ('kl', 'kl2') and (hd.squ or hd.det):
            op = 'look'
        e = dict(op=op, h=k + 1, exc='', hasg=bool(hd.hasg),
                 hasgv=bool(hd.hasgv))
        x = [o['x'][j % len(o['x'])] for j in range(B)]
        if op in ('look', 'look2'):
            e['op'] = 'look'
            ok = call(e, look, hd, e, x, o['peek'])
        elif op in ('kl', 'kl2'):
            e.update(op='kl', g=g + 1)
            if hs[g].root == hd.root:
                e['hasg'] = e['hasgv'] = False

            def f():
                y = hd.d.kl(hs[g].d)
                e['kl'] = [_i(v) for v in _arr(y)]
                if e['hasg'] or e['hasgv']:
                    q = grads(y, hd.d.params)
                    e['gk'] = _m(q[0])
                    if not hd.cat:
                        e['gkv'] = _m(q[1])
            ok = call(e, f)
        elif op == 'sample' and not hd.det:
            ok = call(e, sample, hd, e, x, job['N'])
        elif op in ('swlp', 'sample'):
            e['op'] = 'swlp'
            ok = call(e, swlp, hd, e)
        elif op == 'copy':
            def f():
                d = hd.d.copy()
                e['linked'] = False
                ps = [p for p in hd.d.params
                      if isinstance(p, chainer.Variable)]
                if ps and not hd.det:
                    a = d.sample().array
                    if hd.squ:
                        a = a * np.float32(.9)
                    y = chainer.as_variable(d.log_prob(a))
                    gs = chainer.grad([F.sum(y)], ps)
                    e['linked'] = any(q is not None for q in gs)
                elif ps:
                    gs = chainer.grad([F.sum(d.sample())], ps)
                    e['linked'] = any(q is not None for q in gs)
                hs.append(Handle(d, hd.s, len(hs) + 1000, False))
            ok = call(e, f)
        elif op == 'slice':
            i, idx = index(o, B)
            e['idx'] = idx if idx is not None else list(range(B))[i]

            def f():
                h2 = Handle(hd.d[i], hd.s, hd.root, True)
                h2.hasg, h2.hasgv = hd.hasg, hd.hasgv
                hs.append(h2)
            if hd.det:
                continue
            ok = call(e, f)
        elif op == 'mutate':
            for p in hd.d.params:
                a = _arr(p)
                if a.flags.writeable:
                    a[...] = a * 0 + np.float32(.37)
            dead.add(hd.root)
            e['roots'] = hd.root
            ok = True
            ev.append(e)
        if not ok:
            break
    return dict(cfg=dict(g=b['g']), ev=ev)
