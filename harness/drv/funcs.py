"""Drivers for numerical building blocks: normalizer, explorers, action
values."""
import copy
import os
import tempfile

import chainer
import numpy as np

from chainerrl import links


def _i(x, k=0):
    x = float(x)
    if not np.isfinite(x):
        return 2 ** 30
    return int(max(-2 ** 30, min(2 ** 30, round(x * 2 ** k))))


# ------------------------------------------------------------ normalizer
def _make(c):
    kw = {}
    if c['eps'] is not None:
        kw['eps'] = c['eps']
    if c['until'] >= 0:
        kw['until'] = c['until']
    if c['clip'] is not None:
        kw['clip_threshold'] = c['clip']
    shape = tuple(c['shape'])
    if len(shape) == 1 and c['intshape']:
        shape = shape[0]
    return links.EmpiricalNormalization(
        shape, batch_axis=c['axis'], dtype=np.dtype(c['dtype']), **kw)


def normalizer(job):
    c, b = job['c'], job['b']
    D = c['D']
    off = c['off']
    if off:
        # the initial statistics are far from shifted samples: start by
        # learning something
        b = [dict(b[0], op='exp', o=k, var=False, how=1,
                  xs=[[k, -1, 2, 0], [1, k, 0, -k]])
             for k in (1, 2, 3)] + b
    axis = c['axis']
    shape = tuple(c['shape'])
    objs = [_make(c) for _ in range(3)]
    fn = os.path.join(tempfile.mkdtemp(), 'x.npz')
    saved = False

    def pack(xs, dtype, shift):
        a = (np.asarray(xs) + shift).astype(dtype).reshape((len(xs),) + shape)
        return np.ascontiguousarray(np.moveaxis(a, 0, axis))

    def unpack(a):
        a = np.moveaxis(np.asarray(a, dtype=np.float64), axis, 0)
        return a.reshape(len(a), D)

    evs = []
    for e in b:
        op, o = e['op'], e['o'] - 1
        p = e['p'] - 1
        en = objs[o]
        r = dict(op=op, o=e['o'], p=e['p'], upd=e['upd'], xs=e['xs'], ys=[],
                 kind=True, exc='')
        if op == 'copy' and o == p:
            r['op'] = op = 'none'
        if op == 'load' and not saved:
            r['op'] = op = 'save'
        saved = saved or op == 'save'
        try:
            if op in ('exp', 'call', 'inv'):
                x = pack(e['xs'], c['xdtype'], off) if op != 'inv' else \
                    pack(e['xs'], 'float32', 0)
                x0 = x.copy()
                v = chainer.Variable(x) if (
                    e['var'] and x.dtype.kind == 'f') else x
            if op == 'exp':
                en.experience(v)
            elif op == 'call':
                y = en(v, update=e['upd']) if (
                    not e['upd'] or e['how'] > 1) else en(v)
                r['kind'] = isinstance(y, chainer.Variable) == (v is not x) \
                    and (y.shape == x.shape)
                y = y.array if isinstance(y, chainer.Variable) else y
                r['ys'] = [[_i(t, 10) for t in row] for row in unpack(y)]
            elif op == 'inv':
                z = en.inverse(v)
                r['kind'] = isinstance(z, chainer.Variable) == (v is not x) \
                    and (z.shape == x.shape)
                z = z.array if isinstance(z, chainer.Variable) else z
                r['ys'] = e['xs']
                r['xs'] = [[_i(t - off, 12) for t in row] for row in unpack(z)]
            elif op == 'save':
                chainer.serializers.save_npz(fn, en)
            elif op == 'load':
                if e['how'] == 1:
                    objs[o] = en = _make(c)
                chainer.serializers.load_npz(fn, en)
            elif op == 'copy':
                if e['how'] == 1:
                    objs[p] = copy.deepcopy(en)
                elif e['how'] == 2:
                    objs[p] = en.copy(mode='copy')
                else:
                    objs[p].copyparams(en)
            if op in ('exp', 'call', 'inv') and not np.array_equal(x, x0):
                r['kind'] = False
        except Exception as ex:
            r['exc'] = repr(ex)
        r['obs'] = [dict(mean=[_i(t - off, 14) for t in np.ravel(n.mean)]
                     if not off or q <= len(evs) else [0] * D,
                         var=[_i(float(t) ** 2, 14) for t in np.ravel(n.std)])
                    for q, n in enumerate(objs)]
        evs.append(r)
    clip10 = -1 if c['clip'] is None else _i(c['clip'], 10)
    eps = 1e-2 if c['eps'] is None else c['eps']
    return dict(cfg=dict(D=D, until=c['until'], eps14=_i(eps, 14),
                         clip10=clip10), ev=evs)


# ------------------------------------------------------------- explorers
Z = {10: -1.2815515655446004, 30: -0.5244005127080407, 50: 0.0,
     70: 0.5244005127080407, 90: 1.2815515655446004}


def explorer(job):
    import random
    from chainerrl import explorers
    from chainerrl.action_value import DiscreteActionValue
    c, N = job['c'], job['N']
    np.random.seed(job['seed'] % 2 ** 32)
    random.seed(job['seed'])
    kind = c['kind']
    evs = []
    seq = []          # actions handed out by the random action function
    ids = [0]

    class Act(object):
        pass

    def rand():
        a = Act() if job['objects'] else 1000 + ids[0]
        ids[0] += 1
        seq.append(a)
        return a
    try:
        if kind == 'const':
            ex = explorers.ConstantEpsilonGreedy(c['start'] / 100., rand)
        elif kind == 'linear':
            ex = explorers.LinearDecayEpsilonGreedy(
                c['start'] / 100., c['end'] / 100., c['steps'], rand)
        elif kind == 'greedy':
            ex = explorers.Greedy()
        elif kind == 'boltz':
            ex = explorers.Boltzmann(**(
                {} if c['T'] is None else {'T': c['T']}))
    except Exception as e:
        return dict(cfg=c, ev=[dict(exc=repr(e), N=0)])
    for k, t in enumerate(job['ts']):
        e = dict(exc='', N=N, t=t)
        try:
            if kind in ('const', 'linear', 'greedy'):
                del seq[:]
                g = Act() if job['objects'] else 7
                gc = [0]

                def greedy():
                    gc[0] += 1
                    return g
                out = [ex.select_action(t, greedy) if n % 2 else
                       ex.select_action(t, greedy, action_value=None)
                       for n in range(N)]
                ng = sum(1 for a in out if a is g)
                rs = [a for a in out if a is not g]
                e.update(ngreedy=ng)
                if kind != 'greedy':
                    known = set(map(id, seq))
                    e.update(
                        nrand=sum(1 for a in rs if id(a) in known),
                        nother=sum(1 for a in rs if id(a) not in known),
                        fresh=len(set(map(id, rs))) == len(rs),
                        eps14=_i(ex.epsilon, 14))
            else:
                ks = job['ks'][k]
                T = 1.0 if c['T'] is None else c['T']
                q = (np.array([ks]) + c['shift']) * np.log(2) * T
                av = DiscreteActionValue(chainer.Variable(q.astype('f')))

                def bad():
                    return -1
                out = [int(ex.select_action(t, bad, action_value=av))
                       for _ in range(N)]
                e.update(ks=ks, counts=[out.count(a)
                                        for a in range(len(ks))])
        except Exception as x:
            e['exc'] = repr(x)
        evs.append(e)
        if e['exc']:
            break
    c = {k: v for k, v in c.items() if k != 'T'}
    return dict(cfg=c, ev=evs)


def noise(job):
    from chainerrl import explorers
    c, N = job['c'], job['N']
    np.random.seed(job['seed'] % 2 ** 32)
    shape = tuple(job['shape'])
    D = int(np.prod(shape))
    scale = np.asarray(job['scale'], dtype=np.float64)
    full = np.broadcast_to(scale, shape).astype(np.float64)
    evs = []
    try:
        g0 = np.asarray(job['g'], dtype=np.float32).reshape(shape)
        lo = hi = None
        plow = phigh = 0
        if kind_is(c, 'gauss'):
            if job['lowq']:
                plow = job['lowq']
                lo = g0 + full * Z[plow]
            if job['highq']:
                phigh = 100 - job['highq']
                hi = g0 + full * Z[job['highq']]
            sc = job['scale'] if not job['arr'] else scale
            ex = explorers.AdditiveGaussian(sc, low=lo, high=hi)
        else:
            kw = {}
            mu, th, sg = job['mu'], job['theta'], scale
            if mu is not None:
                kw['mu'] = mu
            if th is not None:
                kw['theta'] = th
            kw['sigma'] = job['scale'] if not job['arr'] else scale
            mu = 0.0 if mu is None else mu
            th = .15 if th is None else th
            inits = []
            if job['start_with_mu']:
                ex = explorers.AdditiveOU(start_with_mu=True, **kw)
            else:
                ex = explorers.AdditiveOU(**kw)
        for rnd in range(2):
            e = dict(exc='', N=N, plow=plow, phigh=phigh)
            zs, outs = [], []
            ok = True
            prev = None

            def one(t, x):
                nonlocal ok
                g = g0.copy()
                calls = [0]

                def greedy():
                    calls[0] += 1
                    return g
                a = np.asarray(x.select_action(t, greedy))
                ok = ok and np.array_equal(g, g0) and calls[0] == 1 and \
                    a.shape == shape
                return a
            if kind_is(c, 'gauss'):
                for t in range(N):
                    a = one(t, ex)
                    outs.append(a.astype(np.float64))
                A = np.array(outs).reshape(N, D)
                zs = (A - g0.ravel()) / full.ravel()
                tol = 1e-4
                L = -np.inf if lo is None else lo.ravel()
                H = np.inf if hi is None else hi.ravel()
                if plow == 0 and lo is not None:
                    raise RuntimeError
                atl = np.abs(A - L) < 1e-6 * (1 + np.abs(A)) + 1e-6
                ath = np.abs(A - H) < 1e-6 * (1 + np.abs(A)) + 1e-6
                e.update(nout=int(((A < L - tol) | (A > H + tol)).sum()),
                         nlow=[int(x) for x in atl.sum(0)],
                         nhigh=[int(x) for x in ath.sum(0)])
            elif rnd == 0:
                # the first noise of many processes, and the second given it
                for n in range(N):
                    kw2 = dict(kw)
                    if job['start_with_mu']:
                        kw2['start_with_mu'] = True
                    x = explorers.AdditiveOU(**kw2)
                    n0 = one(0, x).astype(np.float64) - g0
                    n1 = one(1, x).astype(np.float64) - g0
                    if job['start_with_mu']:
                        ok = ok and np.allclose(n0, mu, atol=1e-4)
                        zs.append((n1 - mu) / full)
                    else:
                        s0 = full / np.sqrt(2 * th - th ** 2)
                        zs.append((n0 - mu) / s0)
                zs = np.array(zs).reshape(N, D)
                e.update(nout=0, nlow=[], nhigh=[])
            else:
                for t in range(N + 1):
                    n1 = one(t, ex).astype(np.float64) - g0
                    if prev is not None:
                        zs.append((n1 - prev - th * (mu - prev)) / full)
                    prev = n1
                zs = np.array(zs).reshape(N, D)
                e.update(nout=0, nlow=[], nhigh=[])
            # bins between the bounds that are in force
            cut = sorted(k for k in Z
                         if k > (plow or 0) and k < 100 - (phigh or 0))
            qs = [plow] + cut + [100 - phigh]
            e['probs'] = [b - a for a, b in zip(qs, qs[1:])]
            bins = []
            for d in range(D):
                z = zs[:, d]
                row = []
                for a, b in zip(qs, qs[1:]):
                    m = np.ones(N, dtype=bool)
                    if a in Z:
                        m &= z > Z[a] + (2e-5 if a == plow else 0)
                    if b in Z:
                        m &= z <= Z[b] - (2e-5 if b == 100 - phigh else 0)
                    row.append(int(m.sum()))
                bins.append(row)
            e['bins'] = bins
            sgn = zs > 0
            e['conc'] = [int((sgn[:, d] == sgn[:, 0]).sum())
                         for d in range(1, D)]
            e['serial'] = [int((sgn[1:, d] == sgn[:-1, d]).sum())
                           for d in range(D)]
            e['untouched'] = bool(ok)
            evs.append(e)
    except Exception as x:
        evs.append(dict(exc=repr(x), N=N))
    return dict(cfg=c, ev=evs)


def kind_is(c, k):
    return c['kind'] == k


# --------------------------------------------------------- action values
def actionvalue(job):
    import random
    from chainerrl import action_value as av
    b = job['b']
    kind = b['kind']
    rng = random.Random(job['seed'])
    rows = b['rows']
    A = b['na']
    V = chainer.Variable
    cfg = dict(kind=kind, den=1, z=b['z'])
    if kind == 'discrete':
        obj = av.DiscreteActionValue(V(np.array(rows, 'f')))
        crow, den = rows, 1
    elif kind == 'dist':
        obj = av.DistributionalDiscreteActionValue(
            V(np.array(rows, 'f') / 4), np.array(b['z'], 'f'))
        crow, den = rows, 4
    elif kind == 'quant':
        obj = av.QuantileDiscreteActionValue(V(np.array(rows, 'f')))
        crow, den = rows, b['nt']
    else:
        mu = np.array([r['mu'] for r in rows], 'f') / 2
        mat, vs = [], []
        for r in rows:
            m = np.diag(r['dg'])
            if b['off'] and A > 1:
                m = m * 3
                m[0, 1] = m[1, 0] = 1
            mat.append(m)
            vs.append(r['v'])
        lo = np.array(b['lo'], 'f') / 2
        hi = np.array(b['hi'], 'f') / 2
        haslo, hashi = b['bound'] in (1, 3), b['bound'] in (2, 3)
        if kind == 'single':
            haslo = hashi = False
        crow = [dict(mu=r['mu'], p=[[int(x) for x in y] for y in m],
                     v=r['v'], lo=b['lo'], hi=b['hi'], haslo=haslo,
                     hashi=hashi) for r, m in zip(rows, mat)]
        den = 8
        M = np.array(mat, 'f')
        vv = np.array(vs, 'f')
        if kind == 'quad':
            vv2 = vv[:, None] if rng.random() < .7 else vv
            obj = av.QuadraticActionValue(
                V(mu), V(M), V(vv2),
                min_action=lo if haslo else None,
                max_action=hi if hashi else None)
        else:
            def evaluator(u):
                u = u.array if isinstance(u, V) else u
                d = u - mu
                return V(vv - .5 * np.einsum('ni,nij,nj->n', d, M, d))
            obj = av.SingleActionValue(evaluator, lambda: V(mu.copy()))
    cfg.update(rows=crow, den=den)
    n = len(rows)
    evs = []

    def sc(x, k=64 * den):
        x = x.array if isinstance(x, V) else x
        if k is None:
            return np.asarray(x).tolist()
        return [_i(t * k) if np.ndim(t) == 0 else [_i(y * k) for y in t]
                for t in np.asarray(x, dtype=np.float64)]

    def observe(o, op, idx, n):
        e = dict(op=op, idx=idx, n=n, exc='')
        try:
            if kind in ('quad', 'single'):
                acts = [[rng.randint(-6, 6) for _ in range(A)]
                        for _ in range(n)]
                acts2 = [[rng.randint(-6, 6) for _ in range(A)]
                         for _ in range(n)]
                a = np.array(acts, 'f') / 2
                a2 = np.array(acts2, 'f') / 2
                if rng.random() < .5:
                    a, a2 = V(a), V(a2)
                e.update(acts=acts, acts2=acts2)
                if rng.random() < .5:
                    e['greedy'] = sc(o.greedy_actions, 2)
                    e['max'] = sc(o.max, 8)
                else:
                    e['max'] = sc(o.max, 8)
                    e['greedy'] = sc(o.greedy_actions, 2)
                e['ev'] = sc(o.evaluate_actions(a), 8)
                e['adv'] = sc(o.compute_advantage(a), 8)
                e['dadv'] = sc(o.compute_double_advantage(a, a2), 8)
                return e
            acts = [rng.randrange(A) for _ in range(n)]
            acts2 = [rng.randrange(A) for _ in range(n)]
            a, a2 = np.array(acts, 'i'), np.array(acts2, 'i')
            if rng.random() < .5:
                a, a2 = V(a), V(a2)
            beta = np.log(2) * den
            names = ['q', 'greedy', 'max', 'ev', 'adv', 'dadv', 'soft',
                     'mean']
            rng.shuffle(names)      # attributes may be cached lazily
            for k in names:
                if k == 'q':
                    e[k] = sc(o.q_values)
                elif k == 'greedy':
                    e[k] = [int(x) for x in o.greedy_actions.array]
                elif k == 'max':
                    e[k] = sc(o.max)
                elif k == 'ev':
                    e[k] = sc(o.evaluate_actions(a))
                elif k == 'adv':
                    e[k] = sc(o.compute_advantage(a))
                elif k == 'dadv':
                    e[k] = sc(o.compute_double_advantage(a, a2))
                elif k == 'soft':
                    e[k] = sc(o.compute_expectation(beta))
                elif k == 'mean':
                    e[k] = sc(o.compute_expectation(0.))
            e.update(acts=acts, acts2=acts2, nact=int(o.n_actions))
            e['params'] = len(o.params) == 1 and isinstance(o.params[0], V) \
                and o.params[0].shape[0] == n
            gs = []
            for y in (o.max, o.evaluate_actions(a)):
                g = chainer.grad([chainer.functions.sum(y)], [o.q_values])
                gs.append([[_i(t) for t in row] for row in g[0].array])
            e['gmax'], e['gev'] = gs
            if kind == 'dist':
                e['dmax'] = sc(o.max_as_distribution, 4)
                e['dev'] = sc(o.evaluate_actions_as_distribution(a), 4)
            elif kind == 'quant':
                e['dev'] = sc(o.evaluate_actions_as_quantiles(a), 1)
            repr(o)
        except Exception as x:
            e['exc'] = repr(x)
        return e
    evs.append(observe(obj, 'new', [], n))
    if kind != 'single' and not (kind == 'quad' and vv2.ndim == 1 and False):
        for s in b['slices']:
            if evs[-1]['exc']:
                break
            x, y = s['x'] % n, s['y'] % n
            if s['how'] == 1:
                i = slice(min(x, y), max(x, y) + 1)
            elif s['how'] == 2:
                i = slice(None, None, 1 + x % 2)
            elif s['how'] == 3:
                i = [x, y, x]
            else:
                i = np.array([y, x, n - 1])
            idx = np.arange(n)[i].tolist()
            try:
                obj = obj[i]
            except Exception as ex:
                evs.append(dict(op='slice', idx=idx, n=len(idx),
                                exc=repr(ex)))
                break
            n = len(idx)
            evs.append(observe(obj, 'slice', idx, n))
    return dict(cfg=cfg, ev=evs)
