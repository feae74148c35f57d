"""Driver for sharing models and optimizers between processes (P32)."""
import copy
import os
import pickle
import struct

import chainer
from chainer import links as L
from chainer import optimizers
import numpy as np

import chainerrl
from chainerrl.misc import async_

U = 4096.      # unit of the integers in traces


def build(kind, dtype='float32'):
    chainer.config.dtype = np.dtype(dtype)
    if kind == 'linear':
        m = L.Linear(2, 1)
    elif kind == 'bn':
        m = chainer.Chain(a=L.Linear(1, 2), b=L.BatchNormalization(2))
    elif kind == 'list':
        m = chainer.ChainList(
            L.BatchNormalization(1),
            chainer.ChainList(L.Linear(1, 1), L.Linear(1, 1)))
    elif kind == 'nest':
        m = chainer.Chain(
            x=chainer.ChainList(L.Bias(shape=(2,)), L.Linear(1, 1)),
            y=chainer.Chain(z=L.LayerNormalization(2),
                            n=chainerrl.links.EmpiricalNormalization(1)))
    elif kind == 'seq':
        m = chainer.Sequential(L.Linear(1, 2), chainer.functions.relu,
                               L.BatchNormalization(2), L.Linear(2, 1))
    elif kind == 'scalar':
        m = chainer.Link()
        with m.init_scope():
            m.s = chainer.Parameter(np.zeros((), dtype=dtype))
            m.w = chainer.Parameter(np.zeros((1, 2), dtype=dtype))
        m.add_persistent('c', 3)
        m.add_persistent('f', 0.5)
        m.add_persistent('v', np.zeros((2,), dtype='float64'))
        m.add_persistent('i', np.zeros((1, 1), dtype='int32'))
    return m


def make_opt(kind, m):
    o = {'momentum': lambda: optimizers.MomentumSGD(lr=.5, momentum=.5),
         'sgd': lambda: optimizers.SGD(lr=.5),
         'adam': lambda: optimizers.Adam(alpha=.25),
         'amsgrad': lambda: optimizers.Adam(alpha=.25, amsgrad=True),
         'rmsprop': lambda: optimizers.RMSprop(lr=.25),
         'smorms3': lambda: optimizers.SMORMS3(lr=.25),
         'adagrad': lambda: optimizers.AdaGrad(lr=.25),
         'async': lambda: chainerrl.optimizers.rmsprop_async.RMSpropAsync(
             lr=.25, eps=.25, alpha=.75)}[kind]()
    o.setup(m)
    return o


class Side(object):
    """The holders of one process."""

    def __init__(self, c):
        self.c = c
        self.links, self.opts = [], []
        self.groups = {}
        rs = np.random.RandomState(c['seed'])
        for _ in range(3):
            m = build(c['kind'], c['dtype'])
            for _, p in sorted(m.namedparams()):
                p.array[...] = rs.randint(-8, 9, size=p.shape) / 4.
            self.links.append(m)
            for k in range(len(self.pers(m))):
                self.setper(m, k, int(rs.randint(0, 9)))
            o = make_opt(c['opt'], m)
            self.opts.append(o)
            if c['warm']:
                self.update(len(self.links) - 1,
                            rs.randint(-8, 9, size=64) / 4.)

    # -- flattened views
    def pars(self, m):
        return [p.array for _, p in sorted(m.namedparams())]

    def pers(self, m):
        out = []
        for l in sorted(dict(m.namedlinks())):
            link = dict(m.namedlinks())[l]
            for n in sorted(link._persistent):
                v = getattr(link, n)
                for j in range(int(np.size(v))):
                    out.append((link, n, j))
        return out

    def setper(self, m, k, x):
        ps = self.pers(m)
        if not ps:
            return
        link, n, j = ps[k % len(ps)]
        v = getattr(link, n)
        if isinstance(v, np.ndarray):
            if v.ndim == 0:
                v[...] = x
            else:
                v.reshape(-1)[j] = x
                assert np.shares_memory(v.reshape(-1), v)
        else:
            setattr(link, n, type(v)(x))

    def states(self, h):
        out = []
        for _, p in sorted(self.links[h].namedparams()):
            u = p.update_rule
            async_.ensure_initialized_update_rule(p)
            st = u.state or {}
            for k in sorted(st):
                out.append(st[k])
        return out

    def view(self, p):
        def sc(arrs):
            return [int(round(max(-1e5, min(1e5, float(x))) * U))
                    for a in arrs for x in np.asarray(a).ravel()]
        r = []
        for h in range(3):
            m = self.links[h]
            r.append(dict(
                p=p, h=h + 1, par=sc(self.pars(m)),
                per=sc([np.asarray(getattr(l, n)).ravel()[j]
                        for l, n, j in self.pers(m)]),
                st=sc(self.states(h))))
        return r

    def update(self, h, gr):
        m, o = self.links[h], self.opts[h]
        n = 0
        for _, p in sorted(m.namedparams()):
            g = np.zeros(p.shape, p.dtype)
            g.reshape(-1)[...] = gr[n:n + g.size]
            n += g.size
            p.grad = g
        o.update()

    def do(self, e):
        """Returns fields to add to the event."""
        op, h, h2 = e['op'], e['h'] - 1, e['h2'] - 1
        m, o = self.links[h], self.opts[h]
        how = e['how']
        if op in ('extract', 'share', 'sharest', 'shareall'):
            if op == 'extract':
                g = (async_.extract_params_as_shared_arrays(m),
                     async_.extract_states_as_shared_arrays(o))
            elif op == 'share':
                s = async_.extract_states_as_shared_arrays(o)
                g = (async_.share_params_as_shared_arrays(m)
                     if how == 1 else async_.as_shared_objects(m), s)
            elif op == 'sharest':
                s = async_.extract_params_as_shared_arrays(m)
                g = (s, async_.share_states_as_shared_arrays(o)
                     if how == 1 else async_.as_shared_objects(o))
            else:
                g = async_.as_shared_objects((m, o))
            self.groups[e['gid']] = g
            return {}
        if op in ('sync', 'syncst', 'syncall'):
            if not self.groups:
                return {'op': 'none'}
            ks = sorted(self.groups)
            k = ks[e['k'] % len(ks)]
            pa, st = self.groups[k]
            if op == 'sync':
                if how == 1:
                    async_.set_shared_params(m, pa)
                else:
                    async_.synchronize_to_shared_objects(m, pa)
            elif op == 'syncst':
                if how == 1:
                    async_.set_shared_states(o, st)
                else:
                    async_.synchronize_to_shared_objects(o, st)
            else:
                async_.synchronize_to_shared_objects((m, o), (pa, st))
            return {'k': k}
        if op == 'setpar':
            a = self.pars(m)
            k = e['k'] % sum(x.size for x in a)
            n = k
            for x in a:
                if n < x.size:
                    x.reshape(-1)[n] = e['x']
                    break
                n -= x.size
            return {'k': k + 1, 'x': int(e['x'] * U)}
        if op == 'setper':
            ps = self.pers(m)
            if not ps:
                return {'op': 'none'}
            k = e['k'] % len(ps)
            self.setper(m, k, abs(e['x']))
            return {'k': k + 1, 'x': int(abs(e['x']) * U)}
        if op == 'setst':
            ss = self.states(h)
            if not ss:
                return {'op': 'none'}
            k = e['k'] % sum(x.size for x in ss)
            n = k
            for x in ss:
                if n < x.size:
                    x.reshape(-1)[n] = abs(e['x'])
                    break
                n -= x.size
            return {'k': k + 1, 'x': int(abs(e['x']) * U)}
        if op == 'update':
            n = sum(x.size for x in self.pars(m))
            gr = np.array([((e['x'] + 3 * j + e['k']) % 17 - 8) / 4.
                           for j in range(n)])
            self.update(h, gr)
            if self.c['opt'] == 'momentum':
                return {'gr': [int(x * U) for x in gr]}
            v = self.view(0)[h]
            return {'op': 'updateo', 'npar': v['par'], 'nst': v['st']}
        if op == 'notshared':
            async_.make_params_not_shared(m)
            return {}
        if op == 'deepcopy':
            if h == h2:
                return {'op': 'none'}
            self.links[h2] = copy.deepcopy(m) if how == 1 else \
                m.copy(mode='copy')
            for p in self.links[h2].params():
                p.update_rule = None
            self.opts[h2] = make_opt(self.c['opt'], self.links[h2])
            return {'st0': self.view(0)[h2]['st']}
        if op == 'copyparams':
            if h == h2:
                return {'op': 'none'}
            fn = None
            if how == 1:
                import tempfile
                fn = tempfile.mktemp(suffix='.npz')
                chainer.serializers.save_npz(fn, m)
                chainer.serializers.load_npz(fn, self.links[h2])
                os.remove(fn)
            elif self.pers(m):
                # Link.copyparams rebinds numbers: not a write to them
                fn = tempfile_path()
                chainer.serializers.save_npz(fn, m)
                chainer.serializers.load_npz(fn, self.links[h2])
                os.remove(fn)
            elif how == 2:
                self.links[h2].copyparams(m)
            else:
                chainerrl.misc.copy_param.copy_param(self.links[h2], m)
            return {}
        raise KeyError(op)


def tempfile_path():
    import tempfile
    return tempfile.mktemp(suffix='.npz')


def _send(fd, x):
    d = pickle.dumps(x)
    os.write(fd, struct.pack('I', len(d)) + d)


def _read(fd, n):
    b = b''
    while len(b) < n:
        d = os.read(fd, n - len(b))
        if not d:
            raise EOFError
        b += d
    return b


def _recv(fd):
    n, = struct.unpack('I', _read(fd, 4))
    return pickle.loads(_read(fd, n))


def run(job):
    c = job['c']
    main = Side(c)
    init = main.view(0)
    kids = []
    evs = []
    gid = 0
    try:
        for e in job['b']:
            e = dict(e)
            if e['op'] in ('extract', 'share', 'sharest', 'shareall'):
                gid += 1
                e['gid'] = gid
            r = dict(op=e['op'], p=e['p'], h=e['h'], h2=e['h2'], k=e['k'],
                     x=0, exc='')
            try:
                if e['op'] == 'fork':
                    r['kids'] = [1, 2]
                    for p in (1, 2):
                        a, b = os.pipe(), os.pipe()
                        pid = os.fork()
                        if pid == 0:
                            try:
                                while True:
                                    q = _recv(a[0])
                                    try:
                                        x = main.do(q) if q else {}
                                        v = (x, main.view(p), '')
                                    except Exception as ex:
                                        v = ({}, [], repr(ex))
                                    _send(b[1], v)
                            finally:
                                os._exit(0)
                        kids.append((p, pid, a, b))
                elif e['p'] == 0:
                    r.update(main.do(e))
            except Exception as ex:
                r['exc'] = repr(ex)
            vals = []
            # first the process that acts, then the others
            order = sorted(kids, key=lambda k: k[0] != e['p'])
            for p, pid, a, b in order:
                _send(a[1], e if (p == e['p'] and e['op'] != 'fork')
                      else None)
                x, v, exc = _recv(b[0])
                r.update(x)
                r['exc'] = r['exc'] or exc
                vals += v
            vals += main.view(0)
            r['vals'] = vals
            evs.append(r)
            if r['exc']:
                break
    finally:
        for p, pid, a, b in kids:
            try:
                os.kill(pid, 9)
            except OSError:
                pass
            os.waitpid(pid, 0)
            for fd in a + b:
                os.close(fd)
    return dict(cfg=dict(init=[dict(par=x['par'], per=x['per'], st=x['st'])
                               for x in init], tol=2), ev=evs)
