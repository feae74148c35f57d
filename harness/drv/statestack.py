"""Driver: stateful recurrent models and their state-keeping contexts."""
import copy
import itertools
import os

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from chainerrl import links
from chainerrl import recurrent
from chainerrl import policies
from chainerrl import q_functions
from chainerrl.agents import a3c
from chainerrl.agents import acer
from chainerrl.agents.ddpg import DDPGModel

from harness.drv import zoo

X = np.random.RandomState(3).uniform(-1, 1, (8, 2, 3)).astype(np.float32)
PRJ = np.random.RandomState(5).uniform(.5, 2, (2, 64))


class Own(chainer.Chain, recurrent.Recurrent):
    """A link with a state of its own."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.u = L.Linear(3, 3)
            self.w = L.Linear(3, 3)
        self.s = None

    def __call__(self, x):
        h = self.u(x)
        if self.s is not None:
            h += self.w(self.s)
        self.s = F.tanh(h)
        return self.s

    def get_state(self):
        return self.s

    def set_state(self, state):
        self.s = state

    def reset_state(self):
        self.s = None


class ChainNode(chainer.Chain):
    def __init__(self, *kids):
        super().__init__()
        with self.init_scope():
            for k, x in enumerate(kids):
                # not in the order of their names
                setattr(self, 'x%d' % ((7 * k + 5) % 10), x)
        self.kids = kids

    def __call__(self, x):
        return [k(x) for k in self.kids]


class ListNode(chainer.ChainList):
    def __call__(self, x):
        return [k(x) for k in self.children()]


class Picky(links.Sequence):
    pass


class RChain(ChainNode, recurrent.RecurrentChainMixin):
    pass


class RList(ListNode, recurrent.RecurrentChainMixin):
    pass


class RSeq(Picky, recurrent.RecurrentChainMixin):
    pass


KIND = dict(C=RChain, L=RList, S=RSeq, c=ChainNode, l=ListNode,
            s=links.Sequence, q=chainer.Sequential)
TREES = dict(
    flat=('C', 'lstm', 'lin', 'lstm'),
    list=('L', 'lin', 'lstm', 'lstm', 'own'),
    plain=('C', 'lstm', ('c', 'lin', 'lstm', ('l', 'lstm')), 'lin'),
    deep=('L', ('c', ('l', ('c', 'lstm'), 'lin'), 'lstm'), 'own'),
    rec=('C', ('C', 'lstm', 'own'), 'lstm', ('L', 'lin', 'lstm')),
    mixed=('L', ('c', ('C', 'lstm', ('l', 'own')), 'lin'), ('S', 'lin', 'lstm')),
    seq=('C', ('s', 'lin', 'lstm', 'lin'), 'lstm', ('q', 'lin', 'lstm')),
    sseq=('S', 'lin', F.tanh, 'lstm', F.sigmoid, 'lin'),
    own=('C', 'own', ('c', 'own', 'own')),
    none=('C', 'lin', ('c', 'lin')),
)


class Tree(object):
    """A model, its nodes and its leaves (states), numbered."""

    def __init__(self, spec):
        self.nodes = []      # (path, leaves, recurrent, callable)
        self.leaf = []
        self.model = self.build(spec, (), True)

    def build(self, spec, path, par):
        if callable(spec) and not isinstance(spec, str):
            return spec
        me = len(self.nodes)
        if isinstance(spec, str):
            x = dict(lstm=lambda: L.LSTM(3, 3), own=Own,
                     lin=lambda: L.Linear(3, 3))[spec]()
            ls = []
            if spec != 'lin':
                self.leaf.append(path)
                ls = [len(self.leaf)]
            self.nodes.append([path, ls, spec == 'own', par and spec != 'lin'])
            return x
        self.nodes.append(None)
        n0 = len(self.leaf)
        kids = [self.build(k, path + (i,), par and spec[0] not in 'sSq')
                for i, k in enumerate(spec[1:])]
        self.nodes[me] = [path, list(range(n0 + 1, len(self.leaf) + 1)),
                          spec[0] in 'CLSs', par]
        return KIND[spec[0]](*kids)


def at(model, path):
    for i in path:
        if isinstance(model, ChainNode):
            model = model.kids[i]
        elif isinstance(model, (links.Sequence, chainer.Sequential)):
            ls = (model.layers if isinstance(model, links.Sequence)
                  else list(model))
            model = ls[i]
        else:
            model = model[i]
    return model


class Whole(object):
    """One of the library's own models: a single state."""

    def __init__(self, name):
        mk, self.fn = LIB[name]
        self.model = mk()
        self.leaf = [()]
        self.nodes = [[(), [1], True, True]]


def lstm_pi():
    return policies.FCLSTMDeterministicPolicy(
        n_input_channels=3, n_hidden_layers=1, n_hidden_channels=4,
        action_size=2, min_action=-1, max_action=1, bound_action=True)


def lstm_sa():
    return q_functions.FCLSTMSAQFunction(3, 2, n_hidden_layers=1,
                                         n_hidden_channels=4)


def body():
    return links.Sequence(L.Linear(3, 3), L.LSTM(3, 3), L.Linear(3, 3))


def pv(m, x):
    a, v = m.pi_and_v(x)
    return F.concat([a.logits, v], axis=1)


LIB = dict(
    fclstmq=(lambda: q_functions.FCLSTMStateQFunction(
        3, 2, n_hidden_channels=4, n_hidden_layers=1),
        lambda m, x: m(x).q_values),
    fclstmsa=(lstm_sa, lambda m, x: m(x, x[:, 1:])),
    fclstmpi=(lstm_pi, lambda m, x: m(x).sample()),
    ddpg=(lambda: DDPGModel(policy=lstm_pi(), q_func=lstm_sa()),
          lambda m, x: F.concat([m.q_function(x, x[:, 1:]),
                                 m.policy(x).sample()], axis=1)),
    a3cs=(lambda: a3c.A3CSeparateModel(
        pi=links.Sequence(body(), policies.SoftmaxPolicy(L.Linear(3, 2))),
        v=links.Sequence(body(), L.Linear(3, 1))), pv),
    a3ch=(lambda: a3c.A3CSharedModel(
        shared=body(), pi=policies.SoftmaxPolicy(L.Linear(3, 2)),
        v=L.Linear(3, 1)), pv),
    acers=(lambda: acer.ACERSeparateModel(
        pi=links.Sequence(body(), policies.SoftmaxPolicy(L.Linear(3, 2))),
        q=links.Sequence(body(), head())),
        lambda m, x: acer_out(m, x)),
    acerh=(lambda: acer.ACERSharedModel(
        shared=body(), pi=policies.SoftmaxPolicy(L.Linear(3, 2)), q=head()),
        lambda m, x: acer_out(m, x)),
)


def head():
    return q_functions.FCStateQFunctionWithDiscreteAction(3, 2, 4, 1)


def acer_out(m, x):
    a, av, v = m(x)
    return F.concat([a.logits, av.q_values, v[:, None]], axis=1)


def vals(y):
    """The output of a leaf as numbers."""
    y = y.array.astype(np.float64).ravel()
    return [int(round(float((PRJ[k][:y.size] * y).sum()) * 4096))
            for k in range(2)]


def flat(y):
    if isinstance(y, list):
        return [v for z in y for v in flat(z)]
    return [y]


class Boom(Exception):
    pass


def run(job):
    zoo.seed(job['seed'])
    whole = job['tree'] in LIB
    t = Whole(job['tree']) if whole else Tree(TREES[job['tree']])
    m = t.model
    for p in m.params():
        p.array[...] = np.random.uniform(-.9, .9, p.shape)
    if whole:
        # rectified units of the library's models stay active
        for x in m.links():
            if isinstance(x, L.Linear) and x.b is not None:
                x.W.array[...] *= .25
                x.b.array[...] = 1

    def call(model, n, x):
        """Outputs of the leaves below a node."""
        path, ls, _, _ = t.nodes[n]
        if whole:
            ys = [t.fn(model, x)]
        else:
            ys = flat(at(model, path)(x))
        return ys

    def under(n, ys):
        """Those of the outputs that come from leaves."""
        if whole:
            return [(1, ys[0])]
        path = t.nodes[n][0]
        out, k = [], [0]

        def walk(p):
            node = [x for x in t.nodes if x[0] == p][0]
            x = at(m, p)
            if isinstance(x, (links.Sequence, chainer.Sequential, L.LSTM,
                              Own, L.Linear)):
                if node[1]:
                    out.append((node[1][0], ys[k[0]]))
                k[0] += 1
                return
            n_kids = (len(x.kids) if isinstance(x, ChainNode) else len(x))
            for i in range(n_kids):
                walk(p + (i,))
        walk(path)
        return out

    def grads(ys, xs):
        """Which of the inputs get gradients, and what these are."""
        tot = [F.sum(y * y) for _, y in ys]
        if tot and sum(tot).creator is not None:
            sum(tot).backward()
        at, gv = [], []
        for k, x in enumerate(xs):
            if x.grad is not None and (x.grad != 0).any():
                at.append(k + 1)
                gv.append([int(round(float((PRJ[j][:6] * x.grad.ravel()).sum())
                                     * 4096)) for j in range(2)])
            x.cleargrad()
        return at, gv

    ref, gref = [], []
    for n in (1, 2, 3):
        for h in itertools.product((1, 2, 3), repeat=n):
            z = copy.deepcopy(m)
            xs = [chainer.Variable(X[i].copy()) for i in h]
            for x in xs:
                ys = call(z, 0, x)
            ref += [dict(l=l, h=list(h), y=vals(y)) for l, y in under(0, ys)]
            gref.append(dict(h=list(h), g=grads(under(0, ys), xs)[1]))
    rec = [n for n, x in enumerate(t.nodes) if x[2]]
    can = [n for n, x in enumerate(t.nodes) if x[3]]
    stateful = [n for n, x in enumerate(t.nodes)
                if not whole and x[1] and
                (isinstance(at(m, x[0]), (L.LSTM, recurrent.Recurrent)))]
    # those inside other Recurrent links are theirs
    stateful = [n for n in stateful if n and not any(
        k and t.nodes[n][0][:len(t.nodes[k][0])] == t.nodes[k][0] and k != n
        for k in stateful)] if not whole else []
    xs, stack, slots, evs = [], [], [], []

    def link(n):
        return m if whole else at(m, t.nodes[n][0])

    for q in job['b']:
        op = q['op']
        e = dict(op=op, n=1, x=q['x'], k=q['k'], nobp=q['nobp'], call=0,
                 y=[], grad=[], gv=[], names=[], exc='')
        evs.append(e)
        try:
            if op in ('call', 'update'):
                n = can[q['n'] % len(can)]
                if op == 'update' and (n not in rec or whole):
                    op = e['op'] = 'call'
                e['n'] = n + 1
                x = chainer.Variable(X[q['x']].copy())
                xs.append(x)
                e['call'] = len(xs)
                with chainer.using_config('enable_backprop', not q['nobp']):
                    if op == 'update':
                        link(n).update_state(x)
                        continue
                    ys = under(n, call(m, n, x))
                e['y'] = [dict(l=l, v=vals(y)) for l, y in ys]
                e['grad'], e['gv'] = grads(ys, xs)
            elif op in ('keep', 'fresh'):
                how = q['how']
                if how == 0:
                    # the functions ignore links that are not Recurrent
                    n = q['n'] % len(t.nodes)
                    cm = (recurrent.state_kept if op == 'keep'
                          else recurrent.state_reset)(link(n))
                    if n not in rec:
                        e['op'] = 'noop'
                else:
                    n = rec[q['n'] % len(rec)]
                    cm = None
                    if how == 1:
                        cm = (link(n).state_kept() if op == 'keep'
                              else link(n).state_reset())
                    elif op == 'keep':
                        link(n).push_and_keep_state()
                    else:
                        link(n).push_state()
                e['n'] = n + 1
                if cm is not None:
                    cm.__enter__()
                stack.append((cm, n))
            elif op == 'leave':
                for _ in range(q['k']):
                    cm, n = stack.pop()
                    if cm is None:
                        link(n).pop_state()
                    elif q['how']:
                        try:
                            if cm.__exit__(Boom, Boom(), None):
                                e['exc'] = 'the exception is lost'
                        except Boom:
                            pass
                    else:
                        cm.__exit__(None, None, None)
            elif op in ('get', 'reset', 'unchain'):
                n = rec[q['n'] % len(rec)]
                e['n'] = n + 1
                if op == 'get':
                    slots.append((n, link(n).get_state()))
                elif op == 'reset':
                    link(n).reset_state()
                else:
                    link(n).unchain_backward()
            elif op == 'set':
                n, s = slots[q['k'] - 1]
                link(n).set_state(s)
            elif op == 'list':
                if not whole:
                    got = list(recurrent.stateful_links(m))
                    e['names'] = sorted(
                        n for n in range(1, len(t.nodes))
                        if any(link(n) is g for g in got))
                    if len(got) != len(e['names']):
                        e['names'].append(-1)
        except Exception as ex:
            if os.environ.get('VERIF_DEBUG'):
                raise
            e['exc'] = repr(ex)
            break
    # leave what is still entered: the stack is shared by all models
    while stack:
        cm, n = stack.pop()
        try:
            if cm is None:
                link(n).pop_state()
            else:
                cm.__exit__(None, None, None)
        except Exception:
            pass
    return dict(cfg=dict(nodes=[x[1] for x in t.nodes], leaves=len(t.leaf),
                         ref=ref, tol=6, gref=gref, gtol=40, tree=job['tree'],
                         stateful=sorted(stateful)), ev=evs)
