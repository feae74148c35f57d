"""Driver: recurrent containers and batched recurrent states."""
import copy
import itertools
import os

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from chainerrl import links
from harness.drv import zoo

X = np.random.RandomState(3).uniform(-1, 1, (8, 2)).astype(np.float32)
A = np.random.RandomState(4).uniform(-1, 1, (8, 1)).astype(np.float32)
PRJ = np.random.RandomState(5).uniform(.5, 2, (3, 8))


def cat(*hs):
    return F.concat(hs, axis=1)


SR = links.StatelessRecurrentSequential
BR = links.StatelessRecurrentBranched

# name -> a tree: ('seq', ...), ('br', ...), or a link or function
TREES = dict(
    lstm=lambda: ('seq', L.NStepLSTM(1, 2, 3, 0)),
    mid=lambda: ('seq', L.Linear(2, 3), F.tanh, L.NStepLSTM(1, 3, 4, 0),
                 F.relu, L.Linear(4, 2)),
    two=lambda: ('seq', L.NStepGRU(2, 2, 3, 0), L.NStepLSTM(1, 3, 2, 0)),
    mix=lambda: ('seq', F.sin, L.Linear(2, 3), L.NStepRNNTanh(1, 3, 3, 0),
                 F.tanh, L.NStepLSTM(1, 3, 2, 0), L.Linear(2, 3),
                 L.NStepRNNReLU(1, 3, 2, 0)),
    nest=lambda: ('seq', ('seq', L.Linear(2, 3), L.NStepRNNTanh(1, 3, 3, 0)),
                  F.tanh, L.NStepGRU(1, 3, 2, 0)),
    deep=lambda: ('seq', ('seq', ('seq', L.NStepLSTM(1, 2, 3, 0), F.tanh),
                          L.NStepGRU(1, 3, 2, 0)), L.Linear(2, 2)),
    branch=lambda: ('br', ('seq', L.NStepLSTM(1, 2, 3, 0), L.Linear(3, 2)),
                    ('seq', L.Linear(2, 3), L.NStepGRU(1, 3, 2, 0))),
    bare=lambda: ('br', L.NStepLSTM(1, 2, 3, 0), L.NStepRNNReLU(1, 2, 3, 0)),
    join=lambda: ('seq', ('br', ('seq', L.NStepLSTM(1, 2, 3, 0)),
                          L.NStepGRU(1, 2, 2, 0)), cat,
                  L.NStepRNNTanh(1, 5, 3, 0)),
    pair=lambda: ('seq', cat, L.Linear(3, 3), L.NStepLSTM(1, 3, 3, 0),
                  L.Linear(3, 2)),
)


def build(t):
    if isinstance(t, tuple):
        return (SR if t[0] == 'seq' else BR)(*[build(x) for x in t[1:]])
    return t


def whole(t, xs):
    """What the layers compute for one whole sequence, one layer at a time."""
    if isinstance(t, tuple):
        if t[0] == 'br':
            return tuple(whole(x, xs) for x in t[1:])
        for x in t[1:]:
            xs = whole(x, xs)
        return xs
    if isinstance(t, L.NStepLSTM):
        return t(None, None, [xs])[2][0]
    if isinstance(t, (L.NStepGRU, L.NStepRNNTanh, L.NStepRNNReLU)):
        return t(None, [xs])[1][0]
    return t(*xs) if isinstance(xs, tuple) else t(xs)


def rows(y):
    """Steps of an output as projections."""
    if isinstance(y, tuple):
        parts = [rows(z) for z in y]
        return [sum(p, []) for p in zip(*parts)]
    y = y.array if isinstance(y, chainer.Variable) else y
    y = y.reshape(len(y), -1).astype(np.float64)
    return [[int(round(float((r * PRJ[k][:r.size]).sum()) * 4096))
             for k in range(2)] for r in y]


def run(job):
    zoo.seed(job['seed'])
    tree = TREES[job['tree']]()
    pair = job['tree'] == 'pair'
    m = build(tree)
    if job['copy']:
        m = copy.deepcopy(m)
    for p in m.params():
        # the usual initial values give hardly any difference
        p.array[...] = np.random.uniform(-1, 1, p.shape)
    if job['copy']:
        # the tree is of the links of the original
        tree = TREES[job['tree']]()
        src = dict(m.namedparams())
        for n, p in build(tree).namedparams():
            p.array[...] = src[n].array

    def inp(ids):
        k = np.array(ids, dtype=np.int64)
        if pair:
            return X[k], A[k]
        return X[k]

    ref = []
    with chainer.no_backprop_mode():
        for n in (1, 2, 3):
            for h in itertools.product((1, 2, 3), repeat=n):
                ref.append(dict(h=list(h),
                                y=rows(whole(tree, inp(h)))[-1]))
    st, slots, evs = None, [], []
    for q in job['b']:
        op, how = q['op'], q['how']
        e = dict(op=op, x=q['x'], y=[], idx=q['idx'], exc='')
        evs.append(e)
        try:
            if op == 'fwd':
                one = all(len(x) == 1 for x in q['x'])
                if one and how >= 2:
                    # one step of a batch
                    x = inp([x[0] for x in q['x']])
                    if how >= 4 and not pair:
                        x = chainer.Variable(x)
                    y, st = m(x, st)
                    e['y'] = [[r] for r in rows(y)]
                else:
                    seqs = [inp(x) for x in q['x']]
                    mode = ('split', 'concat')[how % 2]
                    y, st = m.n_step_forward(seqs, st, output_mode=mode)
                    if mode == 'split':
                        e['y'] = [rows(z) for z in y]
                    else:
                        r = rows(y)
                        for x in q['x']:
                            e['y'].append(r[:len(x)])
                            r = r[len(x):]
                        if r:
                            e['y'].append(r)
            elif op == 'mask':
                idx = q['idx']
                if how and len(idx) == 1:
                    idx = idx[0]
                elif how:
                    idx = np.array(idx, dtype=np.int64)
                st = m.mask_recurrent_state_at(st, idx)
            elif op == 'get':
                idx = q['idx']
                if len(idx) == 1 and how % 2:
                    idx = idx[0]
                slots.append(m.get_recurrent_state_at(
                    st, idx, unwrap_variable=how >= 2))
            elif op == 'concat':
                st = m.concatenate_recurrent_states(
                    [None if k == 0 else slots[k - 1] for k in q['idx']])
            else:
                st = None
        except Exception as ex:
            if os.environ.get('VERIF_DEBUG'):
                raise
            e['exc'] = repr(ex)
            break
    return dict(cfg=dict(ref=ref, tol=6, tree=job['tree']), ev=evs)
