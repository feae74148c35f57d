"""Driver: lives of agents - training, evaluation, saving, loading."""
import copy
import os
import shutil
import tempfile

import chainer
import numpy as np

from harness.drv import zoo


def copy_learned(a, b):
    """Give b every value of a without save / load.

    Both are {name: link or optimizer}.
    """
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, chainer.Link):
            px = dict(x.namedparams())
            for n, q in y.namedparams():
                q.array[...] = px[n].array
            lx = dict(x.namedlinks())
            for n, l in y.namedlinks():
                for m, v in list(vars(lx[n]).items()):
                    if isinstance(v, np.ndarray) and v.ndim:
                        w = getattr(l, m)
                        if isinstance(w, np.ndarray) and w.shape == v.shape:
                            w[...] = v
                        else:
                            setattr(l, m, v.copy())
                    elif isinstance(v, (int, float, np.generic, np.ndarray)) \
                            and not isinstance(v, bool):
                        setattr(l, m, v)
        else:
            y.t, y.epoch = x.t, x.epoch
            px = dict(x.target.namedparams())
            for n, q in y.target.namedparams():
                u, v = q.update_rule, px[n].update_rule
                u.t = v.t
                if v.state is not None:
                    if u.state is None:
                        u._state = {}
                        u.init_state(q)
                    for m in v.state:
                        if isinstance(u.state[m], np.ndarray):
                            u.state[m][...] = v.state[m]
                        else:
                            u.state[m] = v.state[m]


class Life(object):
    def __init__(self, job, base=0):
        self.job, self.p = job, dict(job['p'])
        zoo.seed(job['seed'], 'init', base)
        self.agent, self.buf, self.ex = zoo.make(job['kind'], self.p)
        self.disc = zoo.discrete(job['kind'])
        self.nt = self.ne = 0
        self.batch = job['batch']

    def acts(self, a):
        out = zoo.sc(a)
        if self.ex is not None:
            out += self.ex.seen
            self.ex.seen = []
        return out

    def train(self, q):
        """One training operation; returns what it did."""
        zoo.seed(self.job['seed'], 'train', self.nt)
        self.nt += 1
        op, a = q['op'][-1].lower(), self.agent
        if self.batch:
            n = self.p['n_envs']
            obs = [zoo.OBS[k] for k in q['o'][:n]]
            act = a.batch_act_and_train(obs)
            obs = [zoo.OBS[(k + 1) % 16] for k in q['o'][:n]]
            a.batch_observe_and_train(
                obs, [x / 2. for x in q['r'][:n]], q['done'][:n],
                q['reset'][:n])
            return self.acts(act)
        o, r = zoo.OBS[q['o'][0]], q['r'][0] / 2.
        if op == 't':
            return self.acts(a.act_and_train(o, r))
        a.stop_episode_and_train(o, r, op == 'd')
        return self.acts([])

    def evaluate(self, q, n=None):
        zoo.seed(self.job['seed'], 'eval', self.ne if n is None else n)
        self.ne += 1
        op, a = q['op'][-1].lower(), self.agent
        if self.batch:
            n = self.p['n_eval']
            obs = [zoo.OBS[k] for k in q['o'][:n]]
            act = a.batch_act(obs)
            obs = [zoo.OBS[(k + 1) % 16] for k in q['o'][:n]]
            a.batch_observe(obs, [x / 2. for x in q['r'][:n]],
                            q['done'][:n], q['reset'][:n])
            return self.acts(act)
        if op == 'e':
            return self.acts(a.act(zoo.OBS[q['o'][0]]))
        a.stop_episode()
        return self.acts([])

    def probe(self):
        """What the agent does when evaluated for one episode."""
        out = []
        for k in range(3):
            zoo.seed('probe', k)
            if self.batch:
                n = self.p['n_eval']
                out += zoo.sc(self.agent.batch_act(
                    [zoo.OBS[(5 * j + k) % 16] for j in range(n)]))
                self.agent.batch_observe(
                    [zoo.OBS[0]] * n, [0.] * n, [False] * n, [k == 2] * n)
            else:
                out += zoo.sc(self.agent.act(zoo.OBS[4 * k]))
        if not self.batch:
            self.agent.stop_episode()
        return out

    def view(self):
        return zoo.as_list(zoo.view(self.agent, self.buf))

    def learned(self):
        return zoo.as_list(zoo.learned_view(self.agent))


TRAIN = ('t', 'd', 'u', 'T')


def run(job):
    base = []
    ref = Life(job)
    init = ref.view()
    for q in job['b']:
        if q['op'] == 'R':
            break
        if q['op'] in TRAIN:
            act = ref.train(q)
            base.append(dict(act=act, view=ref.view()))
    del ref
    life = Life(job)
    assert life.view() == init, 'two agents built alike differ'
    root = tempfile.mkdtemp()
    evs, pair, inep, mide, snaps = [], None, False, False, {}
    try:
        for q in job['b']:
            op = q['op']
            e = dict(exc='', act=[], view=[], pre=[], un=[], d=0, cact=[],
                     cview=[])
            evs.append(e)
            d = os.path.join(root, 'x', str(q['d']), 'agent')
            e['d'] = q['d']
            try:
                if op in TRAIN:
                    e['op'] = 'train'
                    e['act'] = life.train(q)
                    inep = op == 't'
                    e['view'] = life.view()
                elif op in ('e', 's', 'E'):
                    e['op'] = 'eval'
                    life.evaluate(q)
                    mide = op == 'e'
                    e['view'] = life.view()
                elif op == 'S':
                    e['op'] = 'save'
                    if job['probe'] and not inep and not mide:
                        e['act'] = life.probe()
                    e['pre'] = life.view()
                    e['un'] = zoo.unused_optimizers(life.agent)
                    life.agent.save(d)
                    snaps[q['d']] = copy.deepcopy(zoo.learned(life.agent))
                    e['view'] = life.view()
                elif op == 'R':
                    e['op'] = 'reload'
                    life.agent.load(d)
                    e['view'] = life.view()
                elif op == 'L':
                    e['op'] = 'load'
                    x = Life(job, 1)
                    x.agent.load(d)
                    e['view'] = x.learned()
                    y = Life(job, 1)
                    # the learned values of the saved one by another way
                    copy_learned(snaps[q['d']], zoo.learned(y.agent))
                    if job['probe']:
                        e['act'] = x.probe()
                        y.probe()
                    pair = (x, y)
                else:
                    e['op'] = 'pair'
                    x, y = pair
                    if op in ('pe', 'PE'):
                        e['act'], e['cact'] = x.evaluate(q), y.evaluate(q)
                        if op == 'pe':
                            x.agent.stop_episode()
                            y.agent.stop_episode()
                    else:
                        e['act'], e['cact'] = x.train(q), y.train(q)
                    e['view'], e['cview'] = x.view(), y.view()
            except Exception as ex:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                e['exc'] = repr(ex)
                e.setdefault('op', op)
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return dict(cfg=dict(base=base, init=init, tol=8, evals=job['evals'], kind=job['kind']), ev=evs)
