"""Driver for the emulator env: a scripted stand-in for the emulator."""
import numpy as np

from chainerrl.envs import ale as mod

LEGAL = [0, 3, 4, 11]


class Emulator(object):
    job = None      # set before construction
    last = None

    def __init__(self):
        job = Emulator.job
        self.script, self.pos, self.log = job['b'], 0, []
        self.over, self.nlives, self.frames = False, 3, 0
        self.settings = {}
        self.scr = [7, 8, 9, 10]
        Emulator.last = self

    def setInt(self, k, v):
        self.settings[k] = v
    setFloat = setBool = setString = setInt

    def loadROM(self, path):
        pass

    def getFrameNumber(self):
        return self.frames

    def getMinimalActionSet(self):
        return np.array(LEGAL)

    def getLegalActionSet(self):
        return np.arange(18)

    def getScreenDims(self):
        return 160, 210

    def getScreenRGB(self, *args):
        a, bl, br, c = [10 * x for x in self.scr]
        s = np.zeros((210, 160, 3), dtype=np.uint8)
        s[:34] = a
        s[34:196, :80] = bl
        s[34:196, 80:] = br
        s[196:] = c
        return s

    def lives(self):
        return self.nlives

    def game_over(self):
        return self.over

    def answer(self):
        x = self.script[self.pos % len(self.script)]
        self.pos += 1
        self.scr = list(x['scr'])
        return x

    def record(self, op, a, r):
        self.log.append(dict(op=op, a=int(a), r=r, over=self.over,
                             lives=self.nlives, scr=list(self.scr)))

    def reset_game(self):
        self.answer()
        self.over, self.nlives, self.frames = False, 3, 0
        self.record('reset_game', 0, 0)

    def act(self, a):
        x = self.answer()
        self.frames += 1
        self.nlives = max(0, self.nlives + x['life'])
        # the game ends when no life is left, or at will
        self.over = self.over or x['over'] or self.nlives == 0
        self.record('act', a, x['r'])
        return x['r']


class Stub(object):
    ALEInterface = Emulator

    @staticmethod
    def get_game_path(game):
        return '/nonexistent'


def look(obs):
    """The four regions of each screen, in units of 10."""
    return [[int(round(float(s[r, c]) / 10))
             for r, c in ((4, 20), (42, 20), (42, 64), (80, 64))]
            for s in (np.asarray(o) for o in obs)]


def run(job):
    mod.atari_py, mod.atari_py_available = Stub, True
    Emulator.job = job
    np.random.seed(job['seed'])
    p = job['p']
    ev, kept = [], []
    env = mod.ALE('game', seed=p['seed'] if p['seed'] >= 0 else None,
                  n_last_screens=p['n'], frame_skip=p['skip'],
                  treat_life_lost_as_terminal=p['life'],
                  crop_or_scale='crop' if p['crop'] else 'scale',
                  max_start_nullops=p['nulls'])
    emu = Emulator.last

    def emit(e, f):
        emu.log = []
        e['raised'] = False
        try:
            f(e)
        except Exception as x:
            e['raised'], e['error'] = True, repr(x)[:200]
        e['inner'] = emu.log
        ev.append(e)
    ev.append(dict(op='init', a=0, inner=emu.log, raised=False,
                   obs=look(env.state), r=0, done=False,
                   seed=int(emu.settings.get(b'random_seed', -1))))
    done = True

    def reset(e):
        o = env.reset()
        kept.append((o, look(o)))
        e.update(obs=look(o))

    def step(e):
        o, r, d, _ = env.step(e['a'])
        kept.append((o, look(o)))
        e.update(obs=look(o), r=int(r), done=bool(d))
    for k, x in enumerate(job['u']):
        if done or x['reset']:
            if k or job['seed'] % 2:
                emit(dict(op='reset', a=0, r=0, done=False), reset)
            done = False
        emit(dict(op='step', a=x['a']), step)
        if ev[-1]['raised']:
            break
        done = ev[-1]['done']
    ev.append(dict(op='recheck', same=all(look(o) == c for o, c in kept)))
    return dict(cfg=dict(p, legal=LEGAL, lives0=3, scr0=[7, 8, 9, 10]), ev=ev)
