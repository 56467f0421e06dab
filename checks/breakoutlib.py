"""The Breakout experiment without its game and its planner, and frames of the game."""
import os
import random
import sys
import types

import numpy as np

import rt
import shapes
import vlib


def stubs():
    """Stand-ins for the packages of the game and of the planner, which are not installed."""
    gym = types.ModuleType('gym')
    gym.make = None
    gym.wrappers = types.SimpleNamespace(Monitor=lambda env, *a, **k: env)
    pkg, mpc = types.ModuleType('mpc'), types.ModuleType('mpc.mpc')
    mpc.GradMethods = types.SimpleNamespace(AUTO_DIFF=1, FINITE_DIFF=2, ANALYTIC=3)
    mpc.QuadCost = lambda C, c: (C, c)
    mpc.MPC = None
    pkg.mpc = mpc
    sys.modules.update({'gym': gym, 'mpc': pkg, 'mpc.mpc': mpc})


stubs()
sys.path.insert(0, os.path.join(vlib.REPO, 'experiments', 'breakout'))
import encoder  # noqa: E402
import run_breakout as rb  # noqa: E402

COLORS = [(200, 72, 72), (198, 108, 58), (180, 122, 48), (162, 162, 42), (72, 160, 72), (66, 72, 200)]
RED, GRAY, CYAN = COLORS[0], (142, 142, 142), (66, 158, 130)


def frame(s, rng=None):
    f = np.zeros((210, 160, 3), np.uint8)
    if rng is not None:      # the score
        for _ in range(rng.randint(0, 5)):
            c = rng.randint(0, 150)
            f[5:15, c:c + rng.randint(2, 8)] = GRAY
    f[17:31, :] = GRAY
    f[31:189, :8] = GRAY
    f[31:189, 152:] = GRAY
    f[189:195, :8] = CYAN
    f[189:195, 152:] = RED
    for row, l, r in s['blocks']:
        f[57 + 6 * (row - 1):57 + 6 * row, l:r] = COLORS[row - 1]
    f[189:193, s['paddle']:s['paddle'] + 16] = RED
    if s['ball']:
        i, j = s['ball']
        f[i:i + 4, j:j + 2] = RED
    return f


def runs(rng, row, every=False):
    """Maximal runs of blocks in a row."""
    p = rng.choice([0, 0, 1, .9, .5])
    on = [rng.random() < p for _ in range(18)] + [False]
    if every:
        on = [k % 2 == 0 for k in range(18)] + [False]
    out, since = [], None
    for k, x in enumerate(on):
        if x and since is None:
            since = k
        elif not x and since is not None:
            out.append([row, 8 + 8 * since, 8 + 8 * k])
            since = None
    return out


def game(rng, ball=None, few=False):
    every = not few and rng.random() < .1       # as many blocks as there can be
    s = {'paddle': rng.choice([8, 9, 144, rng.randint(8, 144), rng.randint(8, 144)]), 'ball': [],
         'blocks': [b for row in range(1, 7) for b in runs(rng, row, every) if not few or rng.random() < .2]}
    if ball if ball is not None else rng.random() < .85:
        while True:
            k = rng.random()
            if k < .3:
                b = [rng.randint(31, 205), rng.randint(8, 150)]
            elif k < .5 and s['blocks']:
                q = rng.choice(s['blocks'])
                b = [57 + 6 * q[0] - 6 + rng.randint(-5, 7), rng.choice([q[1], q[2]]) + rng.randint(-4, 4)]
            elif k < .7:
                b = [rng.randint(183, 195), s['paddle'] + rng.choice([0, 16]) + rng.randint(-5, 5)]
            else:
                b = [rng.randint(31, 185), rng.choice([8, 150, rng.randint(8, 150)])]
            if free(s, b):
                s['ball'] = b
                return s
    return s


def free(s, b):
    """Is there room for the ball?"""
    def hit(t, l, bt, r):
        return b[0] < bt and t < b[0] + 4 and b[1] < r and l < b[1] + 2
    return 31 <= b[0] <= 205 and 8 <= b[1] <= 150 and not hit(189, s['paddle'], 193, s['paddle'] + 16) and \
        not any(hit(51 + 6 * q[0], q[1], 57 + 6 * q[0], q[2]) for q in s['blocks'])


def shape(p):
    (x, y), (w, h) = p
    return {'x': rt.num(x), 'y': rt.num(y), 'w': rt.num(w), 'h': rt.num(h)}


def given(paddle, blocks, ball):
    return {'paddle': shape(paddle), 'blocks': [shape(b) for b in blocks],
            'ball': {'x': rt.num(ball[0][0]), 'y': rt.num(ball[0][1]), 'r': rt.num(ball[1])}}


def params(s):
    """The parameters of a state of the game, as extract_params gives them."""
    i, j = s['ball']
    return (([s['paddle'] + 8., 191.], [16., 4.]),
            [([(l + r) / 2, 54. + 6 * row], [float(r - l), 6.]) for row, l, r in s['blocks']],
            [[j + 1., i + 2.], 1.])


def tensors(ps):
    """The same, as they come from a vector."""
    paddle, blocks, ball = ps
    return [rt.T(x) for x in paddle], [[rt.T(x) for x in b] for b in blocks], [rt.T(ball[0]), rt.T(ball[1])]


class BreakoutCheck(vlib.Check):
    module = 'BreakoutJudge'
    chunks = 6
    limit = 60

    def generate(self, module, cfg, rng, n):
        behs, stats = vlib.behaviours(module, cfg, self.outdir)
        self.generated = [stats]
        behs = sorted(behs, key=repr)
        return rng.sample(behs, n) if len(behs) > n else behs
