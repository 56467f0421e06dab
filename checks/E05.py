import inspect
import random

import numpy as np

import breakoutlib as bl
import rt
import vlib
from breakoutlib import rb


class Over(Exception):
    pass


class Game:
    """A game that does what a behaviour of spec/Controller.tla says."""
    def __init__(self, rng, script):
        self.rng, self.script, self.calls, self.lives = rng, list(script), [], 5
        self.ball = [100, 60]
        self.blocks = bl.runs(rng, 4)
        self.states = []

    def show(self):
        d = self.rng.choice([[2, 1], [3, -2], [-2, 3], [1, 0]])
        b = [self.ball[0] + d[0], self.ball[1] + d[1]]
        self.ball = b if 90 < b[0] < 180 and 10 < b[1] < 148 else [self.rng.randint(100, 150), self.rng.randint(20, 140)]
        self.states.append({'paddle': self.rng.randint(8, 144), 'blocks': self.blocks, 'ball': list(self.ball)})
        return bl.frame(self.states[-1])

    def reset(self):
        self.calls.append('reset')
        self.lives = 5
        return self.show()

    def step(self, action):
        self.calls.append(str(int(action)))
        if len(self.calls) > 200:
            raise Over()
        if action == 1:
            return self.show(), 0., False, {'ale.lives': self.lives}
        if not self.script:
            raise Over()
        e = self.script.pop(0)
        self.lives -= e['does'] == 'lose'
        return self.show(), float(e['reward']), e['does'] == 'stop', {'ale.lives': self.lives}

    def render(self, *a, **k):
        pass


class C(bl.BreakoutCheck):
    id = 'E05'
    level = 'model_checking'
    technique = ('TLA+ design model of the controller and its game, checked by TLC; its behaviours replayed on the code with a game and a '
                 'planner of their own, recordings judged by TLC')
    rule = 'behaviours of spec/Controller.tla: one to four episodes of up to three frames, with all plans, losses, rewards and ends'
    assumptions = ['the game and the planner, which are not installed, are stand-ins that follow the behaviour']

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs = self.generate('Controller', 'Controller.cfg' if q else 'ControllerT.cfg', rng, 900 if q else 12000)
        first = self.generated
        behs += self.generate('Controller', 'ControllerN.cfg', rng, 250 if q else 750)
        self.generated += first
        return [{'id': 'replay%d' % i, 'seed': rng.random(), 'behs': behs[i:i + 20]} for i in range(0, len(behs), 20)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        return [self.play(rng, b, '%s/%d' % (c['id'], i)) for i, b in enumerate(c['behs'])]

    def play(self, rng, beh, name):
        game = Game(rng, beh['script'])
        threshold, T = rng.choice([.99, .9, .5]), rng.choice([2, 2, 3, 4])
        plans, todo, last = [], list(beh['plans']), {}
        sig = inspect.signature(bl_mpc)

        def plan(*args, **kw):
            b = sig.bind(*args, **kw).arguments
            if not todo:
                raise Over()
            lost = 'calls' in last and any(x in ('1', 'reset') for x in game.calls[last['calls']:])
            a = np.asarray(b['a'], dtype=float)
            plans.append({'state': rt.vec(b['s1']), 'vel': rt.vec(b['ball_vel'], 2), 'game': game.states[-1], 'prev': game.states[-2],
                          'carried': [vlib.real(x) for x in a[:-1].reshape(-1)],
                          'rest': [] if lost or 'u' not in last else [vlib.real(x) for x in last['u'][1:].reshape(-1)]})
            want = todo.pop(0)
            u = np.array([[rng.uniform(-1, 1)] for _ in range(T)])
            u[0, 0] = {'left': rng.uniform(threshold, 1), 'right': -rng.uniform(threshold, 1),
                       'none': rng.uniform(-.99, .99) * threshold}[want]
            last.update(u=u.copy(), calls=len(game.calls))
            return u
        kept = rb.mpc
        rb.mpc, rb.gym.make = plan, lambda *a, **k: game
        average = float('nan')
        try:
            average = rb.run_breakout(T=T, threshold=threshold, paddle_vel=[3.74, 0.], render=False, num_episodes=beh['episodes'],
                                      verbose=rng.choice([0, 0, 2]))
        except Over:
            pass
        finally:
            rb.mpc = kept
        return {'k': 'control', 'id': name, 'calls': game.calls, 'wanted': beh['calls'], 'episodes': beh['episodes'],
                'reward': beh['reward'], 'average': vlib.real(average), 'plans': plans}


bl_mpc = rb.mpc
check = C()
