import random

import breakoutlib as bl
import rt
import shapes
import vlib
from breakoutlib import encoder, rb
from rt import torch


class C(bl.BreakoutCheck):
    id = 'E04'
    level = 'exploration'
    technique = 'TLA+ specification of a step of the game; TLC validation of steps that the code makes'
    rule = ('random states, most with the ball about to hit something, stepped one to four times with random actions; non-trivial if '
            'the ball meets the scenery')
    assumptions = ['the ball flies at most six pixels in a frame, less than a block and itself are high',
                   'where ball and paddle meet, only their positions are judged: the laws of impact are those of D05']

    def cases(self, rng, tier):
        return [{'id': 'game%d' % i, 'seed': rng.random()} for i in range(330 if tier == 'quick' else 5000)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        while True:
            s = bl.game(rng, ball=True, few=rng.random() < .8)
            ps = bl.params(s)
            k = rng.random()
            if k < .35 and ps[1]:
                (x, y), (bw, bh) = rng.choice(ps[1])
                at = [x + rng.choice([rng.uniform(-.6, .6) * bw, bw / 2, -bw / 2]) + rng.uniform(-4, 4),
                      y + rng.uniform(-2, 2) * bh]
            elif k < .6:
                at = rng.choice([[rng.choice([8, 152]) + rng.uniform(-6, 6), rng.uniform(31, 180)],
                                 [rng.uniform(8, 152), 31 + rng.uniform(0, 6)]])
            elif k < .75:
                at = [s['paddle'] + rng.uniform(-10, 26), 189 + rng.uniform(-8, 2)]
            else:
                at = [x + rng.uniform(-.5, .5) for x in ps[2][0]]
            ps[2][0] = at
            if not (9 < at[0] < 151 and 32 < at[1] < 187):
                continue
            circle = shapes.make({'k': 'c', 'r': 1.}, at)
            if all(shapes.separation(circle, rt.Rect(*p)) > .01 for p in [ps[0]] + ps[1]):
                break
        v = rng.uniform(0, 4)
        vel = [rng.choice([-1, 1]) * rng.choice([v, 0, 1, 2.]), rng.choice([-1, 1]) * rng.uniform(.2, 4)]
        pv = [rng.choice([3.74, -3.74, rng.uniform(-5, 5)]), rng.choice([0., 0., 0., rng.uniform(-.5, .5)])]
        w, ball, paddle, blocks, pi = encoder.make_world(*(bl.tensors(ps) if rng.random() < .5 else ps), vel)
        count = rt.limit_trials(w, 200)
        simulate = rng.random() < .4
        out = []
        for n in range(rng.choice([1, 1, 2, 4])):
            a = rng.choice([1., -1., 0., rng.uniform(-1, 1)])
            r = {'k': 'bstep', 'id': '%s/%d' % (c['id'], n), 'bodies': rt.bodies(w), 't': rt.num(w.t), 'a': vlib.real(a), 'pv': rt.vec(pv),
                 'ball': 1 + w.bodies.index(ball), 'paddle': pi + 1, 'blocks': [1 + w.bodies.index(b) for b in blocks],
                 'sn': [], 'slope': [], 'dims': rt.vec(ps[0][1]), 'sizes': [rt.vec(x[1]) for x in ps[1]]}
            count['n'] = 0
            try:
                if simulate and blocks:
                    act = torch.tensor([a], dtype=torch.double, requires_grad=True)
                    sn = rb.simulate_breakout(act, w, ball, paddle, blocks, pi, paddle_vel_x=pv[0], paddle_vel_y=pv[1])
                    r['sn'] = rt.vec(sn[0])
                    r['slope'] = [rt.num(torch.autograd.grad(sn[0][k], act, retain_graph=True)[0]) for k in (0, 1)]
                else:
                    encoder.step_breakout(w, pi, rng.choice([a, rt.T([a])]), paddle_vel_x=pv[0], paddle_vel_y=pv[1])
            except rt.Trials:
                break
            r.update(after=rt.bodies(w), p2=[rt.vec(b.p, 3) for b in w.bodies], v2=[rt.vec(b.v, 3) for b in w.bodies], t2=rt.num(w.t))
            out.append(r)
        return out

    def trivial(self, r):
        return False


check = C()
