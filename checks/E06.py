import random

import numpy as np

import breakoutlib as bl
import rt
import vlib
from breakoutlib import encoder, rb
from rt import torch


class C(bl.BreakoutCheck):
    id = 'E06'
    level = 'exploration'
    technique = 'TLA+ specification of the controller\'s problem; TLC validation of the problems that the code hands to the planner'
    rule = 'random states, velocities of the ball, horizons and plans; the cost is evaluated at random states, the model against a step'
    assumptions = ['the planner, which is not installed, is a stand-in that records its problem']

    def cases(self, rng, tier):
        return [{'id': 'plan%d' % i, 'seed': rng.random()} for i in range(120 if tier == 'quick' else 2500)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        s = bl.game(rng, ball=True, few=rng.random() < .7)
        s['blocks'] = s['blocks'][:rng.choice([1, 3, 3, 6, 25])] or [[2, 16, 32]]
        while not bl.free(s, s['ball']) or s['ball'][0] > 180:
            s = dict(s, ball=[rng.randint(31, 180), rng.randint(8, 150)])
        ps = bl.params(s)
        lost = rng.random() < .15
        if lost:
            ps = (ps[0], ps[1], [[80., 21000.], 1.])
        s1 = rb.to_vector(*ps)
        T = rng.randint(1, 7)
        vel = rt.T([rng.uniform(-4, 4), rng.choice([-1, 1]) * rng.choice([rng.uniform(.3, 5), (191 - float(s1[-2])) / rng.uniform(.2, 6)])])
        if lost:
            vel = rt.T([0., rng.choice([0., -20900.])])
        a = np.array([[rng.uniform(-1, 1)] for _ in range(T)])
        lam, centering = rng.choice([1e-3, 1e-20, .5]), rng.random() < .5
        answer = torch.tensor([[[rng.uniform(-1, 1)]] for _ in range(T)], dtype=torch.double)
        seen = {}

        class MPC:
            def __init__(self, *args, **kw):
                seen.update(kw)

            def __call__(self, x, cost, dynamics):
                seen.update(x=x, cost=cost, dynamics=dynamics)
                return x, answer, None
        kept = rb.MPC
        rb.MPC = MPC
        try:
            pv = [rng.choice([-3.74, 3.74]), 0.]
            got = rb.mpc(s1, a, T, ball_vel=vel, lambda_a=lam, centering=centering, paddle_vel=pv, verbose=0)
        finally:
            rb.MPC = kept
        n = len(s1)
        Q, p = seen['cost']
        Q = Q.reshape(T, n + 1, n + 1)
        if p.abs().max() != 0:
            raise rt.BadShape('a linear cost')
        x = [rng.uniform(0, 160) for _ in range(n)] + [rng.uniform(-1, 1)]
        # the model, where ball and blocks are slow enough to be stepped
        slow = float(vel.abs().max()) <= 5
        u = torch.tensor([[rng.uniform(-1, 1)]], dtype=torch.double)
        nxt = stepped = rt.T([])
        if slow:
            nxt = seen['dynamics'](s1.clone().unsqueeze(0), u)[0]
            w, ball, paddle, blocks, pi = encoder.make_world(*rb.from_vector(s1.clone()), vel)
            encoder.step_breakout(w, pi, u[0], paddle_vel_x=pv[0], paddle_vel_y=pv[1])
            stepped = rb.to_vector([paddle.pos, paddle.dims], [[b.pos, b.dims] for b in blocks], [ball.pos, float(ball.rad)])
        return [{'k': 'plan', 's': rt.vec(s1), 'x': rt.vec(x), 'vel': rt.vec(vel), 'lambda': vlib.real(lam), 'centering': centering,
                 'costs': [rt.mat(q) for q in Q], 'lower': rt.num(seen['u_lower']), 'upper': rt.num(seen['u_upper']),
                 'init': rt.vec(seen['x'].reshape(-1)), 'guess': rt.vec(seen['u_init'].reshape(-1)),
                 'plan': [vlib.real(z) for z in a.reshape(-1)], 'next': rt.vec(nxt.detach()), 'stepped': rt.vec(stepped.detach()),
                 'answer': rt.vec(answer.reshape(-1)), 'handed': [vlib.real(z) for z in np.asarray(got).reshape(-1)]}]


check = C()
