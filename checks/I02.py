import random

import learnlib as ll
import rt
import scenes
import vlib
from rt import torch


class C(vlib.Check):
    id = 'I02'
    module = 'LearnJudge'
    rule = ('the chain for random numbers of links and masses; runs of short chains, pushed hard, and of random worlds, for random times, '
            'with and without a screen; non-trivial if there is a chain of two links or a step')
    assumptions = []
    limit = 60

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(60 if q else 600):
            out.append({'id': 'scene%d' % i, 'n': rng.choice([1, 2, 3, 10, rng.randint(2, 25)]), 'mass': rng.choice([7., 1., rng.uniform(.01, 60)]),
                        'seed': rng.random()})
        for i in range(100 if q else 1500):
            sc = None
            if rng.random() < .7:
                sc = scenes.duel(rng) if rng.random() < .3 else scenes.crowd(rng) if rng.random() < .6 else scenes.stack(rng)
                sc['strict'], sc['post'] = rng.random() < .3, rng.random() < .2
            out.append({'id': 'run%d' % i, 'seed': rng.random(), 'scene': sc, 'n': rng.randint(1, 4), 'mass': rng.uniform(.5, 9)})
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        mod = ll.load('inference')
        if 'scene' in c:
            return self.run(rng, mod, c)
        mass = rt.T([c['mass']]).requires_grad_() if rng.random() < .7 else torch.tensor(c['mass'], dtype=rt.DT, requires_grad=True)
        if c['n'] == 10 and rng.random() < .5:
            w, last = mod.make_world([mod.hor_impulse], mass)
        else:
            w, last = mod.make_world([mod.hor_impulse], mass, num_links=c['n'])
        masses = [b.mass for b in w.bodies[:c['n']]]
        shares = [torch.autograd.grad(m.sum(), mass, retain_graph=True)[0] if m.requires_grad else 0. for m in masses]
        touching = sorted({tuple(sorted((int(k[1]) + 1, int(k[2]) + 1))) for k in w.contacts})
        return [{'k': 'scene', 'id': c['id'], 'n': c['n'], 'mass': rt.num(mass), 'bodies': rt.bodies(w), 'masses': [rt.num(m) for m in masses],
                 'shares': [rt.num(s) for s in shares], 'touching': [list(t) for t in touching],
                 'joints': [{'i1': j['i1'], 'i2': j['i2'], 'pos': j['pos']} for j in rt.joints(w)]}]

    def run(self, rng, mod, c):
        def make():
            random.seed(1)
            if c['scene']:
                return scenes.build(c['scene'])
            return mod.make_world([lambda t: 10 * mod.hor_impulse(t)], rt.T([c['mass']]), num_links=c['n'])[0]

        def poses(w):
            return [x for b in w.bodies for x in rt.vec(b.p, 3)]
        w = make()
        until = rng.choice([0, w.dt / 2, rng.uniform(0, 12) * w.dt, 3 * w.dt, .7 if not c['scene'] else 2 * w.dt])
        count = rt.limit_trials(w, 60)
        hand = [{'p': poses(w), 't': rt.num(w.t)}]
        while w.t < until:
            count['n'] = 0
            try:
                w.step()
            except rt.Trials:
                return []
            if len(hand) > 80 or not torch.isfinite(w.v).all() or w.v.abs().max() > 1e4:
                return []
            hand.append({'p': poses(w), 't': rt.num(w.t)})
        w = make()
        screen = rng.random() < .3
        shown = [0]
        kw = {}
        if screen:
            import pygame
            pygame.display.init()
            kw['screen'] = pygame.display.set_mode((60, 50))
            kept = pygame.display.update
            pygame.display.update = lambda *a: shown.__setitem__(0, shown[0] + 1)
        try:
            states = mod.positions_run_world(w, run_time=until, **kw)
        finally:
            if screen:
                pygame.display.update = kept
        return [{'k': 'run', 'id': c['id'], 'until': vlib.real(until), 'hand': hand, 'states': [rt.vec(s) for s in states],
                 'screen': screen and len(hand) > 1, 'shown': shown[0]}]

    def trivial(self, r):
        return r['k'] == 'run' and len(r['states']) < 2


check = C()
