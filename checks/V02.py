import contextlib
import io
import random

import pygame

import rt
import runlib
import scenes
import vlib

TICK = 1 / 32        # of spec/RunLoop.tla, where a time step has two


class Stop(Exception):
    pass


def state(w):
    return {'t': rt.num(w.t), 'p': [x for b in w.bodies for x in rt.vec(b.p, 3)], 'v': rt.vec(w.v)}


def picture(w, size, scale):
    s = pygame.Surface(size)
    s.fill((255, 255, 255))
    for b in w.bodies:
        b.draw(s, pixels_per_meter=scale)
    for j in w.joints:
        j[0].draw(s, pixels_per_meter=scale)
    return runlib.token(s)


class C(runlib.RunCheck):
    id = 'V02'
    level = 'model_checking'
    technique = ('TLA+ design model of the run loop, checked by TLC; its behaviours replayed on the code with a clock of their own, '
                 'recorded runs judged by TLC against the specification')
    rule = ('behaviours of spec/RunLoop.tla (run times, animation rates, costs of steps, closing, with and without screen and recorder) '
            'replayed on run_world; runs of random worlds with random settings; non-trivial if a step is made')
    assumptions = ['the clock of the wall passes only in steps and in sleeping']

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs = self.behaviours(tier, 'RunLoop', 1400, 12000, rng)
        out = [{'id': 'replay%d' % i, 'seed': rng.random(), 'behs': behs[i:i + 25]} for i in range(0, len(behs), 25)]
        for i in range(90 if q else 1500):
            sc = scenes.duel(rng) if rng.random() < .3 else scenes.crowd(rng) if rng.random() < .6 else scenes.stack(rng)
            sc['strict'], sc['post'] = rng.random() < .3, rng.random() < .2
            out.append({'id': 'scene%d' % i, 'seed': rng.random(), 'scene': sc})
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        pygame.display.init()
        if 'behs' in c:
            return [self.replay(rng, b, '%s/%d' % (c['id'], i)) for i, b in enumerate(c['behs'])]
        sc = c['scene']
        for b in sc['bodies']:
            b['p'] = [b['p'][0] + 20, b['p'][1] + 20]
        for j in sc['joints']:
            if j.get('pos') is not None:
                j['pos'] = [j['pos'][0] + 20, j['pos'][1] + 20]
        dt = sc['dt']
        anim = rng.choice([None, dt, dt / 2, 2.5 * dt, .02])
        opts = {'run': rng.choice([0, dt / 2, dt, rng.uniform(1, 12) * dt]), 'kind': rng.choice(['bare', 'screen', 'recorder', 'batch']),
                'anim': anim, 'close': rng.choice([0, 0, 0, rng.randint(1, 6)]),
                'costs': [rng.choice([0, dt / 3, rng.uniform(0, 3) * dt]) for _ in range(200)]}
        r = self.run(rng, lambda: scenes.build(sc), opts, c['id'], 1e-9)
        return [r] if r else []

    def replay(self, rng, beh, name):
        v = [rng.uniform(-1, 1), rng.uniform(-9, 9), rng.uniform(-9, 9)]

        def make():
            return rt.World([rt.Circle([10, 10], 3, vel=v)], dt=2 * TICK)
        opts = {'run': beh['run'] * TICK, 'kind': beh['kind'], 'anim': beh['anim'] * TICK, 'close': beh['close'],
                'costs': [h['cost'] * TICK for h in beh['hist']] + [0] * 20}
        r = self.run(rng, make, opts, name, 0)
        r['beh'] = [{'shown': h['shown'], 'began': h['began'], 'ended': h['ended']} for h in beh['hist']]
        return r

    def run(self, rng, make, opts, name, slack):
        size, scale = (60, 50), rng.choice([1, 1, 2, .7])
        kind, until = opts['kind'], opts['run']
        anim = opts['anim']
        # stepping by hand
        random.seed(1)
        w = make()
        count = rt.limit_trials(w, 60)
        hand, pictures = [], []
        while w.t < until:
            count['n'] = 0
            try:
                w.step()
            except rt.Trials:
                return None
            if len(hand) > 80 or not rt.torch.isfinite(w.v).all() or w.v.abs().max() > 1e4:
                return None
            hand.append(state(w))
            pictures.append(picture(w, size, scale))
        # running
        random.seed(1)
        w = make()
        if kind == 'batch':
            w.worlds = []
        screen = pygame.display.set_mode(size) if kind != 'bare' else None
        steps = []
        told = {'closed': False}
        clock = runlib.Clock()
        inner = w.step
        t0 = w.t

        def step(*a, **k):
            if len(steps) > len(hand) + 3:
                raise Stop()
            s = {'began': vlib.real(clock.now - 1024.), 'cost': vlib.real(opts['costs'][len(steps)]), 'shown': 0, 'picture': 0,
                 'told': vlib.real(0), 'wanted': pictures[len(steps)] if len(steps) < len(pictures) else -1}
            if steps:
                steps[-1]['ended'] = s['began']
            inner(*a, **k)
            clock.now += opts['costs'][len(steps)]
            s.update(state(w))
            steps.append(s)
        w.step = step

        def show(*_):
            steps[-1]['shown'] += 1
            steps[-1]['picture'] = runlib.token(screen)

        def events(*_, **__):
            if opts['close'] and len(steps) == opts['close'] and not told['closed']:
                told['closed'] = True
                return [pygame.event.Event(pygame.KEYDOWN, key=65), pygame.event.Event(pygame.QUIT)]
            return []

        class Recorder:
            def record(self, t):
                show()
                steps[-1]['told'] = rt.num(t)
        kept = pygame.event.get, pygame.display.update, pygame.display.flip
        printed = io.StringIO()
        say = rng.random() < .3
        kw = {} if say and rng.random() < .5 else {'print_time': say}
        if anim is not None:
            kw['animation_dt'] = anim
        if scale != 1 or rng.random() < .5:
            kw['pixels_per_meter'] = scale
        pygame.event.get, pygame.display.update, pygame.display.flip = events, show, show
        try:
            with clock, contextlib.redirect_stdout(printed):
                rt.run_world(w, run_time=until, screen=screen, recorder=Recorder() if kind == 'recorder' else None, **kw)
        except Stop:
            pass
        finally:
            pygame.event.get, pygame.display.update, pygame.display.flip = kept
        if steps:
            steps[-1]['ended'] = vlib.real(clock.now - 1024.)
        return {'k': 'run', 'id': name, 'run': vlib.real(until), 't0': rt.num(t0), 'kind': kind, 'close': opts['close'],
                'anim': vlib.real(w.dt if anim is None else anim), 'hand': hand, 'steps': steps, 'slack': vlib.real(slack),
                'tick': vlib.real(TICK), 'print': say, 'printed': bool(printed.getvalue()), 'beh': []}

    def trivial(self, r):
        return not r['steps']


check = C()
