import os
import random

import pygame

import rt
import runlib
import vlib


class C(runlib.RunCheck):
    id = 'V01'
    level = 'model_checking'
    technique = ('TLA+ design model of the recorder, checked by TLC; its behaviours replayed on the code, recordings judged by TLC against '
                 'the specification')
    rule = ('behaviours of spec/Recorder.tla (calls at any distance, all frame intervals) replayed on recorders; histories of calls of '
            'any length at random times; non-trivial if a frame is written')
    assumptions = ['a call within 1e-9 of the time a frame is due may or may not write it']

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs = self.behaviours(tier, 'Recorder', 1500, 20000, rng)
        out = [{'id': 'replay%d' % i, 'seed': rng.random(), 'behs': behs[i:i + 50]} for i in range(0, len(behs), 50)]
        out += [{'id': 'random%d' % i, 'seed': rng.random()} for i in range(150 if q else 4000)]
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        if 'behs' not in c:
            dt = rng.choice([1 / 30, 1 / 60, .1, 1 / 24, .5, rng.uniform(.01, 1)])
            step = rng.choice([dt, dt / 2, dt / 4, 1 / 30, 1 / 60, 2.5 * dt, rng.uniform(.1, 2) * dt])
            t, times = rng.choice([0, 0, rng.uniform(0, 3)]), []
            for _ in range(rng.randint(1, 40)):
                t += rng.choice([step, step, step, 0, step / 2, step * rng.random()]) if rng.random() < .9 else 3 * dt
                times.append(t)
            return [self.record(rng, dt, times, [], c['id'], 1e-9)]
        tick = rng.choice([.25, .03125, .5, 1.])
        return [self.record(rng, b['dt'] * tick, [h['t'] * tick for h in b['hist']], [h['frames'] for h in b['hist']],
                            '%s/%d' % (c['id'], i), 0) for i, b in enumerate(c['behs'])]

    def record(self, rng, dt, times, beh, name, slack):
        base = runlib.scratch(self, name)
        path = os.path.join(base, *rng.choice([['a'], ['a', 'b', 'c'], []]))
        home = os.getcwd()
        if rng.random() < .2:           # a folder that is there already, with something else in it
            os.makedirs(path, exist_ok=True)
            open(os.path.join(path, 'notes.txt'), 'w').close()
        try:
            screen = pygame.Surface((rng.randint(3, 12), rng.randint(3, 12)))
            if rng.random() < .1:
                os.chdir(base)
                rec, path = rt.Recorder(dt, screen), os.path.join(base, 'videos', 'frames')
            else:
                rec = rt.Recorder(dt, screen, path)
            calls = []
            for t in times:
                runlib.noise(rng, screen)
                shown = runlib.token(screen)
                rec.record(t)
                files, others = runlib.frames(path)
                calls.append({'t': vlib.real(t), 'shown': shown, 'after': runlib.token(screen), 'files': files, 'others': others})
        finally:
            os.chdir(home)
            runlib.drop(base)
        return {'k': 'rec', 'id': name, 'dt': vlib.real(dt), 'slack': vlib.real(slack), 'calls': calls, 'beh': beh}

    def trivial(self, r):
        return not r['calls'] or not r['calls'][-1]['files']


check = C()
