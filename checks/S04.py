import scenes
import steplib


class C(steplib.StepCheck):
    id = 'S04'
    rule = ('steps of lenient and strict random worlds with a variable time step; behaviours of Stepper in all modes; non-trivial '
            'if the step was retried')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(120 if q else 1500):
            sc = scenes.duel(rng) if rng.random() < .5 else scenes.crowd(rng, floor=.8, gravity=.9)
            sc['strict'] = rng.random() < .3
            if rng.random() < .25:
                sc['tol'] = rng.choice([.05, .3, 1.])
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.randint(4, 14)})
        for i in range(40 if q else 600):
            out.append({'id': 'bullet%d' % i, 'scene': dict(scenes.bullet(rng), strict=rng.random() < .5), 'steps': 2})
        out += steplib.replay_cases(self, rng, ['var', 'fix'], lambda b: True, 700 if q else 0)
        return out

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        for w, pre in steplib.stepping(c['scene'], c['steps'], limit=60 if c['scene']['strict'] else 10**9):
            r = steplib.common(c['scene'], w, pre, c['id'])
            recs.append(dict(r, k='retry'))
            last = {'k': 'returns', 'id': r['id'] + '/next', 'pre': r['post'], 'excl': r['excl'], 'returned': True}
            if c['scene']['strict']:
                recs.append(last)
        if c['scene']['strict'] and recs and pre['n'] + 1 < c['steps']:
            recs[-1]['returned'] = not steplib.stepping.gave_up
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'replay' and not r['rejects']


check = C()
