import dynlib
import rt
import scenes
import steplib
import vlib


class C(vlib.Check):
    id = 'D10'
    module = 'HistJudge'
    limit = 60
    chunks = 7
    rule = ('runs of chains and trees of bodies jointed at random anchors, pinned ones and fixed joints among them, spinning, colliding and '
            'being retried; non-trivial if there is a joint with an anchor')
    assumptions = ['runs end where joints and contacts contradict each other or jam (see D05)']

    def scene(self, rng):
        k = rng.random()
        if k < .5:
            sc = scenes.crowd(rng, joints=0, floor=rng.choice([0, .6]), spread=rng.choice([None, 5.]), speed=rng.choice([3., 15.]))
        elif k < .8:
            sc = scenes.duel(rng)
            sc['joints'], sc['excl'] = [], []
        else:
            sc = scenes.touching(rng, held=.3, joints=0)
        scenes.attach(rng, sc, .8, ('joint', 'joint', 'fixed'))
        for b in sc['bodies']:
            if rng.random() < .3:
                b['f'].append([rng.choice(['gravity', 'hor', 'rot', 'wave']), rng.choice([10., -40., 30.])])
        if rng.random() < .6:
            sc['dt'] = rng.choice([1 / 30, .01])
        sc['strict'] = rng.random() < .5
        sc['post'] = rng.random() < .2
        return sc

    def cases(self, rng, tier):
        q = tier == 'quick'
        return [{'id': 'scene%d' % i, 'scene': self.scene(rng), 'steps': rng.choice([4, 12, 30] if q else [8, 40, 120])}
                for i in range(330 if q else 2500)]

    def run_case(self, c):
        states = []
        for w, u in dynlib.updates(c['scene'], c['steps'], speed=100.):
            if not states:
                states.append({'p': [b['p'] for b in u.bodies], 'w': [b['v'][0] for b in u.bodies],
                               'joints': u.js, 'dt': vlib.real(0)})
            states.append({'p': [rt.vec(b.p, 3) for b in w.bodies], 'w': [rt.num(b.v[0]) for b in w.bodies],
                           'joints': rt.joints(w), 'dt': vlib.real(u.adv)})
        if not states:
            return [{'k': 'none'}]
        return [{'k': 'anchor', 'states': states, 'corrected': bool(c['scene']['post'])}]

    def trivial(self, r):
        return r['k'] == 'none' or not any(j['kind'] in ('joint', 'fixed') for j in r['states'][0]['joints'])


check = C()
