import math

import contactlib
import rt
import scenes
import shapes
import vlib

PLACES = {(): [(0, 0), (30, 0), (0, 30)], (12, 13, 23): [(0, 0), (3, 0), (1.5, 2)],
          (12,): [(0, 0), (3, 0), (0, 40)], (12, 23): [(0, 0), (3, 0), (6, 0)]}
HEX = [[2, 0], [1, 1.8], [-1, 1.8], [-2, 0], [-1, -1.8], [1, -1.8]]
SHAPES = {'c': {'k': 'c', 'r': 2}, 'r': {'k': 'r', 'd': [4, 4]}, 'h': {'k': 'h', 'v': HEX}}


class C(vlib.Check):
    id = 'C04'
    module = 'ContactJudge'
    level = 'model_checking'
    technique = 'TLA+ design model checked by TLC, its behaviours replayed on the code, TLC trace validation'
    rule = ('behaviours of spec/NoContact.tla (exclusions, creation, movements in every order) replayed on worlds of '
            'three bodies of random kinds; random worlds of up to nine bodies; non-trivial if a pair touches')
    assumptions = ['proxies are inflated by the detection distance, as by default']

    def cases(self, rng, tier):
        behs, stats = vlib.behaviours('NoContact', 'NoContact.cfg', self.outdir)
        self.generated = [stats]
        behs = sorted(behs, key=repr)
        if tier == 'quick':
            behs = rng.sample(behs, 2800)
        out = []
        for i in range(0, len(behs), 100):
            out.append({'id': 'replay%d' % (i // 100), 'seed': rng.random(), 'behs': behs[i:i + 100]})
        for i in range(60 if tier == 'quick' else 1500):
            n = rng.randint(4, 9)
            bs = [{'s': shapes.shape(rng), 'p': [rng.uniform(-12, 12), rng.uniform(-12, 12)], 'r': rng.uniform(-3, 3),
                   'v': [rng.choice([0, rng.uniform(-u, u)]) for u in (3, 90, 90)]}
                  for _ in range(n)]
            pairs = [(a, b) for a in range(n) for b in range(n) if a != b]
            out.append({'id': 'scene%d' % i, 'bodies': bs, 'late': rng.random() < .5, 'eps': rng.choice([.1, .1, .3]),
                        'excl': rng.sample(pairs, rng.randint(0, n))})
        for i in range(150 if tier == 'quick' else 3000):       # pairs that just touch
            sc = scenes.touching(rng, speed=rng.choice([3, 90])) if rng.random() < .6 else scenes.tip(rng)
            bs = [{'s': b['s'], 'p': b['p'], 'r': b['r'], 'v': b['v']} for b in sc['bodies']]
            out.append({'id': 'graze%d' % i, 'bodies': bs, 'late': rng.random() < .5, 'eps': .1, 'excl': []})
        for i, p in enumerate(contactlib.tip_pairs(rng, 'rh', 'rh', 80 if tier == 'quick' else 1500)):
            bs = [{'s': p[k], 'p': p['p' + k], 'r': p['r' + k], 'v': [0, 0, 0]} for k in 'ab']
            out.append({'id': 'tips%d' % i, 'bodies': bs, 'late': rng.random() < .5, 'eps': p['eps'], 'excl': []})
        return out

    def run_case(self, case):
        if 'behs' in case:
            import random
            rng = random.Random(case['seed'])
            recs = []
            for i, beh in enumerate(case['behs']):
                recs += self.replay(beh, '%s/%d' % (case['id'], i), rng)
            return recs
        bs = [shapes.make(b['s'], b['p'], b['r'], eps=case['eps'], vel=b['v']) for b in case['bodies']]

        def exclude():
            for a, b in case['excl']:
                bs[a].add_no_contact(bs[b])
        if not case['late']:
            exclude()
        w = rt.World(bs, eps=case['eps'], strict_no_penetration=False)
        if case['late']:
            exclude()
            w.find_contacts()
        return [{'k': 'scene', 'eps': rt.num(case['eps']), 'bodies': rt.bodies(w), 'contacts': rt.contacts(w),
                 'excluded': [[a + 1, b + 1] for a, b in case['excl']]}]

    def replay(self, beh, name, rng):
        kinds = [rng.choice('crh') for _ in range(3)]
        bs = [shapes.make(SHAPES[k], p) for k, p in zip(kinds, PLACES[()])]
        w, recs = None, []
        for n, e in enumerate(beh):
            if e['op'] == 'exclude':
                bs[e['a'] - 1].add_no_contact(bs[e['b'] - 1])
                continue
            if e['op'] == 'make':
                w = rt.World(bs, strict_no_penetration=False)
            else:
                for b, p in zip(bs, PLACES[tuple(sorted(e['touch']))]):
                    b.set_p(rt.T([0, *p]))
                if w is not None:
                    w.find_contacts()
            if w is not None:
                got = sorted({10 * min(c[1], c[2]) + max(c[1], c[2]) + 11 for c in w.contacts})
                recs.append({'k': 'replay', 'id': '%s/%d' % (name, n), 'expected': sorted(e['found']), 'found': got})
        return recs

    def trivial(self, r):
        return not (r['contacts'] if r['k'] == 'scene' else r['expected'])


check = C()
