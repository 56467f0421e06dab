import random

import contactlib
import rt
import shapes
import vlib


class C(vlib.Check):
    id = 'C05'
    module = 'ContactJudge'
    models = [('SatSearch', 'SatSearch.cfg')]
    level = 'model_checking'
    technique = 'TLA+ design model checked by TLC, its behaviours replayed on the code, TLC trace validation'
    rule = ('a pair of bodies in generic position, reached after a random history of placements, contact searches and a third '
            'body, against the same pair made afresh; non-trivial if there is a contact')
    assumptions = ['no two edges separate equally well (then either is right)', 'strictly convex hulls']

    def cases(self, rng, tier):
        out = []
        for i in range(420 if tier == 'quick' else 6000):
            k = rng.choice([('rh', 'rh'), ('rh', 'rh'), ('c', 'rh'), ('rh', 'c')])
            p = contactlib.random_pair(rng, *k)
            p['ra'], p['rb'] = rng.uniform(-4, 4), rng.uniform(-4, 4)
            if p['gap'] == 'far':
                p['gap'] = 'deep'
            p = contactlib.place(rng, p)
            if abs(contactlib.sep(p) - p['eps']) < 1e-4:
                continue
            out.append({'id': 'pair%d' % i, 'pair': p, 'seed': rng.random()})
        return out

    def run_case(self, case):
        p, rng = case['pair'], random.Random(case['seed'])
        recs = []
        fresh = rt.contacts(contactlib.world_of(p))
        for variant in range(2):
            swap = rng.random() < .5
            a = shapes.make(p['a'], p['pa'], p['ra'], eps=p['eps'])
            b = shapes.make(p['b'], p['pb'], p['rb'], eps=p['eps'])
            c = shapes.make(shapes.shape(rng, 'crh'), [500, 500])
            order = [b, a, c] if swap else [a, b, c]
            w = rt.World(order, eps=p['eps'], strict_no_penetration=False)
            goals = [x.p.clone() for x in (a, b)]
            for _ in range(rng.randint(1, 4)):
                for x in (a, b, c):
                    if rng.random() < .8:
                        # somewhere near the pair, so that it is really examined
                        d = rt.T([rng.uniform(-3, 3), rng.uniform(-5, 5), rng.uniform(-5, 5)])
                        x.set_p(rt.torch.cat([x.p[:1], goals[0][1:]]) + d)
                w.find_contacts()
            c.set_p(rt.T([0, 500, 500]))
            for x, g in zip((a, b), goals):
                x.set_p(g)
            w.find_contacts()
            got = rt.contacts(w)
            if swap:
                for k in got:
                    k['i1'], k['i2'] = 3 - k['i1'], 3 - k['i2']
            recs.append({'k': 'same', 'id': '%s/%d' % (case['id'], variant), 'contacts': got, 'fresh': fresh})
        return recs

    def trivial(self, r):
        return not r['fresh']


check = C()
