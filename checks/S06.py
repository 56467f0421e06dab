import contactlib
import rt
import scenes
import shapes
import steplib


class C(steplib.StepCheck):
    id = 'S06'
    level = 'exploration'
    technique = 'TLA+ specification, TLC validation of recorded constructions'
    models = ()
    rule = ('creation of strict and lenient worlds of a pair of bodies in all relative placements, excluded or not, and of '
            'crowds; non-trivial if they overlap')

    def cases(self, rng, tier):
        q = tier == 'quick'
        pairs = []
        for k1, k2 in ('cc', 'ch', 'hr', 'hh', 'rr', 'rc', 'hc'):
            for _ in range(60 if q else 800):
                p = contactlib.random_pair(rng, k1, k2)
                if rng.random() < .4:
                    p['gap'] = rng.choice(['touch', 'touch', 'rim'])
                pairs.append(contactlib.place(rng, p))
            pairs += contactlib.lattice_pairs(rng, k1, k2, 30 if q else 500)
        out = [{'id': 'pairs%d' % (i // 40), 'pairs': pairs[i:i + 40]} for i in range(0, len(pairs), 40)]
        for i in range(40 if q else 500):
            n = rng.randint(3, 7)
            bs = [scenes.body(rng, pos=(rng.uniform(-9, 9), rng.uniform(-9, 9))) for _ in range(n)]
            out.append({'id': 'crowd%d' % i, 'scene': {'bodies': bs, 'excl': [
                [a, b] for a in range(n) for b in range(a) if rng.random() < .7]}})
        return out

    def make(self, build, strict):
        try:
            return build(strict), False
        except (AssertionError, ValueError, RuntimeError) as e:
            if strict:
                return None, True
            raise

    def run_case(self, c):
        recs = []
        if 'scene' in c:
            ref = scenes.build(c['scene'], strict_no_penetration=False)
            for strict in (False, True):
                w, refused = self.make(lambda s: scenes.build(c['scene'], strict_no_penetration=s), strict)
                recs.append({'k': 'start', 'id': '%s/%d' % (c['id'], strict), 'strict': strict, 'refused': refused,
                             'bodies': rt.bodies(ref), 'excl': scenes.excluded(c['scene']), 'tol': rt.num(ref.tol)})
            return recs
        for i, p in enumerate(c['pairs']):
            for strict in (False, True):
                excl = i % 5 == 4
                tol = [1e-6, 1e-6, .05, 1e-8, 0.][i % 7 % 5]

                def build(s):
                    a = shapes.make(p['a'], p['pa'], p['ra'], eps=p['eps'])
                    b = shapes.make(p['b'], p['pb'], p['rb'], eps=p['eps'])
                    if excl:
                        (a if i % 2 else b).add_no_contact(b if i % 2 else a)
                    return rt.World([a, b], eps=p['eps'], tol=tol, strict_no_penetration=s)
                w, refused = self.make(build, strict)
                a = shapes.make(p['a'], p['pa'], p['ra'])
                b = shapes.make(p['b'], p['pb'], p['rb'])
                recs.append({'k': 'start', 'id': '%s/%d/%d' % (c['id'], i, strict), 'strict': strict, 'refused': refused,
                             'bodies': [rt.body(a), rt.body(b)], 'excl': [[1, 2]] if excl else [], 'tol': rt.num(tol)})
        return recs

    def trivial(self, r):
        return not r['refused']


check = C()
