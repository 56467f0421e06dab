import json
import math
import random

import dynlib
import rt
import scenes
import vlib


def image(rng, sc, mirror, ang, by, perm):
    """The scene moved and renumbered."""
    c, s = math.cos(ang), math.sin(ang)

    def vec(x):
        a = -x[0] if mirror else x[0]
        return [c * a - s * x[1], s * a + c * x[1]]

    def pt(x):
        y = vec(x)
        return [y[0] + by[0], y[1] + by[1]]
    spin = -1 if mirror else 1
    out = dict(sc)
    bodies = [None] * len(sc['bodies'])
    for i, b in enumerate(sc['bodies']):
        d = json.loads(json.dumps(b))
        d['p'] = pt(b['p'])
        d['r'] = spin * b['r'] + ang
        if b['s']['k'] == 'h':
            vs = [[spin * x, y] for x, y in b['s']['v']]
            if mirror:
                vs.reverse()
            k = rng.randrange(len(vs))
            vs = vs[k:] + vs[:k]
            if rng.random() < .5:        # turn the vertices instead of the body
                d['r'] = spin * b['r']
                vs = [[c * x - s * y, s * x + c * y] for x, y in vs]
            d['s'] = {'k': 'h', 'v': vs}
        for key in ('v', 'F'):
            x = vec(b[key][1:])
            d[key] = [spin * b[key][0]] + x
        bodies[perm[i]] = d
    out['bodies'] = bodies
    quarter = abs(s) > .5
    js = []
    for j in sc['joints']:
        d = dict(j, i=perm[j['i']])
        if j.get('j') is not None:
            d['j'] = perm[j['j']]
        if j.get('pos') is not None:
            d['pos'] = pt(j['pos'])
        if quarter and j['k'] in 'xy':
            d['k'] = 'y' if j['k'] == 'x' else 'x'
        js.append(d)
    rng.shuffle(js)
    out['joints'] = js
    out['excl'] = [[perm[a], perm[b]] if rng.random() < .5 else [perm[b], perm[a]] for a, b in sc['excl']]
    return out


class C(vlib.Check):
    id = 'D12'
    module = 'HistJudge'
    limit = 60
    chunks = 7
    rule = ('steps of random scenes and of the same scenes shifted, turned, mirrored and renumbered; retried steps, joints, constraints, '
            'hulls turned by their vertices instead of their orientation; non-trivial if something touches or is jointed')
    assumptions = ['constant forces', 'scenes whose outcome jumps under changes of 1e-9 are left out: there it is not unique', 'posed as in D05']

    def cases(self, rng, tier):
        out = []
        for i in range(500 if tier == 'quick' else 6000):
            k = rng.random()
            if k < .4:
                sc = scenes.pressed(rng, tilt=rng.choice([.003, .03]))     # not quite square: no ties
            elif k < .65:
                sc = scenes.touching(rng, forces=0)
            elif k < .82:
                sc = scenes.crowd(rng, floor=.3, gravity=0, spread=rng.choice([None, 4.5]))
            else:
                sc = scenes.duel(rng)
            for b in sc['bodies']:
                push = [F[1] for F in b['f'] if F[0] == 'hor']
                b['f'] = []
                b['F'] = rng.choice([[0, 0, 0], [rng.uniform(-20, 20) for _ in range(3)]])
                if push:
                    b['F'] = [0, push[0], 0]
                if k >= .4 and rng.random() < .9:
                    b['r'] = rng.uniform(-3, 3)
                else:                            # parallel edges are a tie
                    b['r'] += rng.choice([-1, 1]) * rng.uniform(1e-6, 1e-4)
            sc['strict'] = rng.random() < .5
            sc['post'] = rng.random() < .15
            if not scenes.clear(sc, -1e-9):
                sc['strict'] = False
            mirror = rng.random() < .4
            ang = rng.choice([0, 0, math.pi / 2, -math.pi / 2, math.pi, rng.uniform(-3, 3), rng.uniform(-3, 3)])
            if any(j['k'] in 'xy' for j in sc['joints']):
                ang = rng.choice([0, math.pi / 2, -math.pi / 2, math.pi])
            far = rng.choice([0, 3., 30., 300.])
            by = [rng.uniform(-far, far), rng.uniform(-far, far)]
            perm = list(range(len(sc['bodies'])))
            if rng.random() < .7:
                rng.shuffle(perm)
            out.append({'id': 'scene%d' % i, 'scene': sc, 'mirror': mirror, 'ang': ang, 'by': by, 'perm': perm, 'seed': rng.random(),
                        'warm': rng.choice([0, 0, 1, 3])})
        return out

    def outcome(self, sc):
        w = scenes.build(sc)
        rt.limit_trials(w, 60)
        cs = rt.contacts(w)
        w.step()
        return {'contacts': cs, 'v': [rt.vec(b.v, 3) for b in w.bodies], 'p': [rt.vec(b.p, 3) for b in w.bodies], 't': rt.num(w.t)}

    def settled(self, rng, sc, warm):
        """The scene after some steps, written down anew; edges that became parallel are so no more, as that would be a tie."""
        w = scenes.build(sc)
        rt.limit_trials(w, 60)
        for _ in range(warm):
            w.step()
        out = dict(sc)
        out['bodies'] = [dict(b, p=x.pos.tolist(), r=x.p[0].item() + rng.uniform(-1e-7, 1e-7), v=x.v.tolist()) for b, x in zip(sc['bodies'], w.bodies)]
        out['joints'] = [dict(j) for j in sc['joints']]
        for j, (x, _, _) in zip(out['joints'], w.joints):
            if j.get('pos') is not None:
                j['pos'] = x.pos.tolist()
        if w.v.abs().max() > 300 or not scenes.clear(out, -w.tol * .9):
            return None
        return out

    def same(self, a, b):
        if len(a['contacts']) != len(b['contacts']):
            return False
        key = lambda c: [vlib.unreal(x) for x in [c['pen']] + c['n'] + c['p1'] + c['p2']]
        flat = lambda s: [vlib.unreal(x) for row in s for x in row]
        pairs = [(key(x), key(y)) for x, y in zip(a['contacts'], b['contacts'])]
        pairs += [(flat(a['v']), flat(b['v'])), (flat(a['p']), flat(b['p'])), ([vlib.unreal(a['t'])], [vlib.unreal(b['t'])])]
        return all(abs(x - y) <= 1e-7 * (1 + abs(x)) for p, q in pairs for x, y in zip(p, q))

    def run_case(self, c):
        rng = random.Random(c['seed'])
        sc = c['scene']
        try:
            if c['warm']:
                sc = self.settled(rng, sc, c['warm'])
                if sc is None:
                    return [{'k': 'none'}]
            u = dynlib.Update(sc, scenes.build(sc), 0., sc['dt'])
            if not u.posed():
                return [{'k': 'none'}]
            a = self.outcome(sc)
            for _ in range(12):
                d = json.loads(json.dumps(sc))
                turn = rng.choice([0, 1e-15, 1e-9])        # edges that are parallel may be so no more, or still be
                for b in d['bodies']:
                    b['p'] = [x + rng.uniform(-1e-9, 1e-9) for x in b['p']]
                    b['r'] += rng.uniform(-turn, turn)
                if not self.same(a, self.outcome(d)):
                    return [{'k': 'none'}]
            moved = image(rng, sc, c['mirror'], c['ang'], c['by'], c['perm'])
            b = self.outcome(moved)
        except rt.Trials:
            return [{'k': 'none'}]
        size = 1 + max(abs(x) for s in (sc, moved) for q in s['bodies'] for x in q['p']) + max(u.reach())
        return [{'k': 'moved', 'a': a, 'b': b, 'perm': [x + 1 for x in c['perm']], 'size': vlib.real(size),
                 'motion': {'mirror': c['mirror'], 'ang': vlib.real(c['ang']), 'by': rt.vec(c['by'], 2)}}]

    def trivial(self, r):
        return r['k'] == 'none' or not r['a']['contacts']


check = C()
