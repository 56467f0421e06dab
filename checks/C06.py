import math

import rt
import vlib


class C(vlib.Check):
    id = 'C06'
    module = 'ContactJudge'
    rule = ('pairs of circles, circle against a flat side of a turned rectangle, rectangles parallel to the axes, found by either '
            'handler; non-trivial if there is a contact')
    assumptions = ['the gap is less than the detection distance (ODE sees twice as far)',
                   'rectangles overlap clearly less in one axis than in the other']

    def cases(self, rng, tier):
        out = []
        for i in range(900 if tier == 'quick' else 9000):
            k = rng.choice(['cc', 'cr', 'rr'])
            eps = rng.choice([.1, .1, .02, .2])
            gap = rng.choice([rng.uniform(-.3, -.01), rng.uniform(0, .9 * eps), rng.uniform(3 * eps, 2)])
            base = [rng.uniform(-20, 20), rng.uniform(-20, 20)]
            if k == 'cc':
                r1, r2, t = rng.uniform(.5, 5), rng.uniform(.5, 5), rng.uniform(0, 7)
                d = r1 + r2 + gap
                a = ['c', base, r1]
                b = ['c', [base[0] + d * math.cos(t), base[1] + d * math.sin(t)], r2]
            elif k == 'cr':
                w, h, t, r1 = rng.uniform(2, 8), rng.uniform(2, 8), rng.uniform(-4, 4), rng.uniform(.5, 3)
                side = rng.choice([0, 1, 2, 3])
                along = rng.uniform(-.9, .9)
                d = (w if side % 2 == 0 else h) / 2 + r1 + gap
                x, y = (d, along * h / 2) if side % 2 == 0 else (along * w / 2, d)
                if side >= 2:
                    x, y = -x, -y
                a = ['r', base, [w, h], t]
                b = ['c', [base[0] + x * math.cos(t) - y * math.sin(t), base[1] + x * math.sin(t) + y * math.cos(t)], r1]
            else:
                w, h, w2, h2 = (rng.uniform(2, 8) for _ in range(4))
                d = (w + w2) / 2 + gap
                off = rng.uniform(-1, 1) * ((h + h2) / 2 - .8)
                x, y = d, off
                if rng.random() < .5:
                    w, h, w2, h2, x, y = h, w, h2, w2, y, x
                if rng.random() < .5:
                    x, y = -x, -y
                a, b = ['r', base, [w, h], 0], ['r', [base[0] + x, base[1] + y], [w2, h2], 0]
            if rng.random() < .5:
                a, b = b, a
            out.append({'id': '%s%d' % (k, i), 'a': a, 'b': b, 'eps': eps})
        return out

    def make(self, s, eps):
        if s[0] == 'c':
            return rt.Circle(s[1], s[2], eps=eps)
        return rt.Rect([s[3]] + s[1], s[2], eps=eps)

    def run_case(self, case):
        got = []
        for h in (rt.OdeContactHandler, 'DiffContactHandler'):
            w = rt.World([self.make(case['a'], case['eps']), self.make(case['b'], case['eps'])], eps=case['eps'],
                         contact_callback=h, strict_no_penetration=False)
            got.append(rt.contacts(w))
        return [{'k': 'agree', 'contacts': got[0], 'fresh': got[1]}]

    def trivial(self, r):
        return not r['fresh']


check = C()
