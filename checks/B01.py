import rt
import shapes
import vlib


class C(vlib.Check):
    id = 'B01'
    module = 'BodyJudge'
    rule = ('random convex polygons of 3 to 9 vertices (also with collinear ones, far from their reference point, from every first '
            'vertex), integer polygons, rectangles and circles; all non-trivial')
    assumptions = ['polygons are convex']

    def cases(self, rng, tier):
        n = 1 if tier == 'quick' else 10
        out = []
        for i in range(700 * n):
            k = rng.choice('hhhcr')
            c = {'id': '%s%d' % (k, i), 'k': k, 'mass': rng.choice([1, rng.uniform(.05, 50)]),
                 'pos': [rng.choice([0, rng.uniform(-100, 100)]) for _ in range(2)]}
            if k == 'h':
                v = shapes.convex_polygon(rng, rng.randint(3, 7), rng.choice([1, 5, 20]))
                if rng.random() < .3:
                    # a vertex in the middle of an edge changes nothing
                    j = rng.randrange(len(v))
                    a, b = v[j], v[(j + 1) % len(v)]
                    v.insert(j + 1, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
                if rng.random() < .2:
                    v = rng.choice(shapes.LATTICE)
                j = rng.randrange(len(v))
                off = [rng.choice([0, rng.uniform(-60, 60)]) for _ in range(2)]
                c['v'] = [[x + off[0], y + off[1]] for x, y in v[j:] + v[:j]]
            elif k == 'r':
                c['d'] = [rng.uniform(.2, 20), rng.uniform(.2, 20)]
                if rng.random() < .6:
                    c['pos'] = [rng.uniform(-7, 7)] + c['pos']
            else:
                c['r'] = rng.uniform(.1, 20)
                if rng.random() < .6:
                    c['pos'] = [rng.uniform(-7, 7)] + c['pos']
            out.append(c)
        return out

    def run_case(self, c):
        rec = {'k': 'mass', 'mass': rt.num(c['mass'])}
        pos3 = ([0] if len(c['pos']) == 2 else []) + list(c['pos'])
        if c['k'] == 'c':
            b = rt.Circle(c['pos'], c['r'], mass=c['mass'])
            rec.update(kind='circle', r=rt.num(c['r']), given=rt.vec(pos3))
        elif c['k'] == 'r':
            b = rt.Rect(c['pos'], c['d'], mass=c['mass'])
            rec.update(kind='rect', w=rt.num(c['d'][0]), h=rt.num(c['d'][1]), given=rt.vec(pos3),
                       vs=[rt.vec(v, 2) for v in b.verts])
        else:
            b = rt.Hull(c['pos'], c['v'], mass=c['mass'])
            rec.update(kind='hull', given=[rt.vec(v) for v in c['v']], ref=rt.vec(c['pos']),
                       vs=[rt.vec(v, 2) for v in b.verts])
        rec.update(M=rt.mat(b.M, 3, 3), p=rt.vec(b.p, 3))
        assert rt.real(rt.torch.as_tensor(b.mass).item()) == rec['mass']
        return [rec]


check = C()
