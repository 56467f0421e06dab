import random

import rt
import shapes
import vlib
from rt import T, torch

NUMS = ['mass', 'restitution', 'fric_coeff']


class C(vlib.Check):
    id = 'B03'
    module = 'BodyJudge'
    rule = ('bodies of all kinds, each described in a random mixture of numbers, lists, tuples, tensors of either precision, with and '
            'without rotation, against the same in double tensors; refusals; derivatives against differences; all non-trivial')

    def cases(self, rng, tier):
        n = 1 if tier == 'quick' else 10
        out = []
        for i in range(260 * n):
            out.append({'id': 'forms%d' % i, 'what': 'forms', 'shape': shapes.shape(rng), 'seed': rng.random()})
        for i in range(60 * n):
            out.append({'id': 'refuse%d' % i, 'what': 'refuse', 'v': shapes.convex_polygon(rng, rng.randint(3, 6)),
                        'cut': rng.choice([0, 1, 2]), 'turn': rng.random() < .5, 'tensor': rng.random() < .5})
        for i in range(120 * n):
            out.append({'id': 'grad%d' % i, 'what': 'grad', 'shape': shapes.shape(rng), 'seed': rng.random()})
        return out

    def params(self, s, rng, rot):
        p = {'pos': [rng.uniform(-9, 9), rng.uniform(-9, 9)], 'vel': [rng.uniform(-9, 9), rng.uniform(-9, 9)],
             'mass': rng.uniform(.5, 5), 'restitution': rng.uniform(0, 1), 'fric_coeff': rng.uniform(0, 1),
             'eps': rng.choice([.1, .2])}
        if s['k'] == 'c':
            p['rad'] = s['r']
        elif s['k'] == 'r':
            p['dims'] = s['d']
        else:
            p['vertices'] = s['v']
        if rot and s['k'] != 'h':
            p['pos'] = [rng.uniform(-3, 3)] + p['pos']
        if rot:
            p['vel'] = [rng.uniform(-3, 3)] + p['vel']
        return p

    def build(self, s, p):
        p = dict(p)
        if s['k'] == 'c':
            return rt.Circle(p.pop('pos'), p.pop('rad'), **p)
        if s['k'] == 'r':
            return rt.Rect(p.pop('pos'), p.pop('dims'), **p)
        return rt.Hull(p.pop('pos'), p.pop('vertices'), **p)

    def record(self, b):
        return dict(rt.body(b), matter=rt.matter(b))

    def forms(self, c, rng):
        s = c['shape']
        rot = rng.random() < .5
        p = self.params(s, rng, rot)
        ref = self.build(s, {k: [T(v) for v in x] if k == 'vertices' else T(x) for k, x in p.items()})
        single = rng.random() < .2
        dtype = torch.float32 if single else torch.double
        mix, any_tensor = {}, False
        for k, x in p.items():
            x = list(x) if isinstance(x, list) else x
            if k in ('pos', 'vel') and len(x) == 2 and s['k'] != 'h' and rng.random() < .4:
                x = [0.] + x
            if k == 'vel' and len(x) == 2 and rng.random() < .4:
                x = [0.] + x
            f = rng.choice(['list', 'tuple', 'tensor'])
            if k == 'vertices':
                # vertices follow the tensor they come as
                x = [torch.tensor(v, dtype=dtype) for v in x] if f == 'tensor' and not single else x
            elif f == 'tensor':
                x, any_tensor = torch.tensor(x, dtype=dtype), True
            elif f == 'tuple' and isinstance(x, list):
                x = tuple(x)
            mix[k] = x
        before = {k: ([v.clone() if isinstance(v, torch.Tensor) else list(v) for v in x] if k == 'vertices' else
                      x.clone() if isinstance(x, torch.Tensor) else (list(x) if isinstance(x, list) else x))
                  for k, x in mix.items()}
        got = self.build(s, mix)
        rec = self.record(got)
        types = sorted({str(t.dtype) for t in (got.p, got.v, got.M, got.fric_coeff, got.restitution)})
        got.set_p(got.p + 1)
        got.move(.5)
        kept = all(self.same(before[k], mix[k]) for k in mix)
        return [{'k': 'forms', 'ref': self.record(ref), 'got': rec, 'single': single, 'kept': kept, 'types': types,
                 'want': 'torch.float32' if single and any_tensor else 'torch.float64'}]

    def same(self, a, b):
        if isinstance(a, torch.Tensor):
            return isinstance(b, torch.Tensor) and torch.equal(a, b) and a.dtype == b.dtype
        if isinstance(a, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def refuse(self, c):
        v = c['v'][::-1] if c['turn'] else c['v']
        if c['cut']:
            v = v[:3 - c['cut']]
        try:
            rt.Hull([0, 0], [T(x) for x in v] if c['tensor'] else v)
            raised = False
        except Exception:
            raised = True
        return [{'k': 'refused', 'raised': raised, 'expected': bool(c['turn'] or c['cut'])}]

    def grad(self, c, rng):
        s = c['shape']
        p = self.params(s, rng, rng.random() < .5)
        name = rng.choice(sorted(set(p) - {'eps'}))
        rest = {k: x for k, x in p.items() if k != name}
        x = T(p[name])
        d = torch.tensor([rng.uniform(-1, 1) for _ in range(x.numel())], dtype=torch.double).reshape(x.shape)
        ws = torch.tensor([rng.uniform(-1, 1) for _ in range(80)], dtype=torch.double)

        def out(y):
            arg = [y[i] for i in range(y.shape[0])] if name == 'vertices' else y
            b = self.build(s, dict(rest, **{name: arg}))
            o = [b.p, b.v, b.M.reshape(-1), b.fric_coeff.reshape(1), b.restitution.reshape(1)]
            if s['k'] != 'c':
                o += [v for v in b.verts]
            o = torch.cat(o)
            return (o * ws[:o.numel()]).sum()
        y = x.clone().requires_grad_()
        g, = torch.autograd.grad(out(y), y, allow_unused=True)
        h = 1e-6
        diff = (out(x + h * d) - out(x - h * d)).item() / (2 * h)
        return [{'k': 'grad', 'param': name, 'connected': g is not None,
                 'grad': rt.num((g * d).sum() if g is not None else 0.), 'diff': rt.num(diff)}]

    def run_case(self, c):
        if c['what'] == 'refuse':
            return self.refuse(c)
        return getattr(self, c['what'])(c, random.Random(c['seed']))


check = C()
