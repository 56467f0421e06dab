import random

import rt
import scenes
import shapes
import vlib
from rt import torch

STEPS = 4


def nudge(rng, x, by):
    return x * (1 + by * rng.uniform(-1, 1)) + by * rng.uniform(-1, 1)


class C(vlib.Check):
    id = 'B04'
    module = 'PrecisionJudge'
    rule = ('scenes of all kinds of bodies, forces, joints and contacts given in single-precision tensors, next to the same scene and '
            'three close neighbours of it in double precision; non-trivial if the neighbours agree')

    def cases(self, rng, tier):
        return [{'id': 'scene%d' % i, 'seed': rng.random()} for i in range(400 if tier == 'quick' else 5000)]

    def scene(self, rng):
        kind = rng.choice(['crowd', 'duel', 'touching', 'joints'])
        if kind == 'crowd':
            sc = scenes.crowd(rng)
        elif kind == 'duel':
            sc = scenes.duel(rng)
        elif kind == 'touching':
            sc = scenes.touching(rng)
        else:
            sc = scenes.crowd(rng, joints=1)
        sc['tol'] = max(sc.get('tol', 1e-3), 1e-3)      # tolerances below rounding make no sense
        sc['strict'] = False
        sc['post'] = rng.random() < .3
        if rng.random() < .3:
            sc['bodies'][-1]['f'].append([rng.choice(sorted(scenes.FORCES)), rng.uniform(-30, 30)])
        return sc

    def near(self, rng, sc):
        """The scene with all its numbers a little different."""
        out = dict(sc, bodies=[dict(b) for b in sc['bodies']])
        for b in out['bodies']:
            b['p'] = [nudge(rng, x, 1e-6) for x in b['p']]
            b['r'] = nudge(rng, b['r'], 1e-6)
            b['v'] = [nudge(rng, x, 1e-6) for x in b['v']]
            b['m'] *= 1 + 1e-6 * rng.uniform(-1, 1)
        return out

    def build(self, sc, dtype, how):
        """The world of a scene, its first body's velocity (for gradients) and all of it in tensors of a type."""
        def t(x):
            return torch.tensor(x, dtype=dtype)
        own = random.Random(how)
        v0, bs = None, []
        for i, b in enumerate(sc['bodies']):
            s, kw = b['s'], {}
            rot, (x, y) = b['r'], b['p']
            for name, val in (('vel', b['v']), ('mass', b['m']), ('restitution', b['e']), ('fric_coeff', b['mu'])):
                kw[name] = t(val) if own.random() < .5 else val
            if i == how_first(sc):
                v0 = kw['vel'] = t(b['v']).requires_grad_()
            pos = t([rot, x, y])
            eps = sc.get('eps', .1)
            if s['k'] == 'c':
                o = rt.Circle(pos, t(s['r']) if own.random() < .5 else s['r'], eps=eps, **kw)
            elif s['k'] == 'r':
                o = rt.Rect(pos, t(s['d']) if own.random() < .5 else s['d'], eps=eps, **kw)
            else:
                cx, cy = shapes.centroid(s['v'])
                o = rt.Hull(t([x - cx, y - cy]), [t(v) for v in s['v']] if own.random() < .5 else s['v'], eps=eps, **kw)
                if rot:
                    o.set_p(torch.cat([t([rot]), o.p[1:]]))
            for name, mult in b['f']:
                o.add_force(scenes.FORCES[name](t(mult) if own.random() < .3 else mult))
            bs.append(o)
        js = [scenes.make_joint(j, bs) for j in sc['joints']]
        for a, b in sc['excl']:
            bs[a].add_no_contact(bs[b])
        w = rt.World(bs, js, dt=sc['dt'], eps=sc.get('eps', .1), tol=sc['tol'], post_stab=sc['post'], strict_no_penetration=False)
        return w, v0

    def state(self, w):
        return [vlib.real(x) for b in w.bodies for x in b.p.tolist() + b.v.tolist()] + [vlib.real(w.t)] + \
            [vlib.real(x) for x in sorted(c[0][3].item() for c in w.contacts)]       # their order may hang on rounding

    def run(self, sc, dtype, how, ws):
        w, v0 = self.build(sc, dtype, how)
        met, types = False, set()
        track = [self.state(w)]
        for _ in range(STEPS):
            met = met or bool(w.contacts)
            w.step()
            if not met:         # with contacts, the solver's equations may be as good as singular in single precision
                track.append(self.state(w))
            types |= {str(x.dtype) for b in w.bodies for x in (b.p, b.v, b.M, b.pos, b.rot)}
            types |= {str(x.dtype) for b in w.bodies if hasattr(b, 'verts') for x in b.verts}
            types |= {str(x.dtype) for c in w.contacts for x in c[0]}
            types |= {str(x.dtype) for x in (w.get_v(), w.M(), w.Je(), w.apply_forces(w.t))}
        out = sum((b.p * torch.tensor(ws[i], dtype=dtype)).sum() for i, b in enumerate(w.bodies))
        try:
            g, = torch.autograd.grad(out, v0, allow_unused=True)
        except RuntimeError as e:
            if dtype is torch.double or not met or 'U[' not in str(e):
                raise
            return track, met, sorted(types), None, [b.p.tolist() for b in w.bodies]      # the system is singular up to rounding
        g = torch.zeros_like(v0) if g is None else g
        return track, met, sorted(types), g, [b.p.tolist() for b in w.bodies]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        sc = self.scene(rng)
        ws = [[rng.uniform(-1, 1) for _ in range(3)] for _ in sc['bodies']]
        how = rng.random()
        doubles, slopes = [], []
        for s in [sc] + [self.near(rng, sc) for _ in range(3)]:
            track, met, _, g, _ = self.run(s, torch.double, how, ws)
            doubles.append(track)
            slopes.append([[vlib.real(x) for x in g.tolist()]])
        track, met, types, g, last = self.run(sc, torch.float32, how, ws)
        recs = [{'k': 'single', 'types': types, 'want': 'torch.float32', 'met': met, 'single': track, 'doubles': doubles,
                 'last': [vlib.real(x) for b in last for x in b]}]
        if g is not None:
            recs.append({'k': 'slope', 'met': met, 'types': [str(g.dtype)], 'want': 'torch.float32', 'single': [[vlib.real(x) for x in g.tolist()]],
                         'doubles': slopes})
        return recs


def how_first(sc):
    """The body whose velocity the gradient is taken for: the last one, which is never the ground."""
    return len(sc['bodies']) - 1


check = C()
