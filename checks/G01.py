import math
import random

import dynlib
import rt
import scenes
import shapes
import vlib
from rt import torch

WHAT = {'v': 'velocities', 'm': 'masses', 'e': 'restitution', 'mu': 'friction', 'p': 'positions', 's': 'shapes', 'f': 'forces',
        'all': 'everything at once'}


def params(sc):
    """The parameters of a scene and their values: (kind, body, number of the force)."""
    out = {}
    for i, b in enumerate(sc['bodies']):
        s = b['s']
        out['v', i, 0] = b['v']
        out['p', i, 0] = [b['r']] + list(b['p'])
        for k in ('m', 'e', 'mu'):
            out[k, i, 0] = b[k]
        out['s', i, 0] = s['r'] if s['k'] == 'c' else s['d'] if s['k'] == 'r' else s['v']
        for n, f in enumerate(b['f']):
            out['f', i, n] = f[1]
    return {k: rt.T(v) for k, v in out.items()}


def build(sc, th):
    bs = []
    for i, b in enumerate(sc['bodies']):
        kw = dict(vel=th['v', i, 0], mass=th['m', i, 0], restitution=th['e', i, 0], fric_coeff=th['mu', i, 0])
        p, s = th['p', i, 0], th['s', i, 0]
        if b['s']['k'] == 'c':
            x = rt.Circle(p, s, **kw)
        elif b['s']['k'] == 'r':
            x = rt.Rect(p, s, **kw)
        else:
            x = rt.Hull(p[1:] - rt.T(shapes.centroid(b['s']['v'])), list(s), **kw)
            x.set_p(torch.cat([p[:1], x.p[1:]]))
        for n, (name, _) in enumerate(b['f']):
            x.add_force(scenes.FORCES[name](th['f', i, n]))
        bs.append(x)
    js = [scenes.make_joint(j, bs) for j in sc['joints']]
    for a, b in sc['excl']:
        bs[a].add_no_contact(bs[b])
    return rt.World(bs, js, dt=sc['dt'], strict_no_penetration=False, post_stab=sc['post'],
                    engine=lambda: rt.PdipmEngine(max_iter=60))


def flush(w):
    """Do two hulls in contact have parallel sides?  Which of the two is taken for the contact is then a matter of rounding."""
    def sides(b):
        vs = [v.tolist() for v in b.verts]
        return [math.atan2(q[1] - p[1], q[0] - p[0]) for p, q in zip(vs, vs[1:] + vs[:1])]
    for c in w.contacts:
        a, b = w.bodies[c[1]], w.bodies[c[2]]
        if isinstance(a, rt.Hull) and isinstance(b, rt.Hull):
            if any(abs(math.sin(x - y)) < 2e-3 for x in sides(a) for y in sides(b)):
                return True
    return False


def run(sc, th, steps, weigh, watch=False):
    """The outcome (a weighted sum of all there is at the end), the events and whether hulls were flush in a step."""
    random.seed(0)
    w = build(sc, th)
    events, tie, run.posed = [], False, True
    for _ in range(steps):
        tie = tie or flush(w)
        run.posed = run.posed and (not watch or dynlib.Update(sc, w, float(w.t), sc['dt']).posed())
        t = float(w.t)
        events.append(sorted([c[1], c[2]] for c in w.contacts))
        w.step()
        events.append(round((float(w.t) - t) * 1e6))
    events.append(sorted([c[1], c[2]] for c in w.contacts))
    own = random.Random(weigh)
    tot = 0.

    def add(x):
        nonlocal tot
        tot = tot + torch.dot(x.reshape(-1), rt.T([own.gauss(0, 1) for _ in range(x.numel())]))
    for b in w.bodies:
        add(b.p)
        add(b.v)
    for j, _, _ in w.joints:
        if isinstance(j, (rt.Joint, rt.FixedJoint)):
            add(j.pos)
    for c in sorted(w.contacts, key=lambda c: (c[1], c[2], c[0][1].tolist())) if not flush(w) else ():
        add(c[0][3])
    return tot, events, tie


class C(vlib.Check):
    id = 'G01'
    module = 'GradJudge'
    limit = 120
    chunks = 4
    technique = ('TLA+ specification of derivatives as limits of differences of real runs; TLC validation of recorded gradients '
                 'against it')
    rule = ('random scenes (free flight, impacts, stacks, joints, post-stabilization, one to eight steps), each with the gradients in all '
            'its parameters along random directions; non-trivial if the outcome depends smoothly on all of them')
    assumptions = ['scenes whose joints and contacts contradict each other, or jam under friction, are left out',
                   'scenes in which hulls touch with parallel sides are judged for one step and not for positions and shapes: there '
                   'rounding decides which of the sides gives the contact',
                   'gradients in positions and shapes are not judged for bodies with a joint anchored exactly at their center, '
                   'whose polar coordinates have no derivative there']
    pool = 3000

    def cases(self, rng, tier):
        which = sorted(rng.sample(range(self.pool), 130)) if tier == 'quick' else range(self.pool)
        return [{'id': 'scene%d' % i, 'n': i} for i in which]

    def make(self, rng):
        k = rng.random()
        if k < .15:
            sc = scenes.stack(rng)
        elif k < .3:       # one or two bodies and forces
            sc = scenes.crowd(rng, n=rng.choice([1, 2]), gravity=.7, floor=.3)
        else:
            sc = dynlib.scene(rng)
        sc['post'] = rng.random() < .15
        return sc, rng.choice([1, 1, 2, 3, 5, 8])

    def run_case(self, c):
        own = random.Random('G01/pool/%d' % c['n'])
        sc, steps = self.make(own)
        weigh = own.random()
        base = params(sc)
        th = {k: v.clone().requires_grad_() for k, v in base.items()}
        out, events, tie = run(sc, th, steps, weigh, True)
        if tie and steps > 1:
            steps = 1
            out, events, tie = run(sc, th, steps, weigh, True)
        if not run.posed or not math.isfinite(float(out)) or abs(float(out)) > 1e4:
            return [{'k': 'none'}]
        grads = dict(zip(th, torch.autograd.grad(out, list(th.values()), allow_unused=True)))
        hubs = {j['i'] for j in sc['joints'] if j['k'] == 'joint' and math.dist(j['pos'], sc['bodies'][j['i']]['p']) < 1e-6}
        free = [k for k in base if k[0] not in 'ps' or not tie and k[1] not in hubs]
        dirs = [{k: self.direction(own, base[k])} for k in free] + \
            [{k: self.direction(own, base[k]) for k in free} for _ in range(2)]
        h = 1e-4
        r = {'k': 'grad', 'h': vlib.real(h), 'out': rt.num(out), 'kink': vlib.real(2e-4), 'acc': vlib.real(1e-3), 'dirs': []}
        for d in dirs:
            e = {'what': WHAT[next(iter(d))[0] if len(d) == 1 else 'all'], 'same': True,
                 'claimed': vlib.real(sum(float((grads[k] * x).sum()) for k, x in d.items() if grads[k] is not None))}
            for name, s in (('p1', 1), ('p2', 2), ('m1', -1), ('m2', -2)):
                with torch.no_grad():
                    got, ev, _ = run(sc, {k: base[k] + s * h * d[k] if k in d else base[k] for k in base}, steps, weigh)
                e[name] = rt.num(got)
                e['same'] = e['same'] and ev == events
            r['dirs'].append(e)
        return [r]

    def direction(self, rng, t):
        d = rt.T([rng.gauss(0, 1) for _ in range(t.numel())]).reshape(t.shape)
        return d / max(1., float(d.norm()))

    def trivial(self, r):
        return r['k'] != 'grad' or not all(d['same'] for d in r['dirs'])


check = C()
