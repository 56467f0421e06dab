import random

import dynlib
import rt
import scenes
import vlib
from rt import torch


def answers(engine, w, correct):
    """Velocities or corrections of an engine, as flat lists."""
    x = engine.post_stabilization(w) if correct else engine.solve_dynamics(w, w.dt)
    if not torch.isfinite(x).all():
        raise ArithmeticError('the engine answers with numbers that are not finite')
    return rt.vec(x.reshape(-1))


class C(vlib.Check):
    id = 'D11'
    module = 'HistJudge'
    level = 'model_checking'
    technique = ('TLA+ design model of what an engine remembers, checked by TLC, its behaviours replayed on the code; TLC '
                 'validation of recorded histories against the specification')
    limit = 60
    chunks = 7
    rule = ('all behaviours of EngineMemory (no joints, static ones, moving ones; contacts coming and going; solves, corrections and '
            'steps in every order), and real histories; each answer compared with that of a fresh engine')
    assumptions = ['the bodies, masses and joints of a world do not change once it is made']

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs, stats = vlib.behaviours('EngineMemory', 'EngineMemory.cfg', self.outdir)
        self.generated = [stats]
        behs.sort(key=repr)
        if q:
            behs = rng.sample(behs, 1200)
        out = [{'id': 'replay%d' % (i // 30), 'behs': behs[i:i + 30], 'seed': rng.random()} for i in range(0, len(behs), 30)]
        for i in range(80 if q else 1000):
            sc = dynlib.scene(rng)
            if rng.random() < .6:       # constraints that never move, so that the engine may keep the inverse
                sc['joints'] = [j for j in sc['joints'] if j['k'] not in ('joint', 'fixed')]
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.choice([3, 6, 12]), 'seed': rng.random()})
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        if 'behs' in c:
            return [r for i, b in enumerate(c['behs']) for r in self.replay(b, '%s/%d' % (c['id'], i), rng)]
        recs = []
        sc = c['scene']
        w = scenes.build(sc)
        count = rt.limit_trials(w, 60)
        fresh = lambda: rt.PdipmEngine(**({'max_iter': sc['iters']} if sc.get('iters') else {}))
        for n in range(c['steps']):
            u = dynlib.Update(sc, w, float(w.t), sc['dt'])
            if not u.posed() or not u.feasible(correction=True):
                break
            r = {'k': 'memory', 'id': '%s/%d' % (c['id'], n), 'usedc': [], 'freshc': [], 'after': []}
            if rng.random() < .5:
                r['usedc'], r['freshc'] = answers(w.engine, w, True), answers(fresh(), w, True)
            r['used'], r['fresh'] = answers(w.engine, w, False), answers(fresh(), w, False)
            count['n'] = 0
            try:
                w.step()
            except rt.Trials:
                break
            r['after'] = [x for b in w.bodies for x in rt.vec(b.v, 3)]
            recs.append(r)
            if w.v.abs().max() > 500:
                break
        return recs or [{'k': 'none'}]

    def replay(self, beh, name, rng):
        """Two bodies, in contact or not as the behaviour has it."""
        touching = [beh['hist'][0] == 'touch']

        class Handler(rt.ContactHandler):
            def __call__(self, args, geom1, geom2):
                w = args[0]
                if touching[0]:
                    d = w.bodies[0].pos - w.bodies[1].pos
                    n = d / d.norm()
                    w.contacts.append(((n, -n * 1., n * 1., rt.T([-.05])), 0, 1))
        b1 = rt.Circle([rng.uniform(-1, 1), rng.uniform(-1, 1)], 1., mass=rng.choice([1, 3.]), restitution=rng.choice([0, .5]),
                       fric_coeff=rng.choice([0, .4]))
        b2 = rt.Circle([2. + rng.uniform(-.1, .1), rng.uniform(-1, 1)], 1., mass=rng.choice([1, .5]), restitution=.5)
        b3 = rt.Rect([-9 + rng.uniform(-1, 1), 2], [1, 2], mass=2.)
        js = {'none': [], 'static': [rt.YConstraint(b1), rt.RotConstraint(b3)],
              'moving': [rt.Joint(b1, b3, [-5., rng.uniform(-3, 3)]), rt.RotConstraint(b2)]}[beh['kind']]
        b1.add_force(rt.ExternalForce(rt.hor_impulse, multiplier=rng.choice([10., -20.])))
        b3.add_force(rt.Gravity(10.))
        w = rt.World([b1, b2, b3], js, contact_callback=Handler, dt=1 / 30, strict_no_penetration=False)
        recs = []
        for n, op in enumerate(beh['hist']):
            if op in ('touch', 'part'):
                touching[0] = op == 'touch'
                w.find_contacts()
                continue
            if rng.random() < .7:
                w.set_v(rt.T([rng.uniform(-3, 3) for _ in range(9)]))
            r = {'k': 'memory', 'id': '%s/%d' % (name, n), 'usedc': [], 'freshc': [], 'after': [], 'used': [], 'fresh': [],
                 'contacts': len(w.contacts)}
            if op == 'correct':
                r['usedc'], r['freshc'] = answers(w.engine, w, True), answers(rt.PdipmEngine(), w, True)
            elif op == 'solve':
                r['used'], r['fresh'] = answers(w.engine, w, False), answers(rt.PdipmEngine(), w, False)
            else:
                r['used'] = r['fresh'] = answers(rt.PdipmEngine(), w, False)
                w.step()
                r['after'] = [x for b in w.bodies for x in rt.vec(b.v, 3)]
            recs.append(r)
        return recs

    def trivial(self, r):
        return r['k'] == 'none'


check = C()
