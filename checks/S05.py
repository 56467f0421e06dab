import random

import rt
import scenes
import steplib


def proxies(w):
    return [rt.vec(list(b.geom.getPosition())[:2]) for b in w.bodies]


def turns(w):
    out = []
    for b in w.bodies:
        m = b.geom.getRotation()
        out.append({'rect': isinstance(b, rt.Rect), 'axis': rt.vec([m[0], m[3]])})
    return out


class C(steplib.StepCheck):
    id = 'S05'
    level = 'exploration'
    technique = 'TLA+ specification, TLC trace validation of recorded histories of steps and assignments'
    models = ()
    rule = ('states of random worlds after each of a random history of steps (retried, fixed, corrected), assignments of '
            'velocities and of positions, with either contact handler')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(110 if q else 1500):
            sc = scenes.duel(rng) if rng.random() < .5 else scenes.crowd(rng)
            sc['strict'], sc['post'] = rng.random() < .5, rng.random() < .25
            out.append({'id': 'hist%d' % i, 'scene': sc, 'ops': rng.randint(4, 12), 'seed': rng.random(),
                        'ode': rng.random() < .15 and all(b['s']['k'] != 'h' for b in sc['bodies'])})
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        w = scenes.build(c['scene'], **(dict(contact_callback='OdeContactHandler', strict_no_penetration=False,
                                             post_stab=False) if c['ode'] else {}))
        count = rt.limit_trials(w, 60)
        recs = []
        for n in range(c['ops'] + 1):
            op = rng.choice('sssfvp') if n else '0'
            count['n'] = 0
            assigned = got = []
            try:
                if op == 's':
                    w.step()
                elif op == 'f':
                    w.step(fixed_dt=True)
                elif op == 'v':
                    v = w.v + rt.T([rng.choice([0, rng.uniform(-3, 3)]) for _ in range(len(w.v))])
                    assigned = rt.vec(v)
                    w.set_v(v)
                    got = [x for b in w.bodies for x in rt.vec(b.v, 3)]
                elif op == 'p':
                    p = rt.torch.cat([b.p for b in w.bodies])
                    p = p + rt.T([rng.choice([0, 0, rng.uniform(-1, 1)]) for _ in range(len(p))])
                    assigned = rt.vec(p)
                    w.set_p(p)
                    got = [x for b in w.bodies for x in rt.vec(b.p, 3)]
            except rt.Trials:
                break
            if not rt.torch.isfinite(w.v).all() or w.v.abs().max() > 1e4:
                break
            count['n'] = 0
            stepped = op in '0sf'
            first, second = steplib.again(w) if stepped else ([], [])
            recs.append({'k': 'views', 'id': '%s/%d%s' % (c['id'], n, op), 'bodies': rt.bodies(w), 'wv': rt.vec(w.v),
                         'rots': [rt.vec(b.rot, 1) for b in w.bodies], 'poss': [rt.vec(b.pos, 2) for b in w.bodies],
                         'proxies': proxies(w), 'turns': turns(w), 'assigned': assigned, 'got': got,
                         'stepped': stepped, 'contacts': first, 'again': second})
            if op == 'p' and c['scene']['strict']:
                w.find_contacts()
                if any(k[0][3].item() > w.tol for k in w.contacts):
                    break
        return recs


check = C()
