import random

import rt
import shapes
import vlib


class C(vlib.Check):
    id = 'B02'
    module = 'BodyJudge'
    rule = ('bodies of all kinds after each operation of a random history of assignments of positions, many small turns, moves and world steps (with '
            'collisions, retried steps and joints); non-trivial if the orientation has changed')

    def cases(self, rng, tier):
        out = []
        for i in range(110 if tier == 'quick' else 1500):
            out.append({'id': 'hist%d' % i, 'shapes': [self.shape(rng) for _ in range(3)],
                        'rot': [rng.choice([0, rng.uniform(-4, 4)]) for _ in range(3)],
                        'seed': rng.random(), 'ops': rng.randint(3, 12), 'dt': rng.choice([1 / 30, .1]),
                        'post': rng.random() < .2, 'strict': rng.random() < .6})
        return out

    def shape(self, rng):
        s = shapes.shape(rng, 'rrhhc')
        if s['k'] == 'h' and rng.random() < .25:
            s['v'] = [[.35 * x, .35 * y] for x, y in shapes.many_sided(rng)]
        return s

    def run_case(self, c):
        rng = random.Random(c['seed'])
        bs = [shapes.make(s, [14 * i, 2 * i], r, vel=[rng.uniform(-4, 4), rng.uniform(-30, 30), rng.uniform(-30, 30)])
              for i, (s, r) in enumerate(zip(c['shapes'], c['rot']))]
        w = rt.World(bs, dt=c['dt'], post_stab=c['post'], strict_no_penetration=c['strict'],
                     constraints=[rt.Joint(bs[0], bs[1], [3, 1])] if rng.random() < .3 else [])
        bs[0].add_no_contact(bs[1])
        state = rt.limit_trials(w, 60)
        start, startM = rt.bodies(w), [rt.mat(b.M) for b in bs]
        recs = []
        for n in range(c['ops']):
            op = rng.choice('pmsst')
            if op == 'p':
                for b in bs:
                    if rng.random() < .6:
                        q = b.p + rt.T([rng.choice([0, rng.uniform(-5, 5)]), 0, 0])
                        b.set_p(q)
            elif op == 'm':
                rng.choice(bs).move(rng.choice([.1, -.1, .7]))
            elif op == 't':                      # many small turns
                b, turn = rng.choice(bs), rng.choice([1e-7, 1e-6, 1e-5, 1e-3])
                for _ in range(60):
                    b.set_p(b.p + rt.T([turn, 0, 0]))
            else:
                state['n'] = 0
                w.find_contacts()
                if any(k[0][3].item() > w.tol for k in w.contacts) and c['strict']:
                    continue
                try:
                    w.step()
                except rt.Trials:
                    break
            for i, b in enumerate(rt.bodies(w)):
                recs.append({'k': 'rigid', 'id': '%s/%d/%d' % (c['id'], n, i), 'start': start[i], 'now': b,
                             'startM': startM[i], 'nowM': rt.mat(bs[i].M)})
        return recs

    def trivial(self, r):
        return r['start']['p'][0] == r['now']['p'][0]


check = C()
