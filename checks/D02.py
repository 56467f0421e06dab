import dynlib
import rt
import scenes
import vlib


class C(dynlib.DynCheck):
    id = 'D02'
    kind = 'force'
    rule = ('steps across the time 0.1, of bodies alone and in jointed groups, with several forces of all kinds each, attached before '
            'and after the world is made, some shared by bodies or attached twice; the forces themselves at random times; non-trivial if there is a force')
    counts = (200, 3000)
    kinds = ['gravity', 'down', 'vert', 'hor', 'rot', 'wave']

    def push(self, rng):
        return [rng.choice(self.kinds), rng.choice([10., 100., -30., 2.5, rng.uniform(-20, 20), 0., 1])]

    def cases(self, rng, tier):
        out = []
        for i in range(self.counts[tier != 'quick']):
            sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, .05, .07, .02, .1, .025]), 'strict': True}
            for k in range(rng.randint(1, 4)):
                b = scenes.body(rng, pos=(40 * k, rng.uniform(-5, 5)))
                b['f'] = [self.push(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
                sc['bodies'].append(b)
            if rng.random() < .5:
                scenes.attach(rng, sc, .6, kinds=('joint', 'fixed'))
            late = [[rng.randrange(len(sc['bodies'])), self.push(rng), rng.randint(0, 4)] for _ in range(rng.choice([0, 1, 2]))]
            n = len(sc['bodies'])
            shared = [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.choice([0, 0, 1, 2]))]
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.randint(3, 8), 'late': late, 'shared': shared,
                        'start': rng.choice([0, 0, 0, .05, .0999, .1, .2, 3.7])})
        for i in range(150 if tier == 'quick' else 2000):
            fs = [self.push(rng) for _ in range(rng.randint(0, 5))]
            out.append({'id': 'plain%d' % i, 'body': scenes.body(rng), 'seed': rng.random(), 'forces': fs,
                        'again': [rng.randrange(len(fs)) for _ in range(rng.choice([0, 0, 1, 2]))] if fs else [],
                        'ts': [0, .1, .0999999, .05, .2, rng.uniform(0, .3), rng.uniform(0, 9)], 'number': rng.random() < .5})
        return out

    def run_case(self, c):
        return self.plain(c) if 'forces' in c else self.steps(c)

    def plain(self, c):
        b = scenes.make_body(c['body'])
        for name, m in c['forces']:
            b.add_force(scenes.FORCES[name](m))
        for k in c['again']:                     # the same object once more
            b.add_force(b.forces[k])
        pushes = c['forces'] + [c['forces'][k] for k in c['again']]
        recs = []
        for k, t in enumerate(c['ts']):
            at = t if c['number'] else rt.T(t)
            recs.append({'k': 'plain', 'id': '%s/%d' % (c['id'], k), 't': vlib.real(t),
                         'mat': {'m': vlib.real(c['body']['m'])},
                         'forces': [{'name': n, 'mult': vlib.real(m)} for n, m in pushes],
                         'found': [rt.vec(f.force(at), 3) for f in b.forces],
                         'sum': rt.vec(b.apply_forces(at), 3)})
        return recs

    def steps(self, c):
        sc = c['scene']
        w = scenes.build(sc)
        w.t = w.t + c['start']
        for i, j in c['shared']:                 # one object for two bodies, or twice for one
            fs = [k for k, f in enumerate(sc['bodies'][i]['f']) if f[0] != 'gravity' or i == j]
            if fs:
                w.bodies[j].add_force(w.bodies[i].forces[fs[0]])
                sc['bodies'][j]['f'].append(sc['bodies'][i]['f'][fs[0]])
        recs = []
        for n in range(c['steps']):
            for i, f, when in c['late']:
                if when == n:
                    w.bodies[i].add_force(scenes.FORCES[f[0]](f[1]))
                    sc['bodies'][i]['f'].append(f)
            if w.contacts:
                break
            u = dynlib.Update(sc, w, float(w.t), sc['dt'])
            w.step()
            u.done([x for b in w.bodies for x in b.v.tolist()])
            recs.append(u.record('force', '%s/%d' % (c['id'], n)))
            if max(abs(u.v2)) > 1e4:
                break
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'none' or not any(r['forces'])


check = C()
