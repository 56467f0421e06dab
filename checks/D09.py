import dynlib
import rt
import scenes
import steplib
import vlib


class C(vlib.Check):
    id = 'D09'
    module = 'HistJudge'
    limit = 60
    chunks = 7
    rule = ('long runs of random scenes in which bodies are held in x, y, rotation or all of them, hit, pushed and jointed to '
            'others, with and without post-stabilization; non-trivial if something is held')
    assumptions = ['runs end where joints and contacts contradict each other or jam (see D05)']

    def scene(self, rng):
        k = rng.random()
        if k < .3:
            sc = scenes.touching(rng, held=0, joints=0)
        elif k < .75:
            sc = scenes.crowd(rng, joints=0, spread=rng.choice([None, 5.]))
        else:
            sc = scenes.duel(rng)
            sc['joints'], sc['excl'] = [], []
        n = len(sc['bodies'])
        taken = {j['i'] for j in sc['joints']}
        for i in range(n):
            if i in taken or rng.random() < .35:
                continue
            ks = rng.choice([['x'], ['y'], ['rot'], ['total'], ['x', 'rot'], ['x', 'y'], ['rot', 'y']])
            sc['joints'] += [{'k': q, 'i': i} for q in ks]
            if rng.random() < .8:            # else the constraint has to stop it first
                v = sc['bodies'][i]['v']
                for q in ks:
                    for c in {'x': [1], 'y': [2], 'rot': [0], 'total': [0, 1, 2]}[q]:
                        v[c] = 0
            if rng.random() < .6:
                sc['bodies'][i]['f'].append([rng.choice(['gravity', 'down', 'hor', 'vert', 'rot', 'wave']), rng.choice([10., -40., 100.])])
        if rng.random() < .4:                # a free body hanging on a held one
            free = [i for i in range(n) if all(j['i'] != i for j in sc['joints'])]
            held = [j['i'] for j in sc['joints']]
            if free and held:
                a, b = rng.choice(free), rng.choice(held)
                p = sc['bodies'][rng.choice([a, b])]['p']
                sc['joints'].append({'k': 'joint', 'i': a, 'j': b, 'pos': list(p)} if rng.random() < .7 else
                                    {'k': 'fixed', 'i': b, 'j': a})
                sc['excl'].append([a, b])
        rng.shuffle(sc['joints'])
        sc['strict'] = rng.random() < .3
        sc['post'] = rng.random() < .35
        return sc

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = [{'id': 'scene%d' % i, 'scene': self.scene(rng), 'steps': rng.choice([3, 10, 25])} for i in range(330 if q else 3000)]
        for i in range(6 if q else 60):      # long ones
            out.append({'id': 'long%d' % i, 'scene': self.scene(rng), 'steps': 150 if q else 400})
        return out

    def run_case(self, c):
        sc = c['scene']
        track, loose, js = [], [], None
        for w, u in dynlib.updates(sc, c['steps']):
            if js is None:
                js = u.js
                track.append([b['p'] for b in u.bodies])
            track.append([rt.vec(b.p, 3) for b in w.bodies])
            busy = {x[k] for x in u.cs for k in ('i1', 'i2')} | {j['i1'] for j in u.js if j['kind'] in ('joint', 'fixed')} \
                | {j['i2'] for j in u.js}
            for i in sorted({j['i1'] for j in u.js} - busy):
                if len(loose) < 12:
                    b = sc['bodies'][i - 1]
                    loose.append({'i': i, 'v2': [vlib.real(x) for x in u.v2[3 * i - 3:3 * i]], 'body': u.bodies[i - 1],
                                  'mat': {'m': vlib.real(b['m']), 'e': vlib.real(b['e']), 'mu': vlib.real(b['mu'])},
                                  'forces': [{'name': f, 'mult': vlib.real(m)} for f, m in b['f']],
                                  't': vlib.real(u.t), 'dt': vlib.real(u.dt)})
        if js is None:
            return [{'k': 'none'}]
        return [{'k': 'hold', 'joints': [{'kind': j['kind'], 'i1': j['i1']} for j in js], 'track': track, 'loose': loose}]

    def trivial(self, r):
        return r['k'] == 'none' or not r['joints']


check = C()
