import dynlib
import rt
import scenes
import vlib


class C(dynlib.DynCheck):
    id = 'D01'
    kind = 'free'
    rule = ('steps of random scenes in which some bodies fly freely next to others in contact or jointed, with random forces; each '
            'free body is also stepped alone; non-trivial if a body is free')
    counts = (350, 5000)

    def make(self, rng):
        sc = dynlib.scene(rng) if rng.random() < .6 else scenes.crowd(rng, floor=0, joints=.2)
        at = 0
        for _ in range(rng.choice([1, 1, 2])):      # somewhere far off, at any place in the list
            b = scenes.body(rng, pos=(rng.choice([-1, 1]) * rng.uniform(90, 95), 40 * at))
            at += 1
            for _ in range(rng.choice([0, 1, 1, 2])):
                b['f'].append([rng.choice(['gravity', 'down', 'vert', 'hor', 'rot', 'wave']), rng.choice([10., -30., 100., 2.5])])
            k = rng.randint(0, len(sc['bodies']))
            sc['bodies'].insert(k, b)
            for j in sc['joints']:
                for e in ('i', 'j'):
                    if j.get(e) is not None and j[e] >= k:
                        j[e] += 1
            sc['excl'] = [[x + (x >= k) for x in p] for p in sc['excl']]
        return sc

    def more(self, r, u, w, c):
        r['post'] = rt.bodies(w)
        r['adv'] = vlib.real(u.adv)
        r['corrected'] = bool(c['scene'].get('post'))
        r['alone'] = []
        if u.step == 0:
            tied = {j['i1'] - 1 for j in u.js} | {j['i2'] - 1 for j in u.js}
            tied |= {x['i1'] - 1 for x in u.cs} | {x['i2'] - 1 for x in u.cs}
            for i, b in enumerate(c['scene']['bodies']):
                if i not in tied:
                    solo = rt.World([scenes.make_body(b)], dt=c['scene']['dt'])
                    solo.step_dt(u.dt) if u.dt != c['scene']['dt'] else solo.step()
                    r['alone'].append({'i': i + 1, 'v': rt.vec(solo.bodies[0].v, 3)})


check = C()
