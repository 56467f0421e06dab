import dynlib
import scenes


class C(dynlib.DynCheck):
    id = 'D08'
    kind = 'energy'
    meddling = False
    rule = ('velocity updates without forces of random scenes whose restitution is zero (with and without friction), or equal for all '
            'bodies without friction and with joints that hold; kinetic energy before and after; non-trivial if there is a contact or joint')

    def make(self, rng):
        e, mu = rng.choice([(0, None), (0, None), (.5, 0), (1, 0), (1, 0), (rng.uniform(0, 1), 0)])
        k = rng.random()
        if k < .6:
            sc = scenes.touching(rng, forces=0, joints=rng.choice([0, .3]))
        elif k < .8:
            sc = scenes.crowd(rng, gravity=0, spread=rng.choice([None, 4.5]))
        else:
            sc = scenes.duel(rng)
        still = rng.random() < .5   # joints that hold from the start
        for b in sc['bodies']:
            b['e'], b['f'] = e, []
            if mu is not None:
                b['mu'] = mu
            if still and sc['joints']:
                b['v'] = [0, 3, -1]
        if still and sc['joints']:
            held = [j['i'] for j in sc['joints'] if j['k'] not in ('joint', 'fixed') or j['j'] is None]
            if held:
                for b in sc['bodies']:
                    b['v'] = [0, 0, 0]
                free = set(range(len(sc['bodies']))) - {j['i'] for j in sc['joints']} - {j.get('j') for j in sc['joints']}
                for i in free:
                    sc['bodies'][i]['v'] = [rng.uniform(-1, 1), rng.uniform(-4, 4), rng.uniform(-4, 4)]
        sc['strict'] = False
        return sc

    def trivial(self, r):
        return r['k'] == 'none' or not (r['contacts'] or r['joints'])


check = C()
