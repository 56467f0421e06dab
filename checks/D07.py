import dynlib
import scenes


class C(dynlib.DynCheck):
    id = 'D07'
    kind = 'momentum'
    mode = 'friction'
    rule = ('velocity updates of random scenes with joints and contacts among bodies without forces and outside hold; momentum of '
            'every isolated group, angular momentum about several points; non-trivial if a group has several bodies')

    def make(self, rng):
        k = rng.random()
        if k < .5:
            sc = scenes.touching(rng, held=0, forces=rng.choice([0, .15]), joints=.5)
        elif k < .75:
            sc = scenes.crowd(rng, gravity=0, floor=0, joints=.6, spread=rng.choice([5, 9]))
        else:
            sc = scenes.duel(rng)
        sc['joints'] = [j for j in sc['joints'] if j['k'] in ('joint', 'fixed') and j['j'] is not None]
        sc['strict'] = False
        return sc

    def trivial(self, r):
        return r['k'] == 'none' or not (r['contacts'] or r['joints'])


check = C()
