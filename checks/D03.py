import dynlib
import scenes


class C(dynlib.DynCheck):
    id = 'D03'
    kind = 'joint'
    rule = ('velocity updates of random scenes with all kinds of joints and constraints, with and without contacts and forces, most of '
            'them starting from velocities that violate the joints; non-trivial if there is a joint')

    def make(self, rng):
        while True:
            k = rng.random()
            if k < .4:
                sc = scenes.touching(rng, joints=1)
            elif k < .8:
                sc = scenes.crowd(rng, joints=.8, floor=.3)
            else:
                sc = dynlib.scene(rng)
            if sc['joints']:
                sc['strict'], sc['post'] = False, rng.random() < .2
                return sc

    def wanted(self, u):
        return bool(u.js)


check = C()
