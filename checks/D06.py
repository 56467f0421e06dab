import random

import dynlib
import scenes


def part(s, p, v, m, mu, f=()):
    return {'s': s, 'p': p, 'r': 0, 'v': v, 'm': m, 'e': .5, 'mu': mu, 'f': list(f)}


# a circle on a sliding block with coefficients of friction above one
ROUGH_STACK = {'bodies': [part({'k': 'r', 'd': [40, 4]}, [0, 0], [0, 0, 0], 1, 2.),
                          part({'k': 'r', 'd': [3, 2.5]}, [0, -3.25], [0, -3, 0], .5, 1.2, [['gravity', 10.]]),
                          part({'k': 'c', 'r': 1.5}, [-.25, -6.], [0, 0, 0], 1, 1.2, [['gravity', 10.]])],
               'joints': [{'k': 'total', 'i': 0}], 'excl': [], 'dt': 1 / 120, 'strict': False}


class C(dynlib.DynCheck):
    id = 'D06'
    kind = 'friction'
    mode = 'friction'
    rule = ('velocity updates with contacts of random scenes, sliding and sticking, with different friction on the two bodies; the '
            'witnesses are impulses at joints and contacts within Coulomb\'s law; non-trivial if there is a contact')

    def make(self, rng):
        k = rng.random()
        sc = dynlib.scene(rng) if k < .55 else scenes.row(rng) if k < .65 else \
            scenes.touching(rng, mus=(.1, .3, .5, .9), speed=rng.choice([.3, 3]))
        sc['strict'] = False
        return sc

    def cases(self, rng, tier):
        out = super().cases(rng, tier)
        # rougher bodies: one fixed set of scenes, so that known findings can be told apart
        for i in range(80 if tier == 'quick' else 160):
            own = random.Random('D06/rough/%d' % i)
            sc = scenes.touching(own, n=own.choice([2, 2, 2, 3]), mus=(.3, 1.2, 2., 3.), speed=own.choice([.3, 3]))
            sc['strict'] = False
            out.append({'id': 'rough%d' % i, 'scene': sc, 'steps': 1, 'seed': 0})
        out.append({'id': 'rough-stack', 'scene': ROUGH_STACK, 'steps': 1, 'seed': 0})
        return out

    def wanted(self, u):
        return bool(u.cs)


check = C()
