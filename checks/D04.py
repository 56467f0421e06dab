import numpy as np

import dynlib
import scenes
import steplib
import vlib


class C(dynlib.DynCheck):
    id = 'D04'
    kind = 'reaction'
    mode = 'normal'
    rule = ('velocity updates without contacts of random bodies tied by all kinds of joints and constraints, with random forces; the '
            'witnesses are reaction impulses; non-trivial if there is a joint and no contact')

    def make(self, rng):
        while True:
            sc = scenes.crowd(rng, joints=.9, floor=.15, spread=9)
            for b in sc['bodies']:
                if rng.random() < .3:
                    b['f'].append([rng.choice(['gravity', 'down', 'hor', 'rot', 'wave']), rng.choice([10., -30., 20.])])
            if sc['joints']:
                sc['strict'] = False
                return sc

    def wanted(self, u):
        return bool(u.js) and not u.cs

    def more(self, r, u, w, c):
        # other velocities that the joints admit
        J = np.array(u.J)
        rng = np.random.default_rng(int(c['seed'] * 2 ** 32))
        P = np.eye(3 * u.n) - J.T @ np.linalg.solve(J @ J.T, J)
        r['others'] = []
        for size in (1e-2, 1, 10):
            x = P @ (u.v2 + size * rng.normal(size=3 * u.n))
            r['others'].append(steplib.triples([vlib.real(a) for a in x]))


check = C()
