import random

import numpy as np

import breakoutlib as bl
import rt
import vlib
from breakoutlib import encoder, rb


class C(bl.BreakoutCheck):
    id = 'E03'
    level = 'exploration'
    technique = 'TLA+ specification of state vectors and actions; TLC validation of what the code makes of them'
    rule = 'random parameters in all forms turned into vectors and back; random actions and thresholds, and the side to which they move'

    def cases(self, rng, tier):
        return [{'id': 'case%d' % i, 'seed': rng.random()} for i in range(60 if tier == 'quick' else 1000)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        out = []
        for i in range(10):
            s = bl.game(rng, ball=True, few=rng.random() < .7)
            ps = bl.params(s)
            if rng.random() < .5:
                def any_(n):
                    return [rng.uniform(-200, 200) for _ in range(n)]
                ps = ((any_(2), any_(2)), [(any_(2), any_(2)) for _ in ps[1]], [any_(2), any_(1)[0]])
            form = ps if rng.random() < .5 else bl.tensors(ps)
            if form is not ps:       # the radius is a number
                form = (form[0], form[1], [form[2][0], ps[2][1]])
            v = rb.to_vector(*form)
            back = rb.from_vector(v)
            out.append({'k': 'vector', 'id': '%s/v%d' % (c['id'], i), 'given': bl.given(*ps), 'vector': rt.vec(v),
                        'back': bl.given(*back), 'again': rt.vec(rb.to_vector(*back))})
        for i in range(20):
            threshold = rng.choice([.9, .99, .5, 1., rng.random()])
            a = rng.choice([0., 1., -1., threshold, -threshold, rng.uniform(-1, 1), rng.uniform(-1.5, 1.5)])
            form = rng.choice([[a], np.array([a]), np.array([[a]]), np.array([[a], [rng.uniform(-1, 1)]])])
            kw = {} if threshold == .9 and rng.random() < .5 else {'threshold': threshold}
            out.append({'k': 'action', 'id': '%s/a%d' % (c['id'], i), 'a': vlib.real(a), 'threshold': vlib.real(threshold),
                        'action': int(rb.get_action(form, **kw))})
        # to which side a move goes, in the game and in its model
        ps = (([80., 191.], [16., 4.]), [], [[80., 100.], 1.])
        a = rng.choice([-1., 1.])
        w, ball, paddle, blocks, pi = encoder.make_world(*ps, [0., 0.])
        encoder.step_breakout(w, pi, a, paddle_vel_x=3.74 * rb.PADDLE_VEL_ADJUST, paddle_vel_y=0.)
        out.append({'k': 'side', 'id': c['id'] + '/s', 'a': vlib.real(a), 'action': int(rb.get_action([a])),
                    'moved': vlib.real(float(paddle.pos[0]) - 80.)})
        return out


check = C()
