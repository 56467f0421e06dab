import random

import breakoutlib as bl
import rt
from breakoutlib import encoder


class C(bl.BreakoutCheck):
    id = 'E02'
    level = 'exploration'
    technique = 'TLA+ specification of the game\'s scenery; TLC validation of worlds that the code makes'
    rule = ('random states of the game, given as lists or tensors, made into worlds; ball and paddle are put on the other bodies in turn '
            'to see what they may touch')

    def cases(self, rng, tier):
        return [{'id': 'world%d' % i, 'seed': rng.random()} for i in range(110 if tier == 'quick' else 1500)]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        s = bl.game(rng, ball=True, few=rng.random() < .8)
        ps = bl.params(s)
        if rng.random() < .3:      # anywhere there is room, not only at whole pixels
            d = [rng.uniform(-.4, .4), rng.uniform(-.4, .4)]
            if bl.free(s, [s['ball'][0] + d[1], s['ball'][1] + d[0]]):
                ps[2][0] = [x + y for x, y in zip(ps[2][0], d)]
        vel = [rng.uniform(-5, 5), rng.uniform(-5, 5)]
        form = bl.tensors(ps) if rng.random() < .5 else ps

        def make():
            return encoder.make_world(*form, rt.T(vel) if form is not ps else vel)
        w, ball, paddle, blocks, pi = make()
        r = {'k': 'world', 'given': bl.given(*ps), 'vel': rt.vec(vel), 'bodies': rt.bodies(w),
             'ball': 1 + w.bodies.index(ball), 'paddle': pi + 1, 'blocks': [1 + w.bodies.index(b) for b in blocks],
             'contacts': [[c[1] + 1, c[2] + 1] for c in w.contacts], 'tried': []}
        if w.bodies[pi] is not paddle:
            raise rt.BadShape('the index is not that of the paddle')
        count = rt.limit_trials(w, 200)
        try:
            for _ in range(2):
                w.step()
                count['n'] = 0
        except rt.Trials:
            pass
        r['later'] = [rt.vec(b.p, 3) for b in w.bodies]
        w, ball, paddle, blocks, pi = make()
        others = [b for b in w.bodies if b is not ball and b is not paddle]
        scenery, mine = [b for b in others if b not in blocks], [b for b in others if b in blocks]
        tries = [(ball, b) for b in scenery + [paddle] + rng.sample(mine, min(3, len(mine)))] + [(paddle, b) for b in scenery]
        for a, b in tries:
            kept = a.p.clone()
            a.set_p(rt.torch.cat([a.p[:1], b.pos + rt.T([rng.uniform(-.5, .5), rng.uniform(-.5, .5)])]))
            w.find_contacts()
            ia, ib = w.bodies.index(a), w.bodies.index(b)
            r['tried'].append([ia + 1, ib + 1, any({c[1], c[2]} == {ia, ib} for c in w.contacts)])
            a.set_p(kept)
        return [r]


check = C()
