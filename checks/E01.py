import random

import breakoutlib as bl
import rt
from breakoutlib import encoder


class C(bl.BreakoutCheck):
    id = 'E01'
    level = 'model_checking'
    technique = ('TLA+ specification of the game\'s frames; TLC checks the reading of all states on a small screen, and judges what the '
                 'code reads from frames of states that TLC and a generator pick')
    rule = ('states of spec/Reader.tla on the real screen (places at which parts of the picture meet) and random ones with up to 108 blocks, '
            'rendered as frames and read by the code; non-trivial if the frame tells the state')
    assumptions = ['frames are rendered by the harness; TLC compares pixels of each with its own specification of frames',
                   'a ball that touches the paddle in its topmost line, or a block of the top row in its topmost line, cannot be told from it']
    models = (('Reader', 'Reader.cfg'),)
    models_thorough = (('Reader', 'ReaderT.cfg'),)

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs = self.generate('Reader', 'ReaderReal.cfg', rng, 900 if q else 12000)
        out = [{'id': 'state%d' % i, 'seed': rng.random(), 'states': behs[i:i + 20]} for i in range(0, len(behs), 20)]
        out += [{'id': 'random%d' % i, 'seed': rng.random(), 'states': []} for i in range(60 if q else 600)]
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        states = c['states'] or [bl.game(rng) for _ in range(10)]
        return [self.read(rng, s, '%s/%d' % (c['id'], i)) for i, s in enumerate(states)]

    def read(self, rng, s, name):
        f = bl.frame(s, rng)
        kept = f.copy()
        spots = [(rng.randint(17, 209), rng.randint(0, 159)) for _ in range(8)]
        for t, l, b, r in [(189, s['paddle'], 193, s['paddle'] + 16)] + \
                ([(s['ball'][0], s['ball'][1], s['ball'][0] + 4, s['ball'][1] + 2)] if s['ball'] else []) + \
                [(51 + 6 * k[0], k[1], 57 + 6 * k[0], k[2]) for k in rng.sample(s['blocks'], min(2, len(s['blocks'])))]:
            spots += [(rng.choice([t - 1, t, b - 1, b]), rng.choice([l - 1, l, r - 1, r])) for _ in range(4)]
        paddle, blocks, ball = encoder.extract_params(f)
        return {'k': 'frame', 'id': name, 'paddle': s['paddle'], 'blocks': s['blocks'], 'ball': s['ball'],
                'pixels': [[i, j, int(kept[i, j, 0])] for i, j in spots if i < 210 and 0 <= j < 160],
                'got': bl.given(paddle, blocks, ball), 'changed': bool((f != kept).any())}

    def trivial(self, r):
        return False


check = C()
