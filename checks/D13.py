import json
import random

import numpy

import rt
import scenes
import vlib
from rt import torch

AGAIN, COMPANY = 'the same world made again has the same history', 'a world takes no notice of other work in between'


class C(vlib.Check):
    id = 'D13'
    module = 'HistJudge'
    level = 'model_checking'
    technique = ('TLA+ design model of interleaved worlds, checked by TLC, its behaviours replayed on the code; TLC validation of '
                 'recorded pairs of histories against the specification')
    limit = 90
    chunks = 7
    rule = ('all interleavings of making and stepping two worlds and of other work that Worlds allows, on random pairs of scenes, many of them alike but for some numbers; every world '
            'compared with one of its own kind run alone; non-trivial if there are other things in between')
    assumptions = ['worlds made of different body objects', 'at most 10 steps, and a history ends where it is chaotic: where rounding '
                   'errors would grow beyond the tolerance']

    def scene(self, rng):
        k = rng.random()
        sc = scenes.touching(rng) if k < .5 else scenes.crowd(rng, spread=rng.choice([None, 4.5])) if k < .8 else scenes.duel(rng)
        sc['strict'] = False
        return sc

    def partner(self, rng, sc):
        """The scene of a world next to it: another, or the same with other numbers."""
        if rng.random() < .4:
            return self.scene(rng)
        out = json.loads(json.dumps(sc))
        for what in rng.sample(['e', 'mu', 'm', 'v', 'f', 'dt', 'joints', 'excl', 'p', 'eps', 'other', 'other'], rng.choice([1, 1, 2, 3])):
            if what in 'e mu m v f p'.split():
                for b in out['bodies']:
                    b[what] = {'e': lambda: rng.choice([0, .5, 1]), 'mu': lambda: rng.choice([0, .3, .9]),
                               'm': lambda: b['m'] * rng.choice([1, .5, 3]), 'v': lambda: [x * rng.choice([-1, .5, 2]) for x in b['v']],
                               'f': lambda: [] if b['f'] else [['gravity', 10.]],
                               'p': lambda: [b['p'][0] + .01, b['p'][1] - .02]}[what]()
            elif what == 'other':        # as many constraints, but others
                turn = {'x': 'y', 'y': 'rot', 'rot': 'x'}
                for j in out['joints']:
                    j['k'] = turn.get(j['k'], j['k'])
                    if j.get('pos'):
                        j['pos'] = [j['pos'][0] + 1, j['pos'][1] - 1]
            elif what == 'dt':
                out['dt'] = sc['dt'] * rng.choice([.5, 2])
            elif what == 'eps':
                out['eps'] = .15
            else:
                out[what] = []
        return out

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs, stats = vlib.behaviours('Worlds', 'Worlds.cfg', self.outdir)
        self.generated = [stats]
        behs.sort(key=repr)
        if q:
            behs = rng.sample(behs, 400)
        out = []
        for i, b in enumerate(behs):
            sc = self.scene(rng)
            out.append({'id': 'replay%d' % i, 'beh': b, 'scenes': [sc, self.partner(rng, sc)],
                        'per': rng.choice([1, 1, 2, 4]), 'seed': rng.random()})
        return out

    def noise(self, size, rng):
        torch.manual_seed(rng.randrange(1 << 30))
        random.seed(rng.random())
        numpy.random.seed(rng.randrange(1 << 30))
        n, b = size + 2, size + 1
        A = rt.T([[[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)] for _ in range(b)])
        Q = A.bmm(A.transpose(1, 2)) + torch.eye(n).type_as(A)
        G = rt.T([[[rng.gauss(0, 1) for _ in range(n)] for _ in range(size + 1)] for _ in range(b)])
        rt.LCPFunction()(Q, A[:, 0], G, G.abs().sum(2), rt.T([]), rt.T([]), G.new_zeros(b, size + 1, size + 1))

    def state(self, w):
        return {'p': [x for b in w.bodies for x in rt.vec(b.p, 3)], 'v': [x for b in w.bodies for x in rt.vec(b.v, 3)],
                't': rt.num(w.t)}

    def advance(self, w, n):
        out = []
        for _ in range(n):
            w.step()
            out.append(self.state(w))
        return out

    def alone(self, sc, n):
        w = scenes.build(sc)
        rt.limit_trials(w, 400)
        return [self.state(w)] + self.advance(w, n)

    def together(self, c, rng):
        worlds, got = {}, {}
        for e in c['beh']:
            w = e['w']
            if e['op'] == 'make':
                worlds[w] = scenes.build(c['scenes'][w - 1])
                rt.limit_trials(worlds[w], 400)
                got[w] = [self.state(worlds[w])]
            elif e['op'] == 'step':
                got[w] += self.advance(worlds[w], c['per'])
            else:
                self.noise(w, rng)
        return [got[1], got[2]]

    def run_case(self, c):
        rng = random.Random(c['seed'])
        per = c['per']
        total = per * 2
        scs = c['scenes']
        # each in a process of its own, so that what one leaves behind cannot reach the other
        solo = {w: vlib.apart(lambda: self.alone(scs[w - 1], total)) for w in (1, 2)}
        # how far a tiny difference carries: histories are compared while that is little
        steady = {}
        for w in (1, 2):
            sc = dict(scs[w - 1])
            sc['bodies'] = [dict(b, v=[x * (1 + 1e-9) + 1e-9 for x in b['v']]) for b in sc['bodies']]
            near = vlib.apart(lambda: self.alone(sc, total))
            steady[w] = len(near)
            for n, (a, b) in enumerate(zip(solo[w], near)):
                x, y = ([vlib.unreal(q) for q in s['p'] + s['v']] for s in (a, b))
                if max(abs(p - q) / (1 + abs(p)) for p, q in zip(x, y)) > 2e-7 or max(map(abs, x)) > 1e3:
                    steady[w] = n
                    break
        both = [1, 2] if rng.random() < .5 else [2, 1]
        runs = vlib.apart(lambda: [self.alone(scs[w - 1], total) for w in both + both])
        repeat = dict(zip(both, runs[2:]))
        got = vlib.apart(lambda: self.together(c, rng))
        got = {w: got[w - 1] for w in (1, 2)}
        recs = []
        for w in (1, 2):
            m = steady[w]
            if not m:
                continue
            recs.append({'k': 'twin', 'id': '%s/again%d' % (c['id'], w), 'clause': AGAIN,
                         'alone': solo[w][:m], 'mixed': repeat[w][:m]})
            recs.append({'k': 'twin', 'id': '%s/mixed%d' % (c['id'], w), 'clause': COMPANY,
                         'alone': solo[w][:m], 'mixed': got[w][:m]})
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'none' or len(r['alone']) < 2


check = C()
