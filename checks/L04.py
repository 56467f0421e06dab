import random

import lcplib
import rt
import vlib


def points(Ps, **kw):
    """What the solver returns, with multipliers and slacks."""
    f = rt.LCPFunction(**kw)
    x = f(*lcplib.tensors(Ps))
    q = len(Ps[0]['A'])
    return [{'x': rt.vec(x[i], len(P['Q'])), 'z': rt.vec(f.lams[i], len(P['G'])), 's': rt.vec(f.slacks[i], len(P['G'])),
             'y': rt.vec(f.nus[i], q) if q else []} for i, P in enumerate(Ps)]


class C(lcplib.LCPCheck):
    id = 'L04'
    level = 'model_checking'
    technique = ('TLA+ design model of the iteration over a batch, checked by TLC for every course the violations can take; TLC '
                 'validation of what the code returns under all limits against the same rule')
    rule = ('random problems and batches of up to four, solvable or not, each solved with every iteration limit up to 20 and with ten '
            'smaller limits and patiences; non-trivial if an inequality is tight')
    models = (('SolverModel', 'SolverModel.cfg'),)
    models_thorough = (('SolverModel', 'SolverModelT.cfg'),)
    counts = (170, 4000)

    def cases(self, rng, tier):
        return [{'id': 'batch%d' % i, 'seed': rng.random()} for i in range(self.counts[tier != 'quick'])]

    def run_case(self, c):
        own = random.Random(c['seed'])
        n, m = own.randint(1, 6), own.randint(1, 6)
        q = own.choice([0, own.randint(0, n - 1)])
        Ps = [lcplib.planted(own, own.choice(['plain', 'plain', 'coupled', 'skew']), n, m, q, own.random() < .6)
              for _ in range(own.choice([1, 1, 2, 3, 4]))]
        for P in Ps:
            k = own.random()
            if k < .15:       # no solution at all
                P['G'][0] = [0.] * n
                P['F'][0] = [0.] * m
                P['h'][0] = -1.
            elif k < .3:      # the multipliers of a coupled problem may not decrease
                P['F'] = [[own.gauss(0, 1) for _ in range(m)] for _ in range(m)]
        top = 20
        far = 1000
        r = {'k': 'loop', 'probs': [lcplib.prob(P) for P in Ps], 'eps': vlib.real(1e-12),
             'table': [points(Ps, max_iter=k, not_improved_lim=far) for k in range(1, top + 1)], 'runs': []}
        for _ in range(10):
            run = {'max': own.randint(5, top), 'patience': own.randint(1, 10)}
            run['points'] = points(Ps, max_iter=run['max'], not_improved_lim=run['patience'])
            r['runs'].append(run)
        return [r]


check = C()
