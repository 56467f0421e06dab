import random

import lcplib
import vlib
import rt


class C(lcplib.LCPCheck):
    id = 'L03'
    technique = 'TLA+ specification of the derivatives by the adjoint equations; TLC validation of recorded gradients against it'
    rule = ('gradients of random problems, alone and in batches, with up to 8 variables, 8 inequalities and equalities and a planted '
            'strict solution, coupled or not, for random losses, with the solver used for other problems in between or not; non-trivial if an inequality is tight')
    pool = 8000

    def cases(self, rng, tier):
        q = tier == 'quick'
        return [{'id': 'random%d' % i, 'n': i} for i in (sorted(rng.sample(range(self.pool), 1200)) if q else range(self.pool))]

    def run_case(self, c):
        own = random.Random('L03/pool/%d' % c['n'])
        n, m = own.randint(1, 8), own.randint(1, 8)
        q = own.choice([0, own.randint(0, n - 1)])
        Ps = []
        want = own.choice([1, 1, 2, 3])
        while len(Ps) < want:
            P = lcplib.planted(own, own.choice(['plain', 'coupled', 'skew']), n, m, q)
            if lcplib.regular(P) > .05:
                Ps.append(P)
        if own.random() < .25:      # large numbers
            k = own.choice([8., 30.])
            for P in Ps:
                P.update({a: [k * v for v in P[a]] for a in ('p', 'h', 'b', 'x', 'y', 'z', 's')})
        gs = [[own.gauss(0, 1) for _ in range(n)] for _ in Ps]
        kw = {} if own.random() < .7 else {'max_iter': 40}
        then = []
        if own.random() < .3:       # the solver is used again before the gradients are asked for
            for _ in range(own.randint(1, 2)):
                n2, m2 = (n, m) if own.random() < .5 else (own.randint(1, 8), own.randint(1, 8))
                then.append((lcplib.planted(own, own.choice(['plain', 'coupled', 'skew']), n2, m2,
                                            q if n2 == n else own.randint(0, n2 - 1)), own.random() < .5))
        xs, Gs, kept = lcplib.solve_grad(Ps, gs, then, **kw)
        recs = []
        for i, P in enumerate(Ps):
            G = Gs[i]
            d = {k: rt.mat(G[k]) for k in 'QGF'}
            d.update({k: rt.vec(G[k]) for k in 'ph'})
            d['A'], d['b'] = (rt.mat(G['A']), rt.vec(G['b'])) if q else ([], [])
            r = {'k': 'grad', 'id': '%s/%d' % (c['id'], i), 'prob': lcplib.prob(P), 'tight': P['tight'], 'd': d, 'found': xs[i],
                 'g': [vlib.real(a) for a in gs[i]], 'acc': vlib.real(1e-6)}
            r.update(lcplib.reals(P, 'x', 'y', 'z'))
            recs.append(r)
        return recs

    def trivial(self, r):
        return not any(r['tight']) if r['k'] == 'grad' else True


check = C()
