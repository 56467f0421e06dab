import random

import lcplib
import rt
import vlib


def flat(G):
    """The gradients of one problem as flat lists."""
    return [rt.vec(G[k].reshape(-1)) for k in 'QpGhAbF']


class C(lcplib.LCPCheck):
    id = 'L02'
    level = 'model_checking'
    technique = ('TLA+ design model of the iteration over a batch (no problem is worse off in company), checked by TLC; TLC validation '
                 'of solutions and gradients of real batches against those of each problem alone')
    rule = ('batches of two to six problems of one size, easy and hard, coupled or not, degenerate or not, repeated ones included, and '
            'sequences of calls of various sizes; all non-trivial')
    models = (('SolverModel', 'SolverModel.cfg'),)
    models_thorough = (('SolverModel', 'SolverModelT.cfg'),)
    pool = 3000

    def cases(self, rng, tier):
        # one fixed set of batches, so that known findings can be told apart
        q = tier == 'quick'
        out = [{'id': 'batch%d' % i, 'n': i} for i in (sorted(rng.sample(range(self.pool), 260)) if q else range(self.pool))]
        for i in sorted(rng.sample(range(600), 60)) if q else range(600):
            out.append({'id': 'sequence%d' % i, 'seq': i})
        return out

    def problem(self, own, n, m, q):
        while True:
            strict = own.random() < .8
            P = lcplib.planted(own, own.choice(['plain', 'plain', 'coupled', 'skew']), n, m, q, strict)
            if own.random() < .2:       # nothing tight
                P['h'] = [h + 50 for h in P['h']]
                strict = False
            elif own.random() < .2:     # large numbers
                k = own.choice([30., 100.])
                P['p'], P['h'], P['b'] = ([k * a for a in P[s]] for s in 'phb')
            P['smooth'] = strict and lcplib.regular(P) > .05
            return P

    def run_case(self, c):
        if 'seq' in c:
            return self.sequence(c)
        own = random.Random('L02/batch/%d' % c['n'])
        n, m = own.randint(1, 6), own.randint(1, 6)
        q = own.choice([0, own.randint(0, n - 1)])
        Ps = [self.problem(own, n, m, q) for _ in range(own.randint(2, 6))]
        if own.random() < .3:
            Ps.append(Ps[0])
        own.shuffle(Ps)
        gs = [[own.gauss(0, 1) for _ in range(n)] for _ in Ps]
        xs, Gs, kept = lcplib.solve_grad(Ps, gs)
        recs = []
        for i, P in enumerate(Ps):
            x, G, k1 = lcplib.solve_grad([P], [gs[i]])
            recs.append({'k': 'batch', 'id': '%s/%d' % (c['id'], i), 'alone': x[0], 'together': xs[i], 'acc': vlib.real(1e-6),
                         'kept': kept and k1, 'gacc': vlib.real(1e-5), 'galone': [], 'gtogether': []})
            if P['smooth']:
                recs[-1].update(galone=flat(G[0]), gtogether=flat(Gs[i]))
        return recs

    def sequence(self, c):
        """A problem solved with others, of all sizes and some of them hopeless, in between; by one solver or by several."""
        own = random.Random('L02/sequence/%d' % c['seq'])
        shared = own.random() < .5
        f = rt.LCPFunction()
        n, m = own.randint(1, 6), own.randint(1, 6)
        q = own.choice([0, own.randint(0, n - 1)])
        P = lcplib.planted(own, own.choice(['plain', 'coupled', 'skew']), n, m, q)
        recs, first = [], None
        g = [own.gauss(0, 1) for _ in range(n)]

        def one():
            a = lcplib.tensors([P], True)
            x = (f if shared else rt.LCPFunction())(*a)
            d = rt.torch.autograd.grad((x * rt.T([g])).sum(), [a[1], a[3]])
            return rt.vec(x[0]) + rt.vec(d[0][0]) + rt.vec(d[1][0])
        for k in range(own.randint(3, 6)):
            got = one()
            if first is None:
                first = got
            else:
                recs.append({'k': 'again', 'id': '%s/%d' % (c['id'], k), 'first': first, 'again': got, 'acc': vlib.real(1e-9)})
            for _ in range(own.randint(1, 3)):
                if own.random() < .4:
                    n2, m2, q2 = n, m, q
                else:
                    n2, m2 = own.randint(1, 6), own.randint(1, 6)
                    q2 = own.randint(0, n2 - 1)
                others = [lcplib.planted(own, own.choice(['plain', 'coupled', 'skew']), n2, m2, q2, False)
                          for _ in range(own.randint(1, 3))]
                if own.random() < .2:
                    for o in others:
                        o['G'][0], o['F'][0], o['h'][0] = [0.] * n2, [0.] * m2, -1.
                a = lcplib.tensors(others, own.random() < .5)
                x = (f if shared else rt.LCPFunction())(*a)
                if a[0].requires_grad:
                    rt.torch.autograd.grad(x.sum(), a[1])
        return recs


check = C()
