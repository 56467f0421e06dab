import random

import lcplib
import vlib


class C(lcplib.LCPCheck):
    id = 'L01'
    level = 'model_checking'
    technique = ('TLA+ model that enumerates all small problems with their solutions, checked by TLC and solved by the code; TLC '
                 'validation of solutions of larger problems against the specification')
    rule = ('problems of the lattice of Problems that have an interior, and problems with up to 8 variables, 8 inequalities and equalities '
            'with planted solutions, coupled or not, degenerate or not; non-trivial if an inequality is tight')
    pool = 4000

    def cases(self, rng, tier):
        q = tier == 'quick'
        got = lcplib.lattice(self, lcplib.MODELS if q else lcplib.MODELS[:3] + ('Problems22T.cfg',))
        if q:
            got = rng.sample(got, 2500)
        out = [{'id': 'lattice%d' % (i // 25), 'probs': got[i:i + 25]} for i in range(0, len(got), 25)]
        # one fixed set of larger problems, so that known findings can be told apart
        for i in sorted(rng.sample(range(self.pool), 700)) if q else range(self.pool):
            out.append({'id': 'random%d' % i, 'n': i})
        return out

    def run_case(self, c):
        if 'probs' in c:
            ps = [('%s:%s' % (c['id'], key(P)), P) for P in c['probs']]
            acc = 1e-5
        else:
            own = random.Random('L01/pool/%d' % c['n'])
            strict = c['n'] % 3 > 0
            ps = [(c['id'], lcplib.planted(own, own.choice(['plain', 'plain', 'coupled', 'skew']), strict=strict))]
            acc = 1e-7 if strict else 1e-4
        recs = []
        for name, P in ps:
            kw = {} if c['id'].startswith('lattice') or c['n'] % 2 else {'max_iter': 100}
            r = {'k': 'solve', 'id': name, 'prob': lcplib.prob(P), 'found': lcplib.solve([P], **kw)[0], 'acc': vlib.real(acc)}
            r.update(lcplib.reals(P, 'x', 'y', 'z'))
            recs.append(r)
        return recs

    def trivial(self, r):
        return r['k'] != 'solve' or all(z == [0, 0] for z in r['z'])


def key(P):
    return ','.join('%s=%s' % (k, P[k]) for k in 'QpGhAbF').replace(' ', '')


check = C()
