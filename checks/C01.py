import vlib
import contactlib


class C(vlib.Check):
    id = 'C01'
    module = 'ContactJudge'
    rule = ('random and lattice pairs (circles) at random depth, touching, near and apart, in both orders; '
            'non-trivial if a contact is reported')
    assumptions = ['hulls are strictly convex', 'centers of circles do not coincide',
                   'proxies are inflated by the detection distance, as by default, or by more']

    def cases(self, rng, tier):
        n = 1 if tier == 'quick' else 12
        return contactlib.batches(rng, 'c', 'c', 420 * n, 280 * n)

    def run_case(self, case):
        return contactlib.run_pairs(case)

    def trivial(self, r):
        return not r['contacts']


check = C()
