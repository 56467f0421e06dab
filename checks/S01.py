import rt
import steplib


class C(steplib.StepCheck):
    id = 'S01'
    rule = ('recorded steps of random worlds (bodies of all kinds flying at each other, falling, jointed), variable time steps, '
            'strict or not; non-trivial if the step was retried or bodies turned. Behaviours of Stepper with at least one step.')

    def cases(self, rng, tier):
        q = tier == 'quick'
        return steplib.mixed(rng, 90 if q else 1500) + steplib.replay_cases(
            self, rng, ['var', 'fix'], lambda b: not b['mode']['post'], 500 if q else 0)

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        for w, pre in steplib.stepping(c['scene'], c['steps']):
            recs.append(dict(steplib.common(c['scene'], w, pre, c['id']), k='move'))
        return recs or [{'k': 'none'}]


check = C()
