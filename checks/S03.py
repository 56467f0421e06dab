import scenes
import steplib


class C(steplib.StepCheck):
    id = 'S03'
    rule = ('ends of steps of random strict worlds (fast bodies, pointed and off-center hulls, stacks, jointed and excluded '
            'pairs), over whole histories; behaviours of Stepper in strict mode')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = steplib.mixed(rng, 120 if q else 2000, strict=True, p_duel=.6)
        for i in range(30 if q else 400):
            sc = scenes.duel(rng, kinds=rng.choice(['h', 'hr', 'hc']), speed=rng.choice([20., 100., 400.]), dt=.1)
            out.append({'id': 'hulls%d' % i, 'scene': dict(sc, strict=True), 'steps': 12})
        for i in range(40 if q else 600):
            out.append({'id': 'bullet%d' % i, 'scene': dict(scenes.bullet(rng), strict=True), 'steps': 3})
        for i in range(40 if q else 600):
            out.append({'id': 'hinge%d' % i, 'scene': dict(scenes.hinged(rng), strict=True), 'steps': 8})
        return out + steplib.replay_cases(self, rng, ['var', 'fix'],
                                          lambda b: b['mode']['strict'] and not b['mode']['post'], 300 if q else 0)

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        for w, pre in steplib.stepping(c['scene'], c['steps']):
            r = steplib.common(c['scene'], w, pre, c['id'])
            recs.append({'k': 'strict', 'id': r['id'], 'tol': r['tol'], 'excl': r['excl'], 'post': r['post']})
        return recs or [{'k': 'none'}]


check = C()
