import rt
import scenes
import steplib


class C(steplib.StepCheck):
    id = 'S08'
    rule = ('steps of random worlds with post-stabilization and what its engine was asked and answered, compared with the step '
            'of an equal world without it; behaviours of Stepper with corrections; non-trivial if the correction is not zero')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(110 if q else 1500):
            sc = scenes.duel(rng) if rng.random() < .4 else scenes.crowd(rng, joints=.7)
            sc['strict'], sc['post'] = rng.random() < .4, True
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.randint(2, 8)})
        return out + steplib.replay_cases(self, rng, ['var', 'fix'], lambda b: b['mode']['post'], 600 if q else 0)

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        twin = scenes.build(c['scene'], post_stab=False)
        count = rt.limit_trials(twin, 60)
        try:
            twin.step()
        except rt.Trials:
            return [{'k': 'none'}]
        for w, pre in steplib.stepping(c['scene'], c['steps'], engine=steplib.Logged):
            r = dict(steplib.common(c['scene'], w, pre, c['id']), k='stab', prej=pre['joints'], postj=steplib.joints(w))
            first, second = steplib.again(w)
            e = w.engine
            r.update(newv=steplib.triples(e.solves[-1]['v']), dp=steplib.triples(e.corrections[-1]['dp']),
                     asked=e.corrections[-1]['asked'], contacts=first, again=second, hastwin=pre['n'] == 0,
                     twint=rt.num(twin.t), twinv=steplib.triples(rt.vec(twin.v)))
            recs.append(r)
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'stab' and all(x == [0, 0] for v in r['dp'] for x in v)


check = C()
