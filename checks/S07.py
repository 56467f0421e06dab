import rt
import scenes
import steplib


class C(steplib.StepCheck):
    id = 'S07'
    rule = ('fixed steps of random worlds with what the engine was asked in each sub-step; behaviours of Stepper with a fixed '
            'time step; non-trivial if there is more than one sub-step')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = steplib.mixed(rng, 110 if q else 1500, p_duel=.7)
        for c in out:
            c['t0'] = rng.choice([0, 0, .03, 7.77, 100])
            c['scene']['dt'] = rng.choice([c['scene']['dt'], c['scene']['dt'], .07, 1 / 3])
        return out + steplib.replay_cases(self, rng, ['fix'], lambda b: True, 800 if q else 0)

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        seen = 0
        for w, pre in self.steps(c):
            solves = w.engine.solves[seen:]
            seen = len(w.engine.solves)
            recs.append({'k': 'fixed', 'id': '%s/%d' % (c['id'], pre['n']), 't': pre['t'], 't2': rt.num(w.t),
                         'dt': rt.num(c['scene']['dt']), 'solves': solves,
                         'p2': rt.vec(rt.torch.cat([b.p for b in w.bodies]))})
        return recs or [{'k': 'none'}]

    def steps(self, c):
        build = scenes.build

        def started(sc, **kw):
            w = build(sc, **kw)
            w.t = c['t0']
            return w
        scenes.build = started
        try:
            yield from steplib.stepping(c['scene'], c['steps'], fixed=True, limit=300, engine=steplib.Logged)
        finally:
            scenes.build = build

    def trivial(self, r):
        return r['k'] == 'fixed' and len(r['solves']) < 2 or r['k'] == 'replay' and not r['rejects']


check = C()
