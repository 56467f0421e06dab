import rt
import scenes
import steplib


class C(steplib.StepCheck):
    id = 'S02'
    rule = ('retried steps of random worlds with joints, rectangles and hulls, each also compared with a step of an equal world '
            'asked for the accepted time at once; behaviours of Stepper with rejected trials')

    def cases(self, rng, tier):
        q = tier == 'quick'
        out = []
        for i in range(110 if q else 1500):
            sc = scenes.duel(rng) if rng.random() < .6 else scenes.crowd(rng, joints=.8, speed=40.)
            if rng.random() < .5:
                sc['joints'], sc['excl'] = [], []
                scenes.attach(rng, sc, .8, ('joint', 'joint', 'fixed'))
            sc['strict'] = rng.random() < .6
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.randint(3, 10)})
        return out + steplib.replay_cases(self, rng, ['var', 'fix'], lambda b: b['rejects'] > 0, 500 if q else 0)

    def run_case(self, c):
        if 'behs' in c:
            return steplib.run_replays(c)
        recs = []
        for w, pre in steplib.stepping(c['scene'], c['steps']):
            r = dict(steplib.common(c['scene'], w, pre, c['id']), k='rollback', prej=pre['joints'],
                     postj=steplib.joints(w))
            recs.append(r)
            acc = w.t - rt.vlib.unreal(pre['t'])
            if acc < c['scene']['dt'] * .6:
                recs += self.twin(c['scene'], pre, w, acc, r['id'])
        return recs or [{'k': 'none'}]

    def twin(self, sc, pre, w, acc, name):
        """An equal world up to this step, which then is asked for the accepted
        time at once and given the same velocities."""
        if any(k[0][3].item() > w.tol for k in w.contacts):
            return []   # given up: asked for so short a time at once, it would not be accepted
        v = w.v.clone()
        history = []

        class Playback(rt.PdipmEngine):
            def solve_dynamics(self, world, dt):
                if len(history) < pre['n']:
                    history.append(1)
                    return super().solve_dynamics(world, dt)
                return v.clone()
        u = scenes.build(sc, engine=Playback)
        rt.limit_trials(u, 2000)
        for _ in range(pre['n']):
            u.step()
        if rt.vec(rt.torch.cat([b.p for b in u.bodies])) != [x for b in pre['bodies'] for x in b['p']]:
            return []   # not reproduced to the last bit (see D13), so no twin
        u.dt = acc
        try:
            u.step()
        except rt.Trials:
            return []

        def state(x):
            return {'bodies': rt.bodies(x), 'joints': steplib.joints(x), 't': rt.num(x.t), 'contacts': rt.contacts(x)}
        return [{'k': 'twin', 'id': name + '/twin', 'a': state(w), 'b': state(u)}]

    def trivial(self, r):
        return r['k'] == 'rollback' and r['dt'] == r['t2'] or r['k'] == 'replay' and not r['rejects']


check = C()
