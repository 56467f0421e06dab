import random

import dynlib
import rt
import scenes
import steplib
import vlib
from rt import torch


class C(dynlib.DynCheck):
    id = 'S09'
    kind = 'correction'
    rule = ('corrections the engine computes for random scenes with joints and contacts, from random velocities and in the middle of '
            'simulations; the witnesses are impulses at joints and contacts; non-trivial if there is a joint or contact')

    def make(self, rng):
        k = rng.random()
        sc = scenes.touching(rng, joints=.6) if k < .5 else dynlib.scene(rng)
        sc['strict'], sc['post'] = False, rng.random() < .3
        if rng.random() < .15:
            for b in sc['bodies']:
                b['v'] = [0, 0, 0]
        return sc

    pool = 6000

    def cases(self, rng, tier):
        # one fixed set of scenes, so that known findings can be told apart
        which = range(self.pool) if tier != 'quick' else sorted(rng.sample(range(self.pool), 450))
        out = []
        for i in which:
            own = random.Random('S09/pool/%d' % i)
            out.append({'id': 'scene%d' % i, 'scene': self.make(own), 'steps': own.choice([1, 2, 4, 8])})
        return out

    def run_case(self, c):
        sc = c['scene']
        recs = []
        w = scenes.build(sc)
        for n in range(c['steps']):
            u = dynlib.Update(sc, w, float(w.t), sc['dt'])
            if not u.feasible(correction=True) or u.cs and u.jammed([0.] * len(u.cs)):
                break
            dp = w.engine.post_stabilization(w)
            if dp.dim() == 2 and dp.size(0) == 1:       # the engine answers with a batch of one if there are contacts
                dp = dp[0]
            if dp.dim() != 1 or dp.numel() != 3 * len(w.bodies):
                raise rt.BadShape('correction of shape %s' % (tuple(dp.shape),))
            u.done(dp.tolist(), forced=False)
            r = u.record('correction', '%s/%d' % (c['id'], n))
            r.update(u.witness('correction'))
            r['forces'] = [[] for _ in sc['bodies']]
            recs.append(r)
            if not u.posed():
                break
            w.step()
            if not torch.isfinite(w.v).all() or w.v.abs().max() > 500:
                break
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'none' or not (r['contacts'] or r['joints'])


check = C()
