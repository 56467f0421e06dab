import math
import random

import numpy as np

import breakoutlib as bl
import learnlib as ll
import rt
import vlib
from rt import torch


class C(vlib.Check):
    id = 'I01'
    module = 'LearnJudge'
    level = 'model_checking'
    technique = ('TLA+ design model of a learning loop, checked by TLC; its behaviours replayed on the three loops of the repository with '
                 'made-up runs, real runs with gradients by differences, all judged by TLC')
    rule = ('behaviours of spec/Descent.tla (losses and slopes of every iteration) replayed on the inference experiment, the learning of the '
            'game\'s parameters and the gradient demo; random landscapes of losses; loops on real runs of short chains and of the demo')
    assumptions = ['the game, which is not installed, is a stand-in', 'differences are compared with gradients where two step sizes agree on them']
    limit = 250
    chunks = 7

    def cases(self, rng, tier):
        q = tier == 'quick'
        behs, stats = vlib.behaviours('Descent', 'Descent.cfg' if q else 'DescentT.cfg', self.outdir)
        self.generated = [stats]
        behs = sorted(behs, key=repr)
        out = []
        for loop, n in (('inference', 200), ('demo', 200), ('game', 120)):
            for i, b in enumerate(rng.sample(behs, min(len(behs), n if q else 8 * n))):
                out.append({'id': '%s/beh%d' % (loop, i), 'loop': loop, 'seed': rng.random(), 'beh': b})
            for i in range((8 if q else 120) if loop != 'game' else (4 if q else 40)):
                out.append({'id': '%s/random%d' % (loop, i), 'loop': loop, 'seed': rng.random(), 'beh': None, 'long': i == 0})
        for loop in ('inference', 'demo'):
            for i in range(5 if q else 60):
                out.append({'id': '%s/real%d' % (loop, i), 'loop': loop, 'seed': rng.random(), 'beh': None, 'real': True})
        return out

    def run_case(self, c):
        rng = random.Random(c['seed'])
        torch.manual_seed(rng.randrange(10 ** 6))
        np.random.seed(rng.randrange(10 ** 6))
        rec = getattr(self, c['loop'])(rng, c)
        rec['id'] = c['id']
        mean = None
        for it in rec['iters']:
            it['mean'] = []
            if it['shown'] and (mean or it is rec['iters'][0]):      # told, as it takes long to compute anew every time
                gs = [vlib.unreal(x) for x in it['shown']]
                mean = [.99 * m + .01 * g * g for m, g in zip(mean or [0.] * len(gs), gs)]
                it['mean'] = [vlib.real(m) for m in mean]
            else:
                mean = None
        return [rec]

    def script(self, rng, c, eps):
        """Losses (as multiples of eps that are clearly apart) and slopes of the iterations; None for no end."""
        if c['beh']:
            ls = [eps * (2 + x) * 3 for x in c['beh']['losses']]
            gs = [g * rng.choice([.3, 1, 4]) for g in c['beh']['slopes']]
            return ls, gs
        n = 1005 if c.get('long') else rng.randint(2, 30)
        ls = [eps * 10 * (k + 2 + rng.uniform(0, .5)) for k in range(n)]
        if not c.get('long'):
            how = rng.random()
            if how < .4:
                rng.shuffle(ls)
            elif how < .7:
                ls.reverse()
            if rng.random() < .7:
                k = rng.randrange(1, len(ls))
                ls[k] = ls[k - 1] + rng.choice([-1, 1, 0]) * .5 * eps
                ls = ls[:k + 1] + [ls[k] * 3, ls[k] * 9]
        return ls, [rng.uniform(-3, 3) for _ in ls]

    # ------------------------------------------------------------ inference
    def inference(self, rng, c):
        mod = ll.load('inference')
        lp = ll.Loop(c['id'], loss='mse', rule='rmsprop', rate=vlib.real(.5), stop=vlib.real(1e-3), max=100)
        real = c.get('real')
        ls, gs = ([], []) if real else self.script(rng, c, 1e-3)
        make, run = mod.make_world, mod.positions_run_world
        told = {'n': 0, 'truth': None}
        size = rng.choice([3, 6])
        until = .9

        class Made:
            pass

        def make_world(*a, **k):
            mass = ll.args_of(make, a, k)['mass']
            w, r = make(*a, **k) if real else (Made(), None)
            w.total_mass = mass
            return w, r

        def real_run(mass):
            w, _ = make([mod.hor_impulse], mass, num_links=mod.NUM_LINKS)
            return run(w, run_time=until)

        def positions(*a, **k):
            w = ll.args_of(run, a, k)['world']
            told['n'] += 1
            if real:
                out = run(w, run_time=until)
            elif told['n'] == 1:
                out = [rt.T([rng.uniform(-5, 5) for _ in range(size)]) for _ in range(rng.randint(1, 4))]
            if told['n'] == 1:
                told['truth'] = torch.cat(out).detach()
                lp.rec['truth'] = ll.reals(told['truth'])
                return out
            mass = w.total_mass
            k = told['n'] - 2
            if real:
                if k >= 3:
                    raise ll.Cut()
                lp.iteration([mass], torch.cat(out), self.differences(real_run, mass.detach()))
                return out
            if k > len(ls):
                raise ll.Cut()
            if k == len(ls):
                pred = told['truth']
                lp.iteration([mass], pred, [torch.zeros(len(pred))])
                return list((pred + 0 * mass).reshape(-1, size))
            m = len(told['truth']) // size
            have = max(1, m + rng.choice([-1, 0, 0, 2]))
            truth = torch.cat([told['truth'], rt.T([rng.uniform(-5, 5) for _ in range(size * 3)])])[:size * have]
            common = min(m, have) * size
            off = math.sqrt(ls[k])
            signs = rt.T([rng.choice([-1., 1.]) for _ in range(len(truth))])
            # with loss off^2 and slope gs[k]
            jac = signs * (gs[k] / (2 * off))
            pred = truth + signs * off
            jac[common:] = rng.uniform(-2, 2)
            lp.iteration([mass], pred, [jac])
            return list((pred + jac * (mass - mass.detach())).reshape(-1, size))
        kw = dict(make_world=make_world, positions_run_world=positions, run_world=lambda *a, **k: None, plot=lambda *a, **k: None)
        if real:
            kw['NUM_LINKS'] = rng.choice([1, 2, 2, 3])
            push = rng.choice([8., 10., 14.])
            kw['hor_impulse'] = lambda t: push * rt.ExternalForce.RIGHT if t < .1 else rt.ExternalForce.ZEROS
            lp.rec['acc'] = vlib.real(1e-3)
        with ll.replaced(mod, **kw):
            try:
                mod.main(None)
                self.ended(lp, c)
            except ll.Cut:
                lp.grads()
        return lp.rec

    def ended(self, lp, c, final=None):
        """The last run is that of the result, not an iteration."""
        last = lp.rec['iters'].pop()
        lp.rec['lastrun'] = last['param']
        lp.rec['final'] = last['param'] if final is None else ll.flat(final)
        lp.rec['ended'] = True
        if c['beh']:
            lp.rec['beh'] = len(c['beh']['losses'])

    def differences(self, run, x):
        """The derivative of a run by each entry of x, or nothing if it is not clear."""
        jac = []
        for j in range(x.numel()):
            outs = {}
            for h in (1e-5, 2e-5, -1e-5, -2e-5):
                d = torch.zeros_like(x).reshape(-1)
                d[j] = h
                r = run((x.reshape(-1) + d).reshape(x.shape))
                outs[h] = torch.cat([q.reshape(-1) for q in r]).detach()
            if len({len(v) for v in outs.values()}) > 1:
                return []
            near = (outs[1e-5] - outs[-1e-5]) / 2e-5
            far = (outs[2e-5] - outs[-2e-5]) / 4e-5
            up, down = (outs[2e-5] - outs[1e-5]) / 1e-5, (outs[-1e-5] - outs[-2e-5]) / 1e-5
            if max((near - far).abs().max(), (up - down).abs().max() * .1) > 1e-4 * (1 + near.abs().max()):
                return []
            jac.append((4 * near - far) / 3)
        return jac

    # ----------------------------------------------------------------- demo
    def demo(self, rng, c):
        mod = ll.load('grad_demo')
        lp = ll.Loop(c['id'], loss='norm', rule='descent', rate=vlib.real(.001), decay=vlib.real(.9), stop=vlib.real(1e-5), max=100)
        real = c.get('real')
        ls, gs = ([], []) if real else self.script(rng, c, 1e-5)
        told = {'made': 0, 'worlds': []}
        make, run = mod.make_world, mod.run_world
        until = rng.choice([4., 5.])

        class Made:
            pass

        class Thing:
            pass

        def make_world(*a, **k):
            f = ll.args_of(make, a, k)['learned_force'](.05)
            if real:
                w, body, target = make(*a, **k)
            else:
                w, body, target = Made(), Thing(), Thing()
            w.force, w.body, w.target = f, body, target
            return w, body, target

        def real_run(f):
            w, body, target = make(lambda t: f if t < .1 else rt.ExternalForce.ZEROS)
            run(w, run_time=until, screen=None, print_time=False)
            return [body.pos - target.pos]

        def run_world(*a, **k):
            w = ll.args_of(run, a, k)['world']
            told['made'] += 1
            if told['made'] == 1 and real:
                return
            k = told['made'] - 2
            if real:
                if k >= 3:
                    raise ll.Cut()
                run(w, run_time=until, screen=None, print_time=False)
                lp.rec['truth'] = ll.reals([0, 0])
                lp.iteration([w.force], w.body.pos - w.target.pos, self.differences(real_run, w.force.detach()))
                return
            lp.rec['truth'] = ll.reals([0, 0])
            f = w.force
            base = rt.T([rng.uniform(-9, 9), rng.uniform(-9, 9)])
            if k > len(ls):
                raise ll.Cut()
            if k == len(ls) or k < 0:
                w.target.pos = base
                w.body.pos = base + 1e-3 + 0 * f.sum()
                if k >= 0:
                    lp.iteration([f], [1e-3, 1e-3], [[0, 0]] * 3)
                return
            a = rng.uniform(0, 6.28)
            d = rt.T([math.cos(a), math.sin(a)])
            jac = rt.T([gs[k] * rng.choice([-1, 0, 1, 1.5]) for _ in range(3)])
            across = rt.T([-math.sin(a), math.cos(a)]) * rng.uniform(-1, 1)
            w.target.pos = base
            w.body.pos = base + d * ls[k] + torch.stack([d, across]).t() @ torch.stack([jac @ (f - f.detach()), (f - f.detach()).sum()])
            rows = [d * jac[j] + across for j in range(3)]
            lp.iteration([f], d * ls[k], rows)
        with ll.replaced(mod, make_world=make_world, run_world=run_world, plot=lambda *a, **k: None):
            if real:
                lp.rec['acc'] = vlib.real(1e-3)
            try:
                mod.grad_demo(None)
                self.ended(lp, c)
            except ll.Cut:
                lp.grads()
        return lp.rec

    # ----------------------------------------------------------------- game
    def game(self, rng, c):
        mod = ll.load('learn_params')
        lp = ll.Loop(c['id'], loss='mse', rule='rmsprop', rate=vlib.real(.03), stop=vlib.real(1e-15), max=1000)
        ls, gs = self.script(rng, c, 1. / 16)
        offs = [round(x * 64) / 64 for x in ls]           # exact, as are their squares
        sim = mod.simulate_breakout
        quick = c['beh'] or c.get('long') or rng.random() < .7
        told = {'n': 0, 'rows': 0, 'truth': None, 'params': None}
        frames = []

        def play():
            s = bl.game(rng, ball=True, few=True)
            s['blocks'], s['ball'] = s['blocks'][:2], [rng.randint(110, 170), rng.randint(20, 140)]
            frames.append(s)
            return s if quick else bl.frame(s)

        class Game:
            acts = []

            def reset(self):
                if told['n'] >= len(ls):
                    raise ll.Cut()
                told['n'] += 1
                told['rows'], Game.acts = 0, []
                frames.clear()
                lp.now = {'pred': [], 'jac': [[], []], 'params': None}
                return play()

            def step(self, a):
                Game.acts.append(int(a))
                return play(), 0., False, {'ale.lives': 5}

        def simulate(*a, **kw):
            b = ll.args_of(sim, a, kw)
            px, py = b['paddle_vel_x'], b['paddle_vel_y']
            now = lp.now
            j = told['rows']
            told['rows'] += 1
            act = float(b['a'])
            if j >= len(Game.acts) or (Game.acts[j] == 2) != (rb_action(act) == 2):
                raise vlib.Lost('simulated with another action than was played')
            s = frames[j + 1]
            row = rt.T([s['paddle'] + 8., 191., 16., 4.])
            i = told['n'] - 1
            n = len(frames)
            off = offs[i]
            signs = rt.T([rng.choice([-1., 1.]) for _ in range(4)])
            jx, jy = (signs * (g * n / (n - 1) / (2 * off)) for g in (gs[i], -2 * gs[i]))
            pred = row + signs * off
            if j == 0:
                now['params'] = [px, py]
                first = frames[0]
                now['pred'] = [first['paddle'] + 8., 191., 16., 4.]
                now['truth'] = list(now['pred'])
                now['jac'] = [[0.] * 4, [0.] * 4]
            now['truth'] += row.tolist()
            now['pred'] += pred.tolist()
            now['jac'][0] += jx.tolist()
            now['jac'][1] += jy.tolist()
            if told['rows'] == len(Game.acts):
                lp.iteration(now['params'], [p - t for p, t in zip(now['pred'], now['truth'])], now['jac'])
                lp.rec['truth'] = [vlib.real(0)] * len(now['pred'])
            out = pred + jx * (px - px.detach()) + jy * (py - py.detach())
            return torch.cat([out, rt.T([rng.uniform(0, 99) for _ in range(7)])]).unsqueeze(0)
        rb_action = lambda a: mod.get_action([a])
        gym = type('gym', (), {'make': staticmethod(lambda name, *a, **k: Game())})
        kw = dict(simulate_breakout=simulate, gym=gym, plot=lambda *a, **k: None)
        if quick:
            kw.update(extract_params=bl.params, make_world=lambda *a: (None,) * 5)
        with ll.replaced(mod, **kw):
            try:
                out = mod.infer_params()
                lp.end(out)
                if c['beh']:
                    lp.rec['beh'] = len(c['beh']['losses'])
            except ll.Cut:
                lp.grads()
        return lp.rec

    def trivial(self, r):
        return not r['iters']


check = C()
