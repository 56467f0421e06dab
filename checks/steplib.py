"""Recording steps of real worlds, and replaying behaviours of spec/Stepper.tla."""
import random

import rt
import scenes
import vlib
from rt import torch

CFGS = {'var': 'StepperVar.cfg', 'fix': 'StepperFix.cfg'}


class Logged(rt.PdipmEngine):
    """The engine of the code, keeping what it was asked and what it answered."""
    def __init__(self, **kw):
        super().__init__(**kw)
        self.solves, self.corrections = [], []

    def solve_dynamics(self, world, dt):
        pre = torch.cat([b.p for b in world.bodies])
        t = rt.num(world.t)
        v = super().solve_dynamics(world, dt)
        self.solves.append({'t': t, 'dt': rt.num(dt), 'p': rt.vec(pre), 'v': rt.vec(v)})
        return v

    def post_stabilization(self, world):
        asked = rt.bodies(world)
        dp = super().post_stabilization(world)
        self.corrections.append({'asked': asked, 'dp': rt.vec(dp.reshape(-1))})
        return dp


def triples(flat):
    return [flat[i:i + 3] for i in range(0, len(flat), 3)]


def joints(w):
    out = []
    for e in w.joints:
        d = rt.joint(w, e)
        d['ang'] = []
        if d['kind'] == 'joint':
            for name in ('rot1', 'rot2'):
                a = getattr(e[0], name, None)
                if a is not None:
                    d['ang'].append(rt.num(a))
        out.append(d)
    return out


def stepping(sc, steps, fixed=False, limit=60, **kw):
    """Step a scene; yields (world, state before) after each step that returns."""
    w = scenes.build(sc, **kw)
    count = rt.limit_trials(w, limit)
    stepping.gave_up = False
    for n in range(steps):
        pre = {'bodies': rt.bodies(w), 'joints': joints(w), 't': rt.num(w.t), 'n': n}
        count['n'] = 0
        try:
            w.step(fixed_dt=True) if fixed else w.step()
        except rt.Trials:
            stepping.gave_up = True
            return
        pre['searches'] = count['n']
        if not torch.isfinite(w.v).all():
            raise ArithmeticError('velocities are not finite')
        if max(abs(x) for x in w.v.tolist()) > 1e4:
            return
        yield w, pre


def common(sc, w, pre, case_id):
    return {'id': '%s/%d' % (case_id, pre['n']), 'dt': rt.num(sc['dt']), 'tol': rt.num(w.tol),
            'strict': bool(sc.get('strict', True)), 'excl': scenes.excluded(sc), 't': pre['t'], 't2': rt.num(w.t),
            'pre': pre['bodies'], 'post': rt.bodies(w)}


def again(w):
    """The contacts, and those of another search in the same configuration."""
    first = rt.contacts(w)
    w.find_contacts()
    return first, rt.contacts(w)


def mixed(rng, n, strict=None, p_duel=.5):
    """Scenes with many retried steps and scenes with many bodies."""
    out = []
    for i in range(n):
        sc = scenes.duel(rng) if rng.random() < p_duel else scenes.crowd(rng)
        sc = scenes.rescale(rng, sc)
        sc['strict'] = rng.random() < .5 if strict is None else strict
        out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.randint(4, 14)})
    return out


# ------------------------------------------------------------------- replays
UNIT_T = 2. ** -17
UNIT_X = 2. ** -15


def units(x, unit):
    q = float(x) / unit
    return int(round(q)) if abs(q - round(q)) < 1e-6 and abs(q) < 1e9 else -999999999


def replay(beh, name, rng):
    """One behaviour of Stepper on a real world whose engine and contact handler
    play the environment: what the model says of speeds, corrections, overlap."""
    mode, hist = beh['mode'], beh['hist']
    DT = 4096
    blocked = set(beh['blocked'])
    answers = {}
    script = [e for e in hist if e['op'] == 'solve']
    fixes = [e for e in hist if e['op'] == 'correct']
    found = []
    scale = UNIT_X / UNIT_T

    class Env(rt.Engine):
        def solve_dynamics(self, world, dt):
            i = sum(e['op'] == 'solve' for e in found)
            e = script[min(i, len(script) - 1)]
            found.append({'op': 'solve', 't': units(world.t, UNIT_T), 'dt': units(dt, UNIT_T),
                          'x': units(world.bodies[0].p[1].item(), UNIT_X), 'v': e['v']})
            return rt.T([0, e['v'] * scale, 0] * 2)

        def post_stabilization(self, world):
            i = sum(e['op'] == 'correct' for e in found)
            e = fixes[min(i, len(fixes) - 1)]
            found.append({'op': 'correct', 't': units(world.t, UNIT_T), 'dt': e['dt'],
                          'x': units(world.bodies[0].p[1].item(), UNIT_X), 'v': e['v']})
            return rt.T([[0, e['v'] * scale, 0] * 2])

    class Handler(rt.ContactHandler):
        def __call__(self, args, geom1, geom2):
            w = args[0]
            x = w.bodies[0].p[1].item()
            pen = 1. if units(x, UNIT_X) in blocked and not answers.get('off') else -.01
            w.contacts.append(((rt.T([1, 0]), rt.T([x, 0]), rt.T([x, 0]), rt.T([pen])), 0, 1))

    bs = [rt.Circle([0, 0, 0], 1), rt.Circle([0, 0, 0], 1)]
    calls = sum(e['op'] == 'end' for e in hist)
    w = rt.World(bs, dt=DT * UNIT_T, engine=Env, contact_callback=Handler, post_stab=mode['post'],
                 strict_no_penetration=mode['strict'])
    count = rt.limit_trials(w, 400)
    for _ in range(calls):
        count['n'] = 0
        try:
            w.step(fixed_dt=True) if mode['fixed'] else w.step()
        except rt.Trials:
            break
        found.append({'op': 'end', 't': units(w.t, UNIT_T), 'dt': 0, 'x': units(w.bodies[0].p[1].item(), UNIT_X),
                      'v': units(w.v[1].item(), scale)})
    expected = [dict(e, dt=0) if e['op'] == 'end' else e for e in hist]
    last = units(w.contacts[-1][0][1][0].item(), UNIT_X) if w.contacts else -1
    return {'k': 'replay', 'id': name, 'post': mode['post'], 'expected': expected, 'found': found, 'last': last,
            'where': expected[-1]['x'], 'rejects': beh['rejects'], 'mode': mode}


def replay_cases(check, rng, which, keep, n, size=60):
    behs = []
    check.generated = []
    for name in which:
        got, stats = vlib.behaviours('Stepper', CFGS[name], check.outdir)
        check.generated.append(stats)
        behs += got
    behs = sorted((b for b in behs if keep(b)), key=repr)
    if n and len(behs) > n:
        behs = rng.sample(behs, n)
    return [{'id': 'replay%d' % (i // size), 'behs': behs[i:i + size]} for i in range(0, len(behs), size)]


def run_replays(case):
    rng = random.Random(case['id'])
    return [replay(b, '%s/%d' % (case['id'], i), rng) for i, b in enumerate(case['behs'])]


class StepCheck(vlib.Check):
    module = 'StepJudge'
    level = 'model_checking'
    technique = ('TLA+ design model of the stepping protocol checked by TLC, its behaviours replayed on the code; '
                 'TLC validation of recorded steps against the specification')
    limit = 60
    models = (('Stepper', 'StepperLive.cfg'),)
    chunks = 7
    assumptions = ['velocities are taken as the engine gives them', 'a strict world whose step finds no acceptable trial in 60 '
                   'is not followed further (see S04)']

    def trivial(self, r):
        if r['k'] == 'replay':
            return r['rejects'] == 0
        return False
