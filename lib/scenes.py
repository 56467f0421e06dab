"""Random scenes as JSON-able descriptions, and the worlds they describe."""
import math

import rt
import shapes

def wave(t):
    t = float(t)
    return rt.T([math.sin(3 * t), math.cos(5 * t), t])


FORCES = {'gravity': lambda m: rt.Gravity(m), 'down': lambda m: rt.ExternalForce(rt.down_force, multiplier=m),
          'vert': lambda m: rt.ExternalForce(rt.vert_impulse, multiplier=m),
          'hor': lambda m: rt.ExternalForce(rt.hor_impulse, multiplier=m),
          'rot': lambda m: rt.ExternalForce(rt.rot_impulse, multiplier=m),
          'wave': lambda m: rt.ExternalForce(wave, multiplier=m)}
CONSTRAINTS = {'x': rt.XConstraint, 'y': rt.YConstraint, 'rot': rt.RotConstraint, 'total': rt.TotalConstraint}


def body(rng, kinds='crh', pos=(0, 0), speed=10., spin=2., es=(0, .5, 1), mus=(0, .3, .9), size=None):
    s = shapes.shape(rng, kinds)
    return {'s': s, 'p': list(pos), 'r': rng.choice([0, rng.uniform(-3, 3)]),
            'v': [rng.choice([0, rng.uniform(-spin, spin)]), rng.uniform(-speed, speed), rng.uniform(-speed, speed)],
            'm': rng.choice([1, 1, .3, 2.5, 7]), 'e': rng.choice(es), 'mu': rng.choice(mus), 'f': []}


def make_body(b, eps=.1):
    x = shapes.make(b['s'], b['p'], b['r'], vel=b['v'], mass=b['m'], restitution=b['e'], fric_coeff=b['mu'], eps=eps)
    for name, mult in b['f']:
        x.add_force(FORCES[name](mult))
    if b.get('F'):                       # a constant force and torque
        F = rt.T(b['F'])
        x.add_force(rt.ExternalForce(lambda t: F, multiplier=1.))
    return x


def make_joint(j, bs):
    k = j['k']
    if k == 'joint':
        return rt.Joint(bs[j['i']], bs[j['j']] if j['j'] is not None else None, j['pos'])
    if k == 'fixed':
        return rt.FixedJoint(bs[j['i']], bs[j['j']])
    return CONSTRAINTS[k](bs[j['i']])


def build(sc, **kw):
    """The world of a scene; keyword arguments override the scene's settings."""
    bs = [make_body(b, sc.get('eps', .1)) for b in sc['bodies']]
    js = [make_joint(j, bs) for j in sc.get('joints', [])]
    for a, b in sc.get('excl', []):
        bs[a].add_no_contact(bs[b])
    opts = {k: sc[k] for k in ('dt', 'eps', 'tol') if k in sc}
    opts['post_stab'] = sc.get('post', False)
    opts['strict_no_penetration'] = sc.get('strict', True)
    if sc.get('iters'):
        opts['engine'] = lambda: rt.PdipmEngine(max_iter=sc['iters'])
    opts.update(kw)
    return rt.World(bs, js, **opts)


def excluded(sc):
    return [[a + 1, b + 1] for a, b in sc.get('excl', [])]


def clear(sc, margin=0.):
    """No pair that may touch overlaps (for the generator only)."""
    bs = [make_body(b) for b in sc['bodies']]
    ex = {frozenset(p) for p in sc.get('excl', [])}
    return all(shapes.separation(bs[i], bs[j]) >= margin for i in range(len(bs)) for j in range(i)
               if frozenset((i, j)) not in ex)


def attach(rng, sc, p=.5, kinds=('joint', 'fixed', 'none')):
    """Joints along a random forest, with contact between the jointed excluded,
    and at most one body in each tree held by constraints."""
    n = len(sc['bodies'])
    root = list(range(n))

    def find(i):
        while root[i] != i:
            i = root[i]
        return i
    held = {find(j['i']) for j in sc['joints']}
    for i in range(1, n):
        if rng.random() > p:
            continue
        j = rng.randrange(i)
        a, b = find(i), find(j)
        if a == b or (a in held and b in held):
            continue
        k = rng.choice(kinds)
        if k == 'none':
            continue
        if rng.random() < .5:
            i1, i2 = i, j
        else:
            i1, i2 = j, i
        pi, pj = sc['bodies'][i1]['p'], sc['bodies'][i2]['p']
        d = {'k': k, 'i': i1, 'j': i2}
        if k == 'joint':
            t = rng.choice([0, .5, 1, rng.uniform(-.3, 1.3)])
            d['pos'] = [pi[0] + t * (pj[0] - pi[0]) + rng.choice([0, rng.uniform(-2, 2)]),
                        pi[1] + t * (pj[1] - pi[1]) + rng.choice([0, rng.uniform(-2, 2)])]
        sc['joints'].append(d)
        sc['excl'].append([i, j])
        root[b] = a
        if b in held:
            held.discard(b)
            held.add(a)
    for i in range(n):
        a = find(i)
        if a not in held and rng.random() < p / 3:
            ks = rng.choice([['x'], ['y'], ['rot'], ['total'], ['x', 'rot'], ['x', 'y'], ['rot', 'y'], ['pin']])
            held.add(a)
            for k in ks:
                if k == 'pin':
                    q = sc['bodies'][i]['p']
                    sc['joints'].append({'k': 'joint', 'i': i, 'j': None,
                                         'pos': [q[0] + rng.choice([0, 1, -2]), q[1] + rng.choice([0, 2])]})
                else:
                    sc['joints'].append({'k': k, 'i': i})
    rng.shuffle(sc['joints'])
    return sc


def settings(rng, sc, p=.15):
    """Now and then a world with other margins than the usual ones."""
    if rng.random() < p:
        sc['eps'] = rng.choice([.03, .2, .3])
    if rng.random() < p:
        sc['tol'] = rng.choice([1e-8, 1e-4, 2e-3, .02])
    return sc


def crowd(rng, n=None, kinds='crh', joints=.4, speed=15., gravity=.4, floor=.5, spread=None, **kw):
    """Bodies next to each other, without overlap, moving at random."""
    n = n or rng.randint(2, 5)
    sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, 1 / 30, .1, .02])}
    ground = rng.random() < floor
    spread = spread or 4.5 * math.sqrt(n) + 2
    g = rng.choice([10., 50.]) if rng.random() < gravity else 0
    if ground:
        b = body(rng, 'r', (rng.uniform(-3, 3), spread + 6), **kw)
        b.update(s={'k': 'r', 'd': [8 * spread, 4]}, v=[0, 0, 0], r=rng.choice([0, 0, .1, -.2]))
        sc['bodies'].append(b)
        sc['joints'].append({'k': 'total', 'i': 0})
    tries = 0
    while len(sc['bodies']) < n + ground and tries < 200:
        tries += 1
        b = body(rng, kinds, (rng.uniform(-spread, spread), rng.uniform(-spread, spread)), speed=speed, **kw)
        if g:
            b['f'].append(['gravity', g])
        if rng.random() < .2:
            b['f'].append([rng.choice(['vert', 'hor', 'rot', 'down']), rng.choice([100., -30., 20.])])
        sc['bodies'].append(b)
        if not clear(sc, .01):
            sc['bodies'].pop()
    if rng.random() < .75:
        attach(rng, sc, joints)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        a, b = rng.randrange(len(sc['bodies'])), rng.randrange(len(sc['bodies']))
        if a != b:
            sc['excl'].append([a, b])
    return settings(rng, sc)


def duel(rng, kinds='crh', speed=40., dt=None):
    """Two or three bodies flying at each other fast, so that steps are retried."""
    n = rng.choice([2, 2, 3])
    sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': dt or rng.choice([1 / 30, .1, .2])}
    while len(sc['bodies']) < n:
        i = len(sc['bodies'])
        a = rng.uniform(0, 2 * math.pi)
        d = 0 if i == 0 else rng.uniform(4, 13)
        b = body(rng, kinds, (d * math.cos(a), d * math.sin(a)), speed=3., spin=8.)
        if i:
            s = rng.uniform(.3, 1) * speed
            b['v'][1] -= s * math.cos(a)
            b['v'][2] -= s * math.sin(a)
        sc['bodies'].append(b)
        if not clear(sc, .001):
            sc['bodies'].pop()
    if rng.random() < .5:
        attach(rng, sc, .5)
    return settings(rng, sc)


def _against(rng, sc, b, other, gap, ang=None):
    """Put body b next to a body of the scene, at the given gap, or return False."""
    if ang is None:
        ang = rng.choice([rng.uniform(0, 2 * math.pi), rng.randrange(4) * math.pi / 2])
    o = make_body(other)
    px, py = other['p']
    lo, hi = .05, shapes.reach(b['s']) + shapes.reach(other['s']) + 2

    def at(t):
        return dict(b, p=[px + t * math.cos(ang), py + t * math.sin(ang)])
    for _ in range(45):
        mid = (lo + hi) / 2
        if shapes.separation(make_body(at(mid)), o) < gap:
            lo = mid
        else:
            hi = mid
    b['p'] = at((lo + hi) / 2)['p']
    sc['bodies'].append(b)
    bodies = [make_body(x) for x in sc['bodies']]
    if any(shapes.separation(bodies[-1], x) < -1e-9 for x in bodies[:-1]):
        sc['bodies'].pop()
        return False
    return True


def touching(rng, n=None, kinds='crh', speed=3., spin=1., joints=.3, held=.5, forces=.5, **kw):
    """Bodies in contact with each other, with random velocities."""
    n = n or rng.randint(2, 4)
    sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, .1])}
    square = rng.random() < .3
    sc['bodies'].append(body(rng, kinds, (rng.choice([0, rng.uniform(-20, 20)]), 0), speed=speed, spin=spin, **kw))
    tries = 0
    while len(sc['bodies']) < n and tries < 60:
        tries += 1
        b = body(rng, kinds, speed=speed, spin=spin, **kw)
        if square:
            b['r'] = 0
        _against(rng, sc, b, rng.choice(sc['bodies']), rng.choice([0, 1e-3, .02, .08, rng.uniform(0, .09)]))
    if rng.random() < held:
        sc['joints'].append({'k': 'total', 'i': 0})
        if rng.random() < .8:
            sc['bodies'][0]['v'] = [0, 0, 0]
    if rng.random() < joints:
        attach(rng, sc, .5)
    for b in sc['bodies']:
        if rng.random() < forces:
            b['f'].append(rng.choice([['gravity', rng.choice([10., 50.])], ['hor', 30.], ['rot', -20.], ['down', 25.]]))
    return sc


def tip(rng, speed=3.):
    """A body at the far corner of a hull or rectangle, which points along an axis, and perhaps another there."""
    a, b = body(rng, 'hhr', speed=speed), body(rng, speed=speed)
    if a['s']['k'] == 'h':
        cx, cy = shapes.centroid(a['s']['v'])
        vs = [(x - cx, y - cy) for x, y in a['s']['v']]
    else:
        vs = [(x / 2 * a['s']['d'][0], y / 2 * a['s']['d'][1]) for x, y in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    x, y = max(vs, key=lambda v: math.hypot(*v))
    ang = rng.randrange(4) * math.pi / 2
    a['r'] = math.remainder(ang - math.atan2(y, x), 2 * math.pi)
    sc = {'bodies': [a], 'joints': [], 'excl': [], 'dt': 1 / 30}
    _against(rng, sc, b, a, rng.choice([0, .02, .08]), ang)
    return sc


def pressed(rng, n=None, square=None, tilt=0., **kw):
    """Bodies pressed against one another and sliding, often square to the axes."""
    n = n or rng.randint(2, 3)
    square = rng.random() < .7 if square is None else square
    kinds = rng.choice(['r', 'rc', 'crh'])
    sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, .1])}
    kw = dict(dict(mus=(.1, .3, .9), speed=.5, spin=.3), **kw)
    tries = 0
    sc['bodies'].append(body(rng, kinds, (rng.choice([0, rng.uniform(-20, 20)]), 0), **kw))
    if square:
        sc['bodies'][0]['r'] = rng.uniform(-tilt, tilt)
    while len(sc['bodies']) < n and tries < 60:
        tries += 1
        b = body(rng, kinds, **kw)
        if square:
            b['r'] = rng.choice([0, 0, math.pi / 2]) + rng.uniform(-tilt, tilt)
        o = rng.choice(sc['bodies'])
        if not _against(rng, sc, b, o, rng.choice([0, 1e-3, .02, .08])):
            continue
        dx, dy = (q - p for p, q in zip(o['p'], b['p']))
        d = math.hypot(dx, dy)
        push, slide = rng.choice([0, rng.uniform(.5, 4)]), rng.choice([-1, 1]) * rng.choice([.2, 2, 6])
        b['v'][1] += (-push * dx - slide * dy) / d
        b['v'][2] += (-push * dy + slide * dx) / d
        if rng.random() < .5:
            b['f'].append(['hor', math.copysign(rng.choice([5., 60.]), -dx)])
    if rng.random() < .6:
        sc['joints'].append({'k': 'total', 'i': 0})
        sc['bodies'][0]['v'] = [0, 0, 0]
    if rng.random() < .2:
        attach(rng, sc, .4)
    return sc


def row(rng, n=None):
    """Many bodies resting and sliding side by side on a floor: many contacts at once."""
    n = n or rng.randint(3, 7)
    tilt = rng.choice([0, 0, .1, -.2])
    c, s = math.cos(tilt), math.sin(tilt)
    mus, es = rng.choice([(0, .3, .9), (.1, .3, .5), (0,)]), rng.choice([(0,), (0, .5), (1,)])
    sc = {'bodies': [], 'joints': [{'k': 'total', 'i': 0}], 'excl': [], 'dt': rng.choice([1 / 30, .02])}

    def at(x, y):
        return [c * x - s * y, s * x + c * y]

    def add(shape, x, y, v):
        sc['bodies'].append({'s': shape, 'p': at(x, y), 'r': tilt, 'v': [0] + at(*v), 'm': rng.choice([1, 2, .5]),
                             'e': rng.choice(es), 'mu': rng.choice(mus), 'f': []})
    add({'k': 'r', 'd': [80, 4]}, 0, 2, [0, 0])
    for i in range(n):
        w, h = rng.uniform(1.5, 5), rng.uniform(.8, 3)
        shape = {'k': 'c', 'r': h / 2} if rng.random() < .15 else {'k': 'r', 'd': [w, h]}
        add(shape, 8 * (i - n / 2) + rng.uniform(-1, 1), -h / 2 - rng.choice([0, 1e-3, .05, .08]),
            [rng.choice([-1, 1]) * rng.uniform(0, 5), rng.choice([0, 0, rng.uniform(0, 2)])])
        if rng.random() < .8:
            sc['bodies'][-1]['f'].append(['gravity', rng.choice([10., 50.])])
        if rng.random() < .3:
            sc['bodies'][-1]['f'].append(['hor', rng.choice([5., -20.])])
    order = list(range(n + 1))
    rng.shuffle(order)                  # the floor anywhere in the list
    sc['bodies'] = [sc['bodies'][k] for k in order]
    sc['joints'][0]['i'] = order.index(0)
    return sc


def hinged(rng, speed=30.):
    """Two bodies that a joint lets turn against each other, and a third one; contact between them is not excluded."""
    while True:
        sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, .1, .3])}
        for i in range(rng.choice([2, 2, 3])):
            a, d = rng.uniform(0, 2 * math.pi), i * rng.uniform(3, 9)
            sc['bodies'].append(body(rng, 'ccrh', (d * math.cos(a), d * math.sin(a)), speed=speed, spin=6.))
        if clear(sc, .05):
            break
    (x, y), (u, v) = (b['p'] for b in sc['bodies'][:2])
    k = rng.choice([-1, 1]) * rng.choice([1, 2, 4, rng.uniform(.5, 5)])
    i, j = rng.choice([(0, 1), (1, 0)])
    sc['joints'].append({'k': 'joint', 'i': i, 'j': j, 'pos': [(x + u) / 2 - k * (v - y), (y + v) / 2 + k * (u - x)]})
    if rng.random() < .2:
        sc['joints'].append({'k': 'rot', 'i': rng.choice([0, 1])})
    return sc


def bullet(rng):
    """Large bodies just out of reach of each other, and one of them very fast: the step is halved many times."""
    while True:
        sc = {'bodies': [], 'joints': [], 'excl': [], 'dt': rng.choice([1 / 30, .1])}
        for i in range(rng.choice([2, 2, 3])):
            b = body(rng, 'ccr', speed=1., spin=.2)
            b['s'] = {'k': 'c', 'r': rng.uniform(10, 60)} if b['s']['k'] == 'c' else {'k': 'r', 'd': [rng.uniform(20, 90), rng.uniform(20, 90)]}
            if not i:
                sc['bodies'].append(b)
            elif not _against(rng, sc, b, sc['bodies'][0], rng.choice([.1001, .101, .11, .15, .3, 1.5])):
                break
        else:
            o, b = sc['bodies'][:2]
            dx, dy = (q - p for p, q in zip(o['p'], b['p']))
            d = math.hypot(dx, dy)
            far = rng.uniform(.2, 1.1) * d / sc['dt']
            b['v'] = [0, -far * dx / d, -far * dy / d]
            return sc


def rescale(rng, sc, p=.3):
    """The same scene played slower or faster: a step covers about the same way, or much less."""
    if rng.random() > p:
        return sc
    k = rng.choice([1e-3, 1e-2, .1, 10., 40.])
    if k > 1 or rng.random() < .5:
        sc['dt'] /= k
    for b in sc['bodies']:
        b['v'] = [k * x for x in b['v']]
        b['f'] = [[name, k * k * x if k > 1 else k * x] for name, x in b['f']]
    return sc


def stack(rng, n=None, e=None):
    """Boxes and circles resting on a floor, aligned: degenerate contacts."""
    n = n or rng.randint(1, 3)
    e = rng.choice([0, .5]) if e is None else e
    sc = {'bodies': [], 'joints': [{'k': 'total', 'i': 0}], 'excl': [], 'dt': 1 / 30}
    sc['bodies'].append({'s': {'k': 'r', 'd': [40, 4]}, 'p': [0, 0], 'r': 0, 'v': [0, 0, 0], 'm': 1, 'e': e,
                         'mu': rng.choice([0, .3, .9]), 'f': []})
    y = -2.
    for i in range(n):
        if i == n - 1 and rng.random() < .4:
            s, h = {'k': 'c', 'r': 1.5}, 3.
        else:
            w, h = rng.choice([2, 3, 4.5]), rng.choice([1, 2, 2.5])
            s = {'k': 'r', 'd': [w, h]}
        sc['bodies'].append({'s': s, 'p': [rng.choice([0, .5, -.25]), y - h / 2], 'r': 0,
                             'v': [0, rng.choice([0, 0, 2, -3]), rng.choice([0, 0, 1])], 'm': rng.choice([1, 2, .5]),
                             'e': e, 'mu': rng.choice([0, .3, .9]),
                             'f': [['gravity', 10.]] + ([['hor', rng.choice([5., 20.])]] if rng.random() < .3 else [])})
        y -= h
    return sc
