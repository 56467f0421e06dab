"""Pairs of bodies in all relative placements, for the contact properties."""
import math

import rt
import shapes


def polar(r, a):
    return [r * math.cos(a), r * math.sin(a)]


def random_pair(rng, k1, k2):
    a, b = shapes.shape(rng, k1), shapes.shape(rng, k2)
    for s, t in ((a, b), (b, a)):
        if s['k'] == 'h' and rng.random() < .3:
            s['v'] = shapes.many_sided(rng, 60 if t['k'] == 'c' else 24)
    mode = rng.random()
    d = shapes.reach(a) + shapes.reach(b)
    base = [rng.choice([0, rng.uniform(-50, 50)]), rng.choice([0, rng.uniform(-50, 50)])]
    off = polar(d * (rng.uniform(.2, 1.02) if mode < .8 else rng.uniform(0.02, .3)), rng.uniform(0, 2 * math.pi))
    return {'a': a, 'b': b, 'pa': base, 'pb': [base[0] + off[0], base[1] + off[1]],
            'ra': rng.choice([0, rng.uniform(-4, 4)]), 'rb': rng.choice([0, rng.uniform(-4, 4)]),
            'eps': rng.choice([.1, .1, .02, .2]), 'gap': rng.choice([None, None, 'touch', 'near', 'deep', 'far'])}


def world_of(pair, swap=False, **kw):
    # the bodies' own distance only has to be large enough
    e = pair['eps'] * pair.get('wide', 1)
    a = shapes.make(pair['a'], pair['pa'], pair['ra'], eps=e)
    b = shapes.make(pair['b'], pair['pb'], pair['rb'], eps=e)
    return rt.World([b, a] if swap else [a, b], eps=pair['eps'], strict_no_penetration=False, **kw)


def sep(pair):
    return shapes.separation(shapes.make(pair['a'], pair['pa'], pair['ra']), shapes.make(pair['b'], pair['pb'], pair['rb']))


def place(rng, pair):
    """Slide the second body along the line of centers until the separation is
    of the wanted kind."""
    want = {'touch': (-1e-3, 1e-3), 'rim': (-2e-6, 1e-7), 'near': (0, pair['eps'] * 1.3), 'deep': (-9, -.3), 'far': (pair['eps'], 3)}
    if pair['gap'] is None:
        return pair
    lo, hi = want[pair['gap']]
    goal = rng.uniform(lo, hi)
    dx, dy = pair['pb'][0] - pair['pa'][0], pair['pb'][1] - pair['pa'][1]
    n = math.hypot(dx, dy)
    if n < 1e-6:
        return pair
    dx, dy = dx / n, dy / n
    l, h = 0.02, shapes.reach(pair['a']) + shapes.reach(pair['b']) + 5

    def at(t):
        return dict(pair, pb=[pair['pa'][0] + dx * t, pair['pa'][1] + dy * t])
    for _ in range(40):
        m = (l + h) / 2
        if sep(at(m)) < goal:
            l = m
        else:
            h = m
    return at((l + h) / 2)


def lattice_pairs(rng, k1, k2, n):
    """Integer coordinates: every degenerate placement."""
    out = []
    for _ in range(n):
        def sh(k):
            k = rng.choice(k)
            if k == 'c':
                return {'k': 'c', 'r': rng.choice([.5, 1, 1.5, 2])}
            if k == 'r':
                return {'k': 'r', 'd': [rng.randint(1, 4), rng.randint(1, 4)]}
            v = rng.choice(shapes.LATTICE)
            q = rng.randint(0, 3)
            for _ in range(q):
                v = [[-y, x] for x, y in v]
            i = rng.randint(0, len(v) - 1)
            return {'k': 'h', 'v': v[i:] + v[:i]}
        a, b = sh(k1), sh(k2)

        def at(s, p):
            # put the shape so that its corners are on the lattice
            if s['k'] == 'h':
                c = shapes.centroid(s['v'])
                return [p[0] + c[0], p[1] + c[1]]
            return p
        p = [rng.choice([0, .5, -1, 1, 1.5, 2, 2.5, 3, -2, -.5, -2.5]) for _ in range(2)]
        pair = {'a': a, 'b': b, 'pa': at(a, [0, 0]), 'pb': at(b, p), 'ra': 0, 'rb': 0, 'eps': .1, 'gap': None}
        if a['k'] == 'c' and b['k'] == 'c' and pair['pa'] == pair['pb']:
            continue
        out.append(pair)
    return out


def corner_pairs(rng, k1, k2, n):
    """A corner of one hull close to a corner of the other."""
    out = []
    while len(out) < n:
        pair = dict(random_pair(rng, k1, k2), gap=None)
        a = shapes.make(pair['a'], pair['pa'], pair['ra'])
        b = shapes.make(pair['b'], pair['pb'], pair['rb'])
        u = a.verts[rng.randrange(len(a.verts))]
        w = b.verts[rng.randrange(len(b.verts))]
        # turn b until its corner points at a
        aim = math.atan2(-u[1], -u[0]) - math.atan2(w[1], w[0]) + rng.uniform(-1, 1)
        c, s = math.cos(aim), math.sin(aim)
        w = [c * w[0].item() - s * w[1].item(), s * w[0].item() + c * w[1].item()]
        off = polar(pair['eps'] * rng.choice([.3, 1, 1.4]) * rng.random(), rng.uniform(0, 2 * math.pi))
        pair['rb'] += aim
        pair['pb'] = [pair['pa'][k] + u[k].item() - w[k] + off[k] for k in (0, 1)]
        out.append(pair)
    return out


def tip_pairs(rng, k1, k2, n):
    """The far corners of both, along an axis, past one another by a little: their proxies only just meet."""
    out = []
    while len(out) < n:
        pair = dict(random_pair(rng, k1, k2), gap=None)
        ang = rng.randrange(4) * math.pi / 2
        tips = []
        for k, to in (('a', ang), ('b', ang + math.pi)):
            b = shapes.make(pair[k], [0, 0], 0)
            x, y = max(([v[0].item(), v[1].item()] for v in b.verts), key=lambda v: math.hypot(*v))
            turn = to - math.atan2(y, x) + rng.choice([0, rng.uniform(-.05, .05)])
            pair['r' + k] = math.remainder(turn, 2 * math.pi)
            tips.append([x * math.cos(turn) - y * math.sin(turn), x * math.sin(turn) + y * math.cos(turn)])
        ahead, aside = pair['eps'] * rng.uniform(0, 1), pair['eps'] * rng.uniform(-3, 3)
        off = [ahead * math.cos(ang) - aside * math.sin(ang), ahead * math.sin(ang) + aside * math.cos(ang)]
        pair['pb'] = [pair['pa'][k] + tips[0][k] - tips[1][k] + off[k] for k in (0, 1)]
        out.append(pair)
    return out


def batches(rng, k1, k2, n_random, n_lattice, size=40, n_corner=0, n_tip=0):
    pairs = [place(rng, random_pair(rng, k1, k2)) for _ in range(n_random)]
    pairs += lattice_pairs(rng, k1, k2, n_lattice)
    pairs += corner_pairs(rng, k1, k2, n_corner)
    pairs += tip_pairs(rng, k1, k2, n_tip)
    for p in pairs:
        p['wide'] = rng.choice([1, 1, 1, 1.5, 4])
    return [{'id': 'batch%d' % (i // size), 'pairs': pairs[i:i + size]} for i in range(0, len(pairs), size)]


def run_pairs(case):
    out = []
    for i, pair in enumerate(case['pairs']):
        for swap in (False, True):
            w = world_of(pair, swap)
            r = {'k': 'pair', 'id': '%s/%d/%d' % (case['id'], i, swap), 'eps': rt.num(pair['eps']),
                 'bodies': rt.bodies(w), 'contacts': rt.contacts(w)}
            out.append(r)
            if {pair['a']['k'], pair['b']['k']} == {'c', 'h'}:      # the search starts at a random vertex
                for _ in range(8):
                    w.find_contacts()
                    if rt.contacts(w) != out[-1]['contacts']:
                        out.append(dict(r, contacts=rt.contacts(w)))
    return out
