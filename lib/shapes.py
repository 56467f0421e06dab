"""Random and lattice shapes, as JSON-able descriptions, and the bodies they describe."""
import math

import rt


def convex_polygon(rng, n, size=5.0):
    """Strictly convex, counterclockwise (y up), n vertices, well conditioned."""
    while True:
        angs = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        a, b = rng.uniform(.4, 1) * size, rng.uniform(.4, 1) * size
        th = rng.uniform(0, 2 * math.pi)
        pts = [(a * math.cos(t), b * math.sin(t)) for t in angs]
        pts = [(x * math.cos(th) - y * math.sin(th), x * math.sin(th) + y * math.cos(th)) for x, y in pts]
        off = (rng.choice([0, 0, rng.uniform(-8, 8)]), rng.choice([0, rng.uniform(-8, 8)]))
        ok = True
        for i in range(n):
            p, q, r = pts[i], pts[(i + 1) % n], pts[(i + 2) % n]
            e, f = (q[0] - p[0], q[1] - p[1]), (r[0] - q[0], r[1] - q[1])
            le, lf = math.hypot(*e), math.hypot(*f)
            if min(le, lf) < .08 * size or (e[0] * f[1] - e[1] * f[0]) < .05 * le * lf:
                ok = False
        if ok:
            return [[x + off[0], y + off[1]] for x, y in pts]


def many_sided(rng, most=24):
    """A polygon of many sides, round or long."""
    n, a, b, th = rng.randint(8, most), rng.uniform(1, 15), rng.uniform(1, 3), rng.uniform(0, 7)
    pts = [(a * math.cos(2 * math.pi * (i + th) / n), b * math.sin(2 * math.pi * (i + th) / n)) for i in range(n)]
    return [[x * math.cos(th) - y * math.sin(th), x * math.sin(th) + y * math.cos(th)] for x, y in pts]


LATTICE = [
    [[0, 0], [2, 0], [0, 2]], [[0, 0], [3, 0], [3, 1], [0, 1]], [[0, 0], [2, 1], [1, 3]],
    [[0, 0], [2, 0], [3, 2], [1, 3], [-1, 2]], [[-1, 0], [0, -1], [1, 0], [0, 1]],
    [[0, 0], [4, 0], [3, 1], [1, 1]], [[0, 0], [2, -1], [3, 1], [2, 3], [0, 2]],
    [[0, 0], [2, 0], [2, 2], [0, 2]],
]


def shape(rng, kinds='crh'):
    k = rng.choice(kinds)
    if k == 'c':
        return {'k': 'c', 'r': rng.uniform(.3, 5)}
    if k == 'r':
        return {'k': 'r', 'd': [rng.uniform(.8, 8), rng.uniform(.8, 8)]}
    return {'k': 'h', 'v': convex_polygon(rng, rng.randint(3, 7))}


def reach(s):
    """Radius about the center within which the shape lies (rough upper bound)."""
    if s['k'] == 'c':
        return s['r']
    if s['k'] == 'r':
        return math.hypot(*s['d']) / 2
    cx, cy = centroid(s['v'])
    return max(math.hypot(x - cx, y - cy) for x, y in s['v'])


def centroid(v):
    a = cx = cy = 0.
    for i in range(len(v)):
        (x0, y0), (x1, y1) = v[i], v[(i + 1) % len(v)]
        c = x0 * y1 - x1 * y0
        a += c / 2
        cx += c * (x0 + x1) / 6
        cy += c * (y0 + y1) / 6
    return cx / a, cy / a


def make(s, pos=(0, 0), rot=0., **kw):
    """The body of a shape with its center of mass at pos, turned by rot."""
    if s['k'] == 'c':
        return rt.Circle([rot, pos[0], pos[1]], s['r'], **kw)
    if s['k'] == 'r':
        return rt.Rect([rot, pos[0], pos[1]], s['d'], **kw)
    cx, cy = centroid(s['v'])
    b = rt.Hull([pos[0] - cx, pos[1] - cy], s['v'], **kw)
    if rot:
        b.set_p(rt.torch.cat([rt.T([rot]), b.p[1:]]))
    return b


def separation(a, b):
    """Separation of two bodies, to place them; no verdict uses this."""
    def corners(x):
        return [(v + x.pos).tolist() for v in x.verts]

    def normals(cs):
        out = []
        for i in range(len(cs)):
            (x0, y0), (x1, y1) = cs[i], cs[(i + 1) % len(cs)]
            l = math.hypot(x1 - x0, y1 - y0)
            out.append(((y1 - y0) / l, -(x1 - x0) / l))
        return out

    def segdist(q, u, w):
        dx, dy = w[0] - u[0], w[1] - u[1]
        t = max(0, min(1, ((q[0] - u[0]) * dx + (q[1] - u[1]) * dy) / (dx * dx + dy * dy)))
        return math.hypot(q[0] - u[0] - t * dx, q[1] - u[1] - t * dy)
    ca, cb = isinstance(a, rt.Circle), isinstance(b, rt.Circle)
    if ca and cb:
        return math.dist(a.pos.tolist(), b.pos.tolist()) - a.rad.item() - b.rad.item()
    if ca or cb:
        c, h = (a, b) if ca else (b, a)
        cs, q = corners(h), c.pos.tolist()
        m = max(n[0] * (q[0] - v[0]) + n[1] * (q[1] - v[1]) for n, v in zip(normals(cs), cs))
        if m > 0:
            m = min(segdist(q, cs[i], cs[(i + 1) % len(cs)]) for i in range(len(cs)))
        return m - c.rad.item()
    x, y = corners(a), corners(b)

    def one(cs, ds):
        return max(min(n[0] * (w[0] - v[0]) + n[1] * (w[1] - v[1]) for w in ds)
                   for n, v in zip(normals(cs), cs))
    return max(one(x, y), one(y, x))
