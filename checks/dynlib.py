"""Recording velocity updates of real worlds, with witnesses for the impulses."""
import json
import math

import numpy as np
from scipy.optimize import linprog

import rt
import scenes
import shapes
import steplib
import vlib


def geometry(w):
    """Numbers of a world for the witness: inertias, velocities, joints, contacts."""
    n = len(w.bodies)
    M = np.concatenate([[float(b.ang_inertia), float(b.mass), float(b.mass)] for b in w.bodies])
    v = np.concatenate([b.v.detach().numpy() for b in w.bodies]).astype(float)
    return n, M, v


def row(n, i, lever, f, torque=0.):
    r = np.zeros(3 * n)
    r[3 * i:3 * i + 3] = [lever[0] * f[1] - lever[1] * f[0] + torque, f[0], f[1]]
    return r


def joint_rows(n, js):
    rows, sizes = [], []
    for j in js:
        i1, i2 = j['i1'] - 1, j['i2'] - 1
        if j['kind'] in ('joint', 'fixed'):
            a1 = [vlib.unreal(x) for x in j['a1']]
            a2 = [vlib.unreal(x) for x in j['a2']]
            rs = []
            for f in ([1, 0], [0, 1]):
                r = row(n, i1, a1, f)
                if i2 >= 0:
                    r -= row(n, i2, a2, f)
                rs.append(r)
            if j['kind'] == 'fixed':
                rs.append(row(n, i1, [0, 0], [0, 0], 1) - row(n, i2, [0, 0], [0, 0], 1))
        else:
            pick = {'rot': [0], 'x': [1], 'y': [2], 'total': [0, 1, 2]}[j['kind']]
            rs = [np.eye(3 * n)[3 * i1 + k] for k in pick]
        rows += rs
        sizes.append(len(rs))
    return rows, sizes


def contact_rows(n, cs):
    N, T = [], []
    for c in cs:
        nn, p1, p2 = ([vlib.unreal(x) for x in c[k]] for k in ('n', 'p1', 'p2'))
        t = [nn[1], -nn[0]]
        i1, i2 = c['i1'] - 1, c['i2'] - 1
        N.append(row(n, i1, p1, nn) - row(n, i2, p2, nn))
        T.append(row(n, i1, p1, t) - row(n, i2, p2, t))
    return N, T


def forces(sc, t, n):
    f = np.zeros(3 * n)
    for i, b in enumerate(sc['bodies']):
        for name, m in b['f']:
            if name == 'gravity':
                f[3 * i + 2] += m * b['m']
            elif name == 'down' or name == 'vert' and t < .1:
                f[3 * i + 2] += m
            elif name == 'hor' and t < .1:
                f[3 * i + 1] += m
            elif name == 'rot' and t < .1:
                f[3 * i] += m
            elif name == 'wave':
                f[3 * i:3 * i + 3] += [m * math.sin(3 * t), m * math.cos(5 * t), m * t]
    return f


def solve_lp(A, rhs, weight, lo, hi, ub=(), eq=()):
    """x within its bounds that makes the largest weighted entry of A x - rhs smallest."""
    m = A.shape[1]
    A, rhs = A * weight[:, None], rhs * weight
    if m == 0:
        return np.zeros(0), float(np.abs(rhs).max()) if len(rhs) else 0.
    c = np.zeros(m + 1)
    c[m] = 1
    one = np.ones((len(A), 1))
    Aub = np.vstack([np.hstack([A, -one]), np.hstack([-A, -one])] + [np.append(u, 0)[None] for u in ub])
    bub = np.concatenate([rhs, -rhs, np.zeros(len(ub))])
    Aeq = np.array([np.append(q, 0) for q in eq]) if len(eq) else None
    res = linprog(c, Aub, bub, Aeq, np.zeros(len(eq)) if len(eq) else None,
                  bounds=[(None if np.isinf(a) else a, None if np.isinf(b) else b) for a, b in zip(lo, hi)] + [(0, None)],
                  method='highs', options={'primal_feasibility_tolerance': 1e-10, 'dual_feasibility_tolerance': 1e-10})
    if res.x is None:
        return np.zeros(m), float('inf')
    return polish(res.x[:m], A, rhs, lo, hi, list(eq), list(ub)), float(res.x[m])


def polish(x, A, rhs, lo, hi, eq, ub):
    """Least squares on the entries the simplex left free: its answers are good to 1e-10 only."""
    for k in range(len(x)):
        if lo[k] == 0:
            x[k] = max(x[k], 0)
    free = [k for k in range(len(x)) if lo[k] != hi[k] and not (lo[k] == 0 and x[k] < 1e-9)]
    tied = [u for u in eq] + [u for u in ub if abs(u @ x) < 1e-9]
    B = A[:, free]
    b = rhs - A[:, [k for k in range(len(x)) if k not in free]] @ x[[k for k in range(len(x)) if k not in free]]
    if tied:
        W = 1e6 * np.array(tied)
        B = np.vstack([B, W[:, free]])
        b = np.append(b, -W[:, [k for k in range(len(x)) if k not in free]] @ x[[k for k in range(len(x)) if k not in free]])
    if not free:
        return x
    y = x.copy()
    y[free] = np.linalg.lstsq(B, b, rcond=None)[0]
    bad = any(y[k] < 0 for k in range(len(x)) if lo[k] == 0) or any(u @ y > 1e-12 for u in ub)
    return x if bad or np.abs(A @ y - rhs).max() > np.abs(A @ x - rhs).max() else y


def split(x, sizes, nc):
    lj, k = [], 0
    for s in sizes:
        lj.append([vlib.real(q) for q in x[k:k + s]])
        k += s
    return {'lj': lj, 'ln': [vlib.real(q) for q in x[k:k + nc]], 'lt': [vlib.real(q) for q in x[k + nc:]]}


class Update:
    """One velocity update of a real world: what went in and what came out."""
    def __init__(self, sc, w, t, dt):
        self.sc, self.t, self.dt = sc, t, dt
        self.bodies, self.js, self.cs = rt.bodies(w), rt.joints(w), rt.contacts(w)
        self.n, self.M, self.v = geometry(w)
        self.gap = max(float(b.eps) for b in w.bodies) * 2
        self.acc = 1e-5 if self.cs else 1e-8
        self.J, self.sizes = joint_rows(self.n, self.js)
        self.N, self.T = contact_rows(self.n, self.cs)
        b = sc['bodies']
        self.e = [(b[c['i1'] - 1]['e'] + b[c['i2'] - 1]['e']) / 2 for c in self.cs]
        self.mu = [(b[c['i1'] - 1]['mu'] + b[c['i2'] - 1]['mu']) / 2 for c in self.cs]
        self.vs = None

    def done(self, v2, forced=True):
        self.v2 = np.array([float(x) for x in v2])
        f = np.abs(forces(self.sc, self.t, self.n)) * self.dt / self.M
        rush = [np.maximum(np.abs(x).reshape(-1, 3).max(1), np.abs(x[::3]) * self.reach()).max()
                for x in (self.v, self.v2[:3 * self.n])]
        self.scale = 1 + sum(rush) + (f.max() if forced else 0)
        self.tol = self.acc * self.scale
        return self

    def reach(self):
        return np.array([shapes.reach(b['s']) for b in self.sc['bodies']])

    def feasible(self, correction=False):
        """Is there a velocity that obeys all joints and contacts?  (By some margin, if restitution asks for motion.)"""
        if not self.cs:
            return True
        if correction:
            need = [-(1 - e) * (a @ self.v) for a, e in zip(self.N, self.e)]
            ends = [-(a @ self.v) for a in self.J]
        else:
            need = [-e * (a @ self.v) for a, e in zip(self.N, self.e)]
            ends = [0.] * len(self.J)
        m = 3 * self.n
        r = linprog(np.append(np.zeros(m), 1), np.hstack([-np.array(self.N), -np.ones((len(self.N), 1))]), -np.array(need),
                    np.hstack([np.array(self.J), np.zeros((len(self.J), 1))]) if self.J else None, ends if self.J else None,
                    bounds=[(None, None)] * m + [(-1, None)], method='highs')
        return r.x is not None and r.x[-1] <= 1e-9

    def jammed(self, mus):
        """Can impulses inside the cones of friction add up to (nearly) nothing?"""
        nj, nc = len(self.J), len(self.N)
        A = np.array(self.J + self.N + self.T).reshape(nj + 2 * nc, 3 * self.n).T
        m = nj + 2 * nc
        lo, hi, ub = [-np.inf] * nj + [0] * nc + [-np.inf] * nc, [np.inf] * m, []
        total = np.zeros(m)
        total[nj:nj + nc] = 1
        for k in range(nc):
            z = np.zeros(m)
            z[nj + nc + k], z[nj + k] = 1, -mus[k]
            y = z.copy()
            y[nj + nc + k] = -1
            ub += [z, y]
        A = A / np.maximum(1, np.tile(np.maximum(1, self.reach())[:, None] * [1, 0, 0] + [0, 1, 1], 1).reshape(-1))[:, None]
        one = np.ones((len(A), 1))
        r = linprog(np.append(np.zeros(m), 1), np.vstack([np.hstack([A, -one]), np.hstack([-A, -one])] +
                                                        [np.append(u, 0)[None] for u in ub]),
                    np.zeros(2 * len(A) + len(ub)), np.append(total, 0)[None], [1.],
                    bounds=[(None if np.isinf(a) else a, None if np.isinf(b) else b) for a, b in zip(lo, hi)] + [(0, None)],
                    method='highs')
        return r.x is None or r.x[-1] <= .1

    def posed(self):
        """Do the laws of contact and joints have a solution?  Without friction they do if they do not contradict each
        other; with friction if contacts and joints cannot jam: no impulses inside the cones of friction add up to nothing,
        and a push at a contact never presses it together (Painleve)."""
        if not self.feasible():
            return False
        if not any(self.mu):
            return True
        nj, nc = len(self.J), len(self.N)
        W = np.diag(1 / self.M)
        if nj:
            J = np.array(self.J)
            W = W - W @ J.T @ np.linalg.solve(J @ W @ J.T, J @ W)
        if any(m * abs(n @ W @ t) > .98 * (n @ W @ n) for n, t, m in zip(self.N, self.T, self.mu)):
            return False
        return not self.jammed(self.mu)

    def witness(self, mode):
        """Impulses that come closest to explaining the update.  mode: 'normal' for the normal law only, 'friction'
        for Coulomb's law only, 'both', or 'correction'."""
        nj, nc = len(self.J), len(self.N)
        f = forces(self.sc, self.t, self.n)
        rhs = self.M * self.v2 if mode == 'correction' else self.M * (self.v2 - self.v) - self.dt * f
        A = np.array(self.J + self.N + self.T).reshape(nj + 2 * nc, 3 * self.n).T
        lo = [-np.inf] * nj + [0] * nc + [-np.inf] * nc
        hi = [np.inf] * (nj + 2 * nc)
        ub, eq = [], []
        for k in range(nc):
            a, b = self.N[k] @ self.v2, self.N[k] @ self.v
            slack = a + (1 - self.e[k]) * b if mode == 'correction' else a + self.e[k] * b
            if mode != 'friction' and slack > self.tol:
                hi[nj + k] = 0
            slide = self.T[k] @ self.v2
            z = np.zeros(nj + 2 * nc)
            z[nj + nc + k], z[nj + k] = 1, self.mu[k]
            if mode == 'correction' or self.mu[k] == 0:
                lo[nj + nc + k] = hi[nj + nc + k] = 0
            elif mode == 'normal':
                pass
            elif slide > self.tol:
                eq.append(z)                  # lt = -mu ln
            elif slide < -self.tol:
                z[nj + nc + k] = -1
                eq.append(z)                  # lt = mu ln
            else:
                p, q = z.copy(), -z
                p[nj + k] = q[nj + k] = -self.mu[k]
                ub += [p, q]
        x, self.residual = solve_lp(A, rhs, 1 / self.M, lo, hi, ub, eq)
        return split(x, self.sizes, nc)

    def record(self, k, rid):
        b = self.sc['bodies']
        return {'k': k, 'id': rid, 'bodies': self.bodies, 'joints': self.js, 'contacts': self.cs,
                'mats': [{'m': vlib.real(x['m']), 'e': vlib.real(x['e']), 'mu': vlib.real(x['mu'])} for x in b],
                'forces': [[{'name': f, 'mult': vlib.real(m)} for f, m in x['f']] for x in b],
                't': vlib.real(self.t), 'dt': vlib.real(self.dt), 'excl': scenes.excluded(self.sc),
                'gap': vlib.real(self.gap), 'acc': vlib.real(self.acc),
                'vs': steplib.triples([vlib.real(x) for x in self.v2])}


def meddle(sc, w, n):
    """What a user changes in a running world before step n."""
    for at, what, i, x in sc.get('changes', []):
        if at == n and i < len(w.bodies):
            if what == 'v':
                v = w.get_v().clone()
                v[3 * i:3 * i + 3] = rt.T(x)
                w.set_v(v)
            elif what == 'f':
                w.bodies[i].add_force(scenes.FORCES[x[0]](x[1]))
                sc['bodies'][i]['f'] = sc['bodies'][i]['f'] + [x]
            elif what == 'e':
                w.bodies[i].restitution = rt.T(x)
                sc['bodies'][i]['e'] = x
            else:
                w.bodies[i].fric_coeff = rt.T(x)
                sc['bodies'][i]['mu'] = x


def changes(rng, n):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        what = rng.choice('vvfem')
        out.append([rng.randint(1, 4), what, rng.randrange(n),
                    {'v': [rng.uniform(-2, 2), rng.uniform(-5, 5), rng.uniform(-5, 5)], 'f': [rng.choice(['gravity', 'down']), 20.],
                     'e': rng.choice([0, .5, 1]), 'm': rng.choice([0, .3, .9])}[what]])
    return out


def updates(sc, steps, limit=60, speed=500.):
    """Step a scene; yields (world, the update of the step, the clock's advance)."""
    if sc.get('changes'):
        sc = json.loads(json.dumps(sc))
    w = scenes.build(sc)
    count = rt.limit_trials(w, limit)
    for n in range(steps):
        t = float(w.t)
        meddle(sc, w, n)
        part = sc.get('parts', [1.])[n % len(sc.get('parts', [1.]))]
        if not hasattr(w, 'step_dt'):
            part = 1.
        u = Update(sc, w, t, float(sc['dt']) * part)
        u.step = n
        count['n'] = 0
        try:
            if part == 1.:
                w.step()
            else:                        # like the later parts of a step of fixed length
                w.step_dt(float(sc['dt']) * part)
        except rt.Trials:
            return
        v = np.concatenate([b.v.detach().numpy() for b in w.bodies]).astype(float)
        if not np.isfinite(v).all():
            if u.posed():
                raise ArithmeticError('velocities are not finite')
            return
        if not u.posed():
            return
        u.done(v)
        u.adv = float(w.t) - t
        yield w, u
        if np.abs(v).max() > speed:
            return


def scene(rng, **kw):
    """All kinds of scenes in which velocities are updated."""
    k = rng.random()
    if k < .06:
        sc = scenes.row(rng)
    elif k < .4:
        sc = scenes.touching(rng, **kw)
    elif k < .55:
        sc = scenes.stack(rng)
    elif k < .85:
        sc = scenes.crowd(rng, spread=rng.choice([None, 4.5]))
    else:
        sc = scenes.duel(rng)
    sc = scenes.rescale(rng, sc, .12)
    sc['strict'] = False
    sc['iters'] = rng.choice([None, None, None, 30])
    sc['post'] = rng.random() < .15
    return sc


class DynCheck(vlib.Check):
    """Checks that judge velocity updates of random scenes."""
    module = 'DynJudge'
    limit = 60
    chunks = 7
    kind = None
    mode = None
    meddling = True
    counts = (450, 6000)
    assumptions = ['scenes whose joints and contacts contradict each other, or jam under friction, are left out: there the laws '
                   'have no solution, or the interior point method may not find it']

    def make(self, rng):
        return scene(rng)

    def cases(self, rng, tier):
        out = []
        for i in range(self.counts[tier != 'quick']):
            sc = self.make(rng)
            if rng.random() < .2 and self.meddling:
                sc['changes'] = changes(rng, len(sc['bodies']))
            if rng.random() < .3:
                sc['parts'] = rng.choice([[1., .5], [.25], [.7, 1., .1], [.5, .25, .125]])
            out.append({'id': 'scene%d' % i, 'scene': sc, 'steps': rng.choice([1, 2, 4, 8]), 'seed': rng.random()})
        return out

    def wanted(self, u):
        return True

    def more(self, r, u, w, c):
        pass

    def run_case(self, c):
        recs = []
        for w, u in updates(c['scene'], c['steps']):
            if not self.wanted(u):
                continue
            r = u.record(self.kind, '%s/%d' % (c['id'], u.step))
            if self.mode:
                r.update(u.witness(self.mode))
            self.more(r, u, w, c)
            recs.append(r)
        return recs or [{'k': 'none'}]

    def trivial(self, r):
        return r['k'] == 'none'
