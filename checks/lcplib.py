"""Problems for the LCP solver and calls of it."""
import numpy as np
from scipy.optimize import linprog

import rt
import vlib
from rt import torch

MODELS = ('Problems11.cfg', 'Problems12.cfg', 'Problems21.cfg', 'Problems22.cfg')


def lattice(check, cfgs=MODELS):
    """The problems TLC enumerates, each with its solution."""
    out = []
    check.generated = []
    for cfg in cfgs:
        got, stats = vlib.behaviours('Problems', cfg, check.outdir, timeout=800, extra=('-workers', '4') if '22' in cfg else ())
        check.generated.append(stats)
        got.sort(key=repr)
        out += got
    return out


def planted(rng, kind, n=None, m=None, q=None, strict=True):
    """A random problem with a known solution.  kind: plain, coupled, skew.  strict: every inequality is either slack or
    has a positive multiplier."""
    g = np.random.default_rng(rng.randrange(1 << 40))
    n = n or rng.randint(1, 8)
    m = m or rng.randint(1, 8)
    q = rng.randint(0, n - 1) if q is None else q
    while True:
        B = g.normal(size=(n, n))
        Q = B @ B.T + np.eye(n) * rng.choice([.1, 1])
        A, G = g.normal(size=(q, n)), g.normal(size=(m, n))
        x, y = g.normal(size=n), g.normal(size=q)
        act = g.random(m) < .5
        if act.sum() > n - q and kind == 'plain':
            continue
        z = np.where(act, .1 + g.exponential(size=m), 0)
        s = np.where(act, 0, .1 + g.exponential(size=m))
        if not strict:
            z = np.where(g.random(m) < .3, 0, z)
            s = np.where(g.random(m) < .3, 0, s)
        F = np.zeros((m, m))
        if kind != 'plain':
            K = g.normal(size=(m, m))
            F = K - K.T
            if kind == 'coupled':
                K = g.normal(size=(m, m))
                F = F + K @ K.T * rng.choice([.1, 1])
        P = {'Q': Q, 'p': -(Q @ x + G.T @ z + A.T @ y), 'G': G, 'h': G @ x + s - F @ z, 'A': A, 'b': A @ x, 'F': F}
        if interior(P) > .05:
            P = {k: v.tolist() for k, v in P.items()}
            P.update(x=x.tolist(), y=y.tolist(), z=z.tolist(), s=s.tolist(), tight=[bool(t) for t in act])
            return P


def interior(P):
    """By how much can all inequalities be met strictly, with positive multipliers?"""
    Q, p, G, h, A, b, F = (P[k] for k in 'QpGhAbF')
    n, m, q = len(Q), len(G), len(A)
    eq = [np.hstack([Q, G.T, A.T, np.zeros((n, 1))])]
    rhs = [-p]
    if q:
        eq.append(np.hstack([A, np.zeros((q, m + q + 1))]))
        rhs.append(b)
    ub = [np.hstack([G, -F, np.zeros((m, q)), np.ones((m, 1))]), np.hstack([np.zeros((m, n)), -np.eye(m), np.zeros((m, q)), np.ones((m, 1))])]
    c = np.zeros(n + m + q + 1)
    c[-1] = -1
    r = linprog(c, np.vstack(ub), np.append(h, np.zeros(m)), np.vstack(eq), np.concatenate(rhs),
                bounds=[(None, None)] * (n + m + q) + [(None, 1)])
    return r.x[-1] if r.x is not None else -1


def regular(P):
    """Does the solution depend smoothly on the problem?  (Smallest singular value of the equations it solves.)"""
    Q, G, A, F = (np.array(P[k], dtype=float).reshape(s) for k, s in
                  zip('QGAF', ((len(P['Q']),) * 2, (len(P['G']), len(P['Q'])), (len(P['A']), len(P['Q'])), (len(P['G']),) * 2)))
    act = [i for i, t in enumerate(P['tight']) if t]
    q = len(A)
    K = np.block([[Q, G[act].T, A.T], [G[act], -F[np.ix_(act, act)], np.zeros((len(act), q))], [A, np.zeros((q, len(act) + q))]])
    return np.linalg.svd(K, compute_uv=False)[-1]


def tensors(Ps, grad=False):
    """The inputs of the solver for a batch of problems of one size."""
    n, m, q = len(Ps[0]['Q']), len(Ps[0]['G']), len(Ps[0]['A'])
    k = len(Ps)
    shape = {'Q': (k, n, n), 'p': (k, n), 'G': (k, m, n), 'h': (k, m), 'A': (k, q, n), 'b': (k, q), 'F': (k, m, m)}
    out = []
    for name in 'QpGhAbF':
        if q == 0 and name in 'Ab':
            out.append(rt.T([]))
        else:
            out.append(rt.T([P[name] for P in Ps]).reshape(shape[name]).requires_grad_(grad))
    return out


def solve(Ps, **kw):
    x = rt.LCPFunction(**kw)(*tensors(Ps))
    return [rt.vec(x[i], len(Ps[0]['Q'])) for i in range(len(Ps))]


def solve_grad(Ps, gs, then=(), **kw):
    """Solutions and, for each problem, the gradients of <g, x>, after the same solver has gone on to the problems in `then`."""
    a = tensors(Ps, True)
    before = [t.detach().clone() for t in a]
    f = rt.LCPFunction(**kw)
    x = f(*a)
    for P, back in then:
        y = f(*tensors([P], back))
        if back:
            y.sum().backward()
    used = [t for t in a if t.numel()]
    got = dict(zip([i for i, t in enumerate(a) if t.numel()],
                   torch.autograd.grad((x * rt.T(gs)).sum(), used, allow_unused=True)))
    for i, t in enumerate(a):
        if got.get(i) is None:
            got[i] = torch.zeros_like(t)
        elif got[i].shape != t.shape:
            raise rt.BadShape('gradient of shape %s' % (tuple(got[i].shape),))
    kept = all(torch.equal(s, t.detach()) for s, t in zip(before, a))
    return [rt.vec(x[k]) for k in range(len(Ps))], [{name: got[i][k] if got[i].dim() > 1 else got[i] for i, name in enumerate('QpGhAbF')}
                                                    for k in range(len(Ps))], kept


def prob(P):
    """A problem as a record of spec/LCP.tla."""
    out = {k: [[vlib.real(x) for x in row] for row in P[k]] for k in 'QGAF'}
    out.update({k: [vlib.real(x) for x in P[k]] for k in 'phb'})
    return out


def reals(P, *names):
    return {k: [vlib.real(x) for x in P[k]] for k in names}


class LCPCheck(vlib.Check):
    module = 'LCPJudge'
    limit = 120
    chunks = 7
    assumptions = ['problems with a point that meets all inequalities strictly']

    def trivial(self, r):
        return r['k'] == 'none'
