"""Runtime of the harnesses: the real code of /repo, and how to record it."""
import os
import sys

import vlib
from vlib import real

sys.path.insert(0, vlib.REPO)

import torch  # noqa: E402

torch.set_num_threads(1)

import lcp_physics  # noqa: E402

assert os.path.dirname(os.path.dirname(os.path.abspath(lcp_physics.__file__))) == os.path.abspath(vlib.REPO)

from lcp_physics.physics.world import World, run_world  # noqa: E402
from lcp_physics.physics.bodies import Body, Circle, Hull, Rect  # noqa: E402
from lcp_physics.physics.constraints import (Joint, FixedJoint, XConstraint, YConstraint,  # noqa: E402
                                             RotConstraint, TotalConstraint)
from lcp_physics.physics.forces import (ExternalForce, Gravity, down_force, vert_impulse,  # noqa: E402
                                        hor_impulse, rot_impulse)
from lcp_physics.physics.engines import Engine, PdipmEngine  # noqa: E402
from lcp_physics.physics.contacts import ContactHandler, DiffContactHandler, OdeContactHandler  # noqa: E402
from lcp_physics.physics.utils import Recorder, Defaults  # noqa: E402
from lcp_physics.lcp.lcp import LCPFunction  # noqa: E402

DT = torch.double


class BadShape(Exception):
    pass


def num(x):
    """A scalar (tensor or number) as a real."""
    if isinstance(x, torch.Tensor):
        if x.numel() != 1:
            raise BadShape('expected a scalar, got %s' % (tuple(x.shape),))
        x = x.detach().double().item()
    return real(x)


def vec(x, n=None):
    """A vector as a list of reals; n is the length it must have."""
    if isinstance(x, torch.Tensor):
        x = x.detach().double()
        if x.dim() != 1:
            raise BadShape('expected a vector, got %s' % (tuple(x.shape),))
        x = x.tolist()
    x = [float(v) for v in x]
    if n is not None and len(x) != n:
        raise BadShape('expected %d numbers, got %d' % (n, len(x)))
    return [real(v) for v in x]


def mat(x, rows=None, cols=None):
    if isinstance(x, torch.Tensor):
        x = x.detach().double()
        if x.dim() != 2:
            raise BadShape('expected a matrix, got %s' % (tuple(x.shape),))
        x = x.tolist()
    if rows is not None and len(x) != rows:
        raise BadShape('expected %d rows, got %d' % (rows, len(x)))
    return [vec(r, cols) for r in x]


def body(b):
    """A body as a record of spec/Geom.tla, with what the dynamics needs."""
    d = {'p': vec(b.p, 3), 'v': vec(b.v, 3)}
    if isinstance(b, Circle):
        d['kind'], d['r'] = 'c', num(b.rad)
    else:
        d['kind'], d['vs'] = 'h', [vec(v, 2) for v in b.verts]
    return d


def matter(b):
    """What does not change: inertia, mass, coefficients."""
    return {'I': num(b.M[0, 0]), 'm': num(b.M[1, 1]), 'e': num(b.restitution), 'mu': num(b.fric_coeff)}


def contact(c):
    (n, p1, p2, pen), i1, i2 = c
    pen = pen.reshape(-1) if isinstance(pen, torch.Tensor) else torch.tensor([float(pen)])
    return {'n': vec(n, 2), 'p1': vec(p1, 2), 'p2': vec(p2, 2), 'pen': num(pen[0]),
            'i1': int(i1) + 1, 'i2': int(i2) + 1}


def contacts(w):
    return [contact(c) for c in w.contacts]


def bodies(w):
    return [body(b) for b in w.bodies]


def joint(w, entry):
    """A joint of a world; kind, bodies and, where it has one, the anchor."""
    j, i1, i2 = entry
    kind = {'Joint': 'joint', 'FixedJoint': 'fixed', 'XConstraint': 'x', 'YConstraint': 'y',
            'RotConstraint': 'rot', 'TotalConstraint': 'total'}[type(j).__name__]
    d = {'kind': kind, 'i1': i1 + 1, 'i2': (i2 + 1) if i2 is not None else 0}
    if kind in ('joint', 'fixed'):
        d['pos'] = vec(j.pos, 2)
        d['a1'] = vec(j.pos1, 2)
        d['a2'] = vec(j.pos2, 2) if i2 is not None else vec([0, 0])
    return d


def joints(w):
    return [joint(w, e) for e in w.joints]


def T(x):
    return torch.tensor(x, dtype=DT)


class Trials(Exception):
    """Raised when a step tries more often than any sane step would."""


def limit_trials(world, n):
    """Make a world's contact search give up after n searches in one step."""
    inner = world.find_contacts
    state = {'n': 0}

    def find_contacts():
        state['n'] += 1
        if state['n'] > n:
            raise Trials()
        return inner()
    world.find_contacts = find_contacts
    world._count = state
    return state
