"""The learning experiments with runs that are made up or cut short, and what their loops do."""
import contextlib
import importlib
import inspect
import io
import os
import sys

import breakoutlib as bl  # noqa: F401  (stand-ins for what is not installed)
import rt
import vlib
from rt import torch

sys.path[:0] = [os.path.join(vlib.REPO, 'experiments'), os.path.join(vlib.REPO, 'demos')]


class Cut(Exception):
    """Enough iterations."""


def load(name):
    return importlib.import_module(name)


@contextlib.contextmanager
def replaced(mod, **new):
    old = {k: getattr(mod, k) for k in new}
    for k, v in new.items():
        setattr(mod, k, v)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def args_of(fn, args, kw):
    b = inspect.signature(fn).bind(*args, **kw)
    b.apply_defaults()
    return b.arguments


class Loop:
    """The runs of a loop as they are made."""
    def __init__(self, name, **kw):
        self.rec = dict({'k': 'loop', 'id': name, 'iters': [], 'truth': [], 'final': [], 'lastrun': [], 'ended': False, 'beh': 0,
                         'rate': vlib.real(0), 'decay': vlib.real(1), 'acc': vlib.real(1e-8)}, **kw)
        self.held = []

    def grads(self):
        """The gradients left by the iteration before, if they can still be seen."""
        if self.held and self.rec['iters'] and not self.rec['iters'][-1]['shown']:
            gs = [h.grad for h in self.held]
            if all(g is not None for g in gs):
                self.rec['iters'][-1]['shown'] = [vlib.real(x) for g in gs for x in g.detach().reshape(-1).tolist()]

    def iteration(self, params, pred, jac):
        self.grads()
        self.held = list(params)
        self.rec['iters'].append({'param': flat(params), 'pred': reals(pred), 'jac': [reals(j) for j in jac], 'shown': []})

    def end(self, params):
        """The loop is over and leaves these."""
        self.grads()
        self.rec['ended'] = True
        self.rec['final'] = flat(params)


def flat(params):
    return [vlib.real(x) for p in params for x in p.detach().reshape(-1).tolist()]


def reals(x):
    return [vlib.real(v) for v in (x.detach().reshape(-1).tolist() if isinstance(x, torch.Tensor) else x)]
