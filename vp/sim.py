"""Shared by the constraint checks: a force controller, one observable step."""
import numpy as np


def force_controller(f, name="force", scale=None):
    """a controller applying the generalized force f (cycled to the world's size)"""
    from arboris.core import Controller

    class Force(Controller):
        def __init__(self):
            Controller.__init__(self, name)

        def init(self, world):
            self.n = world.ndof

        def update(self, dt):
            g = np.resize(np.array(f, float), self.n) if len(f) else np.zeros(self.n)
            return g, np.zeros((self.n, self.n))
    return Force()


class Step(object):
    """quantities around one time step, observed through World"""


def step(w, dt, before_integrate=None, before_constraints=None, **solver_args):
    s = Step()
    w.update_dynamic()
    w.update_controllers(dt)
    s.dt = dt
    s.M = np.array(w.mass)
    s.v0 = np.array(w.gvel)
    s.Y = np.array(w.admittance)
    s.g0 = np.array(w.gforce)
    if before_constraints is not None:
        before_constraints(s)
    w.update_constraints(dt, **solver_args)
    s.g1 = np.array(w.gforce)
    s.fc = s.g1 - s.g0                       # force of all the constraints
    s.vfree = s.Y.dot(s.M.dot(s.v0) / dt + s.g0)
    s.vpred = s.vfree + s.Y.dot(s.fc)
    if before_integrate is not None:
        before_integrate(s)
    w.integrate(dt)
    s.v1 = np.array(w.gvel)
    return s


def spread(A):
    """how far a square matrix is from being safely positive definite (1: identity)"""
    A = np.asarray(A)
    if A.size == 0:
        return 1.
    S = (A + A.T) / 2
    d = np.sqrt(np.clip(np.diag(S), 1e-300, None))
    if d.min() < 1e-6 * d.max():
        # nothing but rounding errors in that direction
        return np.inf
    S = S / np.outer(d, d)
    try:
        e = np.linalg.eigvalsh(S)
    except np.linalg.LinAlgError:
        return np.inf
    return np.inf if e[0] <= 0 else float(e[-1] / e[0])


def run(ctx, w, *args):
    """simulate(), the case being skipped when the mass matrix becomes singular or the motion blows up"""
    from arboris.core import simulate
    before = [float(np.abs(j.gvel).max()) for j in w.iterjoints() if np.size(j.gvel)]

    def wild():
        v = np.asarray(w.gvel)
        return v.size and not np.abs(v).max() < 1e3 * (1 + max(before))
    try:
        r = simulate(w, *args)
        if wild():
            ctx.skip("blown up")
        return r
    except AssertionError:
        if wild():
            ctx.skip("blown up")
        raise
    except np.linalg.LinAlgError:
        if wild():
            ctx.skip("blown up")
        w.update_dynamic()
        if np.isfinite(w.mass).all() and spread(w.mass) > 1e6:
            ctx.skip("singular")
        raise
