"""C17: ball-and-socket constraints hold the two points together."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import SubFrame, MovingSubFrame
from arboris.constraints import BallAndSocketConstraint

CHECK = Check("C17")
ASSUMPTIONS = ["the constraint directions are free: spread of the eigenvalues of the constraint admittance below 1e4 (200 with several constraints)"]


def frame_spec(draw, nb):
    return {"b": draw(st.integers(0, nb)), "p": draw(st.one_of(st.none(), gen.pose(1.), gen.pose(1.))), "m": draw(st.booleans())}


@st.composite
def _case(draw, ncons=1, close_gap=None, free=False, steps=1):
    spec = draw(gen.world(2 if ncons > 1 or free else 1, 4, types=["FreeJoint"] if free else ["FreeJoint"] * (14 if ncons == 1 else 30) + ["RzRyRxJoint", "TxTyTzJoint"] * 3 + gen.ALL,
                          mass_st=gen.mass(), subframes=0))
    nb = len(spec["links"])
    if free:
        for l in spec["links"]:
            l["parent"] = 0
            l["f1"] = None if draw(st.booleans()) else l["f1"]
    cons = []
    for k in range(draw(st.integers(1, ncons))):
        a, b = frame_spec(draw, nb), frame_spec(draw, nb)
        if free and a["b"] == 0:
            a["b"] = 1
        if b["b"] == a["b"] or (free and b["b"] == 0):
            b["b"] = next(i for i in list(range(1, nb + 1)) + [0] if i != a["b"])
        gap = draw(st.sampled_from(["any", "closed", "closed", "near"])) if close_gap is None else close_gap
        cons.append({"a": a, "b": b, "gap": gap, "off": draw(gen.vec(3, -0.05, 0.05))})
    return {"w": spec, "cons": cons, "f": draw(gen.vec(7, -10., 10.)), "dt": draw(st.sampled_from([1e-3, .005, .02])),
            "steps": draw(st.integers(1, steps))}


def setup(case, register=True):
    b = build.world(case["w"], init=False)
    w = b.world
    P = ref.Model(case["w"]).kinematics()[0]
    cons = []
    for k, c in enumerate(case["cons"]):
        fr = []
        for n in ("a", "b"):
            s = c[n]
            H = np.eye(4) if s["p"] is None else ref.pose(s["p"])
            if n == "b" and c["gap"] != "any":
                # the origin at the first frame's origin (plus a small offset), orientation as drawn
                Ha = P[c["a"]["b"]].dot(np.eye(4) if c["a"]["p"] is None else ref.pose(c["a"]["p"]))
                o = Ha[:3, 3] + (np.array(c["off"]) if c["gap"] == "near" else 0.)
                Pb = P[s["b"]]
                H[:3, 3] = Pb[:3, :3].T.dot(o - Pb[:3, 3])
            elif s["p"] is None:
                fr.append(b.bodies[s["b"]])
                continue
            fr.append((MovingSubFrame if s["m"] else SubFrame)(b.bodies[s["b"]], H, "c%d%s" % (k, n)))
        co = BallAndSocketConstraint(frames=tuple(fr) if k % 2 == 0 else list(fr), name="bs%d" % k)
        if register:
            w.register(co)
        cons.append((co, fr))
    if case["f"]:
        w.register(sim.force_controller(case["f"]))
    w.init()
    return b, cons


def relative(fr):
    """(separation in the first frame, jacobian of the relative velocity at the first frame's origin)"""
    H = ref.inv(fr[0].pose).dot(fr[1].pose)
    return H[:3, 3].copy(), ref.Ad(H)[3:6].dot(fr[1].jacobian) - fr[0].jacobian[3:6]


@CHECK.facet(lambda: _case(steps=3), quick=1500, shards=3, rule="the constraint can act, and the frames were moving apart")
def one(case, ctx):
    b, ((c, fr),) = setup(case)
    w = b.world
    dt = case["dt"]
    if w.ndof == 0:
        ctx.skip("no dof")
    for k in range(case["steps"]):
        rec = {}

        def look(s):
            rec["p"], rec["J"] = relative(fr)
        s = sim.step(w, dt, look)
        A = rec["J"].dot(s.Y).dot(rec["J"].T)
        kappa = sim.spread(A)
        sizes = np.diag(A)
        if kappa > 1e4 or sizes.min() < 1e-6 * np.abs(s.Y).max() or np.linalg.cond(s.Y) > 1e7:
            ctx.skip("the constraint is fighting a joint")
        want = -rec["p"] / dt
        got = rec["J"].dot(s.v1)
        free = rec["J"].dot(s.vfree)
        vs = 1 + np.abs(want).max() + np.abs(s.vfree).max()
        ctx.nt(np.abs(free - want).max() > 1e-3)
        ctx.label("gap" if np.abs(rec["p"]).max() > 1e-9 else "closed")
        close(got, want, 1e-9 * vs * kappa ** .5, "step %d: relative velocity at the joint centre, in the first frame" % k, rel=False)
        close(s.v1, s.vpred, 1e-9 * vs * kappa ** .5, "velocity after the step", rel=False)
        # the force is a pure force at the centre: the virtual work of the constraint force
        close(c.gforce, s.fc, 1e-8 * (1 + np.abs(s.fc).max()), "generalized force of the constraint", rel=False)
        x, res, rk, sv = np.linalg.lstsq(rec["J"].T, s.fc, rcond=None)
        close(rec["J"].T.dot(x), s.fc, 1e-7 * (1 + np.abs(s.fc).max()), "the generalized force is that of a force at the centre", rel=False)
        if np.abs(w.gvel).max() > 100:
            return


@CHECK.facet(lambda: _case(ncons=3, steps=3), quick=900, shards=3, rule="at least two constraints act")
def several(case, ctx):
    b, cons = setup(case)
    w = b.world
    dt = case["dt"]
    if w.ndof == 0:
        ctx.skip("no dof")
    for k in range(case["steps"]):
        rec = {}

        def look(s):
            rec["r"] = [relative(fr) for _, fr in cons]
        s = sim.step(w, dt, look)
        J = np.vstack([r[1] for r in rec["r"]])
        A = J.dot(s.Y).dot(J.T)
        kappa = sim.spread(A)
        if kappa > 200 or np.diag(A).min() < 1e-6 * np.abs(s.Y).max() or np.linalg.cond(s.Y) > 1e7:
            ctx.label("ill-conditioned: stopped")
            return
        want = -np.concatenate([r[0] for r in rec["r"]]) / dt
        vs = 1 + np.abs(want).max() + np.abs(s.vfree).max()
        ctx.nt(len(cons) >= 2)
        tol = 1e-4 * 3 * kappa + 1e-9 * vs
        close(J.dot(s.v1), want, tol, "step %d: relative velocities" % k, rel=False)
        close(sum(c.gforce for c, _ in cons), s.fc, 1e-8 * (1 + np.abs(s.fc).max()), "sum of the constraint forces", rel=False)
        if np.abs(w.gvel).max() > 100:
            return


@CHECK.facet(lambda: _case(ncons=3, free=True), quick=600, shards=2, rule="the constraint force is not zero")
def isolated(case, ctx):
    """no net force nor moment on a group of free bodies"""
    b, cons = setup(case)
    w = b.world
    s = sim.step(w, case["dt"])
    tot = np.zeros(6)
    big = 0.
    m = ref.Model(case["w"])
    P = m.kinematics()[0]
    for i, j in enumerate(b.joints):
        # free joint velocity = twist of the joint's child frame in itself
        l = case["w"]["links"][i]
        F1 = P[i + 1].dot(np.eye(4) if l["f1"] is None else ref.pose(l["f1"]))
        wr = ref.Ad(ref.inv(F1)).T.dot(s.fc[j.dof])
        big = max(big, np.abs(wr).max())
        tot += wr
    ctx.nt(big > 1e-3)
    close(tot, np.zeros(6), 1e-9 * (1 + big), "net wrench on the group", rel=False)


class Idle(Exception):
    """a constraint cannot act in some direction"""


def separation(case, T, n):
    b, cons = setup(case)
    w = b.world
    worst = 0.
    if w.ndof == 0:
        return None

    def look(s):
        for _, fr in cons:
            J = relative(fr)[1]
            if np.diag(J.dot(s.Y).dot(J.T)).min() < 1e-6 * np.abs(s.Y).max():
                raise Idle
    for k in range(n):
        try:
            s = sim.step(w, T / n, before_constraints=look)
        except Idle:
            return None
        w.update_geometric()
        worst = max([worst] + [np.linalg.norm(fr[0].pose[:3, 3] - fr[1].pose[:3, 3]) for _, fr in cons])
        if k == 0:
            w.update_dynamic()
            if np.abs(w.gvel).max() > 5 or np.linalg.cond(s.Y) > 1e6:
                return None
            J = np.vstack([relative(fr)[1] for _, fr in cons])
            if sim.spread(J.dot(s.Y).dot(J.T)) > 50:
                return None
    return worst


@CHECK.facet(lambda: _case(close_gap="closed"), quick=300, shards=3, rule="the coarse simulation has a visible separation")
def refine(case, ctx):
    """the separation along a simulation vanishes with the time step"""
    T = 0.04
    a = separation(case, T, 4)
    if a is None:
        ctx.skip("ill-conditioned or fast")
    c = separation(case, T, 32)
    if c is None:
        ctx.skip("ill-conditioned or fast")
    ctx.nt(a > 1e-5)
    require(a < 0.05, "separation %g" % a)
    require(c <= 0.35 * a + 1e-6, "the separation does not vanish with the time step: %g with 4 steps, %g with 32" % (a, c))
