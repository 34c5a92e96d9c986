"""C19: constraint forces enter the dynamics consistently and only when active."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import Constraint, SubFrame
from arboris.constraints import BallAndSocketConstraint, JointLimits, SoftFingerContact
from arboris.shapes import Sphere, Plane

CHECK = Check("C19")
ASSUMPTIONS = ["worlds whose mass matrix is singular are skipped"]


class Custom(Constraint):
    """a constraint of the user's own: drives its velocity towards a target, through a given jacobian"""

    def __init__(self, spec, log, name):
        Constraint.__init__(self, name)
        self.spec, self.log = spec, log
        self.n = spec["n"]

    def init(self, world):
        self.J = np.resize(np.array(self.spec["J"], float), (self.n, world.ndof))
        for i in range(self.n):
            self.J[i] = np.roll(self.J[i], i)
        self._force = np.zeros(self.n)
        self.k = -1

    ndol = property(lambda self: self.n)
    jacobian = property(lambda self: self.J)

    def update(self, dt):
        self.k += 1
        self.log.append(("update", self.name, dt))
        self._force = np.array(self.spec["f0"][:self.n], float)

    def is_active(self):
        return self.spec["act"][self.k % len(self.spec["act"])]

    def solve(self, vel, admittance, dt):
        self.log.append(("solve", self, np.array(vel), np.array(admittance), dt))
        df = -self.spec["relax"] * np.linalg.pinv(np.array(admittance)).dot(np.array(vel) - np.array(self.spec["goal"][:self.n]))
        self._force = self._force + df
        self.log[-1] += (df,)
        return df


def custom():
    return st.fixed_dictionaries({"n": st.integers(1, 3), "J": st.one_of(gen.vec(7, -1., 1.), st.lists(gen.num(0.1, 1.), min_size=7, max_size=7)), "f0": gen.vec(3, -2., 2.), "goal": gen.vec(3, -1., 1.),
                                  "relax": st.sampled_from([1., 0.5, 0.]), "act": st.lists(st.sampled_from([True, True, False]), min_size=1, max_size=3),
                                  "on": st.lists(st.sampled_from([True, True, True, False]), min_size=1, max_size=3)})


def setup_world(spec, f):
    """f is None: a world without any controller"""
    b = build.world(spec, init=False)
    if f is not None:
        b.world.register(sim.force_controller(f))
    return b


def expected_g0(w, f):
    """the generalized force before the constraints: what the controllers of this step give, nothing older"""
    return np.zeros(w.ndof) if f is None else np.resize(np.array(f, float), w.ndof)


def forces():
    return st.one_of(gen.vec(7, -10., 10.), gen.vec(7, -10., 10.), st.none())


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(2, 4, mass_st=gen.mass(), subframes=0, with_visc=True), "f": forces(),
                                            "c": st.lists(custom(), min_size=2, max_size=3), "dt": st.sampled_from([1e-3, .01, .05]),
                                            "steps": st.integers(1, 3), "maxiters": st.sampled_from([None, 1, 2, 5])}),
             quick=1200, shards=4, rule="two constraints are active and enabled in one step, with at least three dofs")
def protocol(case, ctx):
    """what the world asks of its constraints, and what it does with their answers"""
    b = setup_world(case["w"], case["f"])
    w = b.world
    log = []
    cs = [Custom(c, log, "c%d" % i) for i, c in enumerate(case["c"])]
    for c in cs:
        w.register(c)
        require(c.is_enabled(), "constraints are enabled to start with")
    w.init()
    if w.ndof == 0:
        ctx.skip("no dof")
    dt = case["dt"]
    kw = {} if case["maxiters"] is None else {"maxiters": case["maxiters"]}
    for k in range(case["steps"]):
        on = []
        for c in cs:
            e = c.spec["on"][k % len(c.spec["on"])]
            c.enable() if e else c.disable()
            require(c.is_enabled() == e, "enable/disable")
            on.append(e)
        del log[:]

        def look(s):
            if np.linalg.cond(s.Y) > 1e7 or np.abs(s.v0).max() > 1e3:
                ctx.skip("ill-conditioned or fast")
        s = sim.step(w, dt, before_constraints=look, **kw)
        close(s.g0, expected_g0(w, case["f"]), 1e-12, "step %d: generalized force before the constraints" % k)
        ups = [l[1] for l in log if l[0] == "update"]
        require(ups == [c.name for c, e in zip(cs, on) if e], "each enabled constraint is updated once, in order: %s" % ups)
        act = [c for c, e in zip(cs, on) if e and c.is_active()]
        ctx.nt(len(act) >= 2 and w.ndof >= 3)
        solves = [l for l in log if l[0] == "solve"]
        require(set(id(l[1]) for l in solves) == set(id(c) for c in act), "only enabled and active constraints are solved, all of them")
        # sweeps
        n = len(act)
        if n:
            require(len(solves) % n == 0 and [l[1].name for l in solves] == [c.name for c in act] * (len(solves) // n), "constraints are solved in turn")
            require(len(solves) // n <= (case["maxiters"] or 1000), "number of sweeps")
        f = dict((id(c), np.array(c.spec["f0"][:c.n], float)) for c in act)
        tot = sum((c.J.T.dot(f[id(c)]) for c in act), np.zeros(w.ndof))
        scale = 1 + np.abs(s.vfree).max() + np.abs(s.Y).max() * (1 + np.abs(tot).max())
        hist = []
        for i, l in enumerate(solves):
            c = l[1]
            if i % n == 0:
                hist.append(np.concatenate([x.J.dot(s.vfree + s.Y.dot(tot)) for x in act]))
            require(l[4] == dt, "time step")
            scale = max(scale, np.abs(s.Y).max() * np.abs(tot).max())
            close(l[2], c.J.dot(s.vfree + s.Y.dot(tot)), 1e-9 * scale, "velocity given to %s at iteration %d" % (c.name, i), rel=False)
            close(l[3], c.J.dot(s.Y).dot(c.J.T), 1e-9 * (1 + np.abs(s.Y).max()), "admittance given to %s" % c.name)
            f[id(c)] = f[id(c)] + l[5]
            tot = tot + c.J.T.dot(l[5])
        if n:
            hist.append(np.concatenate([x.J.dot(s.vfree + s.Y.dot(tot)) for x in act]))
            ch = [np.linalg.norm(x - y) for x, y in zip(hist[1:], hist[:-1])]
            m = case["maxiters"] or 1000
            if len(ch) < m:
                require(len(ch) >= 2, "at least two sweeps")
                require(ch[-1] < 1e-4 * (1 + 1e-6) + 1e-9 * scale, "stopped before convergence: change %g" % ch[-1])
            require(all(x >= 1e-4 * (1 - 1e-6) - 1e-9 * scale for x in ch[1:-1]), "went on after convergence: %s" % ch)
        close(s.fc, tot, 1e-9 * (1 + np.abs(tot).max() + np.abs(s.g0).max()), "force of the constraints in the world force", rel=False)
        close(s.v1, s.vfree + s.Y.dot(tot), 1e-9 * scale * (1 + np.linalg.cond(s.Y) ** .5), "velocity after the step", rel=False)


# -- the library's own constraints -------------------------------------------

@st.composite
def _lib_case(draw, steps=4):
    spec = draw(gen.world(2, 4, types=["FreeJoint"] * 3 + ["RzRyRxJoint", "TxTyTzJoint", "RzRyJoint", "RzJoint", "TyJoint"], mass_st=gen.mass(), subframes=0))
    cs = draw(st.lists(st.fixed_dictionaries({"k": st.sampled_from(["ball", "limit", "sphere", "plane"]), "a": st.integers(0, 4), "b": st.integers(0, 4),
                                              "p": gen.pose(0.5), "q": gen.pose(0.5), "gap": st.sampled_from([0., -0.01, 0.01, 0.5, 5.])}), min_size=1, max_size=3))
    return {"w": spec, "c": cs, "f": draw(forces()), "dt": draw(st.sampled_from([1e-3, .005, .02])),
            "on": draw(st.lists(st.lists(st.booleans(), min_size=3, max_size=3), min_size=1, max_size=steps)), "perm": draw(st.booleans())}


def add_constraints(b, case, P, skip=()):
    """the constraints of the case, in order; those in skip are not registered at all"""
    w = b.world
    out = []
    nb = len(b.bodies)
    for k, c in enumerate(case["c"]):
        i, j = c["a"] % nb, c["b"] % nb
        if i == j:
            i = (j + 1) % nb
        co = None
        if c["k"] == "limit":
            l = max(1, j)
            jt = case["w"]["links"][l - 1]["jt"]
            if jt not in ("FreeJoint", "FixedJoint"):
                q = np.array(case["w"]["links"][l - 1]["q"])
                co = JointLimits(b.joints[l - 1], (q - max(0., c["gap"])).tolist(), (q + 1. + c["gap"]).tolist(), name="lim%d" % k)
        elif c["k"] == "ball":
            H = ref.pose(c["q"])
            o = P[i].dot(ref.pose(c["p"]))[:3, 3]
            H[:3, 3] = P[j][:3, :3].T.dot(o - P[j][:3, 3])
            co = BallAndSocketConstraint(frames=(SubFrame(b.bodies[i], ref.pose(c["p"])), SubFrame(b.bodies[j], H)), name="ball%d" % k)
        else:
            f0, f1 = SubFrame(b.bodies[i], ref.pose(c["p"]), "fa%d" % k), SubFrame(b.bodies[j], ref.pose(c["q"]), "fb%d" % k)
            Ha, Hb = P[i].dot(ref.pose(c["p"])), P[j].dot(ref.pose(c["q"]))
            if c["k"] == "sphere":
                d = np.linalg.norm(Ha[:3, 3] - Hb[:3, 3]) - c["gap"]
                if d > 0.02:
                    co = SoftFingerContact((Sphere(f0, d / 2), Sphere(f1, d / 2)), 0.5, name="cont%d" % k)
            else:
                n = Ha[:3, 2]
                dist = n.dot(Hb[:3, 3] - Ha[:3, 3])
                co = SoftFingerContact((Plane(f0, (0., 0., 1., dist - 0.1 - c["gap"])), Sphere(f1, 0.1)), 0.5, name="cont%d" % k)
        if co is not None and k not in skip:
            w.register(co)
        out.append(co)
    return out


def prepared(case, ctx, skip=()):
    b = setup_world(case["w"], case["f"])
    P = ref.Model(case["w"]).kinematics()[0]
    cs = add_constraints(b, case, P, skip)
    b.world.init()
    if all(c is None for c in cs):
        ctx.skip("no constraint")
    return b, cs


def guard(ctx):
    def look(s):
        if np.linalg.cond(s.Y) > 1e6 or np.abs(s.v0).max() > 30.:
            ctx.skip("ill-conditioned or fast")
    return look


def stepping(w, dt, ctx):
    try:
        return sim.step(w, dt, before_constraints=guard(ctx))
    except np.linalg.LinAlgError:
        ctx.skip("a contact is fighting a joint")


@CHECK.facet(lambda: _lib_case(steps=4), quick=1000, shards=4, rule="an enabled constraint acts and another one is disabled at some step")
def toggling(case, ctx):
    """along a history, a disabled constraint is as good as absent: each step is compared to a fresh world
    in the same state that only ever had the enabled ones"""
    b, cs = prepared(case, ctx)
    w = b.world
    dt = case["dt"]
    acted = False
    off = False
    for k, ons in enumerate(case["on"]):
        on = [i for i in range(len(cs)) if ons[i]]
        for i, c in enumerate(cs):
            if c is not None:
                c.enable() if i in on else c.disable()
        d, ds = prepared(case, ctx, skip=[i for i in range(len(cs)) if i not in on])
        for j, jd in zip(b.joints, d.joints):
            if j.ndof:
                jd.gpos[:] = j.gpos
                jd.gvel[:] = j.gvel
        s = stepping(w, dt, ctx)
        t = stepping(d.world, dt, ctx)
        close(s.g0, expected_g0(w, case["f"]), 1e-12, "step %d: generalized force before the constraints" % k)
        live = [c for i, c in enumerate(cs) if c is not None and i in on]
        off = off or any(c is not None for i, c in enumerate(cs) if i not in on)
        acted = acted or np.abs(s.fc).max() > 1e-6
        close(s.vfree, t.vfree, 1e-9, "velocity without the constraints")
        # a single constraint is solved exactly; several, or a ball and socket kept warm, to the solver's threshold
        if len(live) <= 1:
            tol = 1e-7 * (1 + np.abs(s.v1).max()) * max(1., np.linalg.cond(s.Y) ** .5 * 1e-2)
            close(s.v1, t.v1, tol, "step %d: velocity, compared to a world without the disabled constraints" % k, rel=False)
        elif not any(isinstance(c, BallAndSocketConstraint) for c in live):
            close(s.v1, t.v1, 1e-9 * (1 + np.abs(s.v1).max()) * max(1., np.linalg.cond(s.Y) ** .5 * 1e-2), "step %d: velocity, compared to a world without the disabled constraints" % k, rel=False)
        # those out of reach report none, whatever they did before
        tot = sum((c.gforce for c in live), np.zeros(w.ndof))
        close(s.fc, tot, 1e-8 * (1 + np.abs(tot).max()), "sum of the forces of the enabled constraints", rel=False)
        close(s.v1, s.vpred, 1e-9 * (1 + np.abs(s.v1).max()) * np.linalg.cond(s.Y) ** .5, "velocity after the step", rel=False)
        if np.abs(w.gvel).max() > 20 or not np.isfinite(w.gvel).all():
            break
    ctx.nt(acted and off)


@CHECK.facet(lambda: _lib_case(steps=1), quick=800, shards=3, rule="every constraint is out of reach, and bodies move")
def far(case, ctx):
    """contacts beyond their proximity and limits far from their bounds change nothing"""
    for c in case["c"]:
        c["gap"] = 5. if c["k"] != "sphere" else c["gap"]
        if c["k"] in ("ball", "sphere"):
            c["k"] = "plane"
            c["gap"] = 5.
    b, cs = prepared(case, ctx)
    d, _ = prepared(case, ctx, skip=range(9))
    ctx.nt(b.world.ndof > 0)
    for k in range(2):
        s, t = stepping(b.world, case["dt"], ctx), stepping(d.world, case["dt"], ctx)
        close(s.fc, np.zeros(len(s.fc)), 0., "force of the constraints")
        close(s.v1, t.v1, 1e-12, "velocity")
        close(s.g0, expected_g0(b.world, case["f"]), 1e-12, "generalized force before the constraints")
    for c in cs:
        require(c is None or not c.is_active(), "a far constraint is not active")


@st.composite
def _iso_case(draw):
    case = draw(_lib_case(steps=1))
    for i, l in enumerate(case["w"]["links"]):
        l.update(draw(gen.joint(["FreeJoint"])))
        l["parent"] = 0
    for c in case["c"]:
        if c["k"] == "limit":
            c["k"] = "ball"
        n = len(case["w"]["links"])
        c["a"], c["b"] = 1 + c["a"] % n, 1 + c["b"] % n
        if c["a"] == c["b"]:
            c["a"] = 1 + c["b"] % n
        if c["gap"] > 0.1:
            c["gap"] = -0.005
    return case


@CHECK.facet(_iso_case, quick=800, shards=3, rule="the constraints act")
def momentum(case, ctx):
    """constraints between free bodies conserve the total momentum and angular momentum"""
    b, cs = prepared(case, ctx)
    s = stepping(b.world, case["dt"], ctx)
    P = ref.Model(case["w"]).kinematics()[0]
    tot, big = np.zeros(6), 0.
    for i, j in enumerate(b.joints):
        l = case["w"]["links"][i]
        F1 = P[i + 1].dot(np.eye(4) if l["f1"] is None else ref.pose(l["f1"]))
        wr = ref.Ad(ref.inv(F1)).T.dot(s.fc[j.dof])
        big = max(big, np.abs(wr).max())
        tot += wr
    ctx.nt(big > 1e-3)
    close(tot, np.zeros(6), 1e-9 * (1 + big), "net wrench of the internal constraints", rel=False)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.big(6, 12), "f": forces(), "c": st.lists(custom(), min_size=5, max_size=10), "dt": st.sampled_from([1e-3, .01]), "maxiters": st.sampled_from([1, 2, 5, 12])}), quick=60, shards=4, rule="two constraints are active and enabled in one step")
def crowd(case, ctx):
    """many constraints"""
    protocol(dict(case, w=gen.expand(case["w"], subs=0), steps=2), ctx)
