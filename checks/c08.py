"""C08: one time step solves the documented semi-implicit equation."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
from arboris.core import Controller

CHECK = Check("C08")
COND = 1e7


class Ctl(Controller):
    """a controller with a given force and impedance per step"""

    def __init__(self, spec, log, name, kept=None):
        Controller.__init__(self, name)
        self.kept = kept
        self.spec, self.log, self.k = spec, log, 0

    def init(self, world):
        self.n = world.ndof
        self.k = 0

    def update(self, dt):
        self.log.append(self.name)
        k = self.k
        self.k += 1
        if self.kept is None:
            return law(self.spec, k, self.n)
        # this controller, and those with the same law, return arrays which they keep
        key = repr((sorted(self.spec.items()), k, self.n))
        if key not in self.kept:
            self.kept[key] = law(self.spec, k, self.n)
        return self.kept[key]


def law(spec, k, n):
    f = np.resize(np.array(spec["f"], float), n) * (1 + .3 * k) if n else np.zeros(0)
    A = np.resize(np.array(spec["Z"], float), (n, n)) if n else np.zeros((0, 0))
    Z = -(A.dot(A.T)) * spec["z"]        # dissipative
    if spec["skew"]:
        Z = Z + (A - A.T)
    return f, Z


def _ctl():
    return st.fixed_dictionaries({"f": gen.vec(7, -5, 5), "Z": gen.vec(11, -1, 1), "z": st.sampled_from([0., 0., .3, 2.]),
                                  "skew": st.booleans()})


@st.composite
def _case(draw):
    spec = draw(gen.world(max_links=5, subframes=0, with_visc=True, mass_st=st.one_of(gen.mass(), gen.mass(zero=True))))
    ctl = draw(st.lists(_ctl(), max_size=3))
    if len(ctl) > 1 and draw(st.booleans()):
        ctl[-1] = ctl[0]        # two controllers with the same law
    return {"spec": spec, "ctl": ctl, "kept": draw(st.booleans()),
            "perm": draw(st.permutations(list(range(3)))),
            "t0": draw(st.sampled_from([0., 0., 1.5])),
            "trial": draw(st.lists(st.sampled_from([None, None, 1e-3, .02]), max_size=5)),
            "dts": draw(st.lists(st.sampled_from([1e-4, 1e-3, .003, .01, .05, .1]), min_size=1, max_size=5))}


def state(b):
    q = [j.gpos.copy() for j in b.joints]
    return q, b.world.gvel


def make(case, order=None):
    b = build.world(case["spec"], init=False)
    log = []
    idx = [i for i in (order or range(len(case["ctl"]))) if i < len(case["ctl"])]
    b.kept = {} if case.get("kept") else None
    b.ctls = [Ctl(case["ctl"][i], log, "c%d" % i, b.kept) for i in idx]
    for a in b.ctls:
        b.world.register(a)
    b.world.init()
    b.log = log
    return b


@CHECK.facet(_case, quick=900, shards=6, rule="velocity non-zero, at least one controller with a force, at least two dofs")
def step(case, ctx):
    spec = case["spec"]
    b = make(case)
    p = make(case, case["perm"])
    w = b.world
    m = ref.Model(spec)
    n = m.ndof
    ctx.nt(n >= 2 and abs(m.gvel).max() > 0 and any(any(c["f"]) for c in case["ctl"]))
    if n == 0:
        ctx.skip("no dof")
    L = spec["links"]
    for k, dt in enumerate(case["dts"]):
        q, v = state(b)
        t = w.current_time
        m.set_state([x if x.size else np.zeros(0) for x in q], v)
        M, B, h, _ = m.dynamics()
        try:
            w.update_dynamic()
        except Exception:
            raise
        N = w.nleffects.copy()
        close(N.dot(v), h, 1e-8, "nleffects.gvel")
        Z = M / dt + B + N
        g = np.zeros(n)
        for c in case["ctl"]:
            f, z = law(c, k, n)
            g += f
            Z = Z - z
        if np.linalg.cond(M) > COND or np.linalg.cond(Z) > COND:
            ctx.skip("ill-conditioned")
        ctx.label("step")
        model = [w.mass.copy(), w.viscosity.copy(), w.nleffects.copy()]

        def kept(stage):
            for x, y, what in zip((w.mass, w.viscosity, w.nleffects), model, ("mass", "viscosity", "nonlinear effects")):
                require(np.array_equal(x, y), "%s: the %s matrix was modified" % (stage, what))
        trial = case["trial"][k] if k < len(case["trial"]) else None
        if trial:
            # a first attempt, with another step size
            try:
                w.update_controllers(trial)
            except np.linalg.LinAlgError:
                ctx.skip("ill-conditioned")
            kept("trial update_controllers")
            for a in b.ctls:
                a.k = k
            del b.log[len(b.log) - len(b.ctls):]
            ctx.label("trial step size")
        w.update_controllers(dt)
        kept("update_controllers")
        close(w.gforce, g, 1e-10, "sum of the controllers' forces")
        cond = np.linalg.cond(Z)
        close(w.admittance.dot(Z), np.eye(n), 1e-12 * cond + 1e-9, "admittance times impedance")
        w.update_constraints(dt)
        kept("update_constraints")
        close(w.gforce, g, 1e-10, "force without constraints")
        # what the user does with the vectors the world gives has no effect on it
        for x in (w.gvel, w.gforce, w.admittance):
            x[:] = 1e3
        w.integrate(dt)
        kept("integrate")
        vn = np.linalg.solve(Z, M.dot(v) / dt + g)
        tol = 1e-13 * cond + 1e-9
        close(w.gvel, vn, tol, "new world velocity")
        require(abs(w.current_time - (t + dt)) < 1e-12, "time")
        got = w.gvel
        for i, j in enumerate(b.joints):
            vj = got[m.dof[i]]
            if L[i]["jt"] == "FixedJoint":
                continue
            close(j.gvel, vj, 0., "velocity of joint %d" % i)
            if L[i]["jt"] == "FreeJoint":
                exp = q[i].dot(ref.expm(ref.hat6(vj * dt)))
            else:
                exp = q[i] + vj * dt
            close(j.gpos, exp, 1e-10, "position of joint %d" % i)
        # same world, controllers registered in another order
        p.world.update_dynamic()
        p.world.update_controllers(dt)
        p.world.update_constraints(dt)
        p.world.integrate(dt)
        close(p.world.gvel, w.gvel, 1e-7, "order of controllers")
    require(sorted(b.log) == sorted(["c%d" % i for i in range(len(case["ctl"]))] * len(case["dts"])), "each controller is asked once per step")


@st.composite
def _replay(draw):
    c = draw(_case())
    c["pre"] = draw(st.lists(st.sampled_from([1e-3, .01, .05]), min_size=1, max_size=3))
    return c


@CHECK.facet(_replay, quick=300, shards=3, rule="at least two dofs and a velocity")
def no_leftover(case, ctx):
    """a world that has already been stepped, put back in a state, steps like a fresh one"""
    spec = case["spec"]
    fresh, used = make(case), make(case)
    m = ref.Model(spec)
    ctx.nt(m.ndof >= 2 and abs(m.gvel).max() > 0)
    if m.ndof == 0 or np.linalg.cond(m.dynamics()[0]) > COND:
        ctx.skip("ill-conditioned")

    def one(b, dt):
        b.world.update_dynamic()
        b.world.update_controllers(dt)
        b.world.update_constraints(dt)
        b.world.integrate(dt)
    try:
        for dt in case["pre"]:
            one(used, dt)
    except np.linalg.LinAlgError:
        ctx.skip("singular")
    for j, l in zip(used.joints, spec["links"]):
        if l["jt"] != "FixedJoint":
            j.gpos[:] = build.joint_gpos(l)
            j.gvel[:] = l["v"]
    used.world.init()      # also resets our controllers' step counters
    for dt in case["dts"]:
        one(fresh, dt)
        one(used, dt)
        if not np.isfinite(fresh.world.gvel).all():
            ctx.skip("diverged")
        close(used.world.gvel, fresh.world.gvel, 1e-9, "velocity")
        for a, c in zip(used.joints, fresh.joints):
            close(a.pose, c.pose, 1e-9, "joint pose")


@CHECK.facet(lambda: st.tuples(gen.big(10, 25), st.lists(_ctl(), min_size=4, max_size=8), st.lists(st.sampled_from([1e-3, .01]), min_size=1, max_size=3)).map(list), quick=60, shards=4, rule="a step was compared")
def large(case, ctx):
    """mechanisms of many bodies, many controllers"""
    c, ctl, dts = case
    n = len(ctl)
    step({"spec": gen.expand(c, True), "ctl": ctl, "kept": False, "perm": list(range(n))[::-1], "t0": 0., "trial": [], "dts": dts}, ctx)
    ctx.nt()
