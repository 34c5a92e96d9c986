"""C23: the simulation driver executes the documented schedule."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.core import Observer, Controller, Constraint, SubFrame, simulate
from arboris.constraints import JointLimits, BallAndSocketConstraint
from arboris.controllers import WeightController

CHECK = Check("C23")
ASSUMPTIONS = ["worlds whose mass matrix is singular are skipped", "times are multiples of a power of two, so that sums of steps are exact in floating point"]


def snap(b):
    return [np.array(j.gpos, float) for j in b.joints] + [np.array(j.gvel, float) for j in b.joints]


class Ctrl(Controller):
    """a state- and time-dependent force; logs its calls"""

    def __init__(self, i, f, b, log):
        Controller.__init__(self, "ctrl%d" % i)
        self.i, self.f, self.b, self.log = i, f, b, log

    def init(self, world):
        self.w = world
        self.n = world.ndof
        self.log.append(("ctrl init", self.i, world, world.current_time))

    def update(self, dt):
        w = self.w
        self.log.append(("ctrl update", self.i, dt, w.current_time, np.array(w.mass), snap(self.b), [np.array(x.pose) for x in self.b.bodies]))
        g = np.resize(np.array(self.f, float), self.n) * (1. + np.sin(40. * w.current_time)) - 0.1 * w.gvel
        return g, -0.05 * np.eye(self.n)


class Cons(Constraint):
    """an inert constraint; logs its calls"""

    def __init__(self, i, b, log):
        Constraint.__init__(self, "cons%d" % i)
        self.i, self.b, self.log = i, b, log
        self._force = np.zeros(1)

    def init(self, world):
        self.w = world
        self._jac = np.zeros((1, world.ndof))
        self.log.append(("cons init", self.i, world, world.current_time))

    ndol = property(lambda self: 1)
    jacobian = property(lambda self: self._jac)

    def update(self, dt):
        self.log.append(("cons update", self.i, dt, self.w.current_time, np.array(self.w.gforce), snap(self.b)))

    def is_active(self):
        return False

    def solve(self, vel, admittance, dt):
        return np.zeros(1)


class Obs(Observer):
    def __init__(self, i, b, log):
        Observer.__init__(self, "obs%d" % i)
        self.i, self.b, self.log = i, b, log

    def init(self, world, timeline):
        self.w = world
        self.log.append(("obs init", self.i, world, world.current_time, [float(t) for t in timeline]))

    def update(self, dt):
        w = self.w
        self.log.append(("obs update", self.i, dt, w.current_time, np.array(w.gforce), snap(self.b), np.array(w.mass), np.array(w.admittance)))

    def finish(self):
        self.log.append(("obs finish", self.i, None, self.w.current_time, snap(self.b)))


def world_cases(**kw):
    d = {"w": gen.world(1, 4, mass_st=gen.mass(), subframes=1, with_visc=True, vmax=1.5), "nf": st.lists(gen.vec(4, -4., 4.), min_size=0, max_size=2), "weight": st.booleans(),
         "limit": st.booleans(), "ball": st.booleans(), "t0": st.sampled_from([0, 0, 512, -512, -3]), "dts": st.one_of(*[st.lists(st.sampled_from([1, 4, 16, 8, 3]), min_size=k, max_size=12) for k in (0, 3, 3, 4)]), "tl": st.sampled_from(["list", "tuple", "array"]),
         "u": st.sampled_from([10, 10, 10, 6, 16, 24, 30])}
    d.update(kw)
    return st.fixed_dictionaries(d)


def make(case, log, probes=0):
    spec = case["w"]
    b = build.world(spec, init=False)
    b.registered = []
    w = b.world
    for i, f in enumerate(case["nf"]):
        w.register(Ctrl(i, f, b, log))
    if case["weight"]:
        w.register(WeightController())
    if case["limit"]:
        for i, l in enumerate(spec["links"]):
            if l["jt"] in ("RxJoint", "RyJoint", "RzJoint", "TxJoint"):
                w.register(JointLimits(b.joints[i], l["q"][0] - .02, l["q"][0] + .02, proximity=.05, name="lim"))
                break
    if case["ball"]:
        for i, l in enumerate(spec["links"]):
            if l["jt"] == "FreeJoint":
                # (nearly) closed at the start: a gap is closed in one step, at any speed
                w.init()
                w.update_geometric()
                H = np.array(b.bodies[i + 1].pose)
                H[0:3, 3] += 1e-4
                b.registered.append(BallAndSocketConstraint((SubFrame(w.ground, H), b.bodies[i + 1]), name="ball"))
                w.register(b.registered[-1])
                break
    for i in range(probes):
        w.register(Cons(i, b, log))
    w.init()
    w.update_dynamic()
    del log[:]
    if w.ndof == 0 or sim.spread(w.mass) > 1e6:
        return None
    return b


def tline(case, a=0, z=None):
    # the unit of time, from 2**-6 down to 2**-30 seconds
    u = 2. ** -case["u"]
    t = [case["t0"] * 2. ** -10]
    for d in case["dts"]:
        t.append(t[-1] + d * u)
    t = t[a:] if z is None else t[a:z]
    return {"list": t, "tuple": tuple(t), "array": np.array(t)}[case["tl"]]


def container(obs, how):
    if how == "dict":
        return dict(("k%d" % i, o) for i, o in enumerate(obs))
    return tuple(obs) if how == "tuple" else list(obs)


@CHECK.facet(lambda: world_cases(nobs=gen.mix(st.integers(0, 4), st.integers(0, 4), st.integers(5, 14)), ncons=st.integers(0, 2), how=st.sampled_from(["list", "tuple", "dict"])), quick=1500, shards=4,
             rule="two observers, a controller and two steps")
def schedule(case, ctx):
    log = []
    b = make(case, log, case["ncons"])
    if b is None:
        ctx.skip("singular")
    w = b.world
    nc, nk, no = len(case["nf"]), case["ncons"], case["nobs"]
    t = [float(x) for x in tline(case)]
    n = len(t) - 1
    ctx.nt(no > 1 and nc > 0 and n > 1)
    ctx.label("%s observers" % case["how"], "no step" if n == 0 else "steps")
    obs = [Obs(i, b, log) for i in range(no)]
    start = snap(b)
    r = sim.run(ctx, w, tline(case), container(obs, case["how"])) if no or case["how"] != "list" else sim.run(ctx, w, tline(case))
    require(abs(w.current_time - t[-1]) < 1e-12, "the simulation ends at the last time of the timeline")
    # the order of the calls
    ev = [(e[0], e[1]) for e in log]
    i0 = nc + nk
    require(sorted(ev[:i0]) == sorted([("ctrl init", i) for i in range(nc)] + [("cons init", i) for i in range(nk)]), "the world is initialised first: %s" % ev[:i0])
    require(sorted(ev[i0:i0 + no]) == [("obs init", i) for i in range(no)], "then the observers: %s" % ev[i0:i0 + no])
    for e in log[:i0 + no]:
        require(e[2] is w and e[3] == t[0], "%s sees the world at the first time (%s)" % (e[0], e[3]))
        if e[0] == "obs init":
            require(e[4] == t, "the observers are given the timeline")
    p = i0 + no
    prev = start
    for k in range(n):
        step = log[p:p + nc + nk + no]
        p += nc + nk + no
        names = [(e[0], e[1]) for e in step]
        require(sorted(names[:nc]) == [("ctrl update", i) for i in range(nc)], "step %d: first the controllers: %s" % (k, names))
        require(sorted(names[nc:nc + nk]) == [("cons update", i) for i in range(nk)], "step %d: then the constraints: %s" % (k, names))
        require(sorted(names[nc + nk:]) == [("obs update", i) for i in range(no)], "step %d: then each observer once: %s" % (k, names))
        require(names[nc + nk:] == [("obs update", i) for i in range(no)], "observers in order, that of the values for a dict")
        for e in step:
            require(abs(e[2] - (t[k + 1] - t[k])) < 1e-9 * (t[k + 1] - t[k]), "step %d: %s is given dt=%s" % (k, e[0], e[2]))
            require(abs(e[3] - t[k]) < 1e-12, "step %d: %s sees time %s instead of %s" % (k, e[0], e[3], t[k]))
            require(all(np.array_equal(x, y) for x, y in zip(e[5], step[0][5])), "step %d: the state moves before %s" % (k, e[0]))
            if k == 0:
                require(all(np.array_equal(x, y) for x, y in zip(e[5], start)), "the state changed before the first step")
        if step:
            # the model the controllers, constraints and observers see is that of the current state
            spec = dict(case["w"], links=[dict(l) for l in case["w"]["links"]])
            m = ref.Model(spec)
            q = [(step[0][5][i], step[0][5][len(b.joints) + i]) for i in range(len(b.joints))]
            m.set_state([ref.unquat(x[0]) if l["jt"] == "quat:" else np.array(x[0]) for x, l in zip(q, spec["links"])], np.concatenate([x[1] for x in [q[i] for i in m.order]]) if q else np.zeros(0))
            M = m.dynamics()[0]
            P = m.kinematics()[0]
            for e in step:
                if e[0] == "ctrl update":
                    close(e[4], M, 1e-8, "step %d: mass matrix seen by the controllers" % k)
                    for i in range(len(P)):
                        close(e[6][i], P[i], 1e-8, "step %d: pose of body %d seen by the controllers" % (k, i))
                elif e[0] == "obs update":
                    close(e[6], M, 1e-8, "step %d: mass matrix seen by the observers" % k)
            if k + 1 < n and nc + nk + no:
                prev = step[0][5]
                nxt = log[p][5]
                if any(np.abs(v).max() * (t[k + 1] - t[k]) > 1e-10 for v in nxt[len(b.joints):] if v.size):
                    require(any(not np.array_equal(x, y) for x, y in zip(prev, nxt)), "step %d: the state does not move" % k)
    rest = [(e[0], e[1]) for e in log[p:]]
    require(sorted(rest) == [("obs finish", i) for i in range(no)], "each observer is finished once at the end: %s" % rest)
    end = snap(b)
    for e in log[p:]:
        require(all(np.array_equal(x, y) for x, y in zip(e[4], end)), "observers are finished after the last step")


@CHECK.facet(lambda: world_cases(cut=st.integers(0, 11), how=st.sampled_from(["list", "dict"])), quick=1500, shards=4,
             rule="at least three steps of different sizes, cut strictly inside")
def equivalence(case, ctx):
    def fresh():
        return make(case, [])
    b = fresh()
    if b is None:
        ctx.skip("singular")
    t = [float(x) for x in tline(case)]
    n = len(t) - 1
    cut = case["cut"] % (n + 1)
    ctx.nt(n > 2 and 0 < cut < n and len(set(case["dts"])) > 1)

    def same(x, y, what):
        for i, (p, q) in enumerate(zip(snap(x), snap(y))):
            require(np.array_equal(p, q), "%s: joint quantity %d is %s instead of %s" % (what, i, q, p))
    w = b.world
    hist = []
    o = Obs(0, b, hist)
    sim.run(ctx, w, tline(case), {"a": o} if case["how"] == "dict" else [o])
    # an identical world, simulated without observers
    c = fresh()
    simulate(c.world, tline(case))
    same(b, c, "a second identical world")
    # the hand-written loop
    c = fresh()
    simulate(c.world, t[:1])        # sets the time and initialises
    k = 0
    for t1 in t[1:]:
        dt = t1 - c.world.current_time
        c.world.update_dynamic()
        c.world.update_controllers(dt)
        c.world.update_constraints(dt)
        e = [x for x in hist if x[0] == "obs update"][k]
        for p, q in zip(e[5], snap(c)):
            require(np.array_equal(p, q), "step %d of the hand-written loop" % k)
        require(np.array_equal(e[4], c.world.gforce) and np.array_equal(e[7], c.world.admittance), "forces and admittance at step %d of the hand-written loop" % k)
        c.world.integrate(dt)
        k += 1
    same(b, c, "the hand-written loop")
    # in two runs
    c = fresh()
    simulate(c.world, tline(case, 0, cut + 1))
    require(c.world.current_time == t[cut], "time after the first part")
    simulate(c.world, tline(case, cut))
    require(c.world.current_time == t[-1], "time after the second part")
    same(b, c, "cut after step %d" % cut)
    # again from the same initial state, in the same world: nothing is left over
    end = snap(b)
    if any(isinstance(x, BallAndSocketConstraint) for x in b.registered):
        return      # its force is a warm start
    apply_state(b, case["w"]["links"])
    sim.run(ctx, w, tline(case), [o])
    for i, (p, q) in enumerate(zip(end, snap(b))):
        require(np.array_equal(p, q), "repeated from the same state: joint quantity %d is %s instead of %s" % (i, q, p))


@CHECK.facet(lambda: st.fixed_dictionaries({"c": world_cases(w=gen.world(1, 1, mass_st=gen.mass(), subframes=0, vmax=.5), nobs=st.integers(1, 2), ncons=st.integers(0, 1), how=st.sampled_from(["list", "dict"])), "n": st.sampled_from([130, 260, 520, 1030]),
                                            "d": st.lists(st.sampled_from([1, 4, 16, 8, 3]), min_size=1, max_size=5), "cut": st.integers(0, 1000)}), quick=16, shards=4, rule="more than two hundred steps")
def long(case, ctx):
    """simulations of hundreds of steps"""
    d, n = case["d"], case["n"]
    c = dict(case["c"], dts=(d * (1 + n // len(d)))[:n], u=max(12, case["c"]["u"]))
    schedule(c, ctx)
    equivalence(dict(c, cut=case["cut"]), ctx)
    ctx.nt(n > 200)
