"""C36: joints written by a user on the abstract classes take part like those of the library."""
import os
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build, sim, own
from vp.core import Check, close, require
from checks.c06 import apply_state, compare
from checks.c07 import _check as dynamics
from checks.c08 import Ctl, _ctl, law
from checks.c21 import Probe, load_h5
from checks import c09, c21, c22, c23, c24, c25
from checks.c19 import _lib_case, add_constraints

CHECK = Check("C36")
ASSUMPTIONS = ["the joints of the user are products of exponentials of arbitrary screws (up to four), cams (one degree of freedom, with a jacobian which changes with it) and subgroups of the displacements (spherical, with a matrix or a quaternion, planar, cylindrical...), with an exact jacobian and its exact time derivative"]
GROUPS = ["012", "quat", "quat", "234", "25", "345", "03", "2345", "0", "4", "135", "012345"]


def mine(vmax=2.):
    """a joint of the user's"""
    s = st.one_of(gen.vec(6, -1., 1.), st.sampled_from([[0, 0, 1., 0, 0, .3], [0, 0, 1., .5, 0, 0], [1., 0, 0, 0, 0, 0], [0, 0, 0, 0, 1., 0], [0, .6, .8, 0, 0, -.2], [0, 0, 2., 0, 0, 0]]))

    def product(screws):
        n = len(screws)
        return st.fixed_dictionaries({"jt": st.just("user:" + repr(screws)), "q": st.one_of(gen.vec(n, -1.5, 1.5), gen.vec(n, -1.5, 1.5), st.just([0.] * n)), "v": gen.vec(n, -vmax, vmax)})

    def cam(screws):
        return st.fixed_dictionaries({"jt": st.just("cam:" + repr(screws)), "q": gen.vec(1, -2., 2.), "v": gen.vec(1, -vmax, vmax)})

    def group(k):
        return st.fixed_dictionaries({"jt": st.just("group:" + k if k != "quat" else "quat:"), "q": gen.vec(len(k.replace("quat", "012")), -1.5, 1.5), "v": gen.vec(len(k.replace("quat", "012")), -vmax, vmax)})
    return st.one_of(st.sampled_from([0, 1, 1, 2, 2, 2, 3, 4]).flatmap(lambda n: st.lists(s, min_size=n, max_size=n)).flatmap(product), st.lists(s, min_size=2, max_size=2).flatmap(cam), st.sampled_from(GROUPS).flatmap(group))


@st.composite
def worlds(draw, lo=1, hi=5, **kw):
    """a world in which some joints are the user's, at least one"""
    spec = draw(gen.world(lo, hi, **kw))
    k = draw(st.integers(0, len(spec["links"]) - 1))
    for i, l in enumerate(spec["links"]):
        if i == k or draw(st.booleans()):
            l.update(draw(mine(kw.get("vmax", 2.))))
    return spec


def is_mine(l):
    return ":" in l["jt"]


@CHECK.facet(lambda: worlds(1, 6, subframes=2, with_visc="skew", mass_st=gen.mass(zero=True, point=True)), quick=900, shards=4,
             rule="a joint of the user's with several dofs, or a joint above or below it, with velocity")
def model(case, ctx):
    """kinematics and dynamics"""
    b = build.world(case)
    m = ref.Model(case)
    L = case["links"]
    ctx.nt(any(is_mine(l) and any(l["v"]) and (len(l["v"]) > 1 or (l["parent"] and any(L[l["parent"] - 1]["v"])) or any(x["parent"] == i + 1 and any(x["v"]) for x in L)) for i, l in enumerate(L)))
    ctx.label("only mine" if all(is_mine(l) for l in L) else "mixed")
    w = b.world
    require(w.ndof == m.ndof, "ndof")
    for i, (j, l) in enumerate(zip(b.joints, L)):
        require((j.dof.start, j.dof.stop) == (m.dof[i].start, m.dof[i].stop), "dof of joint %d" % i)
        H, T, J, dJ = ref.joint_kin(l["jt"], m.q[i], np.array(l["v"], float))
        close(j.pose, H, 1e-9, "pose of joint %d" % i)
        close(j.ipose, ref.inv(H), 1e-9, "ipose of joint %d" % i)
        close(j.twist, T, 1e-9, "twist of joint %d" % i)
        close(j.adjoint, ref.Ad(H), 1e-9, "adjoint of joint %d" % i)
        close(j.iadjoint, ref.iAd(H), 1e-9, "iadjoint of joint %d" % i)
        close(j.adjacency, ref.ad(T), 1e-9, "adjacency of joint %d" % i)
    w.update_dynamic()
    compare(b, m)
    dynamics(b, m)
    w.update_dynamic()
    compare(b, m, "second update:")
    poses = [x.pose.copy() for x in b.bodies]
    w.update_geometric()
    for i, x in enumerate(b.bodies):
        close(x.pose, poses[i], 1e-12, "update_geometric: body %d" % i)


@st.composite
def _history(draw):
    spec = draw(worlds(1, 4, subframes=2, mass_st=gen.mass(zero=True)))
    states = []
    for _ in range(draw(st.integers(2, 4))):
        links = []
        for l in spec["links"]:
            if is_mine(l):
                n = len(l["v"])
                links.append({"q": draw(gen.vec(n, -1.5, 1.5)), "v": draw(gen.vec(n, -2., 2.))})
            else:
                links.append(draw(gen.joint([l["jt"]])))
        states.append(links)
    return {"spec": spec, "states": states}


@CHECK.facet(_history, quick=400, shards=3, rule="a joint of the user's has a joint below it")
def histories(case, ctx):
    """successive states of one world"""
    spec = case["spec"]
    b = build.world(spec)
    ctx.nt(any(l["parent"] and is_mine(spec["links"][l["parent"] - 1]) for l in spec["links"]))
    for k, s in enumerate(case["states"]):
        spec = dict(spec, links=[dict(l, q=n["q"], v=n["v"]) for l, n in zip(spec["links"], s)])
        apply_state(b, spec["links"])
        m = ref.Model(spec)
        if k % 2:
            b.world.update_geometric()
            P = m.kinematics()[0]
            for i, x in enumerate(b.bodies):
                close(x.pose, P[i], 1e-9, "state %d, update_geometric: body %d" % (k, i))
        b.world.update_dynamic()
        compare(b, m, "state %d:" % k)
        dynamics(b, m, "state %d: " % k)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": worlds(1, 4, subframes=0, mass_st=gen.mass(), with_visc=True), "ctl": st.lists(_ctl(), max_size=2), "weight": st.booleans(),
                                            "dts": st.lists(st.sampled_from([1e-3, .01, .05]), min_size=1, max_size=5)}), quick=700, shards=4,
             rule="two steps were compared, with dofs of a joint of the user's")
def motion(case, ctx):
    """time steps with controllers and gravity: the equation of the step, and the joint's own integration"""
    from arboris.controllers import WeightController
    spec = case["w"]
    b = build.world(spec, init=False)
    w = b.world
    for i, c in enumerate(case["ctl"]):
        w.register(Ctl(c, [], "c%d" % i))
    if case["weight"]:
        w.register(WeightController())
    w.init()
    m = ref.Model(spec)
    n = m.ndof
    if n == 0:
        ctx.skip("no dof")
    for k, dt in enumerate(case["dts"]):
        m.set_state([np.array(j.pose if ref.group(l["jt"]) is not None else j.gpos, float) for j, l in zip(b.joints, spec["links"])], w.gvel.copy())
        v = m.gvel
        M, B, h, _ = m.dynamics()
        f = m.gravity_force() if case["weight"] else np.zeros(n)
        zs = np.zeros((n, n))
        for c in case["ctl"]:
            x, z = law(c, k, n)
            f, zs = f + x, zs + z
        if sim.spread(M) > 1e6 or not np.linalg.cond(M / dt + B - zs) < 1e7:
            ctx.skip("ill-conditioned or fast")
        s = sim.step(w, dt)
        if not np.linalg.cond(s.Y) < 1e6 or np.abs(s.v1).max() > 50:
            ctx.skip("ill-conditioned or fast")
        # nleffects is only defined through nleffects.gvel: take the world's
        N = w.nleffects
        close(N.dot(v), h, 1e-8, "step %d: nleffects.gvel" % k)
        Z = M / dt + B + N - zs
        scale = 1 + np.abs(M.dot(v) / dt + f).max()
        close(Z.dot(s.v1), M.dot(v) / dt + f, 1e-8 * scale * (1 + np.abs(Z).max() * np.abs(s.v1).max() / scale), "step %d: equation of the time step" % k, rel=False)
        m.integrate(s.v1, dt)
        for i, j in enumerate(b.joints):
            if len(spec["links"][i]["v"]):
                close(j.pose if ref.group(spec["links"][i]["jt"]) is not None else j.gpos, m.q[i], 1e-8, "step %d: coordinates of joint %d" % (k, i))
                close(j.gvel, s.v1[j.dof], 0., "step %d: velocity of joint %d" % (k, i))
        w.update_dynamic()
        compare(b, m, "after step %d:" % k)
        ctx.nt(k >= 1 and any(is_mine(l) and l["v"] for l in spec["links"]))


def clones(spec, which):
    return dict(spec, links=[dict(l, jt=own.clone(l["jt"])) if which[i % len(which)] else l for i, l in enumerate(spec["links"])])


def whiches():
    return st.lists(st.booleans(), min_size=1, max_size=5).map(lambda x: x if any(x) else [True])


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 4, mass_st=gen.mass(), subframes=2, with_visc=True, vmax=1.), "which": whiches(), "f": gen.vec(5, -5., 5.), "weight": st.booleans(),
                                            "pd": st.lists(st.integers(0, 3), max_size=3, unique=True), "gains": gen.vec(6, 0., 20.), "des": gen.vec(5, -1., 1.),
                                            "lim": st.lists(st.integers(0, 3), max_size=2, unique=True), "h5": st.booleans(), "flat": st.booleans(), "dts": st.lists(st.sampled_from([1e-3, .01, .005]), min_size=1, max_size=6)}),
             quick=700, shards=4, rule="two dofs, two steps, and a controller or a limit on a joint of the user's")
def twins(case, ctx):
    """the same mechanism with joints of the library and with the user's copies of them: gravity, control, limits, logs and monitors"""
    from arboris.controllers import WeightController, ProportionalDerivativeController
    from arboris.constraints import JointLimits
    from arboris.observers import PickleLogger, Hdf5Logger, EnergyMonitor, CoMObserver
    import pickle
    d = ctx.scratch()
    out = []
    for k, spec in enumerate([case["w"], clones(case["w"], case["which"])]):
        b = build.world(spec, init=False)
        w = b.world
        w.register(sim.force_controller(case["f"]))
        if case["weight"]:
            w.register(WeightController())
        w.init()
        L = case["w"]["links"]
        for i in sorted(set(i % len(L) for i in case["lim"])):
            if L[i]["jt"] not in ("FreeJoint", "FixedJoint"):
                q = np.array(L[i]["q"], float)
                w.register(JointLimits(b.joints[i], q - .004, q + .3, proximity=0.05 * np.ones(len(q)), name="lim%d" % i))
                ctx.nt(k == 1 and is_mine(spec["links"][i]) and w.ndof > 1 and len(case["dts"]) > 1)
        js = []
        for i in case["pd"]:
            i %= len(L)
            if L[i]["jt"] not in ("FreeJoint", "FixedJoint") and b.joints[i] not in js:
                js.append(b.joints[i])
                ctx.nt(k == 1 and is_mine(spec["links"][i]) and w.ndof > 1 and len(case["dts"]) > 1)
        if js:
            n = sum(j.ndof for j in js)
            G = np.resize(np.array(case["gains"], float), n)
            w.register(ProportionalDerivativeController(js, np.diag(G), np.diag(G / 10.), np.resize(np.array(case["des"], float), n)))
        w.init()
        w.update_dynamic()
        if w.ndof == 0 or sim.spread(w.mass) > 1e5:
            ctx.skip("singular")
        o = {"save_state": True, "save_transforms": True, "save_model": True, "flat": case["flat"]}
        probe, en, com = Probe(b), EnergyMonitor(), CoMObserver(list(b.bodies[1:]))
        path = os.path.join(d, "x%d" % k)
        log = Hdf5Logger(path, "/", "w", **o) if case["h5"] else PickleLogger(path, **o)
        t = np.cumsum([0.] + case["dts"])
        sim.run(ctx, w, t, [probe, log, en, com])
        if case["h5"]:
            got = load_h5(path, "/")
        else:
            with open(path, "rb") as fh:
                got = pickle.load(fh)
        out.append((b, probe.rec, got, en, com))
    (b, r, g, e, c), (b2, r2, g2, e2, c2) = out
    v = max(np.abs(x["model"]["gvel"]).max() for x in r)
    if v > 30 or max(np.linalg.cond(x["model"]["admittance"]) if x["model"]["admittance"].size else 1. for x in r) > 1e5:
        ctx.skip("ill-conditioned or fast")
    ctx.label("hdf5" if case["h5"] else "pickle")

    def eq(x, y, what):
        x, y = np.array(x, float), np.array(y, float)
        require(x.shape == y.shape, "%s: %s instead of %s" % (what, y.shape, x.shape))
        close(y, x, 1e-7 * (1 + np.abs(x).max() if x.size else 1.), what, rel=False)
    require(len(r) == len(r2), "number of steps")
    for k, (x, y) in enumerate(zip(r, r2)):
        for n in sorted(x["model"]):
            eq(x["model"][n], y["model"][n], "instant %d: %s" % (k, n))
        for n in ("gvel", "bodies", "joints", "sub"):
            for i, (p, q) in enumerate(zip(x[n], y[n])):
                eq(p, q, "instant %d: %s %d" % (k, n, i))
        for i, l in enumerate(case["w"]["links"]):
            if l["v"]:
                eq(x["gpos"][i], y["gpos"][i], "instant %d: gpos of joint %d" % (k, i))
    require(set(g) == set(g2), "groups of the logs: %s instead of %s" % (sorted(g2), sorted(g)))
    for n in g:
        if isinstance(g[n], dict):
            require(set(g[n]) == set(g2[n]), "names in %s: %s instead of %s" % (n, sorted(g2[n]), sorted(g[n])))
            for a in g[n]:
                if np.size(g[n][a]) and np.ndim(g[n][a]) and not (n == "gpositions" and np.size(g[n][a]) != np.size(g2[n][a])):
                    eq(g[n][a], g2[n][a], "logged %s/%s" % (n, a))
        else:
            eq(g[n], g2[n], "logged " + n)
    for n in ("kinetic_energy", "potential_energy", "mechanichal_energy"):
        eq(getattr(e, n), getattr(e2, n), n)
    for n in ("get_CoMPosition", "get_CoMJacobian", "get_CoMdJacobian"):
        eq(getattr(c, n)(), getattr(c2, n)(), n)


@CHECK.facet(lambda: st.fixed_dictionaries({"c": _lib_case(), "which": whiches(), "steps": st.integers(1, 3)}), quick=900, shards=4, rule="a constraint acts on a mechanism with joints of the user's")
def constrained(case, ctx):
    """contacts, ball and socket joints, limits"""
    c = case["c"]
    pair = []
    for spec in (c["w"], clones(c["w"], case["which"])):
        b = build.world(spec, init=False)
        if c["f"] is not None:
            b.world.register(sim.force_controller(c["f"]))
        cs = add_constraints(b, c, ref.Model(c["w"]).kinematics()[0])
        b.world.init()
        pair.append((b, cs))
    (b, cs), (b2, cs2) = pair
    if all(x is None for x in cs) or b.world.ndof == 0:
        ctx.skip("no constraint")

    def look(s):
        if np.linalg.cond(s.Y) > 1e5 or np.abs(s.v0).max() > 30.:
            ctx.skip("ill-conditioned or fast")
        for x in cs:
            if x is not None and x.is_active():
                A = np.array(x.jacobian).dot(s.Y).dot(np.array(x.jacobian).T)
                if np.diag(A).min() < 1e-6 * np.abs(s.Y).max() or sim.spread(A) > 1e3:
                    ctx.skip("a constraint is fighting a joint")
    for k in range(case["steps"]):
        done = []
        for w in (b.world, b2.world):
            try:
                # before_constraints comes before the constraints are updated: look at the jacobians of this step afterwards
                s = sim.step(w, c["dt"], before_integrate=look if w is b.world else None)
            except np.linalg.LinAlgError:
                ctx.skip("a contact is fighting a joint")
            done.append(s)
        s, t = done
        if np.abs(s.v1).max() > 50:
            ctx.skip("fast")
        for i, (x, y) in enumerate(zip(cs, cs2)):
            if x is not None:
                require(x.is_active() == y.is_active(), "step %d: activity of constraint %d" % (k, i))
        ctx.nt(np.abs(s.fc).max() > 1e-6)
        sc = 1 + np.abs(s.fc).max()
        close(t.fc, s.fc, 1e-6 * sc, "step %d: force of the constraints" % k, rel=False)
        close(t.v1, s.v1, 1e-6 * (1 + np.abs(s.v1).max()), "step %d: velocity" % k, rel=False)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 5, mass_st=gen.mass(), subframes=1), "new": st.lists(st.tuples(st.integers(0, 5), st.one_of(mine(), gen.joint())).map(list), min_size=1, max_size=4), "init": st.booleans()}),
             quick=700, shards=3, rule="a joint of the library was replaced by a user's, or the converse, above or below another joint")
def replaced(case, ctx):
    """joints replaced by others of another origin, one after the other"""
    spec = dict(case["w"], links=[dict(l) for l in case["w"]["links"]])
    b = build.world(spec)
    w = b.world
    for k, (i, l) in enumerate(case["new"]):
        i %= len(spec["links"])
        old = spec["links"][i]
        ctx.nt((is_mine(l) != is_mine(old)) and len(spec["links"]) > 1)
        new = build.make_joint(l, "new%d" % k)
        w.replace_joint(b.joints[i], new)
        b.joints[i] = new
        old.update(l)
        if case["init"]:
            w.init()
    w.init()
    m = ref.Model(spec)
    require([x is y for x, y in zip(w.iterjoints(), [b.joints[i] for i in m.order])] == [True] * len(b.joints), "the joints, in depth-first order")
    close(w.gvel, m.gvel, 1e-12, "world velocity")
    w.update_dynamic()
    compare(b, m)
    dynamics(b, m)


# -- the checks of other properties, in worlds with joints of the user's ----------------------------------------------

def mixed(strategy, path, last=True):
    """cases of another check, some joints of whose world are replaced by the user's"""
    @st.composite
    def s(draw):
        case = draw(strategy)
        w = case
        for k in path:
            w = w[k]
        L = w["links"][:len(w["links"]) if last else -1]
        if L:
            k = draw(st.integers(0, len(L) - 1))
            for i, l in enumerate(L):
                if i == k or draw(st.booleans()):
                    l.update(draw(mine(1.)))
        return case
    return s()


def other(name):
    import importlib
    return importlib.import_module("checks." + name)


def strategy_of(check, name):
    return [f for f in check.facets if f.name == name][0].strategy()


@CHECK.facet(lambda: mixed(strategy_of(c21.CHECK, "files"), ["w"]), quick=250, shards=2, rule="as in C21")
def logs(case, ctx):
    """loggers save the coordinates, velocities and transforms of these joints, of any shape"""
    c21.files(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(c09.CHECK, "force"), ["spec"]), quick=250, shards=2, rule="as in C09")
def weight(case, ctx):
    c09.force(dict(case, states=[]), ctx)


@CHECK.facet(lambda: mixed(strategy_of(c24.CHECK, "values"), ["w"]), quick=250, shards=2, rule="as in C24")
def energy(case, ctx):
    c24.values(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(c25.CHECK, "com"), ["w"]), quick=250, shards=2, rule="as in C25")
def com(case, ctx):
    c25.com(dict(case, states=[]), ctx)


@CHECK.facet(lambda: mixed(strategy_of(c23.CHECK, "schedule"), ["w"]), quick=200, shards=2, rule="as in C23")
def driver(case, ctx):
    c23.schedule(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(c23.CHECK, "equivalence"), ["w"]), quick=200, shards=2, rule="as in C23")
def split(case, ctx):
    """a simulation cut in two"""
    c23.equivalence(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(c22.CHECK, "recorders"), ["w"], False), quick=200, shards=2, rule="as in C22")
def recorders(case, ctx):
    c22.recorders(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(other("c30").CHECK, "drawing"), ["s", "w"]), quick=150, shards=2, rule="as in C30")
def drawing(case, ctx):
    other("c30").drawing(case, ctx)


@CHECK.facet(lambda: mixed(strategy_of(other("c31").CHECK, "logged"), ["s", "w"]), quick=60, shards=2, rule="as in C31")
def animation(case, ctx):
    """a collada scene and its animation"""
    other("c31").logged(case, ctx)
