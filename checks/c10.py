"""C10: the proportional-derivative controller."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.controllers import ProportionalDerivativeController as PD, WeightController

CHECK = Check("C10")


@st.composite
def _case(draw):
    spec = draw(gen.world(min_links=1, max_links=6, subframes=0, frames=False, mass_st=gen.mass()))
    lin = [i for i, l in enumerate(spec["links"]) if l["jt"] not in ("FreeJoint", "FixedJoint")]
    sel = draw(st.permutations(lin))[:max(1, len(lin) - draw(st.integers(0, 3)))] if lin else []
    n = sum(ref.NDOF[spec["links"][i]["jt"]] for i in sel)
    full = draw(st.booleans())

    def gain():
        if full:
            return draw(gen.vec(n * n, -3, 3))
        d = draw(gen.vec(n, 0, 20))
        return np.diag(d).flatten().tolist() if n else []
    none = draw(st.sampled_from([0, 0, 0, 0, 2, 4, 8, 1, 15]))
    return {"spec": spec, "sel": list(sel), "kp": None if none & 1 else gain(), "kd": None if none & 2 else gain(),
            "qd": None if none & 4 else draw(gen.vec(n, -3, 3)), "vd": None if none & 8 else draw(gen.vec(n, -3, 3)),
            "dt": draw(st.sampled_from([1e-3, .01, .05])), "container": draw(st.sampled_from(["list", "tuple", "JointsList"])),
            # how the gains and targets are given, and whether they change later, by assignment or in place
            "arg": draw(st.sampled_from(["array", "list", "flat"])), "target": draw(st.sampled_from([None, None, "set", "fill"])),
            "t2": draw(gen.vec(2 * n, -3, 3)),
            "new": [draw(gen.joint([l["jt"]])) for l in spec["links"]]}


def make(case, b):
    joints = [b.joints[i] for i in case["sel"]]
    if case["container"] == "tuple":
        joints = tuple(joints)
    elif case["container"] == "JointsList":
        from arboris.core import JointsList
        joints = JointsList(joints)
    n = sum(ref.NDOF[case["spec"]["links"][i]["jt"]] for i in case["sel"])
    mat = lambda x: None if x is None else np.array(x, float).reshape(n, n)
    kw = {}
    for k, x in (("kp", mat(case["kp"])), ("kd", mat(case["kd"])), ("gpos_des", case["qd"]), ("gvel_des", case["vd"])):
        if x is not None:
            x = np.array(x, float)
            kw[k] = x if case["arg"] == "array" else x.flatten().tolist() if case["arg"] == "flat" else x.tolist()
    c = PD(joints, **kw)
    for x in kw.values():
        # what becomes of the caller's arrays is no matter of the controller
        if isinstance(x, np.ndarray):
            x += 7.
    return c, n


def gains(case, n):
    z = np.zeros((n, n))
    f = lambda x: z if x is None else np.array(x, float).reshape(n, n)
    g = lambda x: np.zeros(n) if x is None else np.array(x, float)
    return f(case["kp"]), f(case["kd"]), g(case["qd"]), g(case["vd"])


def expected(case, model, n, dt):
    """force and impedance, element by element over the selected joints' dofs"""
    Kp, Kd, qd, vd = gains(case, n)
    idx = [d for i in case["sel"] for d in range(model.dof[i].start, model.dof[i].stop)]
    q = np.concatenate([np.asarray(model.q[i], float) for i in case["sel"]]) if case["sel"] else np.zeros(0)
    F = np.zeros(model.ndof)
    Z = np.zeros((model.ndof, model.ndof))
    for a, ia in enumerate(idx):
        for c, ic in enumerate(idx):
            F[ia] += Kp[a, c] * (qd[c] - q[c]) + Kd[a, c] * vd[c]
            Z[ia, ic] = -(Kp[a, c] * dt + Kd[a, c])
    return F, Z, idx, q


@CHECK.facet(_case, quick=1200, shards=5, rule="at least two controlled joints, of different sizes or not in tree order, with gains")
def law(case, ctx):
    spec = case["spec"]
    sel = case["sel"]
    if not sel:
        ctx.skip("no linear joint")
    sizes = set(ref.NDOF[spec["links"][i]["jt"]] for i in sel)
    ctx.nt(len(sel) >= 2 and (len(sizes) > 1 or list(sel) != sorted(sel)) and case["kp"] is not None)
    if len(sizes) > 1:
        ctx.label("mixed sizes")
    b = build.world(spec)
    c, n = make(case, b)
    b.world.register(c)
    b.world.init()
    dt = case["dt"]
    s = spec
    for k in range(2):
        if k:
            s = dict(spec, links=[dict(l, q=x["q"], v=x["v"]) for l, x in zip(spec["links"], case["new"])])
            apply_state(b, s["links"])
            if case["target"]:
                ctx.label("target changed")
                case = dict(case, qd=case["t2"][:n], vd=case["t2"][n:])
                if case["target"] == "set":
                    c.gpos_des, c.gvel_des = np.array(case["qd"], float), np.array(case["vd"], float)
                else:
                    c.gpos_des[:], c.gvel_des[:] = case["qd"], case["vd"]
        m = ref.Model(s)
        F, Z, _, _ = expected(case, m, n, dt)
        f, z = c.update(dt)
        close(f, F, 1e-9, "force")
        close(z, Z, 1e-9, "impedance")


@CHECK.facet(_case, quick=500, shards=4, rule="a closed-loop step was compared")
def closed_loop(case, ctx):
    """tau = Kp (qd - q(t+dt)) + Kd (vd - v(t+dt)) holds at the end of the step"""
    spec = case["spec"]
    if not case["sel"]:
        ctx.skip("no linear joint")
    b = build.world(spec)
    c, n = make(case, b)
    b.world.register(c)
    b.world.register(WeightController())
    b.world.init()
    dt = case["dt"]
    m = ref.Model(spec)
    F, Z, idx, q = expected(case, m, n, dt)
    M, B, h, _ = m.dynamics()
    w = b.world
    w.update_dynamic()
    N = w.nleffects.copy()
    if np.linalg.cond(M / dt + N - Z) > 1e7 or np.linalg.cond(M) > 1e7:
        ctx.skip("ill-conditioned")
    ctx.nt()
    v0 = w.gvel
    w.update_controllers(dt)
    w.update_constraints(dt)
    w.integrate(dt)
    v1 = w.gvel
    q1 = np.concatenate([b.joints[i].gpos for i in case["sel"]])
    Kp, Kd, qd, vd = gains(case, n)
    tau = np.zeros(m.ndof)
    tau[idx] = Kp.dot(qd - q1) + Kd.dot(vd - v1[idx])
    # inverse dynamics of the step that was made
    need = M.dot(v1 - v0) / dt + N.dot(v1) + B.dot(v1) - m.gravity_force()
    close(need, tau, 1e-7, "force delivered by the controller")


@CHECK.facet(lambda: st.fixed_dictionaries({"c": _case(), "extra": st.lists(st.tuples(st.integers(0, 6), gen.joint()).map(list), min_size=1, max_size=3),
                                            "rep": st.lists(st.tuples(st.integers(0, 6), gen.joint()).map(list), max_size=2), "bad": st.sampled_from(["FreeJoint", "FixedJoint"])}), quick=400, shards=2,
             rule="links were inserted before a controlled joint")
def rebuilt(case, ctx):
    """after links are added and the world re-initialised the same joints are
    controlled, although their dofs have moved; other joints are refused"""
    from arboris.core import Body, World
    cc = case["c"]
    spec = cc["spec"]
    bad = build.make_joint({"jt": case["bad"], "q": {"r": [0, 0, 0], "t": [0, 0, 0]}, "v": [0] * 6})
    w = World()
    w.add_link(w.ground, bad, Body())
    w.init()
    try:
        PD([bad])
    except ValueError:
        pass
    else:
        require(False, "a %s was accepted" % case["bad"])
    if not cc["sel"]:
        ctx.skip("no linear joint")
    b = build.world(spec)
    c, n = make(cc, b)
    b.world.register(c)
    b.world.init()
    links = list(spec["links"])
    old = dict(ref.Model(spec).dof)
    for k, (par, j) in enumerate(case["extra"]):
        par = min(par, len(links))
        l = dict(j, parent=par, f0=None, f1=None, mass=None, visc=None)
        links.append(l)
        body, jj = Body(), build.make_joint(l)
        b.world.add_link(b.bodies[par], jj, body)
        b.bodies.append(body)
        b.joints.append(jj)
    b.world.init()
    for k, j in case["rep"]:
        k = k % len(links)
        if k not in cc["sel"]:
            jj = build.make_joint(j)
            b.world.replace_joint(b.joints[k], jj)
            b.joints[k] = jj
            links[k] = dict(links[k], jt=j["jt"], q=j["q"], v=j["v"])
            ctx.label("replaced")
    m = ref.Model(dict(spec, links=links))
    ctx.nt(any(m.dof[i] != old[i] for i in cc["sel"]))
    F, Z, _, _ = expected(cc, m, n, cc["dt"])
    f, z = c.update(cc["dt"])
    close(f, F, 1e-9, "force after the tree changed")
    close(z, Z, 1e-9, "impedance after the tree changed")


@CHECK.facet(lambda: st.tuples(gen.big(), st.sampled_from([1e-3, .01]), st.booleans()).map(list), quick=40, shards=4, rule="more than twenty links")
def large(case, ctx):
    """mechanisms of many bodies"""
    c, dt, rev = case
    spec = gen.expand(c)
    r = np.random.RandomState(c["seed"])
    sel = [i for i, l in enumerate(spec["links"]) if l["jt"] not in ("FreeJoint", "FixedJoint") and r.rand() < .8]
    if rev:
        sel = sel[::-1]
    n = sum(ref.NDOF[spec["links"][i]["jt"]] for i in sel)
    law({"spec": spec, "sel": sel, "kp": r.uniform(-3, 3, n * n).tolist(), "kd": r.uniform(-3, 3, n * n).tolist(), "qd": r.uniform(-3, 3, n).tolist(), "vd": r.uniform(-3, 3, n).tolist(),
         "dt": dt, "container": "list", "arg": "array", "target": None, "new": spec["links"][:]}, ctx)
    ctx.nt(c["n"] > 20)
