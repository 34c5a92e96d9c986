"""C25: centre-of-mass observer: position, jacobian and derivative."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref
from vp.core import Check, close, require
from checks.c06 import apply_state

CHECK = Check("C25")


def reference(model, spec, sel):
    P, J, dJ, T = model.kinematics()
    m = x = A = dA = 0.
    for i in sel:
        ms = spec["links"][i]["mass"]
        if ms is None:
            continue
        c, k = ref.com(ms), i + 1
        R = P[k][:3, :3]
        Jc = J[k][3:] - ref.hat(c).dot(J[k][:3])
        dJc = dJ[k][3:] - ref.hat(c).dot(dJ[k][:3])
        m += ms["m"]
        x = x + ms["m"] * (P[k][:3, 3] + R.dot(c))
        A = A + ms["m"] * R.dot(Jc)
        dA = dA + ms["m"] * R.dot(dJc + ref.hat(T[k][:3]).dot(Jc))
    return x / m, A / m, dA / m


def cases():
    return gen.world(1, 5, mass_st=st.one_of(gen.mass(), gen.mass(), gen.mass(zero=True, point=True, light=True)), subframes=0).flatmap(lambda w: st.fixed_dictionaries({
        "w": st.just(w), "sel": st.permutations(list(range(len(w["links"])))).flatmap(lambda p: st.integers(1, len(p)).map(lambda k: list(p)[:k])),
        "perm": st.integers(0, 5), "states": st.lists(st.tuples(*[gen.joint([l["jt"]], 3.) for l in w["links"]]).map(list), min_size=0, max_size=3),
        "how": st.sampled_from(["list", "tuple", "list"]), "ground": st.booleans(), "gm": gen.mix(st.none(), st.none(), gen.mass()), "remass": gen.mix(st.none(), st.lists(gen.mass(), min_size=5, max_size=5)), "jac": st.sampled_from([True, True, True, False])}))


@CHECK.facet(cases, quick=2500, shards=6, rule="several bodies with mass, a centre of mass off its origin, at least two dofs, non-zero velocity")
def com(case, ctx):
    from arboris.observers import CoMObserver
    spec, sel = case["w"], case["sel"]
    if all(spec["links"][i]["mass"] is None for i in sel):
        ctx.skip("no mass")
    b = build.world(spec)
    w = b.world
    bodies = [b.bodies[i + 1] for i in sel]
    gm = None
    if case["ground"]:
        bodies.insert(len(bodies) // 2, w.ground)
        if case["gm"]:
            # the ground may be heavy, it does not move
            gm = case["gm"]
            w.ground.mass = ref.mass(gm)
            ctx.label("heavy ground")
    obs = CoMObserver(tuple(bodies) if case["how"] == "tuple" else bodies, case["jac"]) if not case["jac"] else CoMObserver(tuple(bodies) if case["how"] == "tuple" else bodies)
    k = case["perm"] % len(bodies)
    other = CoMObserver(bodies[k:] + bodies[:k][::-1])
    obs.init(w)
    other.init(w, [0., 1.])
    massive = [spec["links"][i]["mass"] for i in sel if spec["links"][i]["mass"]]
    ctx.nt(len(massive) > 1 and any(np.abs(ref.com(m)).max() > .01 for m in massive) and w.ndof > 1 and any(np.abs(l["v"]).max() > .01 for l in spec["links"] if l["v"]))
    ctx.label("%d massive bodies" % len(massive))
    states = [spec["links"]] + case["states"]
    if case["remass"]:
        states.append(states[-1])
    for n, links in enumerate(states):
        if n:
            apply_state(b, links)
        if n == len(states) - 1 and case["remass"]:
            # other masses, seen at the next initialisation
            ctx.label("other masses")
            spec = dict(spec, links=[dict(l, mass=m) for l, m in zip(spec["links"], case["remass"])])
            for body, l in zip(b.bodies[1:], spec["links"]):
                body.mass = ref.mass(l["mass"])
            obs.init(w)
            other.init(w)
        s = dict(spec, links=[dict(l, q=x["q"], v=x["v"]) for l, x in zip(spec["links"], links)])
        model = ref.Model(s)
        w.update_dynamic()
        x, A, dA = reference(model, s, sel)
        if gm:
            mb = sum(s["links"][i]["mass"]["m"] for i in sel if s["links"][i]["mass"])
            f = mb / (mb + gm["m"])
            x, A, dA = f * x + (1 - f) * ref.com(gm), f * A, f * dA
        for o in (obs, other):
            o.update(0.01)
            what = "state %d, %s: " % (n, "first observer" if o is obs else "bodies in another order")
            close(o.get_CoMPosition(), x, 1e-9, what + "position")
            if o is obs and not case["jac"]:
                continue
            close(o.get_CoMJacobian(), A, 1e-8, what + "jacobian")
            close(o.get_CoMdJacobian(), dA, 1e-8, what + "djacobian")
            # what is returned belongs to the caller
            for g in (o.get_CoMPosition, o.get_CoMJacobian, o.get_CoMdJacobian):
                r = g()
                e = np.array(r)
                r += 1.
                require(np.array_equal(g(), e), what + "the caller's copy is the observer's own array")


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 4, mass_st=gen.mass(), subframes=0, vmax=1.5), "h": st.sampled_from([1e-4, 3e-5])}), quick=500, shards=2,
             rule="several bodies, at least two dofs, moving")
def differences(case, ctx):
    """the jacobian and its derivative against finite differences of the observer's own position (guards the reference)"""
    from arboris.observers import CoMObserver
    spec, h = case["w"], case["h"]
    b = build.world(spec)
    w = b.world
    if w.ndof == 0:
        ctx.skip("no dof")
    ctx.nt(len(spec["links"]) > 1 and w.ndof > 1 and np.abs(w.gvel).max() > .01)
    o = CoMObserver(b.bodies[1:])
    o.init(w)
    v = np.array(w.gvel)
    w.update_dynamic()
    o.update(h)
    J0, dJ0, x0 = o.get_CoMJacobian(), o.get_CoMdJacobian(), o.get_CoMPosition()
    X, K = {}, {}
    for s in (1, -1):
        c = build.world(spec)
        for j in c.joints:
            j.integrate(np.array(j.gvel), s * h)
        c.world.update_dynamic()
        oc = CoMObserver(c.bodies[1:])
        oc.init(c.world)
        oc.update(h)
        X[s], K[s] = oc.get_CoMPosition(), oc.get_CoMJacobian()
    sc = 1. + np.abs(v).max() ** 3
    close((X[1] - X[-1]) / (2 * h), J0.dot(v), 2e-5 * sc, "velocity of the centre of mass", rel=False)
    close((K[1] - K[-1]) / (2 * h), dJ0, 2e-4 * sc, "derivative of the jacobian", rel=False)


@CHECK.facet(gen.big, quick=60, shards=4, rule="more than twenty links")
def large(case, ctx):
    """mechanisms of many bodies"""
    spec = gen.expand(case)
    com({"w": spec, "sel": list(range(case["n"]))[::-1], "perm": 3, "states": [], "how": "list", "ground": bool(case["seed"] % 2), "gm": None, "remass": None, "jac": True}, ctx)
    ctx.nt(case["n"] > 20)
