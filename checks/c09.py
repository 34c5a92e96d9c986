"""C09: weight is the gradient of potential energy."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.controllers import WeightController

CHECK = Check("C09")


@st.composite
def _case(draw):
    spec = draw(gen.world(max_links=6, subframes=0, mass_st=gen.mass(zero=True, point=True, light=True)))
    return {"spec": spec, "g": draw(gen.mix(st.just(None), st.just(None), gen.num(-20, 20), st.integers(-10, 10))),
            "states": [[draw(gen.joint([l["jt"]])) for l in spec["links"]] for _ in range(draw(st.integers(0, 2)))]}


@CHECK.facet(_case, quick=900, shards=6, rule="an off-centre mass below a moving joint")
def force(case, ctx):
    spec = case["spec"]
    g = -9.81 if case["g"] is None else case["g"]
    ctx.nt(any(l["mass"] and any(l["mass"]["p"]["t"]) and l["jt"] != "FixedJoint" for l in spec["links"]) and g != 0)
    b = build.world(spec, init=False)
    c = WeightController() if case["g"] is None else WeightController(case["g"])
    b.world.register(c)
    b.world.init()
    specs = [spec] + [dict(spec, links=[dict(l, q=n["q"], v=n["v"]) for l, n in zip(spec["links"], s)]) for s in case["states"]]
    for s in specs:
        apply_state(b, s["links"])
        m = ref.Model(s)
        b.world.update_dynamic()
        f, z = c.update(.01)
        exp = m.gravity_force(g)
        close(f, exp, 1e-9, "weight")
        close(z, np.zeros((m.ndof, m.ndof)), 0., "impedance")
        b.world.update_controllers(1e-3) if m.ndof and np.linalg.cond(m.dynamics()[0]) < 1e9 else None
        if m.ndof and np.linalg.cond(m.dynamics()[0]) < 1e9:
            close(b.world.gforce, exp, 1e-9, "world force")
        # virtual power: minus the rate of change of potential energy
        e = 1e-5
        pots = []
        for sg in (-1, 1):
            k = ref.Model(s)
            k.integrate(m.gvel, sg * e)
            pots.append(k.potential(-g))
        dE = (pots[1] - pots[0]) / (2 * e)
        close(f.dot(m.gvel), -dE, 1e-5 * max(1., abs(g)), "power is minus the rate of potential energy")


@st.composite
def _tree(draw):
    c = draw(_case())
    n = len(c["spec"]["links"])
    c["cut"] = draw(st.integers(0, n))
    c["masses"] = [draw(gen.mass(zero=True, light=True)) for _ in range(n)]
    return c


def weigh(c, m, g, what):
    f, z = c.update(.1)
    close(f, m.gravity_force(g), 1e-9, what)
    close(z, np.zeros((m.ndof, m.ndof)), 0., what + ": impedance")


@CHECK.facet(_tree, quick=300, shards=2, rule="links added or masses changed after the first initialisation")
def reinitialised(case, ctx):
    """links added and masses changed after a first init are taken into account"""
    spec = case["spec"]
    k = case["cut"]
    ctx.nt(0 < k < len(spec["links"]))
    part = dict(spec, links=spec["links"][:k], subs=[])
    b = build.world(part, init=False)
    g = -9.81 if case["g"] is None else case["g"]
    c = WeightController(g)
    b.world.register(c)
    b.world.init()
    b.world.update_dynamic()
    weigh(c, ref.Model(part), g, "first tree")
    from arboris.core import Body
    for i in range(k, len(spec["links"])):
        l = dict(spec["links"][i], f0=None, f1=None)
        body = Body(mass=ref.mass(l["mass"]))
        j = build.make_joint(l)
        b.world.add_link(b.bodies[l["parent"]], j, body)
        b.bodies.append(body)
        b.joints.append(j)
    full = dict(spec, links=spec["links"][:k] + [dict(l, f0=None, f1=None) for l in spec["links"][k:]])
    b.world.init()
    b.world.update_dynamic()
    weigh(c, ref.Model(full), g, "after adding links")
    full = dict(full, links=[dict(l, mass=m) for l, m in zip(full["links"], case["masses"])])
    for body, l in zip(b.bodies[1:], full["links"]):
        body.mass = ref.mass(l["mass"])
    b.world.init()
    b.world.update_dynamic()
    weigh(c, ref.Model(full), g, "after changing masses")


@CHECK.facet(gen.big, quick=40, shards=4, rule="more than twenty links")
def large(case, ctx):
    """mechanisms of many bodies"""
    force({"spec": gen.expand(case), "g": None, "states": []}, ctx)
    ctx.nt(case["n"] > 20)
