"""C07: the generalized dynamic model is the one of the multibody system."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
from checks.c06 import apply_state

CHECK = Check("C07")


def _check(b, m, what=""):
    M, B, h, dM = m.dynamics()
    w = b.world
    v = w.gvel
    close(w.mass, M, 1e-9, what + "mass matrix")
    close(w.mass, w.mass.T, 1e-10, what + "mass symmetry")
    if M.size:
        require(np.linalg.eigvalsh((w.mass + w.mass.T) / 2).min() >= -1e-10 * max(1., abs(M).max()), "mass matrix is indefinite")
    close(w.viscosity, B, 1e-9, what + "viscosity matrix")
    close(w.nleffects.dot(v), h, 1e-9, what + "Coriolis and centrifugal force nleffects.gvel")
    # kinetic energy
    P, J, dJ, T = m.kinematics()
    E = sum(.5 * T[i + 1].dot(m.mass[i]).dot(T[i + 1]) for i in range(m.n))
    close(.5 * v.dot(w.mass).dot(v), E, 1e-9, what + "kinetic energy")
    # passivity
    x = v.dot(dM).dot(v) - 2 * v.dot(w.nleffects).dot(v)
    require(abs(x) <= 1e-8 * max(1., abs(v.dot(dM).dot(v))), "%snleffects creates energy: %g" % (what, x))
    for i, body in enumerate(b.bodies[1:]):
        t = T[i + 1]
        # relative to this body's own mass
        s = min(1., m.mass[i][3, 3]) if m.mass[i].any() else 1.
        close(body.nleffects.dot(t) / s, -ref.ad(t).T.dot(m.mass[i].dot(t)) / s, 1e-9, "%sgyroscopic wrench of body %d" % (what, i + 1))


@CHECK.facet(lambda: gen.world(max_links=6, subframes=1, with_visc="skew", mass_st=gen.mass(zero=True, point=True, light=True)),
             quick=1200, shards=6, rule="some joint with velocity has a descendant with mass and velocity")
def model(case, ctx):
    b = build.world(case)
    m = ref.Model(case)
    L = case["links"]
    ctx.nt(any(l["parent"] > 0 and l["mass"] and any(L[l["parent"] - 1]["v"]) and any(l["v"]) for l in L))
    if any(l["mass"] is None for l in L):
        ctx.label("massless body")
    b.world.update_dynamic()
    _check(b, m)
    b.world.update_dynamic()
    _check(b, m, "second update: ")


@st.composite
def _hist(draw):
    spec = draw(gen.world(max_links=4, subframes=0, with_visc="skew"))
    states = [[draw(gen.joint([l["jt"]])) for l in spec["links"]] for _ in range(draw(st.integers(2, 3)))]
    masses = [draw(st.one_of(st.none(), gen.mass(zero=True, light=True))) for _ in spec["links"]]
    viscs = draw(st.one_of(st.none(), st.lists(gen.visc(True), min_size=len(spec["links"]), max_size=len(spec["links"]))))
    return {"spec": spec, "states": states, "masses": masses, "viscs": viscs}


@CHECK.facet(_hist, quick=300, shards=3, rule="two links, with masses changed between two states")
def histories(case, ctx):
    """nothing is left over from previous states or masses"""
    spec = case["spec"]
    b = build.world(spec)
    ctx.nt(len(spec["links"]) >= 2 and any(x is not None for x in case["masses"]))
    for k, s in enumerate(case["states"]):
        spec = dict(spec, links=[dict(l, q=n["q"], v=n["v"]) for l, n in zip(spec["links"], s)])
        if k == 1:
            spec = dict(spec, links=[dict(l, mass=x) for l, x in zip(spec["links"], case["masses"])])
            for body, l in zip(b.bodies[1:], spec["links"]):
                body.mass = ref.mass(l["mass"])
            if case["viscs"]:
                spec = dict(spec, links=[dict(l, visc=x) for l, x in zip(spec["links"], case["viscs"])])
                for body, x in zip(b.bodies[1:], case["viscs"]):
                    body.viscosity = np.array(x, float).reshape(6, 6) if x else np.zeros((6, 6))
        apply_state(b, spec["links"])
        b.world.update_dynamic()
        _check(b, ref.Model(spec), "state %d: " % k)


@CHECK.facet(gen.big, quick=60, shards=4, rule="more than twenty links")
def large(case, ctx):
    """mechanisms of many bodies"""
    spec = gen.expand(case, True)
    b = build.world(spec)
    ctx.nt(case["n"] > 20)
    ctx.label(case["shape"])
    b.world.update_dynamic()
    _check(b, ref.Model(spec))
