"""C06: forward kinematics of any tree of bodies and frames."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require

CHECK = Check("C06")
TOL = 1e-9


def apply_state(b, links):
    """move the joints of a built world in place to the state of these links"""
    for j, l in zip(b.joints, links):
        if l["jt"] == "FixedJoint":
            continue
        j.gpos[:] = build.joint_gpos(l)
        j.gvel[:] = l["v"]


def compare(b, model, what=""):
    P, J, dJ, T = model.kinematics()
    for i, body in enumerate(b.bodies):
        n = "%s body %d " % (what, i)
        close(body.pose, P[i], TOL, n + "pose")
        close(body.jacobian, J[i], TOL, n + "jacobian")
        close(body.djacobian, dJ[i], TOL, n + "djacobian")
        close(body.twist, T[i], TOL, n + "twist")
        close(body.twist, body.jacobian.dot(b.world.gvel), TOL, n + "twist = jacobian.gvel")
    frames = [(f, b.bodies[l["parent"]], l["f0"], i, "f0") for i, (f, l) in enumerate(zip(b.f0, model.spec["links"]))]
    frames += [(f, b.bodies[i + 1], l["f1"], i, "f1") for i, (f, l) in enumerate(zip(b.f1, model.spec["links"]))]
    frames += [(f, b.bodies[s["body"]], s["pose"], i, "sub") for i, (f, s) in enumerate(zip(b.subs, model.spec["subs"]))]
    for f, body, p, i, kind in frames:
        n = "%s frame %s%d " % (what, kind, i)
        k = b.bodies.index(body)
        H = ref.pose(p)
        require(f.body is body, n + "body")
        close(f.bpose, H, 1e-12, n + "bpose")
        close(f.pose, P[k].dot(H), TOL, n + "pose")
        A = ref.iAd(H)
        close(f.jacobian, A.dot(J[k]), TOL, n + "jacobian")
        close(f.djacobian, A.dot(dJ[k]), TOL, n + "djacobian")
        close(f.twist, A.dot(T[k]), TOL, n + "twist")


@CHECK.facet(lambda: gen.world(max_links=6, subframes=3), quick=900, shards=6,
             rule="at least two links with dofs, one of them below the other, and some velocity")
def dynamic(case, ctx):
    b = build.world(case)
    m = ref.Model(case)
    L = case["links"]
    ctx.nt(any(l["parent"] > 0 and L[l["parent"] - 1]["v"] and any(L[l["parent"] - 1]["v"]) and l["v"] for l in L))
    ctx.label("multi-dof above" if any(l["parent"] > 0 and ref.NDOF[L[l["parent"] - 1]["jt"]] > 1 for l in L) else "single-dof or flat")
    b.world.update_dynamic()
    close(b.world.gvel, m.gvel, 0., "world velocity")
    compare(b, m)
    close(b.world.ground.pose, np.eye(4), 0., "ground pose")
    poses = [x.pose.copy() for x in b.bodies]
    # computing again changes nothing
    b.world.update_dynamic()
    compare(b, m, "second update:")
    b2 = build.world(case)
    b2.world.update_geometric()
    for i, (x, y) in enumerate(zip(b2.bodies, poses)):
        close(x.pose, y, 1e-12, "update_geometric: body %d pose" % i)
    for s, f, g in zip(case["subs"], b.subs, b2.subs):
        close(g.pose, f.pose, 1e-12, "update_geometric: subframe pose")


def _history():
    @st.composite
    def h(draw):
        fixed = draw(st.integers(0, 2)) * 6
        spec = draw(gen.world(max_links=4, subframes=3, types=gen.ALL + ["FixedJoint"] * fixed))
        for l in spec["links"]:
            # joints between frames that may be moved
            l["mf0"], l["mf1"] = [l[f] is not None and draw(st.booleans()) for f in ("f0", "f1")]
        ops = []
        for _ in range(draw(st.integers(1, 4))):
            links = []
            for l in spec["links"]:
                links.append(draw(gen.joint([l["jt"]])))
            moves = [[k, draw(gen.pose(1.))] for k, s in enumerate(spec["subs"]) if s["moving"] and draw(st.booleans())]
            jm = [[i, f, draw(gen.pose(1.))] for i, l in enumerate(spec["links"]) for f in ("f0", "f1") if l["m" + f] and draw(st.booleans())]
            ops.append({"links": links, "moves": moves, "jmoves": jm, "geo": draw(st.booleans())})
        return {"spec": spec, "ops": ops}
    return h()


@CHECK.facet(_history, quick=400, shards=4, rule="at least two states, with a moving frame reassigned or three links")
def histories(case, ctx):
    """successive states and moving frames on one world: nothing stale"""
    spec = case["spec"]
    b = build.world(spec)
    ctx.nt(len(case["ops"]) >= 2 and (any(o["moves"] for o in case["ops"]) or len(spec["links"]) > 2))
    for o in case["ops"]:
        spec = dict(spec, links=[dict(l, q=n["q"], v=n["v"]) for l, n in zip(spec["links"], o["links"])],
                    subs=[dict(s) for s in spec["subs"]])
        apply_state(b, spec["links"])
        for k, p in o["moves"]:
            spec["subs"][k]["pose"] = p
            b.subs[k].bpose = ref.pose(p)
        for i, f, p in o["jmoves"]:
            spec["links"][i][f] = p
            getattr(b, f)[i].bpose = ref.pose(p)
        m = ref.Model(spec)
        if o["geo"]:
            b.world.update_geometric()
            P = m.kinematics()[0]
            for i, x in enumerate(b.bodies):
                close(x.pose, P[i], TOL, "update_geometric: body %d pose" % i)
        b.world.update_dynamic()
        close(b.world.gvel, m.gvel, 1e-12, "world velocity")
        compare(b, m)


@CHECK.facet(lambda: st.fixed_dictionaries({"p": gen.pose(1.), "p2": gen.pose(1.), "p3": gen.pose(1.), "q": gen.pose(1.),
                                            "int": st.booleans(), "first": st.booleans()}),
             quick=300, shards=1, rule="every case")
def frame_ownership(case, ctx):
    """frames own their pose: neither the caller's array nor another frame built
    from it is affected by moving one of them"""
    from arboris.core import World, Body, SubFrame, MovingSubFrame
    from arboris.joints import FreeJoint
    ctx.nt()
    w = World()
    body = Body(mass=np.eye(6))
    w.add_link(w.ground, FreeJoint(gpos=ref.pose(case["q"])), body)
    H = np.array([[1, 0, 0, 2], [0, 0, -1, 3], [0, 1, 0, 4], [0, 0, 0, 1]]) if case["int"] else ref.pose(case["p"])
    H0 = np.array(H, float)
    m1, m2, s = MovingSubFrame(body, H), MovingSubFrame(body, H), SubFrame(body, H)
    for f in (m1, m2, s):
        w.register(f)
    w.init()
    w.update_dynamic()
    B = body.pose.copy()
    new = ref.pose(case["p2"])
    m1.bpose = new
    close(m1.pose, B.dot(ref.pose(case["p2"])), TOL, "the moved frame")
    close(m2.pose, B.dot(H0), TOL, "another moving frame built from the same array")
    close(s.pose, B.dot(H0), TOL, "a fixed frame built from the same array")
    close(H, H0, 0., "the caller's array")
    new[:] = ref.pose(case["p3"])
    close(m1.pose, B.dot(ref.pose(case["p2"])), TOL, "the moved frame, after the caller reused his array")
    got = m1.bpose
    got[:] = ref.pose(case["p3"])
    close(m1.bpose, ref.pose(case["p2"]), TOL, "bpose is a copy")


@CHECK.facet(gen.big, quick=60, shards=4, rule="more than twenty links")
def large(case, ctx):
    """mechanisms of many bodies"""
    spec = gen.expand(case)
    b = build.world(spec)
    ctx.nt(case["n"] > 20)
    ctx.label(case["shape"])
    b.world.update_dynamic()
    compare(b, ref.Model(spec))
    # the same world, elsewhere: every joint that has a vector of positions moves
    spec = dict(spec, links=[l if l["jt"] in ("FreeJoint", "FixedJoint")
                             else dict(l, q=[.3 - .7 * x for x in l["q"]]) for l in spec["links"]])
    apply_state(b, spec["links"])
    m = ref.Model(spec)
    b.world.update_geometric()
    for i, (x, P) in enumerate(zip(b.bodies, m.kinematics()[0])):
        close(x.pose, P, TOL, "moved, update_geometric: body %d pose" % i)
    b.world.update_dynamic()
    compare(b, m, "moved:")
