"""C14: collision solvers against a geometric oracle."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen
from vp.core import Check, close, require
from arboris.core import World, Body, SubFrame
from arboris.joints import FreeJoint
from arboris import collisions as ac
from arboris.shapes import Sphere, Point, Plane, Box

CHECK = Check("C14")
ASSUMPTIONS = ["concentric spheres and centres within 1e-5 of a box surface are outside the domain (the normal is lost in the rounding errors), except exactly on it with an unrotated box",
               "a plane with coefficients (a,b,c,d) is the set a x + b y + c z = d, positive side along (a,b,c)"]


def frame(spec):
    """where the shape is attached: the ground, a subframe of the ground, a body or a subframe of a body"""
    def mk(w):
        if spec["on"] == "ground":
            return SubFrame(w.ground, ref.pose(spec["p"]))
        b = Body()
        w.add_link(w.ground, FreeJoint(gpos=ref.pose(spec["p"])), b)
        if spec["on"] == "body":
            return b
        return SubFrame(b, ref.pose(spec["s"]))
    return mk


def frames():
    return st.one_of(
        st.fixed_dictionaries({"on": st.sampled_from(["ground", "body"]), "p": gen.pose(3.)}),
        st.fixed_dictionaries({"on": st.just("sub"), "p": gen.pose(3.), "s": gen.pose(1.)}))


def fpose(spec):
    H = ref.pose(spec["p"])
    return H.dot(ref.pose(spec["s"])) if spec["on"] == "sub" else H


def check_contact(res, what):
    """the structure common to all contacts; returns sdist, p0, p1, n"""
    require(len(res) == 3, what + ": three results")
    d, H0, H1 = res
    H0 = np.array(H0, float)
    H1 = np.array(H1, float)
    d = float(d)
    require(np.isfinite(d), what + ": distance is finite")
    require(ref.is_pose(H0, 1e-9), what + ": first frame is not rigid:\n%s" % H0)
    require(ref.is_pose(H1, 1e-9), what + ": second frame is not rigid:\n%s" % H1)
    close(H0[:3, :3], H1[:3, :3], 1e-9, what + ": orientations differ")
    n = H0[:3, 2]
    close(H1[:3, 3], H0[:3, 3] + d * n, 1e-8, what + ": second origin is the first displaced along the normal")
    return d, H0[:3, 3], H1[:3, 3], n


def side(d):
    return "separated" if d > 1e-6 else "penetrating" if d < -1e-6 else "touching"


def radius():
    return st.one_of(gen.num(0., 2.), gen.num(0.01, 0.5), st.just(0.))


def ready(w):
    w.init()
    w.update_geometric()


def twice(w, f, shapes):
    ready(w)
    before = [np.array(s.frame.pose) for s in shapes]
    r = f(shapes)
    out = (float(r[0]), np.array(r[1]), np.array(r[2]))
    r2 = f(shapes)
    close(r2[0], out[0], 1e-12, "second call")
    close(r2[1], out[1], 1e-12, "second call")
    close(r2[2], out[2], 1e-12, "second call")
    for s, b in zip(shapes, before):
        close(s.frame.pose, b, 0., "the solver moved a shape")
    return out


@CHECK.facet(lambda: st.fixed_dictionaries({"f0": frames(), "f1": frames(), "r0": radius(), "r1": st.one_of(st.none(), radius()),
                                            "touch": st.booleans(), "gap": st.one_of(st.just(0.), gen.num(-0.5, 0.5))}),
             quick=2500, shards=2, rule="distinct centres and a positive radius")
def spheres(case, ctx):
    f0, f1 = case["f0"], dict(case["f1"])
    c0, c1 = fpose(f0)[:3, 3], fpose(f1)[:3, 3]
    L = np.linalg.norm(c1 - c0)
    if L < 1e-3:
        ctx.skip("concentric")
    r1 = case["r1"] or 0.
    r0 = case["r0"]
    if case["touch"]:
        r0 = max(0., L - r1 - case["gap"])
    w = World()
    s0 = Sphere(frame(f0)(w), r0)
    s1 = Point(frame(f1)(w)) if case["r1"] is None else Sphere(frame(f1)(w), r1)
    f = ac.sphere_point_collision if case["r1"] is None else ac.sphere_sphere_collision
    d, p0, p1, n = check_contact(twice(w, f, (s0, s1)), "sphere/sphere")
    ctx.label(side(d))
    ctx.nt(r0 > 0)
    close(d, L - r0 - r1, 1e-9, "signed distance")
    close(n, (c1 - c0) / L, 1e-9, "normal")
    close(p0, c0 + r0 * (c1 - c0) / L, 1e-9, "point on the first sphere")
    close(p1, c1 - r1 * (c1 - c0) / L, 1e-9, "point on the second sphere")


@CHECK.facet(lambda: st.fixed_dictionaries({"f0": frames(), "f1": frames(), "n": gen.vec(3, -2., 2.), "d": gen.num(-3., 3.),
                                            "axis": st.one_of(st.none(), st.integers(0, 5)), "r1": st.one_of(st.none(), radius()),
                                            "int": st.booleans()}),
             quick=2500, shards=2, rule="the plane's frame is rotated and its normal is not a frame axis")
def plane(case, ctx):
    n = np.array(case["n"])
    if case["axis"] is not None:
        n = np.zeros(3)
        n[case["axis"] % 3] = 1. if case["axis"] < 3 else -1.
    N = np.linalg.norm(n)
    if N < 0.05:
        ctx.skip("no plane normal")
    d0 = case["d"]
    H0, p = fpose(case["f0"]), fpose(case["f1"])[:3, 3]
    ctx.nt(case["axis"] is None)
    r1 = case["r1"] or 0.
    w = World()
    co = [n[0], n[1], n[2], d0]
    s0 = Plane(frame(case["f0"])(w), tuple(co))
    s1 = Point(frame(case["f1"])(w)) if case["r1"] is None else Sphere(frame(case["f1"])(w), r1)
    f = ac.plane_point_collision if case["r1"] is None else ac.plane_sphere_collision
    d, p0, p1, z = check_contact(twice(w, f, (s0, s1)), "plane/sphere")
    ctx.label(side(d))
    ng = H0[:3, :3].dot(n / N)
    dd = ng.dot(p - H0[:3, 3]) - d0 / N
    close(z, ng, 1e-9, "normal")
    close(d, dd - r1, 1e-9, "signed distance")
    close(p0, p - dd * ng, 1e-8, "point on the plane")
    close(p1, p - r1 * ng, 1e-8, "point on the sphere")


def sdf_box(p, h):
    q = np.abs(p) - h
    return np.linalg.norm(np.maximum(q, 0.)) + min(q.max(), 0.)


@CHECK.facet(lambda: st.fixed_dictionaries({"f0": frames(), "h": gen.vec(3, 0.05, 2.), "r1": st.one_of(st.none(), radius()),
                                            "rel": st.one_of(st.lists(gen.num(-1.8, 1.8), min_size=3, max_size=3),
                                                             st.lists(st.one_of(gen.num(-1.2, 1.2), st.sampled_from([1. - 1e-4, 1. + 1e-4, -1. + 1e-4, -1. - 1e-4, 1. - 1e-3, -1. - 1e-3])), min_size=3, max_size=3),
                                                             st.lists(st.one_of(gen.num(1.001, 1.8), gen.num(-1.8, -1.001)), min_size=3, max_size=3)),
                                            "on": st.sampled_from(["ground", "body"]), "r": st.lists(gen.angle(), min_size=3, max_size=3),
                                            "others": st.lists(st.lists(gen.num(-1., 1.), min_size=3, max_size=3), min_size=6, max_size=6)}),
             quick=4000, shards=2, rule="the box is rotated with respect to the ground")
def box(case, ctx):
    """the sphere's centre is at rel * half_extents in the box: inside when all |rel| < 1"""
    h = np.array(case["h"])
    H0 = fpose(case["f0"])
    pl = np.array(case["rel"]) * h
    sd = sdf_box(pl, h)
    if abs(sd) < 1e-5:
        ctx.skip("centre on the surface of the box")
    near = np.sort(h - np.abs(pl))
    inside = sd < 0
    if inside and near[1] - near[0] < 1e-6:
        ctx.skip("two nearest faces")
    nout = sum(np.abs(pl) > h)
    ctx.label(["inside", "face", "edge", "corner"][nout])
    p = H0[:3, :3].dot(pl) + H0[:3, 3]
    r1 = case["r1"] or 0.
    # the pose of the sphere's frame: its own orientation must not matter
    Hs = ref.pose({"r": case["r"], "t": [0., 0., 0.]})
    Hs[:3, 3] = p
    w = World()
    s0 = Box(frame(case["f0"])(w), tuple(case["h"]))
    if case["on"] == "ground":
        f1 = SubFrame(w.ground, Hs)
    else:
        f1 = Body()
        w.add_link(w.ground, FreeJoint(gpos=Hs), f1)
    s1 = Point(f1) if case["r1"] is None else Sphere(f1, r1)
    f = ac.box_point_collision if case["r1"] is None else ac.box_sphere_collision
    d, p0, p1, z = check_contact(twice(w, f, (s0, s1)), "box/sphere")
    ctx.label(side(d))
    ctx.nt(np.abs(H0[:3, :3] - np.eye(3)).max() > 1e-2)
    close(d, sd - r1, 1e-8, "signed distance")
    l0 = H0[:3, :3].T.dot(p0 - H0[:3, 3])
    require(abs(sdf_box(l0, h)) < 1e-8, "first point is not on the box surface: box coordinates %s, half extents %s" % (l0, h))
    close(p1, p - r1 * z, 1e-8, "second point is on the sphere, along the normal")
    close(np.linalg.norm(p0 - p), abs(sd), 1e-8, "the box point is the closest one")
    for e in (0.01, 0.1, 1.):
        l = H0[:3, :3].T.dot(p0 + e * z - H0[:3, 3])
        close(sdf_box(l, h), e, 1e-7, "the normal points out of the box")
    # no other point of the box surface is closer
    for o in case["others"]:
        o = np.array(o)
        k = int(np.argmax(np.abs(o)))
        o[k] = np.sign(o[k]) or 1.
        require(np.linalg.norm(o * h - pl) >= abs(sd) - 1e-9, "oracle: surface point closer than the signed distance")


@CHECK.facet(lambda: st.fixed_dictionaries({"t": st.lists(st.integers(-8, 8), min_size=3, max_size=3), "h": st.lists(st.integers(1, 8), min_size=3, max_size=3),
                                            "rel": st.lists(st.sampled_from([0, 0, 2, -2, 4, 4, 4, -4, -4, -4, 6, -6]), min_size=3, max_size=3),
                                            "r1": st.sampled_from([0., 0.25, 1.]), "on": st.sampled_from(["ground", "body"]), "kind": st.sampled_from(["Box", "Plane"])}),
             quick=400, rule="the centre is on the surface")
def exactly(case, ctx):
    """no rounding: the centre is exactly on a face, an edge or a corner, at the centre of the box, on the plane..."""
    h = np.array(case["h"]) / 8.
    pl = np.array(case["rel"]) / 4. * h
    t = np.array(case["t"]) / 8.
    Hs, H0 = np.eye(4), np.eye(4)
    H0[:3, 3] = t
    Hs[:3, 3] = t + pl
    w = World()
    f0 = SubFrame(w.ground, H0)
    if case["on"] == "ground":
        f1 = SubFrame(w.ground, Hs)
    else:
        f1 = Body()
        w.add_link(w.ground, FreeJoint(gpos=Hs), f1)
    s1 = Sphere(f1, case["r1"])
    if case["kind"] == "Plane":
        sd = pl[1] - h[1]
        d, p0, p1, z = check_contact(twice(w, ac.plane_sphere_collision, (Plane(f0, (0., 1., 0., h[1])), s1)), "plane/sphere")
        ctx.nt(sd == 0.)
        close(d, sd - case["r1"], 1e-12, "signed distance")
        close(z, np.array([0., 1., 0.]), 1e-12, "normal")
        close(p0, t + np.array([pl[0], h[1], pl[2]]), 1e-12, "point of the plane")
        return
    d, p0, p1, z = check_contact(twice(w, ac.box_sphere_collision, (Box(f0, tuple(h)), s1)), "box/sphere")
    sd = sdf_box(pl, h)
    ctx.nt(sd == 0.)
    ctx.label("%d coordinates on the surface" % sum(np.abs(pl) == h))
    close(d, sd - case["r1"], 1e-12, "signed distance")
    require(abs(sdf_box(p0 - t, h)) < 1e-12, "first point is not on the box surface")
    close(np.linalg.norm(p0 - t - pl), abs(sd), 1e-12, "the box point is the closest one")
    close(p1, t + pl - case["r1"] * z, 1e-12, "second point is on the sphere, along the normal")
    for e in (0.01, 0.1, 1.):
        close(sdf_box(p0 + e * z - t, h), e, 1e-9, "the normal points out of the box")


@CHECK.facet(lambda: st.fixed_dictionaries({"kind": st.sampled_from(["ss", "ps", "bs"]), "p0": gen.pose(2.), "p1": gen.pose(2.), "g": gen.pose(3.),
                                            "n": gen.vec(3, 0.2, 2.), "d": gen.num(-1., 1.), "r0": radius(), "r1": radius()}),
             quick=1500, shards=2, rule="the displacement rotates")
def displaced(case, ctx):
    """displacing both shapes rigidly displaces the contact"""
    G = ref.pose(case["g"])
    out = []
    for X in (np.eye(4), G):
        w = World()
        f0 = SubFrame(w.ground, X.dot(ref.pose(case["p0"])))
        f1 = SubFrame(w.ground, X.dot(ref.pose(case["p1"])))
        ready(w)
        s1 = Sphere(f1, case["r1"])
        if case["kind"] == "ss":
            s0, f = Sphere(f0, case["r0"]), ac.sphere_sphere_collision
            if np.linalg.norm(f0.pose[:3, 3] - f1.pose[:3, 3]) < 1e-2:
                ctx.skip("concentric")
        elif case["kind"] == "ps":
            s0, f = Plane(f0, tuple(case["n"] + [case["d"]])), ac.plane_sphere_collision
        else:
            h = np.array(case["n"])
            l = ref.inv(f0.pose).dot(f1.pose)[:3, 3]
            near = np.sort(h - np.abs(l))
            if abs(sdf_box(l, h)) < 1e-2 or (sdf_box(l, h) < 0 and near[1] - near[0] < 1e-4):
                ctx.skip("no unique normal")
            s0, f = Box(f0, case["n"]), ac.box_sphere_collision
        out.append(check_contact(f((s0, s1)), case["kind"]))
    ctx.nt(np.abs(G[:3, :3] - np.eye(3)).max() > 1e-2)
    (d, p0, p1, n), (e, q0, q1, m) = out
    close(e, d, 1e-8, "distance")
    R, t = G[:3, :3], G[:3, 3]
    close(m, R.dot(n), 1e-7, "normal")
    close(q0, R.dot(p0) + t, 1e-7, "first point")
    close(q1, R.dot(p1) + t, 1e-7, "second point")
