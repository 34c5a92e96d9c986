"""C15: solver choice is symmetric; contact enumeration is complete."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen
from vp.core import Check, close, require
from vp.build import world as build
from arboris.core import SubFrame, World
from arboris.collisions import choose_solver
from arboris.constraints import get_all_contacts, PointContact, SoftFingerContact
from arboris.observers import RecordDistance
from arboris.shapes import Sphere, Point, Plane, Box, Cylinder

CHECK = Check("C15")
KINDS = ["Sphere", "Point", "Plane", "Box", "Cylinder"]
SUPPORTED = {frozenset(("Sphere",)), frozenset(("Sphere", "Point")), frozenset(("Sphere", "Plane")),
             frozenset(("Sphere", "Box")), frozenset(("Point", "Plane")), frozenset(("Point", "Box"))}


def shape():
    return st.fixed_dictionaries({"k": st.sampled_from(KINDS), "d": gen.vec(3, 0.1, 1.5)})


def mk(frame, s, sub=False, name=None):
    d = s["d"]
    k = s["k"]
    if k == "Sphere":
        cls, args = Sphere, (frame, d[0], name)
    elif k == "Point":
        cls, args = Point, (frame, name)
    elif k == "Plane":
        cls, args = Plane, (frame, (d[0], -d[1], d[2], d[0] - d[1]), name)
    elif k == "Box":
        cls, args = Box, (frame, tuple(d), name)
    else:
        cls, args = Cylinder, (frame, d[0], d[1], name)
    if sub:
        cls = type("My" + k, (cls,), {})
    return cls(*args)


def solve(a, b):
    """None, or (distance, {shape: contact point}, normal from the first returned shape)"""
    try:
        shapes, solver = choose_solver(a, b)
    except NotImplementedError:
        return None
    require(len(shapes) == 2 and {id(shapes[0]), id(shapes[1])} == {id(a), id(b)}, "the returned shapes are the given ones")
    d, H0, H1 = solver(shapes)
    return float(d), {id(shapes[0]): np.array(H0[0:3, 3]), id(shapes[1]): np.array(H1[0:3, 3])}, \
        {id(shapes[0]): np.array(H0[0:3, 2]), id(shapes[1]): -np.array(H0[0:3, 2])}


def degenerate(a, b):
    """no unique normal: concentric spheres, centre on the surface (or with two nearest faces) of a box"""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Box) and isinstance(y, (Sphere, Point)):
            l = np.abs((ref.inv(x.frame.pose).dot(y.frame.pose))[:3, 3])
            near = np.array(x.half_extents) - l
            n = np.sort(near)
            if abs(n[0]) < 1e-3 or (n[0] > 0 and n[1] - n[0] < 1e-3):
                return True
    return isinstance(a, (Sphere, Point)) and isinstance(b, (Sphere, Point)) and \
        np.linalg.norm(a.frame.pose[:3, 3] - b.frame.pose[:3, 3]) < 1e-3


@CHECK.facet(lambda: st.fixed_dictionaries({"a": shape(), "b": shape(), "pa": gen.pose(2.), "pb": gen.pose(2.), "sub": st.booleans()}),
             quick=3000, shards=2, rule="the pair is supported and the shapes are of different kinds or different poses")
def order(case, ctx):
    w = World()
    a = mk(SubFrame(w.ground, ref.pose(case["pa"])), case["a"], case["sub"])
    b = mk(SubFrame(w.ground, ref.pose(case["pb"])), case["b"])
    w.init()
    w.update_geometric()
    if degenerate(a, b):
        ctx.skip("no unique normal")
    ab, ba = solve(a, b), solve(b, a)
    ks = frozenset((case["a"]["k"], case["b"]["k"]))
    ctx.label("/".join(sorted(ks)))
    require((ab is None) == (ba is None), "%s: supported in one order only" % (sorted(ks),))
    if ks in SUPPORTED:
        require(ab is not None, "%s is supported" % (sorted(ks),))
        ctx.nt()
    if ab is None:
        return
    close(ba[0], ab[0], 1e-9, "distance")
    for s in (a, b):
        close(ba[1][id(s)], ab[1][id(s)], 1e-7, "contact point")
        close(ba[2][id(s)], ab[2][id(s)], 1e-7, "normal pointing out of the shape")


class Recording(PointContact):
    """a contact model of the user's own, which remembers what it was built with"""

    def __init__(self, shapes, collision_solver=None, proximity=0.02, name=None, tag=None):
        PointContact.__init__(self, shapes, collision_solver, proximity, name)
        self.pair = shapes
        self.tag = tag

    jacobian = property(lambda self: None)
    ndol = property(lambda self: 0)

    def solve(self, vel, admittance, dt):
        pass


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 3, subframes=1), "cls": st.sampled_from(["rec", "rec", "default", "soft"]),
                                            "shapes": st.lists(st.fixed_dictionaries({"s": shape(), "body": st.integers(0, 3), "p": st.one_of(st.none(), gen.pose(1.)),
                                                                                      "sub": st.booleans()}), max_size=7)}),
             quick=1500, shards=3, rule="at least two contacts, and a pair on one body or an unsupported pair")
def contacts(case, ctx):
    b = build(case["w"], init=False)
    w = b.world
    shapes = []
    for i, s in enumerate(case["shapes"]):
        body = b.bodies[s["body"] % len(b.bodies)]
        f = body if s["p"] is None else SubFrame(body, ref.pose(s["p"]), "sf%d" % i)
        sh = mk(f, s["s"], s["sub"], "sh%d" % i)
        w.register(sh)
        shapes.append((sh, body, s["s"]["k"]))
    w.init()
    w.update_dynamic()
    exp = set()
    same = unsup = 0
    for i in range(len(shapes)):
        for j in range(i + 1, len(shapes)):
            if shapes[i][1] is shapes[j][1]:
                same += 1
                continue
            ok = solvable(shapes[i][0], shapes[j][0])
            if frozenset((shapes[i][2], shapes[j][2])) in SUPPORTED:
                require(ok, "unsupported pair %s %s" % (shapes[i][2], shapes[j][2]))
            if ok:
                exp.add(frozenset((id(shapes[i][0]), id(shapes[j][0]))))
            else:
                unsup += 1
    ctx.nt(len(exp) >= 2 and same + unsup > 0)
    ctx.label("%d contacts" % min(len(exp), 5))
    n0 = len(list(w.iterconstraints()))
    if case["cls"] == "rec":
        L = get_all_contacts(w, Recording, tag="x", proximity=0.5)
        require(all(type(c) is Recording and c.tag == "x" for c in L), "class and arguments of the contacts")
    elif case["cls"] == "soft":
        L = get_all_contacts(w, contact_class=SoftFingerContact, friction_coeff=0.5, proximity=0.1)
        require(all(type(c) is SoftFingerContact for c in L), "class of the contacts")
    else:
        L = get_all_contacts(w, friction_coeff=0.5)
        require(all(type(c) is SoftFingerContact for c in L), "default class of the contacts")
    require(len(list(w.iterconstraints())) == n0, "contacts are not registered")
    require(isinstance(L, list) and len(L) == len(exp), "%d contacts, expected %d" % (len(L), len(exp)))
    pairs = [getattr(c, "pair", getattr(c, "_shapes", None)) for c in L]
    if all(p is not None for p in pairs):
        require(set(frozenset((id(p[0]), id(p[1]))) for p in pairs) == exp, "the pairs in contact")
    # each contact works on its own pair: it can be registered and updated
    for c in L:
        w.register(c)
    w.init()
    w.update_dynamic()
    require(len(list(w.iterconstraints())) == n0 + len(L), "registered contacts")


def solvable(a, b):
    r = []
    for x, y in ((a, b), (b, a)):
        try:
            choose_solver(x, y)
            r.append(True)
        except NotImplementedError:
            r.append(False)
    require(r[0] == r[1], "%s/%s is supported in one order only" % (type(a).__name__, type(b).__name__))
    return r[0]


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 3, subframes=0), "a": shape(), "b": shape(), "ba": st.integers(0, 3), "bb": st.integers(0, 3),
                                            "pa": gen.pose(2.), "pb": gen.pose(2.)}), quick=1000, shards=2,
             rule="the pair is supported and a shape is on a moving body")
def distance(case, ctx):
    """recording the distance, in both orders, gives the solver's distance at that state"""
    b = build(case["w"], init=False)
    ba, bb = b.bodies[case["ba"] % len(b.bodies)], b.bodies[case["bb"] % len(b.bodies)]
    s0 = mk(SubFrame(ba, ref.pose(case["pa"])), case["a"])
    s1 = mk(SubFrame(bb, ref.pose(case["pb"])), case["b"])
    try:
        recs = [RecordDistance(s0, s1), RecordDistance(s1, s0, name="r")]
    except NotImplementedError:
        require(frozenset((case["a"]["k"], case["b"]["k"])) not in SUPPORTED, "supported pair refused")
        return
    w = b.world
    w.register(s0)
    w.register(s1)
    w.init()
    w.update_dynamic()
    if degenerate(s0, s1):
        ctx.skip("no unique normal")
    tl = [0., 0.1]
    for r in recs:
        r.init(w, tl)
        r.update(0.1)
    ctx.nt(ba is not bb)
    shapes, solver = choose_solver(s0, s1)
    for r in recs:
        rec = r.get_record()
        require(len(rec) == 1, "one record")
        close(rec[0], solver(shapes)[0], 1e-9, "recorded distance")


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(3, 3, subframes=0), "shapes": st.lists(shape(), min_size=2, max_size=6), "n": st.integers(12, 30), "seed": st.integers(0, 10 ** 6), "cls": st.sampled_from(["rec", "soft"])}),
             quick=60, shards=2, rule="more than twenty shapes")
def crowd(case, ctx):
    """many shapes"""
    r = np.random.RandomState(case["seed"])
    pick = lambda n: int(r.randint(n))
    pos = lambda: {"r": [0., 0., 0.], "t": [round(x, 3) for x in r.uniform(-3., 3., 3).tolist()]}
    contacts({"w": case["w"], "cls": case["cls"], "shapes": [{"s": case["shapes"][pick(len(case["shapes"]))], "body": pick(4), "p": pos() if r.rand() < .7 else None, "sub": False} for _ in range(case["n"])]}, ctx)
    ctx.nt(case["n"] > 20)
