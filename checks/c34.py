"""C34: leaving an argument out means its documented default; by position or by keyword means the same."""
import os
import copy
import pickle
import importlib
import json
import socket
import subprocess
import tempfile
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim, fakes, dae
from vp.core import Check, require

CHECK = Check("C34")
ASSUMPTIONS = ["the defaults are those of the signatures and docstrings of the reviewed tree, pinned here",
               "the optional pydaenim package, imported by arboris.visu, is replaced by a stand-in"]

OMIT, POS, KEY = "omit", "pos", "key"


# -- digests: what an object or a world shows through its public attributes -----------------------------------------

def arr(x):
    return np.array(x, float)


def frame_digest(f):
    bp = getattr(f, "bpose", None)
    return [type(f).__name__, getattr(f, "name", None), None if bp is None else arr(bp), getattr(f.body, "name", None)]


def shape_digest(s):
    return [type(s).__name__, s.name, frame_digest(s.frame)] + [arr(getattr(s, k)) for k in ("coeffs", "half_extents", "length", "radius") if hasattr(s, k)]


def joint_digest(j):
    d = [type(j).__name__, j.name, j.ndof, arr(j.pose), arr(j.jacobian)]
    if hasattr(j, "gpos"):
        d.append(arr(j.gpos))
    return d + [arr(j.gvel)]


def world_digest(w):
    w.init()
    w.update_dynamic()
    d = [[joint_digest(j) + [frame_digest(f) for f in j.frames] for j in w.getjoints()],
         [[b.name, arr(b.mass), arr(b.viscosity), arr(b.pose)] for b in w.iterbodies()],
         [frame_digest(f) for f in w.getframes()], [shape_digest(s) for s in w.getshapes()],
         [[type(c).__name__, c.name] for c in w.getconstraints()], arr(w.mass), arr(w.gvel), float(w.current_time)]
    return d


def same(a, b, path=""):
    """where two digests differ, or None"""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            if a.shape == b.shape and a.dtype.kind == "f" and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True):
                return None
            return "%s: %s != %s" % (path, a.tolist() if a.size < 20 else a.shape, b.tolist() if b.size < 20 else b.shape)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return "%s: keys %s != %s" % (path, sorted(a)[:9], sorted(b)[:9])
        for k in a:
            r = same(a[k], b[k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d != %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if a == b else "%s: %r != %r" % (path, a, b)


# -- the calls -----------------------------------------------------------------------------------------------------------

class Target(object):
    """a callable: params is the ordered list of (name, required?, pinned default, strategy of other values);
    run(callf, case, tmp) -> digest, where callf(function, convert) performs the call"""

    def __init__(self, params, run, extra=None):
        self.params, self.run, self.extra = params, run, extra or st.just(None)


REQ = object()
T = {}


def target(name, params, extra=None):
    def deco(f):
        T[name] = Target(params, f, extra)
        return f
    return deco


NAME = ("name", None, st.sampled_from(["n", "Object 1", ""]))
BOOL = st.booleans()
POS_ = gen.num(.05, 3.)


def psd(n):
    """a symmetric positive matrix"""
    return gen.vec(n * n, -.7, .7).map(lambda v: np.round(np.array(v).reshape(n, n).dot(np.array(v).reshape(n, n).T) + .5 * np.eye(n), 6).tolist())


def linear_joint(jt):
    n = ref.NDOF[jt]

    @target(jt, [("gpos", [0.] * n, gen.vec(n, -2., 2.)), ("gvel", [0.] * n, gen.vec(n, -2., 2.)), NAME])
    def run(call, case, tmp):
        import arboris.joints as aj
        return joint_digest(call(getattr(aj, jt)))


for _jt in gen.LINEAR:
    linear_joint(_jt)


@target("FreeJoint", [("gpos", np.eye(4).tolist(), gen.pose().map(lambda p: ref.pose(p).tolist())), ("gvel", [0.] * 6, gen.vec(6, -2., 2.)), NAME])
def _free(call, case, tmp):
    from arboris.joints import FreeJoint
    return joint_digest(call(FreeJoint, lambda a: dict(a, **({"gpos": np.array(a["gpos"])} if "gpos" in a else {}))))


@target("FixedJoint", [NAME])
def _fixed(call, case, tmp):
    from arboris.joints import FixedJoint
    return joint_digest(call(FixedJoint))


def arrays(*keys):
    return lambda a: {k: (np.array(v, float) if k in keys and v is not None else v) for k, v in a.items()}


@target("Body", [NAME, ("mass", np.zeros((6, 6)).tolist(), gen.mass().map(lambda m: ref.mass(m).tolist())), ("viscosity", np.zeros((6, 6)).tolist(), psd(6))])
def _body(call, case, tmp):
    from arboris.core import Body
    b = call(Body, arrays("mass", "viscosity"))
    return [b.name, arr(b.mass), arr(b.viscosity)]


def sub(cls):
    @target(cls, [("bpose", np.eye(4).tolist(), gen.pose().map(lambda p: ref.pose(p).tolist())), NAME])
    def run(call, case, tmp):
        import arboris.core as c
        b = c.Body("b")
        conv = arrays("bpose")
        return frame_digest(call(getattr(c, cls), conv, (b,)))


sub("SubFrame")
sub("MovingSubFrame")


def shape(cls, params):
    @target(cls, params + [NAME])
    def run(call, case, tmp):
        import arboris.shapes as s
        from arboris.core import Body
        return shape_digest(call(getattr(s, cls), None, (Body("b"),)))


shape("Plane", [("coeffs", [0., 1., 0., 0.], st.sampled_from([[1., 0., 0., .5], [0., 0., 1., 0.], [0., -1., 0., 2.]]))])
shape("Point", [])
shape("Box", [("half_extents", [1., 1., 1.], st.lists(POS_, min_size=3, max_size=3))])
shape("Cylinder", [("length", 1., POS_), ("radius", 1., POS_)])
shape("Sphere", [("radius", 1., POS_)])

WORLD = gen.world(1, 3, mass_st=gen.mass(), subframes=0)
LWORLD = gen.world(1, 3, mass_st=gen.mass(), subframes=0, types=gen.LINEAR)


def gravity(cls):
    @target(cls, [("gravity", -9.81, gen.num(-20., 20.)), NAME], WORLD)
    def run(call, case, tmp):
        import arboris.controllers as c
        w = build.world(case["extra"]).world
        k = call(getattr(c, cls))
        w.register(k)
        w.init()
        w.update_dynamic()
        f, Z = k.update(.01)
        return [k.name, arr(f), arr(Z)]


gravity("WeightController")


@target("ProportionalDerivativeController", [("kp", None, st.just(1.)), ("kd", None, st.just(1.)), ("gpos_des", None, st.just(1.)), ("gvel_des", None, st.just(1.)), NAME], LWORLD.flatmap(lambda s: st.fixed_dictionaries({"s": st.just(s), "g": gen.vec(9, -3., 3.)})))
def _pd(call, case, tmp):
    from arboris.controllers import ProportionalDerivativeController as PD
    b = build.world(case["extra"]["s"])
    n = b.world.ndof
    g = np.resize(np.array(case["extra"]["g"]), n * n)
    full = {"kp": (g.reshape(n, n), np.zeros((n, n))), "kd": (g[::-1].reshape(n, n), np.zeros((n, n))), "gpos_des": (g[:n], np.zeros(n)), "gvel_des": (-2 * g[:n], np.zeros(n))}

    def conv(a):
        # None in the pinned defaults: zeros of the right shape
        return {k: (full[k][0] if v is not None else full[k][1]) if k in full else v for k, v in a.items()}
    k = call(PD, conv, (b.joints,))
    b.world.register(k)
    b.world.init()
    b.world.update_dynamic()
    f, Z = k.update(.01)
    return [k.name, arr(f), arr(Z)]


# distances around the default proximities
NEAR = st.one_of(gen.num(.001, .04), st.sampled_from([.0095, .0105, .0195, .0205, .0199, .0201, .0099, .0101]))


def activity(c, w):
    w.init()
    w.update_dynamic()
    w.update_controllers(.01)
    c.update(.01)
    return bool(c.is_active())


@target("JointLimits", [("proximity", .01, st.sampled_from([.03, .002, .02, 0., 1.])), NAME], st.fixed_dictionaries({"d": NEAR, "up": BOOL, "s": gen.mass()}))
def _limits(call, case, tmp):
    from arboris.constraints import JointLimits
    from arboris.core import World, Body
    from arboris.joints import RzJoint
    d = case["extra"]["d"]
    w = World()
    j = RzJoint(gpos=1. - d if case["extra"]["up"] else -1. + d, name="j")
    w.add_link(w.ground, j, Body("b", mass=ref.mass(case["extra"]["s"])))
    c = call(JointLimits, None, (j, -1., 1.))
    w.register(c)
    return [c.name, activity(c, w)]


def two_balls(d):
    from arboris.core import World, Body, SubFrame
    from arboris.joints import FreeJoint
    from arboris.shapes import Sphere
    w = World()
    s0 = Sphere(w.ground, .5, "s0")
    b = Body("ball", mass=np.diag([.1, .1, .1, 1., 1., 1.]))
    w.add_link(w.ground, FreeJoint(gpos=ref.trans(0., 1. + d, 0.), name="j"), b)
    s1 = Sphere(b, .5, "s1")
    w.register(s0)
    w.register(s1)
    w.init()
    w.update_dynamic()
    return w, s0, s1


@target("SoftFingerContact", [("friction_coeff", REQ, gen.num(.1, 1.)), ("collision_solver", None, st.just("swap")), ("proximity", .02, st.sampled_from([.05, .005, .01, .001])), NAME], st.fixed_dictionaries({"d": NEAR}))
def _soft(call, case, tmp):
    from arboris.constraints import SoftFingerContact
    from arboris.collisions import choose_solver
    w, s0, s1 = two_balls(case["extra"]["d"])
    default = choose_solver(s0, s1)
    # a solver of the user's
    used = []

    def mine(shapes):
        used.append(1)
        return default[1](shapes)

    def conv(a):
        a = dict(a)
        if "collision_solver" in a:
            a["collision_solver"] = mine if a["collision_solver"] == "swap" else None
        return a
    c = call(SoftFingerContact, conv, ((s0, s1),))
    w.register(c)
    act = activity(c, w)
    w.update_dynamic()
    w.update_controllers(.01)
    w.update_constraints(.01)
    return [c.name, act, bool(used), arr(w.gforce)]


@target("BallAndSocketConstraint", [NAME])
def _bs(call, case, tmp):
    from arboris.constraints import BallAndSocketConstraint
    w, s0, s1 = two_balls(.3)
    c = call(BallAndSocketConstraint, None, ((s0.frame, s1.frame),))
    return [c.name]


@target("get_all_contacts", [("contact_class", None, st.just(None)), ("friction_coeff", REQ, gen.num(.1, 1.)), ("proximity", .02, st.sampled_from([.05, .005]))], st.fixed_dictionaries({"d": NEAR}))
def _gac(call, case, tmp):
    from arboris.constraints import SoftFingerContact, get_all_contacts
    w, s0, s1 = two_balls(case["extra"]["d"])

    def conv(a):
        return dict(a, **({"contact_class": SoftFingerContact} if "contact_class" in a else {}))
    res = call(get_all_contacts, conv, (w,), keyword_only=("friction_coeff", "proximity"))
    out = []
    for c in res:
        w.register(c)
        act = activity(c, w)
        w.update_constraints(.01)
        out.append([type(c).__name__, act, arr(w.gforce)])
    return out


@target("update_constraints", [("maxiters", 1000, st.integers(1, 6)), ("tol", 1e-4, st.sampled_from([1e-1, 1e-8, 1.]))], st.fixed_dictionaries({"s": gen.world(3, 3, types=["FreeJoint"], mass_st=gen.mass(), subframes=0, branching=True, frames=False), "p": gen.pose(.3)}))
def _uc(call, case, tmp):
    from arboris.constraints import BallAndSocketConstraint
    spec = dict(case["extra"]["s"], links=[dict(l, parent=0) for l in case["extra"]["s"]["links"]])
    b = build.world(spec)
    w = b.world
    for i in range(3):
        # a ring of ball-and-socket constraints
        w.register(BallAndSocketConstraint((b.bodies[i + 1], b.bodies[(i + 1) % 3 + 1]), name="c%d" % i))
    w.init()
    w.update_dynamic()
    w.update_controllers(.01)
    call(w.update_constraints, None, (.01,))
    return arr(w.gforce)


# -- factories

SEQ3 = st.lists(POS_, min_size=3, max_size=3)


@target("add_simplearm", [("name", "", st.sampled_from(["R", "Left "])), ("lengths", [.5, .4, .2], SEQ3), ("masses", [1., .8, .2], SEQ3), ("with_shapes", False, st.just(True))])
def _arm(call, case, tmp):
    from arboris.robots.simplearm import add_simplearm
    return factory(add_simplearm, call)


def factory(f, call, before=()):
    from arboris.core import World
    w = World()
    call(f, None, (w,) + tuple(before))
    return world_digest(w)


@target("add_snake", [("lengths", [.5] * 4, st.lists(POS_, min_size=4, max_size=4)), ("masses", [2.] * 4, st.lists(POS_, min_size=4, max_size=4)), ("gpos", [0.] * 4, gen.vec(4, -3., 3.)), ("gvel", [0.] * 4, gen.vec(4, -3., 3.)), ("is_fixed", True, st.just(False))])
def _snake(call, case, tmp):
    from arboris.robots.snake import add_snake
    return factory(add_snake, call, (4,))


@target("add_sphere", [("radius", 1., POS_), ("mass", 1., POS_), NAME])
def _sphere(call, case, tmp):
    from arboris.robots.simpleshapes import add_sphere
    return factory(add_sphere, call)


@target("add_box", [("half_extents", [1., 1., 1.], SEQ3), ("mass", 1., POS_), ("name", "Box", st.sampled_from(["b", None]))])
def _box(call, case, tmp):
    from arboris.robots.simpleshapes import add_box
    return factory(add_box, call)


@target("add_cylinder", [("length", 1., POS_), ("radius", 1., POS_), ("mass", 1., POS_), ("name", "Cylinder", st.sampled_from(["c", None]))])
def _cylinder(call, case, tmp):
    from arboris.robots.simpleshapes import add_cylinder
    return factory(add_cylinder, call)


@target("add_human36", [("height", 1.741, gen.num(1., 2.2)), ("mass", 73, gen.num(30., 120.)), ("anat_lengths", None, st.just(None)), ("prefix", "", st.sampled_from(["Bob's ", "x"]))])
def _human(call, case, tmp):
    from arboris.robots.human36 import add_human36
    return factory(add_human36, call)


@target("icub.add", [("is_fixed", False, st.just(True)), ("create_shapes", True, st.just(False)), ("create_contacts", True, st.just(False))])
def _icub(call, case, tmp):
    from arboris.robots import icub
    return factory(icub.add, call)


@target("icub.get_joint_limits", [("in_radian", True, st.just(False))])
def _icubl(call, case, tmp):
    from arboris.robots import icub
    return {k: arr(v) for k, v in call(icub.get_joint_limits).items()}


@target("ismassmatrix", [("semi", False, st.just(True))], st.fixed_dictionaries({"m": gen.mass(point=True), "cut": st.booleans()}))
def _ismm(call, case, tmp):
    from arboris.massmatrix import ismassmatrix
    M = ref.mass(case["extra"]["m"])
    if case["extra"]["cut"]:
        M = np.diag([0., 0., 1., 2., 2., 2.])
    return bool(call(ismassmatrix, None, (M,)))


@target("name_all_elements", [("check_unicity", False, st.just(True))], st.fixed_dictionaries({"names": st.lists(st.sampled_from(["a", "b", None]), min_size=1, max_size=6), "where": st.sampled_from(["list", "world"])}))
def _nae(call, case, tmp):
    from arboris.core import Body, World, name_all_elements
    from arboris.joints import FreeJoint
    bs = [Body(n) for n in case["extra"]["names"]]
    try:
        if case["extra"]["where"] == "list":
            call(name_all_elements, None, (bs,))
        else:
            w = World()
            for b in bs:
                w.add_link(w.ground, FreeJoint(), b)
            w.init()
            call(w.name_all_elements)
        raised = False
    except Exception as e:
        raised = True
    # generated names are not documented: which ones there are only
    return [raised, [b.name if n is not None else (b.name is not None) for b, n in zip(bs, case["extra"]["names"])] if not raised else None]


@target("NamedObjectsList", [("iterable", [], st.just([1, 2]))])
def _nol(call, case, tmp):
    from arboris.core import NamedObjectsList, Body
    l = call(NamedObjectsList, lambda a: {k: [Body("b%d" % x) for x in v] for k, v in a.items()})
    return [x.name for x in l]


def based(cls, args):
    @target("%s (subclass)" % cls, [NAME])
    def run(call, case, tmp):
        import arboris.core as c
        base = getattr(c, cls)
        # a class of the user's, which hands its arguments over
        sub = type("Mine", (base,), {m: (lambda self, *a, **k: None) for m in getattr(base, "__abstractmethods__", ())})
        return [call(sub, None, args(c)).name]


based("World", lambda c: ())
based("Controller", lambda c: ())
based("Observer", lambda c: ())
based("Constraint", lambda c: ())
based("Shape", lambda c: (c.Body("b"),))
based("NamedObject", lambda c: ())
based("Joint", lambda c: ())

# -- observers

SIMW = gen.world(1, 2, mass_st=gen.mass(), subframes=2)
SAVE = [("save_transforms", True, st.just(False)), ("save_state", False, st.just(True)), ("save_model", False, st.just(True)), ("flat", False, st.just(True))]


def simulate(w, obs):
    from arboris.core import simulate
    simulate(w, [0., .01, .02], obs)


def plain(d):
    return {k: plain(v) for k, v in d.items()} if isinstance(d, dict) else arr(d)


@target("PickleLogger", [("mode", "wb", st.just("ab"))] + SAVE + [("protocol", 0, st.just(2)), NAME], SIMW)
def _pickle(call, case, tmp):
    from arboris.observers import PickleLogger
    f = os.path.join(tmp, "f.pkl")
    with open(f, "wb") as out:
        pickle.dump({"old": 1}, out)
    w = build.world(case["extra"]).world
    o = call(PickleLogger, None, (f,))
    simulate(w, [o])
    res = [o.name]
    with open(f, "rb") as inp:
        while True:
            try:
                d = pickle.load(inp)
            except EOFError:
                break
            res.append(plain(d))
    with open(f, "rb") as inp:
        # text protocol or not, when the file holds this pickle only
        res.append(inp.read(1) == b"\x80")
    return res


@target("Hdf5Logger", [("group", "/", st.sampled_from(["a", "/a/b"])), ("mode", "a", st.just("w"))] + SAVE + [NAME], SIMW)
def _hdf5(call, case, tmp):
    from arboris.observers import Hdf5Logger
    import h5py
    f = os.path.join(tmp, "f.h5")
    with h5py.File(f, "w") as h:
        h.create_group("old")
    w = build.world(case["extra"]).world
    o = call(Hdf5Logger, None, (f,))
    simulate(w, [o])
    res = {}
    with h5py.File(f, "r") as h:
        h.visititems(lambda k, v: res.__setitem__(k, arr(v) if isinstance(v, h5py.Dataset) else None))
    return [o.name, res]


@target("CoMObserver", [("compute_Jacobians", True, st.just(False)), NAME], WORLD)
def _com(call, case, tmp):
    from arboris.observers import CoMObserver
    b = build.world(case["extra"])
    b.world.update_dynamic()
    o = call(CoMObserver, None, (b.bodies[1:],))
    o.init(b.world, [0., .01])
    o.update(.01)
    out = [o.name, arr(o.get_CoMPosition())]
    for g in (o.get_CoMJacobian, o.get_CoMdJacobian):
        try:
            out.append(arr(g()))
        except Exception as e:
            out.append("refused")
    return out


@target("PerfMonitor", [("log", False, st.just(True)), NAME], SIMW)
def _perf(call, case, tmp):
    from arboris.observers import PerfMonitor
    import logging
    seen = []

    class H(logging.Handler):
        def emit(self, r):
            seen.append(r.getMessage())
    h = H()
    root = logging.getLogger()
    lg = logging.getLogger("PerfMonitor")
    old, dis = lg.level, logging.root.manager.disable
    logging.disable(logging.NOTSET)
    lg.setLevel(logging.INFO)
    lg.addHandler(h)
    try:
        o = call(PerfMonitor)
        simulate(build.world(case["extra"]).world, [o])
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)
        logging.disable(dis)
    return [o.name, len(seen)]


@target("simulate", [("observers", [], st.just([1]))], SIMW)
def _sim(call, case, tmp):
    from arboris.core import simulate, Observer
    seen = []

    class O(Observer):
        def init(self, w, t):
            seen.append("init")

        def update(self, dt):
            seen.append(dt)

        def finish(self):
            seen.append("finish")
    w = build.world(case["extra"]).world
    call(simulate, lambda a: {k: [O() for _ in v] for k, v in a.items()}, (w, [0., .01, .02]))
    return [seen, world_digest(w)]


# -- drawing

def recording(W):
    class D(W.DrawerDriver):
        def __init__(self, *a, **k):
            W.DrawerDriver.__init__(self, *a, **k)
            self.ops = []

        def add_ground(self, up):
            return "ground"

        def init(self):
            pass

        def finish(self):
            pass

        def create_transform(self, pose, is_constant, name=None):
            self.ops.append(["transform", arr(pose), bool(is_constant), name])
            return "t%d" % len(self.ops)

        def create_frame_arrows(self):
            return "arrows"

        def add_child(self, parent, child, category=None):
            self.ops.append(["child", parent, child, category])

        def _make(kind):
            def f(self, *a, **k):
                a = list(a) + [k[x] for x in sorted(k)]
                self.ops.append([kind] + [x if isinstance(x, (str, type(None))) else arr(x) for x in a])
                return "%s%d" % (kind, len(self.ops))
            return f
        for _k in ("inertia", "line", "ellipsoid", "sphere", "point", "box", "plane", "cylinder"):
            locals()["create_" + _k] = _make(_k)
    return D


def shaped(spec):
    from arboris.shapes import Box, Sphere, Plane
    b = build.world(spec)
    b.world.register(Box(b.bodies[-1], (.1, .2, .3), "box"))
    b.world.register(Plane(b.world.ground, (0., 1., 0., 0.), "plane"))
    b.world.init()
    b.world.update_geometric()
    return b


@target("Drawer", [("flat", False, st.just(True)), ("color_generator", None, st.just(3))], SIMW)
def _drawer(call, case, tmp):
    W = fakes.visu("world_drawer")
    b = shaped(case["extra"])
    drv = recording(W)()

    def conv(a):
        return {k: ((W.ColorGenerator(nb_colors=v or 20)) if k == "color_generator" else v) for k, v in a.items()}
    d = call(W.Drawer, conv, (drv,))
    b.world.parse(d)
    return drv.ops


@target("DrawerDriver", [("scale", 1., st.sampled_from([.5, 3.])), ("options", {}, st.sampled_from([{"point radius": .7}, {"display links": False}]))])
def _driver(call, case, tmp):
    W = fakes.visu("world_drawer")
    d = call(recording(W))
    return {k: (v if isinstance(v, bool) else arr(v)) for k, v in getattr(d, "_options", {}).items()}


@target("get_default_options", [("scale", 1., st.sampled_from([.5, 3.]))])
def _gdo(call, case, tmp):
    W = fakes.visu("world_drawer")
    return {k: (v if isinstance(v, bool) else arr(v)) for k, v in call(W.DrawerDriver.get_default_options).items()}


@target("ColorGenerator", [("_map", {}, st.just({"b1": [.1, .2, .3]})), ("nb_colors", 20, st.sampled_from([1, 7, 21]))])
def _cg(call, case, tmp):
    W = fakes.visu("world_drawer")
    from arboris.core import Body
    c = call(W.ColorGenerator, None, (), positional_only=("_map",))
    return [arr(c.get_color(Body("b%d" % i))) for i in range(25)]


def scene_target(module):
    @target("write_collada_scene/" + module, [("scale", 1, st.just(2.)), ("options", {}, st.just({"display links": False})), ("flat", False, st.just(True)), ("color_generator", None, st.just(3))], SIMW)
    def run(call, case, tmp):
        m = fakes.visu(module)
        W = fakes.visu("world_drawer")
        b = shaped(case["extra"])
        f = os.path.join(tmp, "s.dae")

        def conv(a):
            return {k: (W.ColorGenerator(nb_colors=v or len(b.world.getbodies())) if k == "color_generator" else v) for k, v in a.items()}
        call(m.write_collada_scene, conv, (b.world, f))
        return dae_digest(f)


def dae_digest(f):
    """the document, dates aside"""
    import xml.etree.ElementTree as ET
    out = []

    def walk(e):
        tag = e.tag.split("}")[-1]
        if tag in ("created", "modified", "contributor", "authoring_tool"):
            return
        out.append([tag, sorted(e.attrib.items()), (e.text or "").strip()])
        for c in e:
            walk(c)
    walk(ET.parse(f).getroot())
    return out


scene_target("dae_writer")
scene_target("visu_collada")


@target("write_collada_animation", [("file_type", "hdf5", st.just("hdf5")), ("hdf5_group", "/", st.just("sim")), ("precision", 8, st.sampled_from([2, 5]))], SIMW)
def _anim(call, case, tmp):
    from arboris.observers import Hdf5Logger
    m = fakes.visu("dae_writer")
    b = shaped(case["extra"])
    s, a, h = [os.path.join(tmp, x) for x in ("s.dae", "a.dae", "f.h5")]
    m.write_collada_scene(b.world, s)
    simulate(b.world, [Hdf5Logger(h), ])
    simulate(b.world, [Hdf5Logger(h, "sim")])
    call(m.write_collada_animation, None, (a, s, h))
    return dae_digest(a)


@target("URDFConverter", [("H_init", None, gen.pose().map(lambda p: ref.pose(p).tolist())), ("fixed_base", False, st.just(True)), ("prefix", "", st.just("p_")), ("suffix", "", st.just("_s")), ("root_joint_name", "root_joint", st.just("base")), ("save_joint_limits", True, st.just(False))], st.fixed_dictionaries({"lim": gen.num(.2, 2.), "m": gen.num(.1, 5.)}))
def _urdf(call, case, tmp):
    from arboris.core import World
    fakes.visu("")
    u = importlib.import_module("arboris.robots.urdf")
    f = os.path.join(tmp, "r.urdf")
    x = case["extra"]
    with open(f, "w") as out:
        out.write('<robot name="r"><link name="a"><inertial><mass value="%r"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>'
                  '<link name="b"><inertial><mass value="1"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>'
                  '<joint name="j" type="revolute"><parent link="a"/><child link="b"/><axis xyz="0 0 1"/><limit lower="-%r" upper="%r" effort="1" velocity="1"/></joint></robot>' % (x["m"], x["lim"], x["lim"]))
    w = World()
    c = call(u.URDFConverter, arrays("H_init"), (f, w))
    return world_digest(w)


def observer(cls, extra, make):
    @target(cls, [NAME], extra)
    def run(call, case, tmp):
        import arboris.observers as o
        w, before = make(case["extra"])
        x = call(getattr(o, cls), None, before)
        simulate(w, [x])
        return [x.name] + ([[None if r is None else arr(r) for r in x.get_record()]] if hasattr(x, "get_record") else [arr(x.time), arr(x.kinetic_energy)])


def observed(what):
    def make(spec):
        from arboris.constraints import JointLimits
        from arboris.shapes import Sphere
        from arboris.core import SubFrame
        b = build.world(spec)
        w = b.world
        if what == "joint":
            return w, (b.joints[0],)
        if what == "frame":
            return w, (b.bodies[-1],)
        if what == "bodies":
            return w, (b.bodies[1:],)
        if what == "shapes":
            far = np.eye(4)
            far[0:3, 3] = [31., 17., 23.]
            s = [Sphere(SubFrame(w.ground, far), .1), Sphere(b.bodies[-1], .2)]
            for x in s:
                w.register(x)
            w.init()
            return w, tuple(s)
        if what == "const":
            c = JointLimits(b.joints[0], [-5.] * b.joints[0].ndof, [5.] * b.joints[0].ndof)
            w.register(c)
            w.init()
            return w, (c,)
        return w, ()
    return make


ONE = gen.world(1, 2, mass_st=gen.mass(), subframes=0, types=["RxJoint", "TyJoint"])
for _c, _x, _w in (("EnergyMonitor", SIMW, "world"), ("RecordJointGpos", SIMW, "joint"), ("RecordJointGvel", SIMW, "joint"), ("RecordFramePose", SIMW, "frame"),
                   ("RecordFrameTwist", SIMW, "frame"), ("RecordConstForce", ONE, "const"), ("RecordDistance", SIMW, "shapes"), ("RecordCoMPosition", SIMW, "bodies")):
    observer(_c, _x, observed(_w))


@target("SaveLogger (subclass)", SAVE + [NAME], SIMW)
def _savelogger(call, case, tmp):
    from arboris.observers import SaveLogger

    class Mine(SaveLogger):
        """a logger of the user's: nothing else is recorded than what the base class keeps"""

        def finish(self):
            self.shown = plain(self._root)
    x = call(Mine)
    simulate(build.world(case["extra"]).world, [x])
    return [x.name, x.shown]


@target("_Recorder (subclass)", [NAME], SIMW)
def _recorder(call, case, tmp):
    from arboris.observers import _Recorder

    class Mine(_Recorder):
        def update(self, dt):
            self.save_data(dt)
    x = call(Mine)
    simulate(build.world(case["extra"]).world, [x])
    return [x.name, arr(x.get_record())]



class Server(object):
    """a socket which keeps how it is set up: nobody connects"""

    def __init__(self, *a, **k):
        self.log = {"timeout": None}

    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        self.log["timeout"] = t

    def bind(self, address):
        self.log["address"] = list(address)

    def listen(self, *a):
        self.log["listening"] = True

    def accept(self):
        raise socket.timeout("nobody")

    def close(self):
        self.log["closed"] = True


class Sockets(object):
    """all the sockets made meanwhile, and the programs started"""

    def __enter__(self):
        self.made, self.started = [], []
        self.keep = socket.socket, subprocess.Popen, tempfile.tempdir

        def make(*a, **k):
            self.made.append(Server())
            return self.made[-1]

        class Process(object):
            def __init__(me, args, *a, **k):
                self.started.append([str(x) for x in args])
                me.args, me.returncode = args, 0
                self.shown = None
                for x in args:
                    if str(x).endswith(".dae") and os.path.exists(x):
                        self.shown = dae_digest(x)

            def wait(me, *a, **k):
                return 0
            poll = wait

            def __enter__(me):
                return me

            def __exit__(me, *a):
                return False

            def kill(me):
                pass

            def communicate(me, *a, **k):
                return None, None
        socket.socket, subprocess.Popen = make, Process
        return self

    def __exit__(self, *a):
        socket.socket, subprocess.Popen, tempfile.tempdir = self.keep


SOCK = [("host", "127.0.0.1", st.sampled_from(["127.0.0.2", "10.0.0.1"])), ("port", 5000, st.integers(1024, 60000)), ("timeout", 3, st.sampled_from([.5, 7., 11]))]


@target("SocketCom (subclass)", SOCK + [NAME], SIMW)
def _socketcom(call, case, tmp):
    from arboris.observers import SocketCom

    class Mine(SocketCom):
        def update(self, dt):
            pass
    with Sockets() as s:
        x = call(Mine)
        simulate(build.world(case["extra"]).world, [x])
    return [x.name, x.host, x.port, [y.log for y in s.made]]


@target("DaenimCom", [("daefile", None, st.just("some.dae")), ("daenim_path", None, st.just("/nowhere/viewer"))] + SOCK + [("options", "", st.just("-a 1")), ("flat", False, st.just(True)), NAME], SIMW)
def _daenimcom(call, case, tmp):
    m = fakes.visu("visu_collada")
    with Sockets() as s:
        tempfile.tempdir = tmp
        x = call(m.DaenimCom)
        simulate(shaped(case["extra"]).world, [x])
    return [x.name, x.host, x.port, [y.log for y in s.made], [[("scratch" if z.startswith(tmp) else z) for z in y] for y in s.started], s.shown]


@target("pydaenimCom", [("browser", None, st.just("fox")), ("host", "127.0.0.1", st.just("10.0.0.1")), ("port", 5000, st.integers(1024, 60000)), ("timeout", 5, st.integers(1, 4)), ("flat", False, st.just(True)), NAME], SIMW)
def _pydaenimcom(call, case, tmp):
    m = fakes.visu("")
    made = m.pydaenim.pydaenimWebSocket.made
    calls = m.pydaenim.create_pydaenimViewer.__globals__["Viewer"].calls
    made[:], calls[:] = [], []

    class Timer(object):
        def __init__(self, delay, f, args=(), kwargs=None):
            self.a = f, args, kwargs or {}

        def start(self):
            self.a[0](*self.a[1], **self.a[2])
    keep, m.Timer = m.Timer, Timer
    try:
        x = call(m.pydaenimCom, None, ("some.dae",))
    finally:
        m.Timer = keep
    simulate(shaped(case["extra"]).world, [x])
    return [x.name, [[y.host, y.port, y.timeout, [json.loads(z) for z in y.messages]] for y in made], [[p, sorted(k.items())] for p, k in calls]]


@target("view", [("browser", None, st.just("fox"))], SIMW)
def _view(call, case, tmp):
    m = fakes.visu("")
    calls = m.pydaenim.create_pydaenimViewer.__globals__["Viewer"].calls
    calls[:] = []
    keep, tempfile.tempdir = tempfile.tempdir, tmp
    try:
        call(m.view, None, (shaped(case["extra"]).world,))
    finally:
        tempfile.tempdir = keep
    return [[dae_digest(p), sorted(k.items())] for p, k in calls]


@target("visu_collada.view", [("hdf5_file", None, st.just("h")), ("hdf5_group", "/", st.just("sim")), ("daenim_path", None, st.just("/nowhere/viewer"))], SIMW)
def _cview(call, case, tmp):
    from arboris.observers import Hdf5Logger
    m = fakes.visu("visu_collada")
    b = shaped(case["extra"])
    f, h = os.path.join(tmp, "s.dae"), os.path.join(tmp, "f.h5")
    m.write_collada_scene(b.world, f)
    simulate(b.world, [Hdf5Logger(h)])
    simulate(b.world, [Hdf5Logger(h, "sim")])
    with Sockets() as s:
        tempfile.tempdir = tmp
        call(m.view, lambda a: dict(a, **({"hdf5_file": h} if a.get("hdf5_file") else {})), (f,))
    return [[[("scratch" if z.startswith(tmp) else z) for z in y] for y in s.started], s.shown]


# -- the facets --------------------------------------------------------------------------------------------------------

def call_case(n):
    t = T[n]
    how = []
    for p in t.params:
        how.append(st.tuples(st.just(KEY), p[2]) if p[1] is REQ else st.one_of(st.tuples(st.just(OMIT), st.just(None)), st.tuples(st.just(OMIT), st.just(None)), st.tuples(st.just(KEY), p[2]), st.tuples(st.just(KEY), st.just(p[1]))))
    return st.fixed_dictionaries({"f": st.just(n), "args": st.tuples(*how).map(lambda x: [list(y) for y in x]), "npos": st.integers(0, len(t.params)), "extra": t.extra, "again": st.booleans()})


PUBLIC = ("gpos", "gvel", "mass", "viscosity", "kp", "kd", "gpos_des", "gvel_des", "half_extents", "coeffs")


def overwrite(x, seen=None):
    """the caller overwrites in place what it was given: the state of joints, the matrices of bodies, gains, arrays..."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f" and x.flags.writeable:
            x += 1.
    elif isinstance(x, (list, tuple)):
        for y in x:
            overwrite(y)
    elif hasattr(x, "getjoints") and hasattr(x, "iterbodies"):
        for y in list(x.getjoints()) + list(x.iterbodies()) + list(x.getshapes()):
            overwrite(y)
    elif type(x).__module__.startswith("arboris"):
        for k in PUBLIC:
            if isinstance(getattr(x, k, None), np.ndarray):
                overwrite(getattr(x, k))


def perform(case, ctx, tmp_first, tmp_full, tmp_part):
    t = T[case["f"]]
    names = [p[0] for p in t.params]
    given = {}
    for p, (how, v) in zip(t.params, case["args"]):
        if how != OMIT:
            given[p[0]] = v
    full = {p[0]: given.get(p[0], p[1]) for p in t.params}
    results = []

    def full_call(f, conv=None, before=(), keyword_only=(), positional_only=()):
        a = copy.deepcopy(full)
        a = conv(a) if conv else a
        pre = list(before)
        for k in positional_only:
            pre.append(a.pop(k))
        return f(*pre, **a)

    stats = {"omitted": 0, "positional": 0}

    def part_call(f, conv=None, before=(), keyword_only=(), positional_only=()):
        a = copy.deepcopy(given)
        a = conv(a) if conv else a
        pre = list(before)
        n = case["npos"]
        for i, k in enumerate(names):
            if k not in a or k in keyword_only or (i >= n and k not in positional_only):
                break
            pre.append(a.pop(k))
            stats["positional"] += 1
        for k in positional_only:
            # underscored names: by position only
            if k in a:
                pre.append(a.pop(k))
        stats["omitted"] = len(names) - len(given)
        r = f(*pre, **a)
        results.append([r, list(before)])
        return r
    if case.get("again"):
        # an earlier call, whose results were modified since
        t.run(part_call, case, tmp_first)
        overwrite(results)
        ctx.label("second call")
        stats["positional"] = 0
    want = t.run(full_call, case, tmp_full)
    got = t.run(part_call, case, tmp_part)
    return want, got, stats


def check(case, ctx):
    tmp = ctx.scratch()
    dirs = [os.path.join(tmp, x) for x in ("first", "full", "part")]
    for d in dirs:
        os.makedirs(d, exist_ok=True)
    try:
        want, got, stats = perform(case, ctx, *dirs)
    except np.linalg.LinAlgError:
        ctx.skip("singular")
    diff = same(want, got)
    require(diff is None, "%s called with %s (first %d by position) differs from the same call with every argument given by keyword, defaults as documented: %s"
            % (case["f"], [(p[0], v) for p, (h, v) in zip(T[case["f"]].params, case["args"]) if h != OMIT], case["npos"], diff))
    ctx.nt(stats["omitted"] > 0 or stats["positional"] > 0)
    ctx.label(case["f"])


COUNT = {"add_human36": 16, "icub.add": 16, "update_constraints": 40, "PickleLogger": 100, "Hdf5Logger": 100, "name_all_elements": 150, "DaenimCom": 40, "visu_collada.view": 40}


def _facet(n):
    # one facet per callable, so that all get their share
    def arguments(case, ctx):
        check(case, ctx)
    arguments.__name__ = "arguments_of_" + "".join(c if c.isalnum() else "_" for c in n)
    CHECK.facet(lambda: call_case(n), quick=COUNT.get(n, 40 if n.startswith("write_") else 60), shards=1, rule="an argument is left out or given by position")(arguments)


for _n in sorted(T):
    _facet(_n)
