"""C30: drawing a world places every element at its absolute pose."""
import colorsys
import importlib
import os
import sys
import types
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, build, ref
from vp.core import Check, close, require
from checks.c06 import apply_state
import arboris.core
import arboris.shapes
from arboris.core import SubFrame, MovingSubFrame, Body
from arboris.shapes import Sphere, Plane, Point, Box, Cylinder

CHECK = Check("C30")
ASSUMPTIONS = ["arboris.visu.world_drawer is loaded without running arboris/visu/__init__.py, which needs the optional pydaenim",
               "a link whose child frame is a moving subframe is refused by the drawer (documented in its code), and is not generated"]


def drawer_module():
    """arboris.visu.world_drawer, without the optional dependencies of its package"""
    try:
        return importlib.import_module("arboris.visu.world_drawer")
    except Exception:
        for k in [k for k in sys.modules if k.startswith("arboris.visu")]:
            del sys.modules[k]
        p = types.ModuleType("arboris.visu")
        p.__path__ = [os.path.join(os.path.dirname(arboris.core.__file__), "visu")]
        sys.modules["arboris.visu"] = p
        arboris.visu = p
        return importlib.import_module("arboris.visu.world_drawer")


WD = drawer_module()


# -- colours ----------------------------------------------------------------------------------------------------------

@CHECK.facet(lambda: st.fixed_dictionaries({"h": st.one_of(gen.num(0., 360., .1), st.sampled_from([0., 60., 120., 180., 240., 300., 360., 59.999, 300.001]), st.integers(0, 360)),
                                            "s": st.one_of(gen.num(0., 1.), st.sampled_from([0., 1.])), "v": st.one_of(gen.num(0., 1.), st.sampled_from([0., 1.]))}), quick=2000, shards=1, rule="s and v not zero")
def hsv(case, ctx):
    h, s, v = case["h"], case["s"], case["v"]
    ctx.nt(s > 0 and v > 0)
    got = WD.hsv_to_rgb((h, s, v))
    require(len(got) == 3, "rgb")
    close(list(got), list(colorsys.hsv_to_rgb((h % 360) / 360., s, v)), 1e-9, "hsv_to_rgb")


def color():
    return st.tuples(*[st.sampled_from([0., 1., .25, .5, .125])] * 3).map(list)


@CHECK.facet(lambda: st.fixed_dictionaries({"n": st.integers(1, 12), "bodies": st.integers(1, 8), "subs": st.lists(st.tuples(st.integers(0, 7), st.booleans()).map(list), max_size=5),
                                            "shapes": st.lists(st.tuples(st.integers(0, 12), st.integers(0, 4)).map(list), max_size=6), "named": st.lists(st.booleans(), min_size=20, max_size=20),
                                            "init": st.lists(st.tuples(st.integers(0, 18), st.booleans(), color()).map(list), max_size=4),
                                            "ops": st.lists(st.one_of(st.tuples(st.just("get"), st.integers(0, 18)).map(list), st.tuples(st.just("get"), st.integers(0, 18)).map(list),
                                                                      st.tuples(st.just("set"), st.integers(0, 18), st.booleans(), color()).map(list)), min_size=1, max_size=25)}), quick=2000, shards=2,
             rule="some colour comes from the palette, some is set")
def colors(case, ctx):
    """a colour generator against its model: object, then name, then body, then palette, then white"""
    objs, parent = [], {}

    def name():
        return "n%d" % len(objs) if case["named"][len(objs) % 20] else None
    bodies = []
    for i in range(case["bodies"]):
        b = Body(name=name())
        bodies.append(b)
        objs.append(b)
    frames = list(bodies)
    for k, mv in case["subs"]:
        b = bodies[k % len(bodies)]
        f = (MovingSubFrame if mv else SubFrame)(b, ref.trans(0., 0., 1.), name())
        parent[id(f)] = b
        frames.append(f)
        objs.append(f)
    for k, t in case["shapes"]:
        f = frames[k % len(frames)]
        s = [Sphere, Point, Box, Cylinder, Plane][t](f, name=name())
        parent[id(s)] = f if isinstance(f, Body) else parent[id(f)]
        objs.append(s)
    n = case["n"]
    by_obj, by_name = {}, {}

    def put(k, use_name, c):
        o = objs[k % len(objs)]
        if use_name and o.name is not None:
            by_name[o.name] = tuple(c)
            return o.name
        by_obj[id(o)] = tuple(c)
        return o
    init = {}
    for k, u, c in case["init"]:
        init[put(k, u, c)] = c
    g = WD.ColorGenerator(init, nb_colors=n) if init else WD.ColorGenerator(nb_colors=n)
    palette = set(tuple(np.round(colorsys.hsv_to_rgb(k / float(n), .9, .9), 9)) for k in range(n))
    left = set(palette)
    gen_, set_ = False, False

    def want(o):
        if id(o) in by_obj:
            return by_obj[id(o)]
        if o.name is not None and o.name in by_name:
            return by_name[o.name]
        if isinstance(o, Body):
            return None
        return want(parent[id(o)])
    for op in case["ops"]:
        if op[0] == "set":
            key = put(op[1], op[2], op[3])
            g.set_color(key, op[3])
            set_ = True
            continue
        o = objs[op[1] % len(objs)]
        c = g.get_color(o)
        require(len(c) == 3 and all(0. <= x <= 1. for x in c), "colour %s" % (c,))
        x = want(o)
        if x is not None:
            close(list(c), list(x), 1e-12, "colour of %s" % type(o).__name__)
            continue
        # a new colour for the body, of the palette as long as it lasts
        b = o if isinstance(o, Body) else parent[id(o)]
        gen_ = True
        r = tuple(np.round(c, 9))
        if left:
            near = [p for p in left if np.abs(np.array(p) - r).max() < 1e-6]
            require(len(near) == 1, "new colour %s is not an unused one of the palette" % (r,))
            left.discard(near[0])
        else:
            close(list(c), [1., 1., 1.], 1e-12, "colour when the palette is exhausted")
        by_obj[id(b)] = tuple(c)
        close(list(g.get_color(b)), list(c), 1e-12, "colour of the body")
    ctx.nt(gen_ and set_)


# -- drawing ----------------------------------------------------------------------------------------------------------

class Node(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.kids = []
        self.parent = None
        self.__dict__.update(kw)


class Minimal(WD.DrawerDriver):
    """only what a driver has to define"""

    def __init__(self, *args, **kw):
        WD.DrawerDriver.__init__(self, *args, **kw)
        self.nodes = []
        self.up = None
        self.finished = 0

    def _new(self, kind, **kw):
        n = Node(kind, **kw)
        self.nodes.append(n)
        return n

    def add_ground(self, up):
        require(self.up is None, "one ground")
        self.up = up
        self.ground = self._new("ground")
        return self.ground

    def init(self):
        pass

    def finish(self):
        self.finished += 1

    def create_transform(self, pose, is_constant, name=None):
        return self._new("transform", pose=np.array(pose, float), constant=is_constant, name=name)

    def create_inertia(self, inertia, color, name=None):
        return self._new("inertia", inertia=np.array(inertia), color=color, name=name)

    def create_frame_arrows(self):
        return self._new("arrows")

    def create_line(self, start, end, color, name=None):
        return self._new("line", start=np.array(start, float), end=np.array(end, float), color=color)

    def create_ellipsoid(self, radii, color, name=None):
        return self._new("ellipsoid", size=list(radii), color=color, name=name)

    def create_box(self, half_extents, color, name=None):
        return self._new("box", size=list(half_extents), color=color, name=name)

    def create_plane(self, coeffs, color, name=None):
        return self._new("plane", size=list(coeffs), color=color, name=name)

    def create_cylinder(self, length, radius, color, name=None):
        return self._new("cylinder", size=[length, radius], color=color, name=name)

    def add_child(self, parent, child, category=None):
        require(child.parent is None, "%s has two parents" % child.kind)
        require(parent.kind in ("ground", "transform"), "%s under a %s" % (child.kind, parent.kind))
        child.parent, child.category = parent, category
        parent.kids.append(child)


class Full(Minimal):
    def create_sphere(self, radius, color, name=None):
        return self._new("sphere", size=[radius], color=color, name=name)

    def create_point(self, color, name=None):
        return self._new("point", size=[], color=color, name=name)


def shapes():
    return st.lists(st.fixed_dictionaries({"on": st.integers(0, 20), "k": st.sampled_from(["Sphere", "Point", "Box", "Cylinder", "Plane"]), "d": st.lists(gen.num(.01, 2.), min_size=3, max_size=3), "n": gen.mix(gen.vec(3, -1., 1.), gen.vec(3, -1., 1.), gen.vec(3, -1., 1.), st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]])),
                                              "sg": st.sampled_from([1., -1., 1., -1., 0.])}), max_size=5)


@st.composite
def scene(draw, shapes_st=shapes, mass_st=None, **kw):
    w = draw(gen.world(0, 5, mass_st=mass_st or gen.mass(zero=True), subframes=4, **kw))
    return {"w": w, "shapes": draw(shapes_st()), "shared": draw(st.lists(st.booleans(), min_size=5, max_size=5))}


def dims(s):
    d = s["d"]
    if s["k"] == "Sphere":
        return [d[0]]
    if s["k"] == "Point":
        return []
    if s["k"] == "Box":
        return list(d)
    if s["k"] == "Cylinder":
        return d[:2]
    n = np.array(s["n"])
    if np.linalg.norm(n) < .1:
        n = np.array([0., 0., 1.])
    return list(n / np.linalg.norm(n)) + [d[0] * s["sg"]]


def make_scene(case, names=True):
    """the world of the case; every frame has a name of its own"""
    w = case["w"]
    b = build.world(w, names=names)
    frames = list(b.bodies) + list(b.subs) + [f for f in b.f0 + b.f1 if not isinstance(f, Body)]
    b.shapes = []
    for k, s in enumerate(case["shapes"]):
        f = frames[s["on"] % len(frames)]
        d = dims(s)
        a = {"Sphere": lambda n: Sphere(f, d[0], n), "Point": lambda n: Point(f, n), "Box": lambda n: Box(f, tuple(d), n), "Cylinder": lambda n: Cylinder(f, d[0], d[1], n), "Plane": lambda n: Plane(f, tuple(d), n)}[s["k"]]
        x = a("shape%d" % k if names else None)
        b.world.register(x)
        b.shapes.append((x, s["k"], d, f))
    b.world.init()
    return b, frames


def absolute(n):
    H = np.eye(4)
    while n.kind == "transform":
        H = n.pose.dot(H)
        n = n.parent
        if n is None:
            require(False, "a transform has no parent")
    return H


@CHECK.facet(lambda: st.fixed_dictionaries({"s": scene(mass_st=gen.mass(zero=True, light=True)), "flat": st.booleans(), "full": st.booleans(), "scale": st.sampled_from([1., 2., .5]), "opt": st.booleans(), "colors": st.sampled_from(["default", "few", "given"]), "fixed": st.booleans(),
                                            "then": st.lists(st.tuples(gen.pose(1.), gen.vec(3, -2., 2.)).map(list), min_size=5, max_size=5), "mv": gen.pose(1.)}), quick=1500, shards=6,
             rule="at least two bodies and a subframe or a shape")
def drawing(case, ctx):
    b, frames = make_scene(case["s"])
    w = b.world
    flat = case["flat"]
    opts = {"point radius": .3, "mine": 1} if case["opt"] else None
    drv = (Full if case["full"] else Minimal)(case["scale"], opts)
    g = None
    if case["colors"] == "few":
        g = WD.ColorGenerator(nb_colors=2)
    elif case["colors"] == "given":
        g = WD.ColorGenerator({"body0": (1., 0., 0.), w.ground: (0., 1., 0.), "sub0": (.5, .5, 0.), "shape0": (0., 0., 1.)}, nb_colors=30)
    d = WD.Drawer(drv, flat) if g is None else WD.Drawer(drv, flat=flat, color_generator=g)
    w.update_geometric()
    w.parse(d)
    require(drv.finished == 0, "finish is not called before the end")
    d.finish()
    require(drv.finished == 1, "finish")
    close(drv.up, w.up, 0., "up")
    n = len(b.bodies) - 1
    ctx.nt(n >= 2 and (len(b.shapes) > 0 or len(b.subs) > 0))
    ctx.label("flat" if flat else "tree")
    tr = [x for x in drv.nodes if x.kind == "transform"]
    by = {}
    for x in tr:
        require(x.name not in by, "two nodes for %s" % x.name)
        by[x.name] = x
    want = [f for f in frames if f is not w.ground]
    require(set(by) == set(f.name for f in want), "nodes: %s" % sorted(set(by) ^ set(f.name for f in want)))
    movable = set()
    far = dict((j.frame1.name, j) for j in b.joints)
    for f in want:
        x = by[f.name]
        close(absolute(x), f.pose, 1e-9, "absolute transform of %s" % f.name)
        mv = isinstance(f, MovingSubFrame) or (isinstance(f, Body) if flat else f.name in far)
        require(x.constant == (not mv), "%s is marked as %s" % (f.name, "constant" if x.constant else "movable"))
    node = lambda f: drv.ground if f is w.ground else by[f.name]
    # inertias
    inertias = [x for x in drv.nodes if x.kind == "inertia"]
    heavy = [i for i, l in enumerate(case["s"]["w"]["links"]) if l["mass"] is not None]
    require(len(inertias) == len(heavy), "%d inertias instead of %d" % (len(inertias), len(heavy)))
    bc = {}
    for i in heavy:
        body = b.bodies[i + 1]
        got = [x for x in node(body).kids if x.kind == "inertia"]
        require(len(got) == 1 and got[0].category == "inertia", "inertia of %s" % body.name)
        sc = np.abs(body.mass).max()
        close(got[0].inertia / sc, body.mass / sc, 1e-12, "inertia of %s" % body.name)
        require(got[0].name == body.name, "name of the inertia: %r" % got[0].name)
        bc[body.name] = tuple(got[0].color)
    # shapes
    left = [x for x in drv.nodes if x.kind in ("sphere", "point", "ellipsoid", "box", "plane", "cylinder")]
    require(len(left) == len(b.shapes), "%d shapes instead of %d" % (len(left), len(b.shapes)))
    pr = .3 if case["opt"] else .008 * case["scale"]
    for s, k, dd, f in b.shapes:
        kind = k.lower()
        if not case["full"] and kind in ("sphere", "point"):
            kind, dd = "ellipsoid", [dd[0] if k == "Sphere" else pr] * 3
        got = [x for x in node(f).kids if x in left and x.kind == kind and len(x.size) == len(dd) and np.allclose(x.size, dd, 1e-9, 1e-12)]
        require(got, "no %s of size %s on %s" % (kind, dd, f.name))
        x = ([y for y in got if y.name == s.name] or got)[0]
        require(x.category == "shape", "category %r" % x.category)
        require(x.name == s.name, "%s is drawn under the name %s" % (s.name, x.name))
        left.remove(x)
        body = f if isinstance(f, Body) else f.body
        if g is not None and case["colors"] == "given" and (s.name == "shape0" or (s.frame.body is b.bodies[1] if n else False) or body is w.ground):
            # colours are those of the object, else of its body
            c = (0., 0., 1.) if s.name == "shape0" else (0., 1., 0.) if body is w.ground else (1., 0., 0.)
            close(list(x.color), list(c), 1e-12, "colour of %s" % s.name)
        elif s.name != "shape0" or case["colors"] != "given":
            if body.name in bc:
                close(list(x.color), list(bc[body.name]), 1e-12, "colour of %s, on %s" % (s.name, body.name))
            bc[body.name] = tuple(x.color)
    if case["colors"] != "few":
        require(len(set(bc.values())) == len(bc), "bodies have distinct colours: %s" % bc)
    # decoration: arrows on each frame, lines along constant offsets
    for x in tr:
        require(len([y for y in x.kids if y.kind == "arrows"]) == 1, "one set of arrows on %s" % x.name)
    lines = [x for x in drv.nodes if x.kind == "line"]
    offs = [x for x in tr if x.constant and np.linalg.norm(x.pose[:3, 3]) > 0]
    require(len(lines) == len(offs), "%d links drawn instead of %d" % (len(lines), len(offs)))
    for x in offs:
        ends = [y for y in x.parent.kids if y.kind == "line" and np.abs(y.start).max() == 0 and np.abs(y.end - x.pose[:3, 3]).max() < 1e-12]
        require(ends, "no link from the parent of %s to it" % x.name)
        require(all(y.category == "link" for y in ends), "category of links")
    # a program which animates the scene finds the node to move for each joint and each moving subframe
    keys = list(w.itermovingsubframes()) + ([] if flat else list(b.joints))
    require(set(id(k) for k in keys) == set(id(k) for k in d.transform_nodes), "nodes to move: %d instead of %d" % (len(d.transform_nodes), len(keys)))
    for k in keys:
        require(d.transform_nodes[k] is by[k.frame1.name if k in b.joints else k.name], "the node to move for %s is another one" % k.name)
    # the movable nodes are enough to follow the world in any state, with the transforms that loggers save
    links = case["s"]["w"]["links"]
    for i, l in enumerate(links):
        s = case["then"][i % 5]
        if l["jt"] == "FreeJoint":
            l["q"] = s[0]
        else:
            l["q"] = (s[1] * 2)[:ref.NDOF[l["jt"]]]
        l["v"] = [0.] * ref.NDOF[l["jt"]]
    apply_state(b, links)
    for f in w.itermovingsubframes():
        f.bpose = ref.pose(case["mv"])
    w.update_geometric()
    for f in want:
        x = by[f.name]
        if x.constant:
            continue
        if isinstance(f, MovingSubFrame):
            x.pose = f.pose if flat else f.bpose
        else:
            x.pose = f.pose if flat else far[f.name].pose
    for f in want:
        close(absolute(by[f.name]), f.pose, 1e-9, "absolute transform of %s after a motion" % f.name)


@CHECK.facet(lambda: st.fixed_dictionaries({"scale": st.one_of(gen.num(.01, 20.), st.sampled_from([1., .5, 1e-3, 1e3])), "over": st.dictionaries(st.sampled_from(["display links", "point radius", "force length", "inertia factor"]), st.sampled_from([0.25, 2., True, False]), max_size=3)}), quick=200, shards=1, rule="a scale other than 1")
def options(case, ctx):
    """sizes are proportional to the scale, options given replace the defaults and leave the other drivers alone"""
    W = WD
    s = case["scale"]
    one, got = W.DrawerDriver.get_default_options(), W.DrawerDriver.get_default_options(s)
    require(sorted(one) == sorted(got), "the options depend on the scale")
    for k in one:
        if isinstance(one[k], bool):
            require(got[k] is one[k], "%s depends on the scale" % k)
        else:
            close(np.array(got[k], float), s * np.array(one[k], float), 1e-12 * s, k)
            require((np.array(one[k], float) > 0).all(), k)
    over = dict(case["over"])
    d = Minimal(s, over)
    if not hasattr(d, "_options"):
        # the attribute drivers read their options from has another name
        ctx.skip("options kept elsewhere")
        return
    require(over == case["over"], "the options given are modified")
    for k in got:
        require(d._options[k] == over.get(k, got[k]), "option %s is %r" % (k, d._options[k]))
    other = Minimal(s)
    require(all(other._options[k] == got[k] for k in got), "options of one driver reach another")
    ctx.nt(s != 1.)
