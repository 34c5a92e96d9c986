"""C31: collada scenes and animations reproduce the world."""
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, build, ref, sim, dae, fakes
from vp.core import Check, close, require
from checks.c30 import scene, make_scene, color
from arboris.core import MovingSubFrame, Body, simulate
from arboris.core import Observer

CHECK = Check("C31")
ASSUMPTIONS = ["the optional pydaenim package, imported by arboris.visu, is replaced by a stand-in which starts nothing",
               "the documents are read back with an independent reader (ElementTree), which follows the collada 1.4 specification",
               "mesh files given to add_shapes_to_dae have geometry, material and effect identifiers of their own",
               "frames have distinct names (or none)"]
TOL = 1e-5


def writers():
    return {"dae": fakes.visu("dae_writer"), "visu": fakes.visu("visu_collada")}


def movable(b, flat):
    """{body: the frame whose node moves with it}"""
    res = {b.bodies[0]: None}
    for j, x in zip(b.joints, b.bodies[1:]):
        res[x] = x if flat else j.frame1
    return res


def is_shape(kind, size, p, plane_he):
    """are these vertices (in the shape's frame) those of the shape"""
    size = list(size)
    if kind in ("Sphere", "Point"):
        r = np.linalg.norm(p, axis=1)
        return len(p) >= 12 and np.abs(r - size[0]).max() < 1e-4 * size[0] and np.abs(p.mean(0)).max() < .1 * size[0] and np.abs(np.ptp(p, axis=0) - 2 * size[0]).max() < .2 * size[0]
    if kind == "Box":
        h = np.array(size)
        corners = set(tuple(x) for x in np.round(p / h).astype(int)) if np.isfinite(p / h).all() and np.abs(p / h).max() < 2 else set()
        return len(corners) == 8 and np.abs(np.abs(p) - h).max() < TOL
    if kind == "Cylinder":
        L, r = size
        return len(p) >= 12 and np.abs(np.hypot(p[:, 0], p[:, 1]) - r).max() < TOL * max(1, r) and np.abs(np.abs(p[:, 2]) - L / 2).max() < TOL and p[:, 2].min() < 0 < p[:, 2].max()
    n, d = np.array(size[:3]), size[3]
    if np.abs(p.dot(n) - d).max() > TOL or len(p) != 4:
        return False
    v = p - d * n
    far = np.hypot(*plane_he)
    if np.abs(np.linalg.norm(v, axis=1) - far).max() > TOL:
        return False
    dist = sorted(np.linalg.norm(v[i] - v[k]) for i in range(4) for k in range(i))
    return np.abs(np.array(dist) - sorted([2 * plane_he[0]] * 2 + [2 * plane_he[1]] * 2 + [2 * far] * 2)).max() < TOL


def inframe(H, v):
    return (v - H[:3, 3]).dot(H[:3, :3])


def some_light():
    """masses, some of a hundredth of the others"""
    m = gen.mass(zero=True)
    return gen.mix(m, m, m, m.map(lambda x: gen.scale_mass(x, -2)))


def scene_case(**kw):
    return st.fixed_dictionaries(dict({"s": scene(mass_st=some_light()), "flat": st.booleans(), "names": st.booleans(), "writer": st.sampled_from(["dae", "visu"]), "clash": st.lists(st.integers(0, 25), max_size=3)}, **kw))


def named_scene(case):
    """the world; some shapes have the name of a frame"""
    b, frames = make_scene(case["s"], names=case["names"])
    if case["names"]:
        for (x, k, d, f), c in zip(b.shapes, case["clash"]):
            other = frames[c % len(frames)]
            x.name = other.name
            b.clash = True
    return b, frames


def check_scene(case, ctx):
    m = writers()[case["writer"]]
    wd = fakes.visu("world_drawer")
    b, frames = named_scene(case)
    w = b.world
    flat = case["flat"]
    path = os.path.join(ctx.scratch(), "scene.dae")
    kw = {}
    defaults = wd.DrawerDriver.get_default_options(case["scale"])
    if case["scale"] != 1.:
        kw["scale"] = case["scale"]
    if case["options"]:
        kw["options"] = {"point radius": .25, "plane half extents": (1.5, .75), "inertia factor": 2., "frame arrows length": .5}
        defaults.update(kw["options"])
    given = {}
    if case["colors"] == "given":
        given = {w.ground: (0., 1., 0.)}
        if len(b.bodies) > 1:
            given[b.bodies[1]] = (.25, 0., 1.)
        for x in b.shapes[:1]:
            given[x[0]] = (.5, .5, .5)
    if case["colors"] == "many":
        # a color for each body and some of the shapes
        objs = [f for f in b.bodies] + [x[0] for i, x in enumerate(b.shapes) if i % 2]
        given = dict((x, (round(i / 80., 6), round((i * 7 % 80) / 80., 6), .5)) for i, x in enumerate(objs))
    if case.get("state") == "new":
        given = {}
    if given:
        kw["color_generator"] = wd.ColorGenerator(given, nb_colors=20)
    w.update_geometric()
    before = [np.array(f.pose) for f in frames]
    if case.get("state") == "moved":
        # the poses were last computed in another configuration
        for j in b.joints:
            q = j.gpos
            j.gpos = q.dot(ref.trans(.1, .2, .3)) if q.shape == (4, 4) else q + .3
        w.update_dynamic()
        for j, l in zip(b.joints, case["s"]["w"]["links"]):
            j.gpos = build.make_joint(l).gpos
    elif case.get("state") == "new":
        b, frames = named_scene(case)
        assert not given
        w = b.world
    m.write_collada_scene(w, path, flat=flat, **kw)
    w.update_geometric()
    for f, p in zip(frames, before):
        close(f.pose, p, 1e-12, "writing a scene does not move the world")
    doc = dae.Doc(path)
    require(not doc.duplicate_ids, "identifiers used twice: %s" % doc.duplicate_ids)
    require(doc.up == "Y_UP", "up axis %s" % doc.up)
    n = len(b.bodies) - 1
    ctx.nt(n >= 2 and len(b.shapes) > 0)
    ctx.label(case["writer"] + (" flat" if flat else " tree"))
    if getattr(b, "clash", False):
        ctx.label("names shared by shapes and frames")
    # frames
    mv = movable(b, flat)
    moving = dict((f.name, f) for f in mv.values() if f is not None)
    for f in w.itermovingsubframes():
        moving[f.name] = f
    require(None not in moving, "moving frames all have a name")
    for f in frames:
        if f.name is None:
            require(not case["names"] and f.name not in moving, "unnamed frame")
            continue
        if not case["names"] and f.name not in moving and f is not w.ground:
            continue
        require(f.name in doc.by_id, "no node for %s" % f.name)
        x = doc.by_id[f.name]
        close(x.H, f.pose, 1e-7, "absolute transform of the node of %s" % f.name)
        require(len(x.transforms) == 1 and dae.local(x.transforms[0][0]) == "matrix" and x.transforms[0][0].get("sid") == "matrix", "the node of %s has one matrix" % f.name)
    anchors = set(moving) | {"ground"}
    top = doc.by_id["ground"]
    require(top.parent is None and np.abs(top.H - np.eye(4)).max() == 0, "ground")
    for name, f in moving.items():
        x = doc.by_id[name]
        up = doc.frame_of(x.parent, anchors)
        require(up is not None, "%s is under the ground" % name)
        if flat:
            require(up.id == "ground", "%s is under %s in a flat scene" % (name, up.id))
        elif isinstance(f, MovingSubFrame):
            a = mv[f.body]
            require(up.id == (a.name if a is not None else "ground"), "%s is under %s" % (name, up.id))
        else:
            j = b.joints[[k.frame1 for k in b.joints].index(f)]
            a = j.frame0 if isinstance(j.frame0, MovingSubFrame) else mv[j.frame0.body]
            require(up.id == (a.name if a is not None else "ground"), "%s is under %s" % (name, up.id))
    # shapes
    left = list(doc.shapes)
    if case["writer"] == "visu":
        left = [s for s in left if "shape" in s.node.notes]
    require(len(left) == len(b.shapes), "%d shapes drawn instead of %d" % (len(left), len(b.shapes)))
    bc = dict((x, given[x]) for x in given if isinstance(x, Body))
    names_ = [f.name for f in frames] + [x[0].name for x in b.shapes]
    for k, (x, kind, size, f) in enumerate(b.shapes):
        if kind == "Point":
            size = [defaults["point radius"]]
        a = f if isinstance(f, MovingSubFrame) else mv[f.body]
        an = a.name if a is not None else "ground"
        got = [s for s in left if is_shape(kind, size, inframe(f.pose, s.vertices), defaults["plane half extents"]) and doc.frame_of(s.node, anchors).id == an]
        require(got, "%s %s of %s is not in the scene" % (kind, size, f.name))
        c = [s for s in got if len(s.colors) == 1 and np.allclose(s.colors[0], given.get(x, bc.get(f.body, s.colors[0])), atol=1e-6)]
        require(c, "colours %s of %s, given %s" % ([s.colors for s in got], x.name, given.get(x, bc.get(f.body))))
        if x.name is not None and names_.count(x.name) == 1:
            # another shape may look the same
            c = [s for s in c if s.node.id == x.name]
            require(c, "the node of the %s %s does not have this name" % (kind, x.name))
        left.remove(c[0])
        if x not in given and len(got) == 1:
            bc.setdefault(f.body, c[0].colors[0])
    if not given:
        cs = [tuple(np.round(x, 6)) for x in bc.values()]
        require(len(set(cs)) == len(cs), "bodies have distinct colours: %s" % cs)
    # masses
    heavy = [b.bodies[i + 1] for i, l in enumerate(case["s"]["w"]["links"]) if l["mass"] is not None]
    rigid = [e for e in doc.root.iter(dae.q("rigid_body"))]
    nheavy = len(heavy)
    require(len(rigid) == nheavy, "%d rigid bodies instead of %d" % (len(rigid), nheavy))
    for e in rigid:
        sid = e.get("sid") or None
        same = [x for x in heavy if x.name == sid]
        require(same, "rigid body of %r" % sid)
        t = e.find(dae.q("technique_common"))
        H = np.eye(4)
        for c in t.find(dae.q("mass_frame")):
            H = H.dot(dae.transform(c))
        I = np.diag(dae.floats(t.find(dae.q("inertia"))))
        mass = float(t.find(dae.q("mass")).text)
        M = np.zeros((6, 6))
        M[:3, :3], M[3:, 3:] = I, mass * np.eye(3)
        iH = np.linalg.inv(H)
        A = ref.Ad(np.linalg.inv(H))
        M = A.T.dot(M).dot(A)
        got = min(same, key=lambda x: np.abs(x.mass - M).max())
        sc = np.abs(got.mass).max()
        close(M / sc, got.mass / sc, TOL, "mass matrix of %s" % sid)
        heavy.remove(got)
    if case["writer"] == "visu":
        decoration(doc, b, frames, defaults, nheavy, anchors, mv, case)


def decoration(doc, b, frames, opt, nheavy, anchors, mv, case):
    """what only the daenim scenes have: arrows, links and inertias"""
    arrows = [s for s in doc.shapes if s.geom == "frame_arrows_geometry-mesh"]
    want = [f for f in frames if f is not b.world.ground]
    s = opt["frame arrows length"]
    P = np.vstack([np.zeros(3), s * np.eye(3)])
    require(len(arrows) == len(want), "%d frame arrows instead of %d" % (len(arrows), len(want)))
    left = list(arrows)
    for f in want:
        got = [a for a in left if all(np.abs(inframe(f.pose, a.vertices) - x).sum(1).min() < TOL for x in P)]
        require(got, "no arrows on %s" % f.name)
        left.remove(got[0])
    # links go from a frame to the origin of one with a constant place on the same body
    lines = [x for x in doc.shapes if "link" in x.node.notes]
    nl = 0
    for f in want:
        if isinstance(f, MovingSubFrame):
            continue
        if not case["flat"] and isinstance(f, Body) and mv[f] is not f:
            a, c = mv[f], f
        elif not isinstance(f, Body) and not (not case["flat"] and f in mv.values()):
            a, c = f.body, f
        else:
            continue
        if np.linalg.norm(c.pose[:3, 3] - a.pose[:3, 3]) == 0 or np.abs(f.bpose[:3, 3] if not isinstance(f, Body) else mv[f].bpose[:3, 3]).max() == 0:
            continue
        nl += 1
        ends = np.array([a.pose[:3, 3], c.pose[:3, 3]])
        require(any(len(x.vertices) == 2 and np.abs(x.vertices - ends).max() < TOL for x in lines), "no link from %s to %s" % (a.name, c.name))
    require(len(lines) == nl, "%d links instead of %d" % (len(lines), nl))
    ine = [x for x in doc.shapes if "inertia" in x.node.notes]
    require(len(ine) == nheavy, "%d inertias instead of %d" % (len(ine), nheavy))
    k = opt["inertia factor"]
    left = list(ine)
    for i, l in enumerate(case["s"]["w"]["links"]):
        if l["mass"] is None:
            continue
        body = b.bodies[i + 1]
        M = body.mass
        m = M[5, 5]
        S = M[:3, 3:] / m  # skew of the center of mass
        c = np.array([S[2, 1], S[0, 2], S[1, 0]])
        J = M[:3, :3] + m * S.dot(S)
        ok = [x for x in left if np.abs(np.linalg.norm(np.linalg.solve(k * J, (inframe(body.pose, x.vertices) - c).T), axis=0) - 1.).max() < 1e-3]
        require(ok, "inertia of %s" % body.name)
        a = mv[body]
        require(doc.frame_of(ok[0].node, anchors).id == (a.name if a is not None else "ground"), "inertia of %s" % body.name)
        left.remove(ok[0])


@CHECK.facet(lambda: st.fixed_dictionaries({"H": gen.pose(), "lines": st.lists(st.fixed_dictionaries({"a": gen.vec(3, -2., 2.), "b": gen.vec(3, -2., 2.), "c": color(), "kind": st.sampled_from(["array", "list", "tuple"])}), min_size=1, max_size=4), "scale": gen.num(.5, 2.)}), quick=80, shards=2, rule="a line starts away from its frame's origin")
def lines(case, ctx):
    """a driver used on its own: lines go from where they start to where they end"""
    path = os.path.join(ctx.scratch(), "lines.dae")
    drv = fakes.visu("visu_collada").DaenimColladaDriver(path, case["scale"])
    g = drv.add_ground(np.array([0., 1., 0.]))
    H = ref.pose(case["H"])
    node = drv.create_transform(H, True, "frame")
    drv.add_child(g, node)
    want = []
    for l in case["lines"]:
        a, e = np.array(l["a"]), np.array(l["b"])
        if np.linalg.norm(a - e) < 1e-6:
            continue
        k = {"array": np.array, "list": list, "tuple": tuple}[l["kind"]]
        drv.add_child(node, drv.create_line(k(l["a"]), k(l["b"]), tuple(l["c"])), "link")
        want.append(np.array([H[:3, :3].dot(x) + H[:3, 3] for x in (a, e)]))
        if np.abs(a).max() > 1e-3:
            ctx.nt()
    drv.finish()
    got = [x for x in dae.Doc(path).shapes if "link" in x.node.notes]
    require(len(got) == len(want), "%d lines instead of %d" % (len(got), len(want)))
    for x, w, l in zip(got, want, case["lines"]):
        close(x.vertices, w, TOL * (1 + np.abs(w).max()), "ends of a line")


@CHECK.facet(lambda: scene_case(state=st.sampled_from(["", "", "moved", "moved", "new"]), scale=st.sampled_from([1., 1., 2., .5]), options=st.booleans(), colors=st.sampled_from(["default", "given"])), quick=700, shards=6, rule="at least two bodies and a shape")
def scenes(case, ctx):
    check_scene(case, ctx)


@st.composite
def _crowd(draw):
    """a scene with many bodies, each of them with a shape"""
    n = draw(st.integers(7, 30))
    par = draw(st.lists(st.integers(0, 30), min_size=n, max_size=n))
    jt = draw(st.lists(st.sampled_from(["RzJoint", "RxJoint", "TyJoint"]), min_size=n, max_size=n))
    chain = draw(st.booleans())
    links = [{"jt": jt[i], "q": [.1 * (i + 1)], "v": [0.], "parent": i if chain else min(par[i], i), "f0": None, "f1": None, "mass": None, "visc": None} for i in range(n)]
    sh = [{"on": i + 1, "k": "Sphere" if i % 3 else "Box", "d": [.01 * (i + 1), .02, .03], "n": [0., 0., 1.]} for i in range(n)]
    return {"s": {"w": {"links": links, "subs": []}, "shapes": sh, "shared": [False] * 5}, "flat": draw(st.booleans()), "names": draw(st.booleans()), "writer": draw(st.sampled_from(["dae", "visu"])),
            "clash": [], "scale": 1., "options": False, "colors": draw(st.sampled_from(["default", "many"]))}


@CHECK.facet(_crowd, quick=60, shards=2, rule="more than nine bodies")
def crowds(case, ctx):
    """scenes with many bodies, shapes and colours"""
    check_scene(case, ctx)
    ctx.nt(len(case["s"]["w"]["links"]) > 9)


UP = {"X_UP": [1., 0., 0.], "Y_UP": [0., 1., 0.], "Z_UP": [0., 0., 1.]}


@CHECK.facet(lambda: st.fixed_dictionaries({"up": st.one_of(st.sampled_from(sorted(UP)), gen.vec(3, -1., 1.)), "array": st.booleans(), "writer": st.sampled_from(["dae", "visu"])}), quick=200, shards=1, rule="not the default")
def up_axis(case, ctx):
    """the up axis of the document; one that collada does not know is replaced with the default, with a warning"""
    import warnings
    m = writers()[case["writer"]]
    path = os.path.join(ctx.scratch(), "up.dae")
    d = (m.pydaenimColladaDriver if case["writer"] == "dae" else m.DaenimColladaDriver)(path)
    up = UP.get(case["up"] if isinstance(case["up"], str) else None, case["up"])
    want = ([k for k in UP if UP[k] == list(up)] + ["Y_UP"])[0]
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        d.add_ground(np.array(up))
    known = list(up) in UP.values()
    ctx.nt(want != "Y_UP" or not known)
    require(known or any("up" in str(r.message) for r in rec), "no warning for the up axis %s" % (up,))
    d.finish()
    require(dae.Doc(path).up == want, "up axis %s for %s" % (dae.Doc(path).up, up))


# -- animations -------------------------------------------------------------------------------------------------------

def evaluate(doc, k, anim):
    """absolute matrices of the named nodes of the scene at step k"""
    res = {}

    def rec(n, H):
        L = np.eye(4)
        for e, T in n.transforms:
            t = "%s/%s" % (n.id, e.get("sid"))
            L = L.dot(anim[t][1][k].reshape(4, 4) if t in anim else T)
        H = H.dot(L)
        if n.id is not None:
            res[n.id] = H
        for c in n.kids:
            rec(c, H)
    for n in doc.nodes:
        if n.parent is None:
            rec(n, np.eye(4))
    return res


class Poses(Observer):
    def __init__(self, frames):
        Observer.__init__(self, "poses")
        self.frames = frames

    def init(self, world, timeline):
        self.w = world
        self.rec = []

    def update(self, dt):
        self.rec.append((float(self.w.current_time), [np.array(f.pose) for f in self.frames]))

    def finish(self):
        pass


@CHECK.facet(lambda: scene_case(steps=st.integers(1, 6), dt=st.sampled_from([.01, .005, .1, 1 / 3.]), source=st.sampled_from(["h5", "pkl", "h5 group"]), precision=st.sampled_from([None, None, 5, 10]), scene_first=st.booleans()), quick=500, shards=6,
             rule="at least two bodies and two steps")
def logged(case, ctx):
    """a scene, the log of a simulation: the animation goes through the simulated poses"""
    from arboris.observers import PickleLogger, Hdf5Logger
    m = writers()[case["writer"]]
    for i, l in enumerate(case["s"]["w"]["links"]):
        if l["mass"] is None:
            l["mass"] = {"m": 1. + .5 * i, "I": [.2, .3, .4], "p": {"r": [0., 0., 0.], "t": [0., .1, 0.]}}
    b, frames = named_scene(case)
    w = b.world
    flat = case["flat"]
    d = ctx.scratch()
    sc, an = os.path.join(d, "scene.dae"), os.path.join(d, "anim.dae")
    if case["source"] == "pkl":
        log = os.path.join(d, "sim.pkl")
        logger = PickleLogger(log, mode="wb", flat=flat)
    else:
        log = os.path.join(d, "sim.h5")
        logger = Hdf5Logger(log, mode="w", flat=flat, **({"group": "/some/where"} if case["source"] == "h5 group" else {}))
    if case["scene_first"]:
        m.write_collada_scene(w, sc, flat=flat)
    probe = Poses(frames)
    w.update_dynamic()
    if w.ndof and sim.spread(w.mass) > 1e8:
        ctx.skip("singular")
    dt = case["dt"]
    sim.run(ctx, w, [k * dt for k in range(case["steps"] + 1)], [probe, logger])
    if not np.isfinite([p[-1] for t, p in probe.rec]).all() or max(np.abs(p).max() for t, p in probe.rec) > 1e4:
        ctx.skip("diverging")
    if not case["scene_first"]:
        m.write_collada_scene(w, sc, flat=flat)
    kw = {}
    if case["precision"] is not None:
        kw["precision"] = case["precision"]
    if case["source"] == "h5 group":
        kw["hdf5_group"] = "/some/where"
    m.write_collada_animation(an, sc, log, **kw)
    ctx.nt(len(b.bodies) > 2 and case["steps"] > 1)
    ctx.label(case["source"] + (" flat" if flat else " tree"))
    doc = dae.Doc(an)
    require(not doc.duplicate_ids, "identifiers used twice: %s" % doc.duplicate_ids[:4])
    anim = doc.animations()
    mv = movable(b, flat)
    moving = [f for f in mv.values() if f is not None] + list(w.itermovingsubframes())
    want = set(f.name + "/matrix" for f in moving)
    require(want <= set(anim), "not animated: %s" % sorted(want - set(anim)))
    require(set(anim) <= want | {"ground/matrix"}, "animated: %s" % sorted(set(anim) - want))
    h = .5 * 10. ** -(case["precision"] or 8)
    for t, (times, vals, how) in anim.items():
        require(len(times) == len(vals) == len(how) == len(probe.rec), "%d times, %d matrices and %d interpolations for %d steps" % (len(times), len(vals), len(how), len(probe.rec)))
        require(set(how) <= {"STEP"}, "interpolation %s" % set(how))
        require(np.abs(times - [x[0] for x in probe.rec]).max() < h * 1.001 + 1e-12, "times of %s" % t)
    depth = (1 + len(b.bodies) * 2)
    for k, (t, poses) in enumerate(probe.rec):
        H = evaluate(doc, k, anim)
        for f, p in zip(frames, poses):
            if f.name is None or (not case["names"] and f not in moving):
                continue
            scale = 1. + max(np.abs(x[:3, 3]).max() for x in poses)
            require(np.abs(H[f.name] - p).max() < (40 * depth * h + TOL) * scale, "step %d: pose of %s is off by %.3g" % (k, f.name, np.abs(H[f.name] - p).max()))


def entry():
    return st.one_of(gen.num(-5., 5.), gen.num(-1., 1., 1e-9), st.floats(-1e3, 1e3).map(lambda x: float("%.12g" % x)), st.sampled_from([0., 1., -1., 10., -0., 1e-9, 1e-5, 123456.5, .1 + .2, 100., 3e-7, 1e-10, -5e-10, 2e-8, 1e20, -4e30, 1e16]))


@CHECK.facet(lambda: st.fixed_dictionaries({"names": st.lists(st.sampled_from(["body0", "body1", "f1_0", "sub0", "body2"]), unique=True, max_size=4), "steps": st.integers(1, 5), "v": st.lists(entry(), min_size=16, max_size=16), "t": st.lists(entry(), min_size=5, max_size=5),
                                            "source": st.sampled_from(["h5", "hdf5", "pkl", "pickle", "typed h5", "typed pkl", "group", "direct"]), "precision": st.sampled_from([None, 1, 2, 3, 8, 12]), "twice": st.booleans(), "s": scene(), "writer": st.sampled_from(["dae", "visu"]), "flat": st.booleans()}), quick=600, shards=4,
             rule="at least one animated node and two times")
def animation(case, ctx):
    """the content of a log, to the precision, with all that the scene contains"""
    import h5py
    m = writers()[case["writer"]]
    b, frames = make_scene(case["s"])
    d = ctx.scratch()
    sc, an = os.path.join(d, "scene.dae"), os.path.join(d, "anim.dae")
    m.write_collada_scene(b.world, sc, flat=case["flat"])
    n = case["steps"]
    times = np.array(case["t"][:n])
    base = np.array(case["v"]).reshape(4, 4)
    tr = dict((x, np.array([np.roll(base, i + 3 * k) * (1 + .1 * i) for i in range(n)])) for k, x in enumerate(case["names"]))
    ctx.nt(len(tr) > 0 and n > 1)
    src = case["source"]
    ctx.label(src)
    kw = {} if case["precision"] is None else {"precision": case["precision"]}
    p = 8 if case["precision"] is None else case["precision"]
    before = dae.Doc(sc)
    if src == "direct":
        fakes.visu("dae_writer").write_collada_animation_from_transforms(an, sc, times, tr, p)
    else:
        f = os.path.join(d, "sim." + {"typed h5": "bin", "typed pkl": "bin", "group": "h5"}.get(src, src))
        if src in ("pkl", "pickle", "typed pkl"):
            with open(f, "wb") as o:
                pickle.dump({"timeline": list(times), "transforms": tr}, o, protocol=2)
        else:
            g = "/a/b" if src == "group" else "/"
            with h5py.File(f, "w") as o:
                r = o.require_group(g)
                r["timeline"] = times
                t = r.create_group("transforms")
                for x in tr:
                    t[x] = tr[x]
            if src == "group":
                kw["hdf5_group"] = g
                # the file may contain other logs
                with h5py.File(f, "a") as o:
                    for g in ("/", "/a", "/a/b/c") if case["twice"] else ("/b",):
                        r = o.require_group(g)
                        r["timeline"] = times[::-1] + 7.
                        t = r.create_group("transforms")
                        for x in list(tr) + ["other"]:
                            t[x] = np.zeros((n, 4, 4)) + 3.
        if src.startswith("typed"):
            kw["file_type"] = {"typed h5": "hdf5", "typed pkl": "pickle"}[src]
        m.write_collada_animation(an, sc, f, **kw)
    doc = dae.Doc(an)
    anim = doc.animations()
    require(set(anim) == set(x + "/matrix" for x in tr), "animated: %s instead of %s" % (sorted(anim), sorted(tr)))
    for x in tr:
        t, v, how = anim[x + "/matrix"]
        require(len(t) == len(v) == len(how) == n, "steps of %s" % x)
        tol = .5 * 10. ** -p * 1.0001 + 1e-15
        require(np.all(np.abs(t - times) <= tol + 1e-14 * np.abs(times)), "times %s instead of %s" % (t, times))
        want = tr[x].reshape(n, 16)
        require(np.all(np.abs(v - want) <= tol + 1e-14 * np.abs(want)), "matrices of %s are off by %.3g, with precision %d" % (x, np.abs(v - want).max(), p))
    # the scene stays in the document
    require([x.id for x in doc.nodes] == [x.id for x in before.nodes], "nodes of the scene")
    for x, y in zip(before.nodes, doc.nodes):
        close(y.H, x.H, 1e-9, "transform of %s" % x.id)
    require(len(doc.shapes) == len(before.shapes) and doc.up == before.up, "shapes of the scene")
    for x, y in zip(before.shapes, doc.shapes):
        close(y.vertices, x.vertices, 1e-6, "shape of the scene")
        close(y.colors, x.colors, 1e-9, "colour of the scene")
    require(len(list(doc.root.iter(dae.q("rigid_body")))) == len(list(before.root.iter(dae.q("rigid_body")))), "rigid bodies")
    if case["twice"]:
        # the scene file itself is not changed, and may be used again
        m.write_collada_animation(an, sc, f, **kw) if src != "direct" else None
        again = dae.Doc(an).animations() if src != "direct" else anim
        require(set(again) == set(anim), "second use of the scene")


# -- meshes of other files --------------------------------------------------------------------------------------------

HEAD = '<?xml version="1.0" encoding="utf-8"?>\n<COLLADA xmlns="http://www.collada.org/2005/11/COLLADASchema" version="1.4.1">\n<asset><created>2012-01-01T00:00:00</created><modified>2012-01-01T00:00:00</modified><up_axis>Y_UP</up_axis></asset>\n'


def mesh_file(path, tag, nodes):
    """nodes: [{"id", "tr": [...], "geoms": [scale...], "kids": [nodes]}]; gives {id: vertices in the node's parent}"""
    eff, mat, geo = [], [], []
    base = np.array([[0., 0., 0.], [1., 0., 0.], [0., 2., 0.], [0., 0., 3.]])

    def geom(s):
        k = len(geo)
        V = base * s + .1 * k
        g = "%s_geo%d" % (tag, k)
        eff.append('<effect id="%s_eff%d"><profile_COMMON><technique sid="common"><phong><diffuse><color>%r 0.5 0.25 1</color></diffuse></phong></technique></profile_COMMON></effect>' % (tag, k, (k + 1) / 16.))
        mat.append('<material id="%s_mat%d"><instance_effect url="#%s_eff%d"/></material>' % (tag, k, tag, k))
        geo.append('<geometry id="%s"><mesh><source id="%s-p"><float_array id="%s-pa" count="12">%s</float_array><technique_common><accessor source="#%s-pa" count="4" stride="3"><param name="X" type="float"/><param name="Y" type="float"/><param name="Z" type="float"/></accessor></technique_common></source><vertices id="%s-v"><input semantic="POSITION" source="#%s-p"/></vertices><triangles material="m" count="4"><input semantic="VERTEX" source="#%s-v" offset="0"/><p>0 2 1 0 1 3 0 3 2 1 2 3</p></triangles></mesh></geometry>' % (
            g, g, g, " ".join(repr(float(x)) for x in V.flat), g, g, g, g))
        return '<instance_geometry url="#%s"><bind_material><technique_common><instance_material symbol="m" target="#%s_mat%d"/></technique_common></bind_material></instance_geometry>' % (g, tag, k)

    def trans(t):
        if t[0] == "matrix":
            return "<matrix>%s</matrix>" % " ".join(repr(float(x)) for x in ref.pose(t[1]).flat)
        return "<%s>%s</%s>" % (t[0], " ".join(repr(float(x)) for x in t[1]), t[0])

    def node(n):
        return "<node%s>%s%s%s</node>" % (' id="%s" name="%s"' % (n["id"], n["id"]) if n["id"] else "", "".join(trans(t) for t in n["tr"]), "".join(geom(s) for s in n["geoms"]), "".join(node(k) for k in n["kids"]))
    body = "".join(node(n) for n in nodes)
    with open(path, "w") as f:
        f.write(HEAD + "<library_effects>%s</library_effects><library_materials>%s</library_materials><library_geometries>%s</library_geometries>" % ("".join(eff), "".join(mat), "".join(geo)) +
                '<library_visual_scenes><visual_scene id="s">%s</visual_scene></library_visual_scenes><scene><instance_visual_scene url="#s"/></scene></COLLADA>' % body)
    return dae.Doc(path)


def mesh_node(depth=1):
    kids = st.lists(mesh_node(depth - 1), max_size=1) if depth else st.just([])
    tr = st.one_of(st.tuples(st.just("matrix"), gen.pose(1.)).map(list), st.tuples(st.just("scale"), gen.vec(3, .3, 2.)).map(list), st.tuples(st.just("translate"), gen.vec(3, -1., 1.)).map(list),
                   st.tuples(st.just("rotate"), st.tuples(st.sampled_from([[1., 0., 0.], [0., 0., 1.], [1., 1., 0.]]), gen.num(-180., 180.)).map(lambda x: x[0] + [x[1]])).map(list))
    return st.fixed_dictionaries({"id": st.just(None), "tr": st.lists(tr, max_size=3), "geoms": st.lists(st.sampled_from([1., .5, 2.]), min_size=0 if depth else 1, max_size=2), "kids": kids})


def shape_points(doc):
    return [(s.node, s.vertices, s.colors) for s in doc.shapes]


@CHECK.facet(lambda: st.fixed_dictionaries({"s": scene(), "flat": st.booleans(), "writer": st.sampled_from(["dae", "visu"]), "files": st.lists(st.lists(mesh_node(), min_size=1, max_size=3), min_size=1, max_size=2), "whole": st.booleans(), "output": st.booleans(),
                                            "adds": st.lists(st.fixed_dictionaries({"f": st.integers(0, 20), "file": st.integers(0, 1), "node": st.integers(0, 3), "dict": st.booleans(), "H": gen.opt_pose(), "scale": st.one_of(st.none(), st.sampled_from([2, .5, 1.5]), gen.vec(3, .3, 2.)), "bad": st.sampled_from([None, None, None, None, "frame", "mesh"])}), min_size=1, max_size=4)}), quick=500, shards=4,
             rule="at least two shapes are added")
def meshes(case, ctx):
    """shapes of other files are added on the frames, where they are asked for; the rest is left as it was"""
    m = fakes.visu("dae_writer")
    b, frames = make_scene(case["s"])
    d = ctx.scratch()
    sc = os.path.join(d, "scene.dae")
    writers()[case["writer"]].write_collada_scene(b.world, sc, flat=case["flat"])
    before = dae.Doc(sc)
    nodes = dict((n.id, n) for n in before.nodes if n.id in before.by_id)
    want = []
    docs = []
    for k, ns in enumerate(case["files"]):
        ns = [dict(n) for n in ns]
        for i, n in enumerate(ns):
            n["id"] = "part%d" % i if not case["whole"] else frames[(i * 3 + k) % len(frames)].name
        if case["whole"]:
            ns = list(dict((n["id"], n) for n in ns).values())
        docs.append((os.path.join(d, "m%d.dae" % k), mesh_file(os.path.join(d, "m%d.dae" % k), "file%d" % k, ns)))
    kw = {"output_file": os.path.join(d, "out.dae")} if case["output"] else {}
    if case["whole"]:
        path, doc = docs[0]
        for s in doc.shapes:
            top = s.node
            while top.parent is not None:
                top = top.parent
            if top.id in nodes:
                want.append((top.id, s.vertices.dot(nodes[top.id].H[:3, :3].T) + nodes[top.id].H[:3, 3], s.colors))
        m.add_shapes_to_dae(sc, path, **kw)
    else:
        adds = []
        for a in case["adds"]:
            path, doc = docs[a["file"] % len(docs)]
            f = frames[a["f"] % len(frames)].name
            if a["bad"] == "frame":
                f = "nobody"
            tops = [n for n in doc.nodes if n.parent is None]
            k = a["node"]
            name = None if k == 3 else tops[k % len(tops)].id
            mesh = path if name is None else path + "#" + name
            if a["bad"] == "mesh":
                mesh, name = path + "#nothing", "nothing"
            H = np.eye(4) if a["H"] is None else ref.pose(a["H"])
            S = np.eye(3)
            data = [f, mesh]
            if a["dict"]:
                data = {"frame": f, "mesh": mesh}
                if a["H"] is not None or a["scale"] is not None:
                    data["transform"] = H.copy()
                if a["scale"] is not None:
                    data["scale"] = a["scale"]
            else:
                if a["H"] is not None or a["scale"] is not None:
                    data.append(H.copy())
                if a["scale"] is not None:
                    data.append(a["scale"])
            if a["scale"] is not None:
                S = np.diag([a["scale"]] * 3 if isinstance(a["scale"], (int, float)) else a["scale"])
            adds.append(data)
            if a["bad"] is not None:
                continue
            N = nodes[f].H
            for s in doc.shapes:
                top = s.node
                while top.parent is not None:
                    top = top.parent
                if name is None or top.id == name:
                    v = s.vertices.dot(S.T).dot(H[:3, :3].T) + H[:3, 3]
                    want.append((f, v.dot(N[:3, :3].T) + N[:3, 3], s.colors))
        m.add_shapes_to_dae(sc, adds, **kw)
    out = kw.get("output_file", sc)
    if kw:
        close([x.H for x in dae.Doc(sc).nodes], [x.H for x in before.nodes], 0., "the input file")
    after = dae.Doc(out)
    ctx.nt(len(want) > 1)
    require(not after.duplicate_ids, "identifiers used twice: %s" % after.duplicate_ids[:4])
    left = list(after.shapes)
    for s in before.shapes:
        got = [x for x in left if x.geom == s.geom and x.vertices.shape == s.vertices.shape and np.abs(x.vertices - s.vertices).max() < TOL and np.allclose(x.colors, s.colors, atol=1e-6)]
        require(got, "a shape of the scene is lost")
        left.remove(got[0])
    for f, v, c in want:
        got = [x for x in left if x.vertices.shape == v.shape and np.abs(x.vertices - v).max() < 1e-4 * (1 + np.abs(v).max()) and np.allclose(x.colors, c, atol=1e-6) and after.frame_of(x.node, set(nodes)).id == f]
        require(got, "a shape added on %s is not where it should be" % f)
        left.remove(got[0])
    require(not left, "%d shapes come from nowhere" % len(left))
    for i, n in nodes.items():
        require(i in after.by_id, "node %s is lost" % i)
        close(after.by_id[i].H, n.H, 1e-6, "node %s" % i)
        if i in set(f.name for f in frames):
            require([e.get("sid") for e, T in after.by_id[i].transforms] == ["matrix"], "matrix of %s" % i)
    require(len(list(after.root.iter(dae.q("rigid_body")))) == len(list(before.root.iter(dae.q("rigid_body")))), "rigid bodies")


POOL = [None, "a", "b", "c", "d", "ground", "a.shape", "x y", "é"]


@CHECK.facet(lambda: scene_case(n=st.lists(st.sampled_from(POOL + [None] * 4), min_size=30, max_size=30)), quick=300, shards=3, rule="a name is given twice")
def ambiguous(case, ctx):
    """the node of a name is that of the frame of this name; when two moving frames have the same, it is an error"""
    from arboris.core import DuplicateNameError
    m = writers()[case["writer"]]
    b, frames = make_scene(case["s"], names=case["names"])
    w = b.world
    names = list(case["n"])
    for f in [f for f in frames if f is not w.ground] + [x[0] for x in b.shapes]:
        f.name = names.pop() if names else None
    mv = [f for f in movable(b, case["flat"]).values() if f is not None] + [w.ground]
    mv += [f for f in w.itermovingsubframes() if f not in mv]
    named = [f.name for f in mv if f.name is not None]
    twice = len(named) != len(set(named))
    path = os.path.join(ctx.scratch(), "scene.dae")
    ctx.nt(twice)
    try:
        m.write_collada_scene(w, path, flat=case["flat"])
    except DuplicateNameError:
        ctx.label("refused")
        require(twice, "names refused, although none of the moving frames is ambiguous: %s" % named)
        return
    require(not twice, "ambiguous names accepted: %s" % named)
    doc = dae.Doc(path)
    require(not doc.duplicate_ids, "identifiers used twice: %s" % doc.duplicate_ids)
    for f in mv:
        require(f.name in doc.by_id, "no node for %s" % f.name)
        close(doc.by_id[f.name].H, f.pose, 1e-7, "absolute transform of the node of %s" % f.name)


@CHECK.facet(lambda: st.fixed_dictionaries({"n": st.sampled_from([2, 30, 105, 150]), "what": st.sampled_from(["shapes", "frames"]), "writer": st.sampled_from(["dae", "visu"])}), quick=16, shards=2, rule="more than a hundred")
def namesakes(case, ctx):
    """many elements of one name"""
    from arboris.core import SubFrame, World
    from arboris.shapes import Sphere
    from arboris.joints import RzJoint
    m = writers()[case["writer"]]
    w = World()
    body = Body("x", mass=np.eye(6))
    w.add_link(w.ground, RzJoint(gpos=.3), body)
    for i in range(case["n"]):
        f = SubFrame(body, ref.trans(i, 0., 0.), "x" if case["what"] == "frames" else None)
        w.register(f if case["what"] == "frames" else Sphere(f, .5, "x"))
    w.init()
    path = os.path.join(ctx.scratch(), "scene.dae")
    m.write_collada_scene(w, path)
    ctx.nt(case["n"] > 100)
    doc = dae.Doc(path)
    require(not doc.duplicate_ids, "identifiers used twice: %s" % doc.duplicate_ids[:4])
    close(doc.by_id["x"].H, body.pose, 1e-7, "the node of the body")
    xs = sorted(round(float(p), 5) for p in ref_positions(doc, body, case["what"]))
    require(xs == [float(i) for i in range(case["n"])], "the positions are %s" % xs)


def ref_positions(doc, body, what):
    if what == "shapes":
        return [inframe(body.pose, s.vertices).mean(0)[0] for s in doc.shapes if s.geom.startswith("sphere") and "inertia" not in s.node.notes]
    return [inframe(body.pose, n.H[None, :3, 3])[0][0] for n in doc.nodes if n.in_scene and n.id is not None and n.id != "x" and n.id.startswith("x") and any(k == "matrix" for k in [dae.local(t[0]) for t in n.transforms])]


@CHECK.facet(lambda: scene_case(long=gen.long_steps((130, 300), (1e-4, 5e-4)), source=st.sampled_from(["h5", "pkl"]), precision=st.just(None), scene_first=st.booleans()), quick=8, shards=4, rule="more than two hundred steps")
def long(case, ctx):
    """animations of hundreds of steps"""
    logged(dict(case, steps=case["long"]["n"], dt=case["long"]["dt"]), ctx)
    ctx.nt(case["long"]["n"] > 200)
