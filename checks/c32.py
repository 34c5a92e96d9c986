"""C32: URDF import builds the mechanism that the file describes."""
import os
import sys
import importlib
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, ref, dae, fakes
from vp.core import Check, close, require
from arboris.core import World, Body, MovingSubFrame
from arboris.joints import FixedJoint, FreeJoint
from arboris.constraints import JointLimits
from arboris.shapes import Box, Sphere, Cylinder

CHECK = Check("C32")
ASSUMPTIONS = ["joints are revolute, prismatic, fixed or floating: the others are documented as not implemented",
               "a link has at most one visual and one collision element (the parser keeps the last one)",
               "masses and moments of inertia below 1e-6 are raised to 1e-6 by the converter (a documented floor in its code)",
               "the optional pydaenim package, imported by arboris.visu, is replaced by a stand-in"]


def urdf():
    fakes.visu("")
    return importlib.import_module("arboris.robots.urdf")


# -- generated documents ----------------------------------------------------------------------------------------------

def origin():
    rpy = st.one_of(st.lists(gen.mild_angle(), min_size=3, max_size=3), st.lists(gen.angle(), min_size=3, max_size=3))
    return st.one_of(st.none(), st.fixed_dictionaries({"xyz": st.one_of(st.none(), gen.vec(3, -1.5, 1.5), gen.vec(3, -1.5, 1.5)), "rpy": gen.mix(st.none(), rpy, rpy)}))


def near(k, s, d):
    """nearly along an axis"""
    v = [0., 0., 0.]
    v[k] = s
    for i in (1, 2):
        v[(k + i) % 3] = d[i - 1]
    return v


def axis():
    e = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    return gen.mix(st.none(), st.sampled_from(e), st.sampled_from([[-x for x in v] for v in e] + [[0., 0., 2.], [-.5, 0., 0.], [0., 3., 0.], [0., 0., -1e-3]]),
                   st.builds(near, st.integers(0, 2), st.sampled_from([1., 1., -1., 2.]), st.lists(st.sampled_from([0., 1e-6, -1e-5, 1e-4, 1e-3, 1e-2, -3e-2]), min_size=2, max_size=2)),
                   gen.vec(3, -1., 1.).filter(lambda v: np.linalg.norm(v) > .05), gen.vec(3, -1., 1.).filter(lambda v: np.linalg.norm(v) > .05).map(lambda v: [float(x) for x in np.array(v) / np.linalg.norm(v)]))


def limit():
    def table(ends):
        return st.fixed_dictionaries({"ends": ends, "effort": gen.num(0., 100.), "velocity": gen.num(0., 10.)}).map(lambda d: {"lower": d["ends"][0], "upper": d["ends"][1], "effort": d["effort"], "velocity": d["velocity"]})
    b = gen.mix(st.none(), st.just(0.), gen.num(.1, 3.), gen.num(.1, 3.))
    # around zero; anywhere; one end at zero; or a joint that is locked
    return gen.mix(st.none(), table(st.tuples(b.map(lambda x: None if x is None else -x), b)), table(st.tuples(gen.num(-3., 3.), gen.num(.2, 3.)).map(lambda v: (v[0], round(v[0] + v[1], 6)))),
                   table(gen.num(.2, 3.).flatmap(lambda x: st.sampled_from([(0., x), (-x, 0.), (0., None), (None, 0.)]))), table(gen.num(-2., 2.).map(lambda x: (x, x))))


def geometry():
    pos = gen.num(.01, 2.)
    return st.one_of(st.fixed_dictionaries({"k": st.just("box"), "d": st.lists(pos, min_size=3, max_size=3)}), st.fixed_dictionaries({"k": st.just("sphere"), "d": st.lists(pos, min_size=1, max_size=1)}),
                     st.fixed_dictionaries({"k": st.just("cylinder"), "d": st.lists(pos, min_size=2, max_size=2)}),
                     st.fixed_dictionaries({"k": st.just("mesh"), "d": st.just([]), "file": st.sampled_from(["a.dae", "sub/b.dae", "c.dae#part0"]), "scale": st.one_of(st.none(), gen.vec(3, .3, 2.))}))


def element():
    return st.one_of(st.none(), st.fixed_dictionaries({"g": geometry(), "o": origin(), "mat": st.booleans()}))


def inertial():
    return gen.mix(st.none(), st.fixed_dictionaries({"m": gen.num(.01, 8.), "I": gen.vec(3, .02, 2.), "r": st.lists(gen.mild_angle(), min_size=3, max_size=3), "o": origin()}),
                     # small parts, down to some milligrams
                     st.fixed_dictionaries({"m": gen.num(1e-5, 5e-3, 1e-5), "I": st.lists(gen.num(4e-6, 1e-3, 1e-6), min_size=3, max_size=3), "r": st.just([0., 0., 0.]), "o": origin()}),
                     st.fixed_dictionaries({"m": gen.num(.01, 8.), "I": gen.vec(3, .02, 2.), "r": st.just([0., 0., 0.]), "o": origin()}))


@st.composite
def robot(draw, nmax=6):
    n = draw(st.integers(1, nmax))
    links = [{"inertial": draw(inertial()), "visual": draw(element()), "collision": draw(element())} for _ in range(n)]
    joints = []
    for i in range(1, n):
        joints.append({"parent": draw(st.one_of(st.just(i - 1), st.integers(0, i - 1))), "child": i, "type": draw(st.sampled_from(["revolute", "revolute", "revolute", "prismatic", "prismatic", "fixed", "floating"])), "axis": draw(axis()), "origin": draw(origin()),
                       "limit": draw(limit()), "extra": draw(st.booleans()), "mimic": draw(st.booleans())})
    order = draw(st.permutations(list(range(2 * n - 1))))
    return {"links": links, "joints": joints, "order": list(order), "names": draw(st.permutations(["base", "arm", "head", "l_leg", "R-1", "tool"])), "noise": draw(st.booleans())}


def f2s(v):
    return " ".join(repr(float(x)) for x in v)


def xml_origin(o):
    if o is None:
        return ""
    return "<origin%s%s/>" % (' xyz="%s"' % f2s(o["xyz"]) if o["xyz"] is not None else "", ' rpy="%s"' % f2s(o["rpy"]) if o["rpy"] is not None else "")


def xml_geometry(g):
    if g["k"] == "box":
        return '<geometry><box size="%s"/></geometry>' % f2s(g["d"])
    if g["k"] == "sphere":
        return '<geometry><sphere radius="%r"/></geometry>' % g["d"][0]
    if g["k"] == "cylinder":
        return '<geometry><cylinder radius="%r" length="%r"/></geometry>' % tuple(g["d"])
    return '<geometry><mesh filename="%s"%s/></geometry>' % (g["file"], "" if g["scale"] is None else ' scale="%s"' % f2s(g["scale"]))


def inertia(i):
    R = ref.rot("z", i["r"][0]).dot(ref.rot("y", i["r"][1])).dot(ref.rot("x", i["r"][2]))[:3, :3]
    return R.dot(np.diag(i["I"])).dot(R.T)


def lname(r, i):
    return r["names"][i]


def jname(r, k):
    return "joint_%s" % r["names"][r["joints"][k]["child"]]


def document(r):
    parts = []
    for i, l in enumerate(r["links"]):
        s = ""
        for tag in ("visual", "collision"):
            e = l[tag]
            if e is not None:
                body = [xml_origin(e["o"]), xml_geometry(e["g"]), '<material name="paint"><color rgba="1 0.5 0 1"/></material>' if tag == "visual" and e["mat"] else ""]
                s += "<%s>%s</%s>" % (tag, "".join(body), tag)
        if l["inertial"] is not None:
            J = inertia(l["inertial"])
            s += "<inertial>%s<mass value=\"%r\"/><inertia ixx=\"%r\" ixy=\"%r\" ixz=\"%r\" iyy=\"%r\" iyz=\"%r\" izz=\"%r\"/></inertial>" % (
                (xml_origin(l["inertial"]["o"]), l["inertial"]["m"]) + tuple(float(x) for x in (J[0, 0], J[0, 1], J[0, 2], J[1, 1], J[1, 2], J[2, 2])))
        parts.append('<link name="%s">\n  %s\n</link>' % (escape(lname(r, i)), s))
    for k, j in enumerate(r["joints"]):
        s = '<parent link="%s"/><child link="%s"/>' % (lname(r, j["parent"]), lname(r, j["child"])) + xml_origin(j["origin"])
        if j["axis"] is not None:
            s += '<axis xyz="%s"/>' % f2s(j["axis"])
        l = j["limit"]
        if l is not None:
            s += '<limit effort="%r" velocity="%r"%s%s/>' % (l["effort"], l["velocity"], "" if l["lower"] is None else ' lower="%r"' % l["lower"], "" if l["upper"] is None else ' upper="%r"' % l["upper"])
        if j["extra"]:
            s += '<dynamics damping="0.5" friction="0.25"/><safety_controller k_velocity="10" k_position="2" soft_lower_limit="-1" soft_upper_limit="1"/><calibration rising="0.5" falling="1.5"/>'
        if j["mimic"] and k > 0:
            s += '<mimic joint="%s" multiplier="2.5" offset="-0.5"/>' % jname(r, 0)
        parts.append('<joint name="%s" type="%s">\n %s\n</joint>' % (jname(r, k), j["type"], s))
    parts = [parts[k] for k in r["order"]]
    if r["noise"]:
        parts.insert(len(parts) // 2, '<!-- a comment --><gazebo reference="x"><a/></gazebo><material name="blue"><color rgba="0 0 1 1"/></material><transmission name="t"/>')
    return '<?xml version="1.0"?>\n<robot name="tested">\n%s\n</robot>\n' % "\n".join(parts)


def H_of(o):
    """URDF: translation, then fixed axes roll, pitch, yaw"""
    if o is None:
        return np.eye(4)
    H = np.eye(4)
    if o["rpy"] is not None:
        a, b, c = o["rpy"]
        H = ref.rot("z", c).dot(ref.rot("y", b)).dot(ref.rot("x", a))
    if o["xyz"] is not None:
        H = ref.trans(*o["xyz"]).dot(H)
    return H


def motion(j, q):
    """displacement of a joint, q: a scalar or a pose"""
    if j["type"] == "fixed":
        return np.eye(4)
    if j["type"] == "floating":
        return ref.pose(q["H"])
    a = np.array(j["axis"] if j["axis"] is not None else [1., 0., 0.])
    a = a / np.linalg.norm(a)
    if j["type"] == "prismatic":
        return ref.trans(*(a * q["x"]))
    H = np.eye(4)
    H[:3, :3] = ref.expm(ref.hat(a * q["x"]))[:3, :3]
    return H


def write(ctx, r, name="robot.urdf"):
    p = os.path.join(ctx.scratch(), name)
    with open(p, "w") as f:
        f.write(document(r))
    return p


def convert(ctx, case, world, **kw):
    m = urdf()
    r = case["r"]
    a = dict(kw)
    if case["prefix"]:
        a["prefix"] = case["prefix"]
    if case["suffix"]:
        a["suffix"] = case["suffix"]
    if case["fixed"] is not None:
        a["fixed_base"] = case["fixed"]
    if case["H"] is not None:
        a["H_init"] = ref.pose(case["H"])
    if case["root"] is not None:
        a["root_joint_name"] = case["root"]
    if not case["limits"]:
        a["save_joint_limits"] = False
    p = write(ctx, r)
    if case["late"]:
        c = m.URDFConverter(p, **a)
        c.load_in_world(world)
    else:
        c = m.URDFConverter(p, world, **a)
    return c


def case_st(**kw):
    return st.fixed_dictionaries(dict({"r": robot(), "prefix": st.sampled_from(["", "", "p_"]), "suffix": st.sampled_from(["", "", "_s"]), "fixed": st.sampled_from([None, True, False]), "H": gen.opt_pose(), "root": st.sampled_from([None, None, "base_joint"]), "limits": st.booleans(),
                                       "late": st.booleans(), "qs": st.lists(st.fixed_dictionaries({"x": st.one_of(gen.num(-3., 3.), st.just(0.)), "H": gen.pose(1.)}), min_size=6, max_size=6), "base": gen.pose(1.)}, **kw))


def name_of(case, n):
    return case["prefix"] + n + case["suffix"]


@CHECK.facet(lambda: case_st(), quick=900, shards=6, rule="a joint that moves, at a non zero position")
def mechanism(case, ctx):
    r = case["r"]
    w = World()
    convert(ctx, case, w)
    bodies = dict((b.name, b) for b in w.getbodies())
    require(set(bodies) == set([w.ground.name] + [name_of(case, lname(r, i)) for i in range(len(r["links"]))]), "bodies: %s" % sorted(bodies))
    require(len(w.getbodies()) == len(r["links"]) + 1, "bodies")
    joints = dict((j.name, j) for j in w.getjoints())
    root = name_of(case, case["root"] or "root_joint")
    require(set(joints) == set([root] + [name_of(case, jname(r, k)) for k in range(len(r["joints"]))]) and len(w.getjoints()) == len(r["links"]), "joints: %s" % sorted(joints))
    # structure
    j = joints[root]
    require(j.frame0.body is w.ground and j.frame1.body is bodies[name_of(case, lname(r, 0))], "the root joint links the ground to the root")
    require(isinstance(j, FixedJoint if case["fixed"] else FreeJoint), "root joint: %s" % type(j).__name__)
    moved = False
    nd = 0 if case["fixed"] else 6
    for k, u in enumerate(r["joints"]):
        j = joints[name_of(case, jname(r, k))]
        require(j.frame0.body is bodies[name_of(case, lname(r, u["parent"]))] and j.frame1.body is bodies[name_of(case, lname(r, u["child"]))], "bodies of joint %s" % j.name)
        n = {"fixed": 0, "floating": 6}.get(u["type"], 1)
        require(j.ndof == n, "%s has %d dof" % (j.name, j.ndof))
        nd += n
    require(w.ndof == nd, "ndof of the world: %d" % w.ndof)
    close(np.array([x for j in w.getjoints() for x in np.asarray(j.gvel).flatten()]), np.zeros(nd), 0., "initial velocity")
    # kinematics, at the initial configuration then elsewhere
    for trial in (0, 1):
        H = {0: np.eye(4) if case["H"] is None else ref.pose(case["H"])}
        if trial and not case["fixed"]:
            joints[root].gpos[:] = ref.pose(case["base"])
            H[0] = H[0].dot(ref.pose(case["base"]))
        for k, u in enumerate(r["joints"]):
            q = case["qs"][k] if trial else {"x": 0., "H": {"r": [0., 0., 0.], "t": [0., 0., 0.]}}
            j = joints[name_of(case, jname(r, k))]
            if trial and u["type"] == "floating":
                j.gpos[:] = ref.pose(q["H"])
            elif trial and u["type"] != "fixed":
                j.gpos[:] = q["x"]
                moved = moved or q["x"] != 0
            H[u["child"]] = H[u["parent"]].dot(H_of(u["origin"])).dot(motion(u, q))
        w.update_geometric()
        for i in H:
            close(bodies[name_of(case, lname(r, i))].pose, H[i], 1e-8, "pose of %s" % lname(r, i))
    ctx.nt(moved)
    # masses
    for i, l in enumerate(r["links"]):
        M = np.zeros((6, 6))
        if l["inertial"] is not None:
            M[:3, :3] = inertia(l["inertial"])
            M[3:, 3:] = l["inertial"]["m"] * np.eye(3)
            A = ref.Ad(ref.inv(H_of(l["inertial"]["o"])))
            M = A.T.dot(M).dot(A)
        close(bodies[name_of(case, lname(r, i))].mass, M, 1e-9, "mass matrix of %s" % lname(r, i))
    w.update_dynamic()
    require(np.isfinite(w.mass).all(), "mass of the world")


@CHECK.facet(lambda: case_st(two=st.booleans()), quick=600, shards=4, rule="at least two collision shapes, or limits")
def physics(case, ctx):
    """collision shapes and joint limits"""
    r = case["r"]
    w = World()
    conv = convert(ctx, case, w)
    left = list(w.getshapes())
    n = 0
    for i, l in enumerate(r["links"]):
        c = l["collision"]
        if c is None or c["g"]["k"] == "mesh":
            continue
        n += 1
        g = c["g"]
        cls = {"box": Box, "sphere": Sphere, "cylinder": Cylinder}[g["k"]]

        def size(s):
            if cls is Box:
                return list(2. * np.array(s.half_extents))
            return [s.radius] if cls is Sphere else [s.radius, s.length]
        got = [s for s in left if s.frame.body.name == name_of(case, lname(r, i)) and type(s) is cls and np.allclose(size(s), g["d"], 1e-12, 1e-12) and np.allclose(s.frame.bpose, H_of(c["o"]), 0., 1e-9)]
        require(got, "no %s of size %s on %s" % (g["k"], g["d"], lname(r, i)))
        left.remove(got[0])
    require(not left, "%d shapes come from nowhere" % len(left))
    # tables of limits
    J = r["joints"]
    nm = lambda k: name_of(case, jname(r, k))
    both = dict((nm(k), (u["limit"]["lower"], u["limit"]["upper"])) for k, u in enumerate(J) if u["limit"] is not None and u["limit"]["lower"] is not None and u["limit"]["upper"] is not None)
    got = conv.get_joint_limits()
    require(set(got) == set(both), "joints with limits: %s instead of %s" % (sorted(got), sorted(both)))
    for k in both:
        close(list(got[k]), list(both[k]), 1e-12, "limits of %s" % k)
    for key, get in (("effort", conv.get_effort_limits), ("velocity", conv.get_velocity_limits)):
        d = get()
        want = dict((nm(k), u["limit"][key]) for k, u in enumerate(J) if u["limit"] is not None)
        require(set(x for x in d if d[x] is not None) == set(want), "%s limits: %s instead of %s" % (key, sorted(d), sorted(want)))
        for k in want:
            close(d[k], want[k], 1e-12, "%s limit of %s" % (key, k))
    # limits in the world
    w.init()
    cons = [c for c in w.getconstraints() if isinstance(c, JointLimits)]
    want = dict((x, both[x]) for k, u in enumerate(J) for x in [nm(k)] if x in both and u["type"] in ("revolute", "prismatic")) if case["limits"] else {}
    require(len(cons) == len(want), "%d joint limits in the world instead of %d" % (len(cons), len(want)))
    ctx.nt(n > 1 or len(want) > 0)
    by = {}
    for c in cons:
        c.init(w)
        cols = np.nonzero(np.abs(c.jacobian).sum(0))[0]
        require(len(cols) == 1, "a limit acts on %d dof" % len(cols))
        by[int(cols[0])] = c
    for j in w.getjoints():
        if j.name not in want:
            require(j.ndof == 0 or j.dof.start not in by, "%s has unexpected limits" % j.name)
            continue
        c = by[j.dof.start]
        lo, hi = want[j.name]
        for x, on in ((lo - .05, True), (hi + .05, True), (lo, True), (hi, True), (.5 * (lo + hi), hi - lo < .1), (lo + .05, hi - lo < .1), (hi - .05, hi - lo < .1)):
            j.gpos[:] = x
            c.update(.01)
            require(bool(c.is_active()) == on, "limit of %s, [%g, %g], is %s at %g" % (j.name, lo, hi, "active" if not on else "not active", x))


@CHECK.facet(lambda: case_st(flat=st.booleans(), which=st.sampled_from(["visual", "collision"]), cwd=st.booleans()), quick=250, shards=4, rule="at least two shapes")
def drawn(case, ctx):
    """the lists of shapes, given to add_shapes_to_dae, draw the robot"""
    from checks.c31 import mesh_file, is_shape, inframe
    m = fakes.visu("dae_writer")
    r = case["r"]
    d = ctx.scratch()
    w = World()
    conv = convert(ctx, case, w)
    if case["cwd"]:
        old = os.getcwd()
        os.chdir(d)
        conv = urdf().URDFConverter("robot.urdf", prefix=case["prefix"], suffix=case["suffix"])
    try:
        os.mkdir(os.path.join(d, "sub"))
        node = {"id": "part0", "tr": [["translate", [.1, .2, .3]]], "geoms": [1.], "kids": []}
        docs = dict((f, mesh_file(os.path.join(d, f), f.replace("/", "_").replace(".", "_"), [dict(node)])) for f in ("a.dae", "sub/b.dae", "c.dae"))
        items = conv.get_visual_shapes() if case["which"] == "visual" else conv.get_collision_shapes()
        sc = os.path.join(d, "scene.dae")
        w.update_geometric()
        m.write_collada_scene(w, sc, flat=case["flat"])
        before = dae.Doc(sc)
        m.add_shapes_to_dae(sc, items)
    finally:
        if case["cwd"]:
            os.chdir(old)
    after = dae.Doc(sc)
    left = list(after.shapes)
    for s in before.shapes:
        got = [x for x in left if x.geom == s.geom and np.abs(x.vertices - s.vertices).max() < 1e-5 and x.colors == s.colors]
        require(got, "a shape of the scene is lost")
        left.remove(got[0])
    bodies = dict((b.name, b) for b in w.getbodies())
    want = [(i, l[case["which"]]) for i, l in enumerate(r["links"]) if l[case["which"]] is not None]
    ctx.nt(len(want) > 1)
    require(len(items) == len(want) and len(left) == len(want), "%d shapes listed, %d drawn, instead of %d" % (len(items), len(left), len(want)))
    for i, e in want:
        b = bodies[name_of(case, lname(r, i))]
        H = b.pose.dot(H_of(e["o"]))
        g = e["g"]
        near = [x for x in left if after.frame_of(x.node, set(bodies)).id == b.name]
        if g["k"] == "mesh":
            f = g["file"].split("#")[0]
            v = docs[f].shapes[0].vertices * (1. if g["scale"] is None else np.array(g["scale"]))
            v = v.dot(H[:3, :3].T) + H[:3, 3]
            got = [x for x in near if x.vertices.shape == v.shape and np.abs(x.vertices - v).max() < 1e-4]
        else:
            kind = {"box": "Box", "sphere": "Sphere", "cylinder": "Cylinder"}[g["k"]]
            sz = [x / 2. for x in g["d"]] if kind == "Box" else g["d"][::-1] if kind == "Cylinder" else g["d"]
            got = [x for x in near if is_shape(kind, sz, inframe(H, x.vertices), (1., 1.))]
        require(got, "%s %s of %s is not drawn at its place" % (g["k"], g["d"], b.name))
        left.remove(got[0])


# -- the parser -------------------------------------------------------------------------------------------------------

def content(e):
    """an element as data, with numbers"""
    def val(s):
        try:
            return tuple(float(x) for x in s.split())
        except ValueError:
            return s
    kids = sorted([content(c) for c in e], key=repr)
    return (e.tag, tuple(sorted((k, val(v)) for k, v in e.attrib.items())), tuple(kids), (e.text or "").strip())


@CHECK.facet(lambda: st.fixed_dictionaries({"r": robot(), "twice": st.booleans()}), quick=400, shards=4, rule="at least two links")
def parser(case, ctx):
    """what is parsed can be written again, without loss; chains between links"""
    urdf()
    up = importlib.import_module("arboris.robots.urdf.urdf_parser")
    r = case["r"]
    ctx.nt(len(r["links"]) > 1)
    text = document(r)
    u = up.URDF.parse_xml_string(text, verbose=False)
    out = u.to_xml()
    a, b = ET.fromstring(text), ET.fromstring(out)
    for x in list(a):
        if x.tag in ("gazebo", "transmission"):
            a.remove(x)
    ka = sorted([content(c) for c in a], key=repr)
    kb = sorted([content(c) for c in b], key=repr)
    require(len(ka) == len(kb), "%d elements are written for %d read" % (len(kb), len(ka)))
    for x, y in zip(ka, kb):
        require(x == y, "written: %s\nread:    %s" % (y, x))
    require([x.get("name") for x in a if x.tag in ("link", "joint")] == [x.get("name") for x in b if x.tag in ("link", "joint")], "order of the elements")
    require(up.URDF.parse_xml_string(out, verbose=False).to_xml() == out, "written again")
    require(u.name == "tested" and u.get_root() == lname(r, 0), "root %s" % u.get_root())
    s = str(u)
    require(all(lname(r, i) in s for i in range(len(r["links"]))), "description")
    # chains
    up_ = dict((j["child"], (k, j["parent"])) for k, j in enumerate(r["joints"]))
    for tip in range(len(r["links"])):
        i, full = tip, [("l", tip)]
        while True:
            for joints, links, fixed in ((1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 0, 0), (1, 1, 0)):
                want = [lname(r, x) if k == "l" else jname(r, x) for k, x in reversed(full) if (k == "l" and links) or (k == "j" and joints and (fixed or r["joints"][x]["type"] != "fixed"))]
                got = u.get_chain(lname(r, i), lname(r, tip), joints=bool(joints), links=bool(links), fixed=bool(fixed))
                require(got == want, "chain from %s to %s: %s instead of %s" % (lname(r, i), lname(r, tip), got, want))
            if i not in up_:
                break
            k, p = up_[i]
            full += [("j", k), ("l", p)]
            i = p


@CHECK.facet(lambda: st.fixed_dictionaries({"a": robot(4), "b": robot(4), "fixed": st.booleans(), "H": gen.pose(1.)}), quick=150, shards=2, rule="both robots have joints")
def several(case, ctx):
    """two robots in a world, each with its prefix, do not interfere"""
    m = urdf()
    w = World()
    ctx.nt(len(case["a"]["joints"]) > 0 and len(case["b"]["joints"]) > 0)
    cs = []
    for p, r in (("a:", case["a"]), ("b:", case["b"])):
        path = write(ctx, r, "robot%s.urdf" % p[0])
        cs.append(m.URDFConverter(path, w, H_init=ref.pose(case["H"]) if p == "b:" else None, prefix=p, fixed_base=case["fixed"]))
    bodies = dict((b.name, b) for b in w.getbodies())
    w.update_geometric()
    for p, r in (("a:", case["a"]), ("b:", case["b"])):
        H = {0: ref.pose(case["H"]) if p == "b:" else np.eye(4)}
        for k, u in enumerate(r["joints"]):
            H[u["child"]] = H[u["parent"]].dot(H_of(u["origin"]))
        for i in H:
            close(bodies[p + lname(r, i)].pose, H[i], 1e-8, "pose of %s%s" % (p, lname(r, i)))
    require(len(bodies) == 1 + len(case["a"]["links"]) + len(case["b"]["links"]), "bodies")
    require(set(cs[0].get_joint_limits()) | set(cs[1].get_joint_limits()) <= set(j.name for j in w.getjoints()), "names of the limits")
    # classes of joints are not changed
    require(all(j.name.startswith(("a:", "b:")) for j in w.getjoints()), "names of joints")


@CHECK.facet(lambda: st.fixed_dictionaries({"a": st.lists(st.one_of(gen.angle(), gen.num(-7., 7.), st.sampled_from([0., np.pi / 2, -np.pi / 2, np.pi])), min_size=3, max_size=3)}), quick=1500, shards=1, rule="all three angles are non zero")
def angles(case, ctx):
    """roll, pitch and yaw to a matrix, and back"""
    m = urdf()
    r, p, y = case["a"]
    ctx.nt(all(case["a"]))
    R = np.array(m.roll_pitch_yaw_to_rotation_matrix(r, p, y))
    require(R.shape == (3, 3), "shape %s" % (R.shape,))
    ref_R = ref.rot("z", y).dot(ref.rot("y", p)).dot(ref.rot("x", r))[:3, :3]
    close(R, ref_R, 1e-12, "matrix of %s" % case["a"])
    keep = R.copy()
    a = np.array(m.rotation_matrix_to_roll_pitch_yaw(R))
    require(np.array_equal(R, keep), "the matrix is modified")
    require(a.shape == (3,), "shape %s" % (a.shape,))
    S = ref.rot("z", a[2]).dot(ref.rot("y", a[1])).dot(ref.rot("x", a[0]))[:3, :3]
    close(S, R, 1e-7, "angles %s of the matrix of %s" % (a, case["a"]))
    if np.cos(p) > 1e-3 and np.abs(case["a"]).max() < 3.1:
        close(a, case["a"], 1e-9, "the angles of the matrix")


LONG = ["part%d" % i for i in range(40)]


@CHECK.facet(lambda: st.fixed_dictionaries({"c": case_st(two=st.just(False)), "n": st.integers(10, 30), "seed": st.integers(0, 10 ** 6)}), quick=40, shards=4, rule="more than fifteen links")
def large(case, ctx):
    """robots of many links"""
    r = np.random.RandomState(case["seed"])
    c, n = dict(case["c"]), case["n"]
    pick = lambda x: x[int(r.randint(len(x)))]
    a = c["r"]
    joints = [dict(pick(a["joints"])) if a["joints"] else {"type": pick(["revolute", "prismatic"]), "axis": [0., 0., 1.], "origin": None, "limit": None, "extra": False, "mimic": False} for _ in range(n - 1)]
    for i, j in enumerate(joints):
        j.update(parent=int(r.randint(max(0, i - 3), i + 1)), child=i + 1)
    names = [LONG[int(i)] for i in r.permutation(len(LONG))[:n]]
    c["r"] = dict(a, links=[pick(a["links"]) for _ in range(n)], joints=joints, names=names, order=[int(i) for i in r.permutation(2 * n - 1)])
    c["qs"] = [pick(c["qs"]) for _ in range(n)]
    ctx.nt(n > 15)
    mechanism(c, ctx)
    physics(c, ctx)
