"""C35: the Matlab export describes the same mechanism."""
import io
import os
import re
import importlib.util
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, build, ref
from vp.core import Check, close, require

CHECK = Check("C35")
ASSUMPTIONS = ["joints have distinct names (the generated file is read back through them)",
               "shapes are points, spheres, boxes and cylinders carried by the robot's bodies (arboris-matlab robots have no ground shapes nor planes)",
               "the generated text is read with a small independent reader of Matlab literals; no Matlab is run"]
TOL = 1e-9
HINGES = ["RxJoint", "RyJoint", "RzJoint"]
MULTI = ["RzRyRxJoint", "RzRyJoint", "RyRxJoint", "RzRxJoint"]
_mod = []


def mat():
    if not _mod:
        spec = importlib.util.spec_from_file_location("convert_py2mat", os.path.join(env.REPO, "matlab", "convert_py2mat.py"))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mod.append(m)
    return _mod[0]


# -- a reader of Matlab assignments ------------------------------------------------------------------------------------

class Bad(Exception):
    pass


def tokens(s):
    """tokens of an expression; line breaks are tokens (inside brackets, they separate rows)"""
    out = []
    for m in re.finditer(r"""(?P<nl>[ \t]*\r?\n)|(?P<sp>[ \t]+)|(?P<num>[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<op>[\[\](){},;'])|(?P<bad>.)""", s):
        k = m.lastgroup
        if k == "bad":
            raise Bad("unexpected %r in %r" % (m.group(), s[:80]))
        if k != "sp":
            out.append((k, m.group().strip() if k != "nl" else "\n"))
    return out


def matrix(s):
    """value of a numeric Matlab expression"""
    t = tokens(s.strip())
    pos = [0]

    def peek():
        return t[pos[0]] if pos[0] < len(t) else (None, None)

    def atom():
        k, v = peek()
        pos[0] += 1
        if k == "num":
            x = np.array([[float(v)]])
        elif k == "id" and v in ("eye", "zeros"):
            args = []
            if peek()[1] != "(":
                raise Bad(s)
            while peek()[1] != ")":
                pos[0] += 1
                if peek()[0] == "num":
                    args.append(int(peek()[1]))
            pos[0] += 1
            x = np.eye(args[0]) if v == "eye" else np.zeros(args if len(args) > 1 else (args[0], args[0]))
        elif v == "[":
            rows, row = [], []
            while peek()[1] != "]":
                if peek()[0] is None:
                    raise Bad("unbalanced brackets in %r" % s[:60])
                if peek()[1] in (";", "\n"):
                    pos[0] += 1
                    if row:
                        rows.append(row)
                    row = []
                elif peek()[1] == ",":
                    pos[0] += 1
                else:
                    row.append(atom())
            pos[0] += 1
            if row:
                rows.append(row)
            try:
                rows = [np.hstack(r) for r in rows]
                rows = [r for r in rows if r.size]
                x = np.vstack(rows) if rows else np.zeros((0, 0))
            except ValueError:
                raise Bad("dimensions of the arrays being concatenated are not consistent: %r" % s[:80])
        else:
            raise Bad("cannot read %r" % s[:80])
        while peek()[1] == "'":
            pos[0] += 1
            x = x.T
        return x
    x = atom()
    if peek()[0] is not None:
        raise Bad("trailing text in %r" % s[:80])
    return x


def statements(text):
    """[(left, right)] of the assignments; comments and continuations removed"""
    lines = []
    for l in text.split("\n"):
        # a % inside a string would not be a comment: names have none here
        l = l.split("%")[0]
        lines.append(l)
    text = re.sub(r"\.\.\.[ \t]*\n", " ", "\n".join(lines))
    out, depth, cur, quoted = [], 0, "", False
    for i, c in enumerate(text):
        if c == "'" and (quoted or not re.search(r"[\w\])}.']$", cur)):
            quoted = not quoted
        if not quoted:
            if c in "[{(":
                depth += 1
            elif c in "]})":
                depth -= 1
            if depth < 0:
                raise Bad("unbalanced brackets")
            if c == ";" and depth == 0 or c == "\n" and depth == 0:
                if "=" in cur and not cur.strip().startswith("function"):
                    a, b = cur.split("=", 1)
                    out.append((a.strip(), b.strip()))
                cur = ""
                continue
        cur += c
    if depth:
        raise Bad("unbalanced brackets")
    return out


def string(s):
    if not (len(s) >= 2 and s[0] == s[-1] == "'"):
        raise Bad("not a string: %r" % s)
    return s[1:-1]


class Robot(object):
    """the tree struct and the model assigned by a generated file"""

    def __init__(self, text):
        self.br, self.model, self.name = {}, {}, None
        for left, right in statements(text):
            m = re.match(r"tree\.br\((\d+)\)\.bd\((\d+)\)\.(shape\((\d+)\)\.)?(\w+)$", left)
            if m:
                bd = self.br.setdefault(int(m.group(1)), {"bd": {}})["bd"].setdefault(int(m.group(2)), {"shape": {}})
                if m.group(4):
                    bd["shape"].setdefault(int(m.group(4)), {})[m.group(5)] = right
                else:
                    if m.group(5) in bd:
                        raise Bad("%s assigned twice" % left)
                    bd[m.group(5)] = right
                continue
            m = re.match(r"tree\.br\((\d+)\)\.(\w+)$", left)
            if m:
                self.br.setdefault(int(m.group(1)), {"bd": {}})[m.group(2)] = right
            elif left == "tree.name":
                self.name = string(right)
            elif left.startswith("robot.model."):
                self.model[left[12:]] = matrix(right)

    def links(self):
        """the links in the order of the branches: [(key, parent key, fields)]"""
        out = []
        require(sorted(self.br) == list(range(1, len(self.br) + 1)), "branches are numbered from 1")
        for i in sorted(self.br):
            br = self.br[i]
            require(sorted(br["bd"]) == list(range(1, len(br["bd"]) + 1)), "bodies of a branch are numbered from 1")
            root = tuple(int(x) for x in re.findall(r"\d+", br["root_jk"]))
            for k in sorted(br["bd"]):
                out.append(((i, k), root if k == 1 else (i, k - 1), br["bd"][k]))
        return out


SWAP = np.zeros((6, 6))
SWAP[:3, 3:] = np.eye(3)
SWAP[3:, :3] = np.eye(3)


# -- export ---------------------------------------------------------------------------------------------------------------

def shapes(n):
    d = gen.num(.02, 2.)
    return st.lists(st.fixed_dictionaries({"k": st.sampled_from(["Point", "Sphere", "Box", "Cylinder"]), "d": st.lists(d, min_size=3, max_size=3), "body": st.integers(1, n), "f": gen.opt_pose(), "named": st.booleans()}), max_size=4)


@st.composite
def trees(draw, types=HINGES, root=("FreeJoint",), max_links=8, shaped=True):
    s = draw(gen.world(1, max_links, types=list(types), mass_st=gen.mass(light=True), subframes=0))
    l0 = dict(s["links"][0], **draw(gen.joint(list(root))))
    l0["parent"] = 0
    links = [l0]
    for i, l in enumerate(s["links"][1:]):
        # one link on the ground only
        links.append(dict(l, parent=max(1, l["parent"])))
    return {"links": links, "subs": [], "shapes": draw(shapes(len(links))) if shaped else [], "bodies": draw(st.booleans())}


def make(spec):
    import arboris.shapes as S
    from arboris.core import SubFrame
    b = build.world(spec, init=False)
    b.shapes = []
    if not spec["bodies"]:
        for x in b.bodies[1:]:
            x.name = None
    for i, s in enumerate(spec["shapes"]):
        body = b.bodies[s["body"]]
        f = body if s["f"] is None else SubFrame(body, ref.pose(s["f"]), "sf%d" % i)
        n = "shape%d" % i if s["named"] else None
        x = {"Point": lambda: S.Point(f, name=n), "Sphere": lambda: S.Sphere(f, s["d"][0], name=n), "Box": lambda: S.Box(f, tuple(s["d"]), name=n), "Cylinder": lambda: S.Cylinder(f, s["d"][0], s["d"][1], name=n)}[s["k"]]()
        b.world.register(x)
        b.shapes.append(x)
    b.world.init()
    b.world.update_dynamic()
    return b


def read(text):
    try:
        return Robot(text)
    except Bad as e:
        raise AssertionError("not a Matlab file: %s" % e)


def same_robot(r, w, order):
    """the exported robot r against the world; order: the joints in the order of the links"""
    q, T = r.model["q"], r.model["T"]
    links = r.links()
    names = [string(f["name"]) for _, _, f in links]
    require(sorted(names) == sorted(j.name for j in order), "the links are %s instead of %s" % (names, [j.name for j in order]))
    byname = dict((j.name, j) for j in order)
    js = [byname[n] for n in names]
    key = dict((id(j.frames[1].body), k) for j, (k, _, _) in zip(js, links))
    pose = {(0, 0): np.eye(4)}
    require(q.shape == (len(js) - 1, 1) or (len(js) == 1 and q.size == 0), "q is a column of %s elements, not %d" % (q.shape, len(js) - 1))
    require(T.shape == (6 + len(js) - 1, 1), "T has shape %s" % (T.shape,))
    for n, (j, (k, p, f)) in enumerate(zip(js, links)):
        what = "link %s (%s): " % (j.name, k)
        require(p == key.get(id(j.frames[0].body), (0, 0)), what + "its parent is %s" % (p,))
        E = matrix(f["E"])
        if n == 0:
            close(E, np.eye(6), 0., what + "E")
            H = r.model["H0"]
            close(T[:6, 0], SWAP.dot(j.gvel), TOL, "velocity of the root, translation first")
        else:
            e = SWAP[:, ["x", "y", "z"].index(type(j).__name__[1])]
            require(E.shape == (6, 1), what + "E is a column")
            close(E[:, 0], e, 0., what + "E")
            H = ref.expm(ref.hat6((SWAP.dot(E))[:, 0] * q[n - 1, 0]))
            close(T[5 + n, 0], float(j.gvel[0]), TOL, what + "velocity")
        pose[k] = pose[p].dot(matrix(f["H_0_0L1"])).dot(H).dot(ref.inv(matrix(f["H_1_1L0"])))
        body = j.frames[1].body
        close(pose[k], body.pose, 1e-8, what + "pose of the body")
        close(SWAP.dot(matrix(f["M"])).dot(SWAP), body.mass, TOL, what + "mass matrix")
    return key


KIND = {"Point": "sphere", "Sphere": "sphere", "Box": "parallelepiped", "Cylinder": "cylinder"}


def same_shapes(r, ss, key):
    want = {}
    for s in ss:
        k = type(s).__name__
        d = {"Point": lambda: [.01], "Sphere": lambda: [s.radius], "Box": lambda: [2 * x for x in s.half_extents], "Cylinder": lambda: [s.radius, s.length]}[k]()
        want.setdefault(key[id(s.frame.body)], []).append((KIND[k], d, s.frame.bpose))
    n = 0
    for k, _, f in r.links():
        got = f["shape"]
        require(sorted(got) == list(range(1, len(got) + 1)), "shapes of %s are numbered from 1" % (k,))
        if not ss:
            continue
        w = list(want.get(k, []))
        require(len(w) == len(got), "body %s has %d shapes in the file, %d in the world" % (k, len(got), len(w)))
        for i in sorted(got):
            t, d, H = string(got[i]["type"]), matrix(got[i]["dims"]).flatten(), matrix(got[i]["H"])
            hit = [x for x in w if x[0] == t and len(x[1]) == d.size and np.allclose(x[1], d, atol=TOL) and np.allclose(x[2], H, atol=TOL)]
            require(hit, "%s %s at %s of body %s is no shape of the world's: %s" % (t, d, H[:3, 3], k, w))
            w = [x for x in w if x is not hit[0]]


def subtree(w, root):
    out, todo = [], [root]
    while todo:
        j = todo.pop(0)
        out.append(j)
        todo.extend(j.frames[1].body.childrenjoints)
    return out


@CHECK.facet(lambda: st.fixed_dictionaries({"s": trees(), "again": st.booleans(), "name": st.sampled_from(["robot", "human36", "r2"])}), quick=320, shards=4, rule="3 links or more and a branch")
def export(case, ctx):
    m = mat()
    b = make(case["s"])
    g = m.MatlabRobotGenerator(b.world)
    out = io.StringIO()
    g.make_robot(b.joints[0], out, case["name"])
    text = out.getvalue()
    require(re.search(r"function\s+robot\s*=\s*create_%s\(\)" % case["name"], text), "the file defines create_%s" % case["name"])
    r = read(text)
    require(r.name == case["name"], "the tree's name is %r" % r.name)
    key = same_robot(r, b.world, b.joints)
    same_shapes(r, b.shapes, key)
    if case["again"]:
        out = io.StringIO()
        g.make_robot(b.joints[0], out, case["name"])
        require(out.getvalue() == text, "the same generator writes the same file again")
    par = [l["parent"] for l in case["s"]["links"]]
    ctx.nt(len(par) >= 3 and len(set(par)) < len(par))
    ctx.label("links%d" % min(9, len(par)), "shapes" if case["s"]["shapes"] else "bare", "named" if case["s"]["bodies"] else "unnamed")


@CHECK.facet(lambda: st.fixed_dictionaries({"s": trees(types=HINGES + HINGES + MULTI + ["TxJoint", "FixedJoint", "TxTyTzJoint", "FreeJoint"], root=["FreeJoint"] * 4 + ["RzJoint", "TxTyTzJoint"], max_links=4)}), quick=240, shards=2, rule="the robot cannot be exported")
def refusals(case, ctx):
    m = mat()
    b = make(case["s"])
    types = [l["jt"] for l in case["s"]["links"]]
    ok = types[0] == "FreeJoint" and all(t in HINGES for t in types[1:])
    out = io.StringIO()
    try:
        m.MatlabRobotGenerator(b.world).make_robot(b.joints[0], out, "r")
        refused = False
    except m.GenerationError:
        refused = True
    require(refused != ok, "robot with joints %s is %s" % (types, "refused" if refused else "accepted"))
    if refused and out.getvalue():
        # nobody should run half a file by mistake
        try:
            r = Robot(out.getvalue())
            require("robot.model" not in out.getvalue() and "end" not in out.getvalue().split(), "a refused robot leaves a complete file")
        except Bad:
            pass
    ctx.nt(refused)


# -- conversion -------------------------------------------------------------------------------------------------------------

PARTS = {"RzRyRxJoint": "zyx", "RzRyJoint": "zy", "RyRxJoint": "yx", "RzRxJoint": "zx"}


def chain(w, parent, child):
    """joints from parent body to child body"""
    out = []
    x = child
    while x is not parent:
        require(x.parentjoint is not None and len(out) < 99, "the child is still a descendant of its parent")
        out.insert(0, x.parentjoint)
        x = x.parentjoint.frames[0].body
    return out


@CHECK.facet(lambda: st.fixed_dictionaries({"s": trees(types=HINGES + MULTI + MULTI, root=["FreeJoint", "FreeJoint"] + HINGES + MULTI, max_links=6, shaped=False), "named": st.booleans(), "q": gen.vec(20, -3., 3.)}), quick=320, shards=4, rule="a joint of several degrees of freedom is split")
def conversion(case, ctx):
    from arboris.joints import FreeJoint
    m = mat()
    spec = case["s"]
    b = make(dict(spec, bodies=True))
    w = b.world
    if not case["named"]:
        for j in b.joints:
            j.name = None
    total0 = sum(x.mass[5, 5] for x in b.bodies[1:])
    masses = [np.array(x.mass) for x in b.bodies]
    frames = [(j.frames[0].bpose.copy() if hasattr(j.frames[0], "bpose") else np.eye(4), j.frames[1].bpose.copy()) for j in b.joints]
    conv = m.MatlabConverter()
    conv.convert_robot(w, b.joints[0])
    w.init()
    w.update_dynamic()
    js = list(w.getjoints())
    roots = w.ground.childrenjoints
    require(len(roots) == 1 and isinstance(roots[0], FreeJoint), "one free joint on the ground")
    require(all(type(j).__name__ in HINGES for j in js if j is not roots[0]), "the other joints are hinges: %s" % [type(j).__name__ for j in js])
    free = spec["links"][0]["jt"] == "FreeJoint"
    base = None if free else roots[0].frames[1].body
    require(free or base not in b.bodies, "a base body carries the robot")
    n_new = 0
    k = 0
    if not free:
        # the base is where the robot was attached
        close(base.pose, frames[0][0], 1e-12, "pose of the base")
        frames[0] = (np.eye(4), frames[0][1])
    pose = [roots[0].frames[1].body.pose] if not free else [np.eye(4)]
    for i, l in enumerate(spec["links"]):
        parent = b.bodies[l["parent"]]
        if l["parent"] == 0:
            parent = w.ground if free else base
        c = chain(w, parent, b.bodies[i + 1])
        want = ["R%sJoint" % a for a in PARTS[l["jt"]]] if l["jt"] in PARTS else [l["jt"]]
        require([type(j).__name__ for j in c] == want, "%s is replaced by %s" % (l["jt"], [type(j).__name__ for j in c]))
        if l["jt"] in PARTS and case["named"]:
            require([j.name for j in c] == ["joint%d%s" % (i, "R" + a) for a in PARTS[l["jt"]]], "names of the joints: %s" % [j.name for j in c])
        if len(want) == 1:
            require(c[0] is b.joints[i], "a compatible joint is kept")
        for j in c[:-1]:
            x = j.frames[1].body
            n_new += 1
            require(0 < x.mass[5, 5] <= conv.small_mass * (1 + 1e-9) and 0 < np.linalg.eigvalsh(x.mass)[0], "a body in between is light (%g, %g allowed)" % (x.mass[5, 5], conv.small_mass))
            close(x.mass, np.diag(np.diag(x.mass)), 1e-12, "a body in between is centred")
        # any coordinates: the same motion as the joint replaced
        if l["jt"] == "FreeJoint":
            q = l["q"]
        else:
            q = [case["q"][(k + t) % 20] for t in range(len(want))]
            for j, x in zip(c, q):
                j.gpos[:] = x
        k += len(want)
        up = pose[l["parent"]]
        H = ref.joint_kin(l["jt"], q, np.zeros(ref.NDOF[l["jt"]]))[0]
        pose.append(up.dot(frames[i][0]).dot(H).dot(ref.inv(frames[i][1])))
    w.update_dynamic()
    for i, x in enumerate(b.bodies):
        if i:
            close(x.pose, pose[i], 1e-9, "pose of body %d in the converted robot" % i)
        close(x.mass, masses[i], 0., "mass of body %d" % i)
    require(len(js) == sum(len(PARTS.get(l["jt"], "1")) for l in spec["links"]) + (0 if free else 1), "number of joints")
    if not free:
        close(base.mass, ref.mass({"m": conv.base_mass, "I": [conv.base_mass / 3. * (y * y + z * z) for y, z in ((conv.base_lengths[1], conv.base_lengths[2]), (conv.base_lengths[0], conv.base_lengths[2]), (conv.base_lengths[0], conv.base_lengths[1]))], "p": {"r": [0, 0, 0], "t": [0, 0, 0]}}), 1e-9, "mass of the base")
        require(len(w.getconstraints()) == 4, "four contacts hold the base")
    else:
        require(len(w.getconstraints()) == 0 and len(w.getshapes()) == 0, "nothing else is added to a free robot")
        # the whole way
        for i, j in enumerate(w.getjoints()):
            j.name = "j%d" % i
        out = io.StringIO()
        m.MatlabRobotGenerator(w).make_robot(roots[0], out, "r")
        same_robot(read(out.getvalue()), w, list(w.getjoints()))
    ctx.nt(n_new > 0)
    ctx.label("free" if free else "based")


# -- simulations --------------------------------------------------------------------------------------------------------------

@CHECK.facet(lambda: st.fixed_dictionaries({"s": trees(max_links=2, shaped=False), "t0": st.sampled_from([0., 0., 1., -.5, .3, 200., 5000.]), "off": st.sampled_from([.3, .3, .05, .01]), "dt": st.one_of(gen.num(.001, .5), st.sampled_from([.1, .005, .01, 1.])), "n": st.integers(2, 60), "g": st.one_of(st.none(), gen.num(-12., 12.).filter(bool)),
                                            "up": st.sampled_from([[0., 1., 0.], [0., 0., 1.], [0., .6, -.8]]), "bad": st.sampled_from([None] * 5 + ["spacing", "two", "constraint", "controller", "weights"]), "how": st.sampled_from(["arange", "sum", "list"]), "at": st.integers(0, 59)}), quick=300, shards=2, rule="three steps or more, or a refusal")
def simulation(case, ctx):
    from arboris.core import Body
    from arboris.joints import RzJoint, FreeJoint
    from arboris.controllers import WeightController, ProportionalDerivativeController
    from arboris.constraints import JointLimits
    m = mat()
    b = make(case["s"])
    w = b.world
    w._up = np.array(case["up"])          # another vertical, where the world has one
    n, t0, dt = case["n"], case["t0"], case["dt"]
    times = {"arange": lambda: t0 + dt * np.arange(n), "list": lambda: [t0 + dt * i for i in range(n)], "sum": lambda: np.array([t0] + [dt] * (n - 1)).cumsum()}[case["how"]]()
    if case["g"] is not None:
        w.register(WeightController(case["g"]))
    bad = case["bad"]
    if bad == "weights":
        if case["g"] is None:
            w.register(WeightController(1.))
        w.register(WeightController(2.))
    elif bad == "controller":
        w.register(ProportionalDerivativeController([]))
    elif bad == "constraint":
        j = RzJoint()
        w.add_link(b.bodies[-1], j, Body())
        w.register(JointLimits(j, -1., 1.))
    elif bad == "two":
        w.add_link(w.ground, FreeJoint(), Body())
    elif bad == "spacing":
        if n < 3:
            ctx.skip("two instants are always equally spaced")
        times = np.array(times)
        times[1 + case["at"] % (n - 1):] += case["off"] * dt
        if 1 + case["at"] % (n - 1) == 1 and n == 2:
            ctx.skip("two instants")
    w.init()
    out = io.StringIO()
    try:
        m.MatlabSimulationGenerator().generate_simulation(w, times, out, "simu")
        refused = False
    except m.GenerationError:
        refused = True
    require(refused == (bad is not None), "%s simulation is %s" % (bad or "correct", "refused" if refused else "accepted"))
    ctx.nt(n > 3 or refused)
    ctx.label(bad or "ok")
    if refused:
        return
    try:
        a = dict((x, y) for x, y in statements(out.getvalue()) if not x.startswith("tree"))
    except Bad as e:
        raise AssertionError("not a Matlab file: %s" % e)
    close(matrix(a["dt"])[0, 0], dt, 1e-9, "step")
    close(matrix(a["t_start"])[0, 0], times[0], 1e-12, "first instant")
    # the last step starts at timeline[-2] and ends at timeline[-1]
    e = matrix(a["t_end"])[0, 0]
    require(times[-2] < e < times[-1] + 1e-9 * dt, "the simulation ends at %r, the timeline at %r" % (e, times[-1]))
    k = [x for x in a if x.endswith("GravityAcceleration")]
    g = matrix(a[k[0]])
    require(len(k) == 1 and g.shape == (6, 1), "gravity is a column")
    close(g[:, 0], np.hstack([np.array(w.up) * (case["g"] or 0.), np.zeros(3)]), 1e-9, "gravity acceleration, translation first")
    m2 = re.search(r"r\s*=\s*create_(\w+)\(\)", out.getvalue())
    require(m2 and "function robot = create_%s()" % m2.group(1) in out.getvalue(), "the simulation uses the robot of the file")
    require("simu_mat.h5" in out.getvalue().replace("'", "").replace("] [", "").replace(" ", ""), "the results go to simu_mat.h5")
    same_robot(read(out.getvalue()[out.getvalue().index("function robot"):]), w, list(w.getjoints()))
