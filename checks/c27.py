"""C27: the human model scales with height and mass and is laterally symmetric."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, ref
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.core import World, Body, SubFrame
from arboris.joints import RzJoint
from arboris.shapes import Point
from arboris.robots import human36, simplearm

CHECK = Check("C27")
ASSUMPTIONS = ["the anthropometric table is the one of HuMAnS and of de Leva (1996), restated in the check; the right hand's radii of gyration "
               "are those of tests/human36.h5 (see known_findings.json)",
               "legs of exactly the same lengths, or lengths that differ by at least 1e-6 of the height"]

# length of the model, as a share of the height (HuMAnS); one entry for both sides
SHARE = {"yvT10": .2075, "xvT10": .0526, "zhip": .1002, "yvC7": .139, "yhead": .1395}
SIDE = {"yfoot": .0222, "ytibia": .2493, "yfemur": .2425, "ysternoclav": .098, "xsternoclav": .1052, "yshoulder": .0104, "xshoulder": .0526,
        "yhumerus": .1618, "yforearm": .1544, "yhand": .1091, "xfoot": .1482, "xheel": .0248}
INCH = 0.0254
LEG = ("yfoot", "ytibia", "yfemur")
KEYS = sorted(SHARE) + sorted(k + s for k in list(SIDE) + ["zsternoclav", "zshoulder"] for s in "RL" if k not in LEG) + sorted(LEG)


def lengths(h):
    L = dict((k, v * h) for k, v in SHARE.items())
    for s in "RL":
        for k, v in SIDE.items():
            L[k + s] = v * h
        L["zsternoclav" + s] = INCH / 2
        L["zshoulder" + s] = .1295 * h - INCH / 2
    return L


def height_of(L):
    return sum(L[k] for k in ("yfootR", "ytibiaR", "yfemurR", "yvT10", "yvC7", "yhead"))


def reference(L, mass):
    """links (parent by body name), and landmarks, of a human of these lengths"""
    h = height_of(L)
    B, links, tags = {}, [], []

    def body(n, share, c, r, l):
        m = share * mass
        B[n] = {"m": m, "I": [m * (x * l) ** 2 for x in r], "p": {"r": [0., 0., 0.], "t": list(c)}}

    def link(p, t, jt, jn, n):
        links.append({"pn": p, "jn": jn, "bn": n, "jt": jt, "f0": {"r": [0., 0., 0.], "t": [float(x) for x in t]}, "f1": None, "mass": B[n], "visc": None})

    def tag(n, b, *t):
        tags.append((n, b, np.array(t, float)))

    mean = dict((k, (L[k + "R"] + L[k + "L"]) / 2) for k in ("xsternoclav", "ysternoclav"))
    body("LPT", .275, (0, .5108 * L["yvT10"], 0), (.2722, .2628, .226), L["yvT10"])
    body("UPT", .1596, (mean["xsternoclav"] / 2, .7001 * mean["ysternoclav"], 0), (.716, .659, .454), mean["ysternoclav"])
    body("Head", .0694, (0, .4998 * L["yhead"], 0), (.303, .261, .315), L["yhead"])
    for s in "RL":
        l = dict((k[:-1], v) for k, v in L.items() if k.endswith(s))
        body("Thigh" + s, .1416, (0, -.4095 * l["yfemur"], 0), (.329, .149, .329), l["yfemur"])
        body("Shank" + s, .0433, (0, -.4459 * l["ytibia"], 0), (.255, .103, .249), l["ytibia"])
        body("Foot" + s, .0137, (.4415 * l["xfoot"] - l["xheel"], -l["yfoot"] / 2, 0), (.124, .257, .245), l["xfoot"])
        body("Scapula" + s, 0., (0, 0, 0), (0, 0, 0), 0.)
        body("Arm" + s, .0271, (0, -.5772 * l["yhumerus"], 0), (.285, .158, .269), l["yhumerus"])
        body("Forearm" + s, .0162, (0, -.4574 * l["yforearm"], 0), (.276, .121, .265), l["yforearm"])
        body("Hand" + s, .0061, (0, -.3691 * l["yhand"], 0), (.288, .184, .235) if s == "L" else (.235, .184, .288), l["yhand"])
    link(None, (0, L["yfootL"] + L["ytibiaL"] + L["yfemurL"], 0), "FreeJoint", "Root", "LPT")
    for s, z in (("R", 1.), ("L", -1.)):
        l = dict((k[:-1], v) for k, v in L.items() if k.endswith(s))
        link("LPT", (0, 0, z * L["zhip"] / 2), "RzRyRxJoint", "Hip" + s, "Thigh" + s)
        link("Thigh" + s, (0, -l["yfemur"], 0), "RzJoint", "Knee" + s, "Shank" + s)
        link("Shank" + s, (0, -l["ytibia"], 0), "RzRxJoint", "Ankle" + s, "Foot" + s)
    link("LPT", (-L["xvT10"], L["yvT10"], 0), "RzRyRxJoint", "Back", "UPT")
    for s, z in (("R", 1.), ("L", -1.)):
        l = dict((k[:-1], v) for k, v in L.items() if k.endswith(s))
        link("UPT", (l["xsternoclav"], l["ysternoclav"], z * l["zsternoclav"]), "RyRxJoint", "Torso-Scap" + s, "Scapula" + s)
        link("Scapula" + s, (-l["xshoulder"], l["yshoulder"], z * l["zshoulder"]), "RzRyRxJoint", "Arm-Scap" + s, "Arm" + s)
        link("Arm" + s, (0, -l["yhumerus"], 0), "RzRyJoint", "Elbow" + s, "Forearm" + s)
        link("Forearm" + s, (0, -l["yforearm"], 0), "RzRxJoint", "Wrist" + s, "Hand" + s)
    link("UPT", (L["xvT10"], L["yvC7"], 0), "RzRyRxJoint", "Neck", "Head")
    for s, z, S in (("R", 1., "Right"), ("L", -1., "Left")):
        l = dict((k[:-1], v) for k, v in L.items() if k.endswith(s))
        tag(S + " foot toe tip", "Foot" + s, l["xfoot"] - l["xheel"] + 1e-4 * h, -l["yfoot"], 0)
        tag(S + " foot heel", "Foot" + s, -l["xheel"], -l["yfoot"], 0)
        tag(S + " foot phalange 5", "Foot" + s, .0662 * h, -l["yfoot"], z * .0305 * h)
        tag(S + " foot phalange 1", "Foot" + s, .0662 * h, -l["yfoot"], -z * .0305 * h)
        tag(S + " foot lateral malleolus", "Shank" + s, 0, -l["ytibia"], z * .0249 * h)
        tag("Femoral lateral epicondyle" if s == "R" else "Left femoral lateral epicondyle", "Thigh" + s, 0, -l["yfemur"], z * .029 * h)
        tag(S + " great trochanter", "Thigh" + s, 0, 0, z * (.0941 * h - L["zhip"] / 2))
        tag(S + " iliac crest", "LPT", .0271 * h, .0366 * h, z * .0697 * h)
        tag(S + " acromion", "Scapula" + s, -l["xshoulder"], .0198 * h + l["yshoulder"], z * l["zshoulder"])
        tag(S + " humeral lateral epicondyle (radiale)", "Arm" + s, 0, -l["yhumerus"], z * .0211 * h)
        tag(S + " stylion", "Forearm" + s, 0, -.1533 * h, z * .0331 * h)
        tag(S + " 3rd dactylion", "Hand" + s, 0, -l["yhand"], 0)
    tag("Substernale (Xyphoid)", "UPT", .1219 * h, 0, 0)
    tag("Suprasternale", "UPT", mean["xsternoclav"], mean["ysternoclav"], 0)
    tag("Cervicale", "UPT", L["xvT10"], L["yvC7"], 0)
    tag("Vertex", "Head", 0, L["yhead"], 0)
    return links, tags


FOOT = ("foot toe tip", "foot heel", "foot phalange 5", "foot phalange 1")
H = gen.num(0.5, 2.5)
MASS = gen.num(1., 200.)


@st.composite
def human(draw, changes=True):
    c = {"h": draw(H), "m": draw(MASS), "how": draw(st.sampled_from(["default", "height", "lengths", "lengths"])), "prefix": draw(st.sampled_from(["", "Bob's ", "a", "x_"])), "f": {}}
    if changes and c["how"] == "lengths":
        n = draw(st.integers(0, 5))
        for k in draw(st.lists(st.sampled_from(KEYS), min_size=n, max_size=n, unique=True)):
            c["f"][k] = draw(st.sampled_from([.5, .7, .9, 1.1, 1.3, 2.]))
    return c


def lengths_of(c):
    if c["how"] == "default":
        return lengths(1.741), 73.
    L = lengths(c["h"])
    for k, f in c["f"].items():
        for x in ([k + "R", k + "L"] if k in LEG else [k]):
            L[x] *= f
    return L, c["m"]


def add(w, c):
    L, m = lengths_of(c)
    if c["how"] == "default":
        human36.add_human36(w, prefix=c["prefix"])
    elif c["how"] == "height":
        human36.add_human36(w, height=c["h"], mass=m, prefix=c["prefix"])
    else:
        M = human36.anat_lengths_from_height(c["h"])
        for k, f in c["f"].items():
            for x in ([k + "R", k + "L"] if k in LEG else [k]):
                M[x] *= f
        before = dict(M)
        human36.add_human36(w, height=c["h"] * 1.1, mass=m, anat_lengths=M, prefix=c["prefix"])
        require(M == before, "the given lengths are left alone")
    return L, m


@CHECK.facet(lambda: st.fixed_dictionaries({"h": H, "leg": st.sampled_from(["yfootR", "ytibiaR", "yfemurR", "yfootL", "ytibiaL", "yfemurL"]), "d": st.sampled_from([1e-6, 1e-3, .1, -1e-6, -.05]),
                                            "f": st.dictionaries(st.sampled_from(KEYS), st.sampled_from([.5, .8, 1.2, 2.]), max_size=6)}), quick=500, shards=1,
             rule="a length the height depends on is modified")
def lengths_and_height(case, ctx):
    h = case["h"]
    L = human36.anat_lengths_from_height(h)
    R = lengths(h)
    require(set(L) == set(R), "lengths: %s" % sorted(set(L) ^ set(R)))
    for k in R:
        close(L[k], R[k], 1e-12, k)
    close(human36.height_from_anat_lengths(L), h, 1e-9, "height of the lengths of a height")
    for k, f in case["f"].items():
        for x in ([k + "R", k + "L"] if k in LEG else [k]):
            L[x] *= f
            R[x] *= f
    ctx.nt(any(k in LEG or k in ("yvT10", "yvC7", "yhead") for k in case["f"]))
    close(human36.height_from_anat_lengths(L), height_of(R), 1e-9, "height of modified lengths")
    L[case["leg"]] += case["d"] * h
    try:
        human36.height_from_anat_lengths(L)
    except ValueError:
        pass
    else:
        require(False, "unequal legs are refused")
    w = World()
    try:
        human36.add_human36(w, anat_lengths=L)
    except ValueError:
        pass
    else:
        require(False, "unequal legs are refused when adding a human")
    require(len(list(w.iterbodies())) == 1, "nothing is added to the world")


class _B(object):
    pass


def find(w, prefix, links):
    """bodies and joints by name, through the world's own lookups"""
    bodies, joints = w.getbodies(), w.getjoints()
    return [bodies[prefix + l["bn"]] for l in links], [joints[prefix + l["jn"]] for l in links]


@CHECK.facet(lambda: st.fixed_dictionaries({"humans": st.lists(human(), min_size=1, max_size=2), "arm": st.booleans(), "states": st.lists(st.tuples(gen.pose(1.), gen.vec(6, -2., 2.), gen.vec(3, -2., 2.)).map(list), min_size=5, max_size=5)}),
             quick=900, shards=6, rule="modified lengths, or several humans in one world")
def model(case, ctx):
    """the built world is the tabulated human, in the initial state and in any other"""
    w = World()
    arm = 0
    if case["arm"]:
        simplearm.add_simplearm(w, "arm ")
        arm = 3
    hs = case["humans"]
    if len(hs) == 2:
        hs[0]["prefix"], hs[1]["prefix"] = "one ", "two "
    ctx.nt(len(hs) > 1 or bool(hs[0]["f"]))
    for c in hs:
        ctx.label(c["how"])
    known = list(w.iterframes())
    all_links, blocks = [], []
    for c in hs:
        s0 = list(w.itershapes())
        f0 = list(w.itersubframes())
        L, m = add(w, c)
        links, tags = reference(L, m)
        bodies, joints = find(w, c["prefix"], links)
        base = len(all_links)
        num = dict((l["bn"], base + i + 1) for i, l in enumerate(links))
        for i, (l, b, j) in enumerate(zip(links, bodies, joints)):
            l = dict(l, parent=0 if l["pn"] is None else num[l["pn"]])
            nd = ref.NDOF[l["jt"]]
            l["q"], l["v"] = ({"r": [0., 0., 0.], "t": [0., 0., 0.]} if l["jt"] == "FreeJoint" else [0.] * nd), [0.] * nd
            all_links.append(l)
            require(type(j).__name__ == l["jt"], "%s is a %s" % (l["jn"], type(j).__name__))
            require(j.frame1.body is b, "%s carries %s" % (l["jn"], j.frame1.body.name))
            require(j.frame0.body is (w.ground if l["pn"] is None else bodies[num[l["pn"]] - base - 1]), "%s starts from %s" % (l["jn"], j.frame0.body.name))
            M = ref.mass(l["mass"])
            close(b.mass, M, 1e-9 * max(np.abs(M).max(), 1e-3), "mass matrix of %s" % b.name, rel=False)
            close(b.viscosity, np.zeros((6, 6)), 0., "viscosity of %s" % b.name)
            close(np.array(j.gpos).ravel(), np.eye(4).ravel() if l["jt"] == "FreeJoint" else l["q"], 0., "initial position of %s" % j.name)
            close(np.array(j.gvel).ravel(), l["v"], 0., "initial velocity of %s" % j.name)
        frames = w.getframes()
        for n, b, t in tags:
            f = frames[c["prefix"] + n]
            require(f.body is bodies[num[b] - base - 1], "%s is on %s" % (n, f.body.name))
            T = np.eye(4)
            T[:3, 3] = t
            close(f.bpose, T, 1e-12, "place of %s" % n)
        named = [f for f in w.itersubframes() if f.name is not None and not any(f is x for x in f0)]
        require(sorted(f.name for f in named) == sorted(c["prefix"] + n for n, _, _ in tags), "landmarks")
        new = [s for s in w.itershapes() if not any(s is x for x in s0)]
        require(len(new) == 8 and all(isinstance(s, Point) for s in new), "a point for each contact landmark of the feet")
        pts = sorted(s.frame.name for s in new)
        require(pts == sorted(c["prefix"] + S + " " + n for S in ("Right", "Left") for n in FOOT), "points: %s" % pts)
        require(sorted(s.name for s in new) == pts, "names of the points")
        blocks.append((c, L, m, bodies, joints, tags, num, base))
    require(len(list(w.iterbodies())) == 1 + arm + 17 * len(hs), "bodies")
    require(w.ndof == arm + 42 * len(hs), "ndof is %s" % w.ndof)
    for n in range(2):
        if n:
            for i, l in enumerate(all_links):
                s = case["states"][(i * 3) % 5]
                nd = ref.NDOF[l["jt"]]
                l["q"], l["v"] = (s[0], s[1]) if l["jt"] == "FreeJoint" else (s[2][:nd], s[1][:nd])
            B = _B()
            B.joints = [j for x in blocks for j in x[4]]
            apply_state(B, all_links)
        w.update_geometric()
        w.update_dynamic()
        mod = ref.Model({"links": all_links})
        P = mod.kinematics()[0]
        M = mod.dynamics()[0]
        Mw = np.array(w.mass)
        frames2 = w.getframes()
        for c, L, m, bodies, joints, tags, num, base in blocks:
            h = height_of(L)
            for b, k in zip(bodies, range(base, base + 17)):
                close(b.pose, P[k + 1], 1e-9, "pose of %s" % b.name)
            for name, b, t in tags:
                f = frames2[c["prefix"] + name]
                close(f.pose[:3, 3], P[num[b]].dot(np.append(t, 1.))[:3], 1e-9, name)
            ours = np.concatenate([np.arange(j.dof.start, j.dof.stop) for j in joints])
            theirs = np.concatenate([np.arange(mod.dof[k].start, mod.dof[k].stop) for k in range(base, base + 17)])
            close(Mw[np.ix_(ours, ours)], M[np.ix_(theirs, theirs)], 1e-9 * m * max(1., h * h), "generalized mass", rel=False)
            if n == 0:
                y = dict((name, frames2[c["prefix"] + name].pose[1, 3]) for name, _, _ in tags)
                for name, v in y.items():
                    require(v > -1e-9 * h, "%s is below the ground" % name)
                    if any(name.endswith(x) for x in FOOT):
                        close(v, 0., 1e-9, "height of %s" % name)
                close(y["Vertex"], h, 1e-9, "top of the head")
                close(sum(b.mass[5, 5] for b in bodies), m, 1e-9 * m, "total mass", rel=False)


# HuMAnS: places of some landmarks, at rest, for a height of 1.741 (published with the tests)
HUMANS = {"Right foot toe tip": (.2150135, 0., .0872241), "Right foot phalange 5": (.1152542, 0., .1403246), "Femoral lateral epicondyle": (0., .4726815, .1377131),
          "Right great trochanter": (0., .894874, .1638281), "Left iliac crest": (.0471811, .9585946, -.1213477), "Suprasternale": (.0915766, 1.4267495, 0.),
          "Right acromion": (0., 1.4793277, .2254595), "Left stylion": (0., .8962668, -.2830866), "Left 3rd dactylion": (0., .7044086, -.2254595),
          "Cervicale": (0., 1.4981305, 0.), "Vertex": (0., 1.741, 0.), "Substernale (Xyphoid)": (.1206513, 1.2561315, 0.)}


def twin(name):
    if name == "Left femoral lateral epicondyle":
        return "Femoral lateral epicondyle"
    for a, b in (("Right", "Left"), ("Left", "Right")):
        if name.startswith(a):
            return b + name[len(a):]
    if name == "Femoral lateral epicondyle":
        return "Left femoral lateral epicondyle"
    return name


MIRROR = np.diag([1., 1., -1., 1.])
MIRROR6 = np.diag([-1., -1., 1., 1., 1., -1.])    # of (angular, linear) under z -> -z


@CHECK.facet(lambda: st.fixed_dictionaries({"h": H, "m": MASS, "s": gen.num(.3, 3.), "k": gen.num(.2, 5.)}), quick=400, shards=2, rule="scaled by more than 10%")
def scaling(case, ctx):
    h, m, s, k = case["h"], case["m"], case["s"], case["k"]
    ctx.nt(abs(s - 1) > .1 and abs(k - 1) > .1)

    def build(h, m):
        w = World()
        human36.add_human36(w, height=h, mass=m)
        w.update_geometric()
        return w
    a, b = build(h, m), build(h * s, m * k)
    fb = b.getframes()
    for f in a.itersubframes():
        if f.name is None:
            continue
        close(fb[f.name].pose[:3, 3], s * f.pose[:3, 3], 1e-9, "%s scales with the height" % f.name)
        if f.name in HUMANS:
            close(f.pose[:3, 3] / h * 1.741, HUMANS[f.name], 2e-6, "%s, against HuMAnS" % f.name)
    D = np.diag([s, s, s, 1., 1., 1.])
    bb = b.getbodies()
    for x in a.iterbodies():
        if x is not a.ground:
            close(bb[x.name].mass, k * D.dot(x.mass).dot(D), 1e-9, "inertia of %s scales with the mass and the square of the lengths" % x.name)


BODIES = ["LPT", "UPT", "Head", "Thigh", "Shank", "Foot", "Scapula", "Arm", "Forearm", "Hand"]
JOINT_MIRROR = {"Rz": 1., "Ry": -1., "Rx": -1.}


@CHECK.facet(lambda: st.fixed_dictionaries({"human": human(), "q": st.lists(gen.vec(3, -2., 2.), min_size=6, max_size=6), "root": gen.vec(3, -1., 1.), "inertia": st.sampled_from([b for b in BODIES if b != "Hand"])}),
             quick=900, shards=3, rule="lengths differ between the sides, or posture other than standing")
def mirror(case, ctx):
    """swapping the lengths of the sides, and the state of the joints, mirrors the human"""
    c = dict(case["human"], prefix="", how="lengths")
    ctx.nt(True)
    ctx.label("asymmetric" if any(k[-1] in "RL" for k in c["f"]) else "symmetric")
    sw = dict(c, f=dict(((k[:-1] + {"R": "L", "L": "R"}[k[-1]]) if k[-1] in "RL" else k, v) for k, v in c["f"].items()))
    wa, wb = World(), World()
    add(wa, c)
    add(wb, sw)
    ja, jb = wa.getjoints(), wb.getjoints()

    def other(n):
        return n[:-1] + {"R": "L", "L": "R"}[n[-1]] if n[-1] in "RL" else n
    for i, j in enumerate(sorted(ja, key=lambda x: x.name)):
        o = jb[other(j.name)]
        if j.name == "Root":
            T = ref.pose({"r": case["root"], "t": case["root"]})
            j.gpos[:] = T
            o.gpos[:] = MIRROR.dot(T).dot(MIRROR)
            continue
        t = type(j).__name__
        require(type(o).__name__ == t, "%s and %s are alike" % (j.name, o.name))
        q = np.array(case["q"][i % 6][:j.ndof])
        j.gpos[:] = q
        o.gpos[:] = q * [JOINT_MIRROR[t[2 * k:2 * k + 2]] for k in range(j.ndof)]
    for w in (wa, wb):
        w.update_geometric()
    fb, bb = wb.getframes(), wb.getbodies()
    for f in wa.itersubframes():
        if f.name is not None:
            close(fb[twin(f.name)].pose[:3, 3], MIRROR.dot(f.pose)[:3, 3], 1e-9, "mirror of %s" % f.name)
    for x in wa.iterbodies():
        if x is wa.ground:
            continue
        y = bb[other(x.name)]
        close(y.pose, MIRROR.dot(x.pose).dot(MIRROR), 1e-9, "mirror of the pose of %s" % x.name)
        if x.name[:-1] == "Hand":
            # the mass and the centre of mass
            close(y.mass[3:], MIRROR6.dot(x.mass).dot(MIRROR6)[3:], 1e-9, "mirror of the mass of %s" % x.name)
        if x.name in (case["inertia"], case["inertia"] + "R", case["inertia"] + "L"):
            close(y.mass, MIRROR6.dot(x.mass).dot(MIRROR6), 1e-9, "mirror of the inertia of %s" % x.name)
