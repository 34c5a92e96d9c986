"""C28: the iCub model is the tabulated robot, whatever the options."""
import json
import os
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, ref
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.core import World
from arboris.shapes import Box, Sphere, Cylinder, Point
from arboris.robots import icub, simplearm

CHECK = Check("C28")
ASSUMPTIONS = ["data/icub.json holds the tables of the pinned commit (kinematics of the iCub wiki, masses of iCub_SIM)"]
T = json.load(open(os.path.join(env.VERIF, "data", "icub.json")))


def same_table(got, want, what):
    require(set(got) == set(want), "%s: entries %s" % (what, sorted(set(got) ^ set(want))))


@CHECK.facet(lambda: st.fixed_dictionaries({"how": st.sampled_from(["default", "rad", "deg"]), "spoil": st.sampled_from(["joints", "bodies", "shapes", "contacts", "limits", "torques"]), "name": st.integers(0, 60)}), quick=300, shards=1,
             rule="every case")
def tables(case, ctx):
    ctx.nt(True)
    fs = {"joints": icub.get_joints_data, "bodies": icub.get_bodies_data, "shapes": icub.get_bodies_shapes_data, "contacts": icub.get_contact_data, "torques": icub.get_torque_limits,
          "limits": {"default": icub.get_joint_limits, "rad": lambda: icub.get_joint_limits(in_radian=True), "deg": lambda: icub.get_joint_limits(in_radian=False)}[case["how"]]}
    # a user may alter the tables he is given
    d = fs[case["spoil"]]()
    k = sorted(d)[case["name"] % len(d)]
    if isinstance(d[k], list):
        del d[k][:]
    else:
        d[k] = None
    for n, f in fs.items():
        got, want = f(), T[n]
        same_table(got, want, n)
        for k in want:
            g, x = got[k], want[k]
            if n == "torques":
                close(g, x, 1e-12, "torque limit of %s" % k)
            elif n == "limits":
                close(list(g), np.array(x) * (1. if case["how"] == "deg" else np.pi / 180), 1e-12, "limits of %s" % k)
                require(g[0] < g[1], "limits of %s are in order" % k)
            elif n == "joints":
                require(g[0] == x[0] and g[2] == x[2], "%s links %s and %s" % (k, g[0], g[2]))
                close(g[1], x[1], 1e-12, "frame of %s" % k)
            elif n == "contacts":
                require(g[0] == x[0] and len(g[1]) == len(x[1]), "contact %s" % k)
                close(list(g[1]), x[1], 1e-12, "size of %s" % k)
                close(g[2], x[2], 1e-12, "place of %s" % k)
            else:
                require(len(g) == len(x), "%d parts in %s" % (len(g), k))
                for a, b in zip(sorted(g, key=key), sorted(x, key=key)):
                    close(list(a[0]), b[0], 1e-12, "size of the parts of %s" % k)
                    if n == "bodies":
                        close(a[1], b[1], 1e-12, "masses of %s" % k)
                    close(a[-1], b[-1], 1e-12, "places of the parts of %s" % k)
    same_table(fs["limits"](), T["joints"], "joints with limits")
    same_table(fs["torques"](), T["joints"], "joints with torque limits")


def key(part):
    return (len(part[0]), [round(float(x), 6) for x in np.array(part[-1])[:3, 3]])


def part_mass(dims, m, H):
    if len(dims) == 3:
        x, y, z = dims
        I = [m / 3. * (y * y + z * z), m / 3. * (x * x + z * z), m / 3. * (x * x + y * y)]
    elif len(dims) == 2:
        l, r = dims
        t = m * (r * r / 4. + l * l / 12.)
        I = [t, t, m * r * r / 2.]
    else:
        I = [.4 * m * dims[0] ** 2] * 3
    A = ref.Ad(ref.inv(np.array(H)))
    return A.T.dot(np.diag(I + [m] * 3)).dot(A)


def size_of(s):
    if isinstance(s, Box):
        return list(s.half_extents)
    if isinstance(s, Cylinder):
        return [s.length, s.radius]
    if isinstance(s, Sphere):
        return [s.radius]
    require(isinstance(s, Point), "shape %r" % s)
    return []


NAMES = sorted(T["joints"])


class _B(object):
    pass


def options():
    b = st.sampled_from([True, False, None])
    return st.fixed_dictionaries({"fixed": b, "shapes": b, "contacts": b, "positional": st.booleans(), "before": st.sampled_from([None, None, "arm"])})


@CHECK.facet(lambda: st.fixed_dictionaries({"o": options(), "q": gen.vec(32, -2., 2.), "v": gen.vec(32, -2., 2.), "root": gen.pose(1.), "rv": gen.vec(6, -1., 1.), "n": st.integers(0, 31)}), quick=500, shards=6,
             rule="some option is off or the world holds something else")
def robot(case, ctx):
    o = case["o"]
    w = World()
    if o["before"]:
        simplearm.add_simplearm(w, "arm ", with_shapes=True)
    b0, j0, s0, f0 = (list(f()) for f in (w.iterbodies, w.iterjoints, w.itershapes, w.itersubframes))
    kw = dict((k, v) for k, v in zip(("is_fixed", "create_shapes", "create_contacts"), (o["fixed"], o["shapes"], o["contacts"])) if v is not None)
    if o["positional"] and len(kw) == 3:
        icub.add(w, kw["is_fixed"], kw["create_shapes"], kw["create_contacts"])
    else:
        icub.add(w, **kw)
    fixed, shapes, contacts = bool(o["fixed"]), o["shapes"] is not False, o["contacts"] is not False
    ctx.nt(fixed or not shapes or not contacts or o["before"] is not None)
    ctx.label("fixed" if fixed else "free")

    def fresh(it, old):
        return [x for x in it() if not any(x is y for y in old)]
    bodies = dict((b.name, b) for b in fresh(w.iterbodies, b0))
    joints = dict((j.name, j) for j in fresh(w.iterjoints, j0))
    require(set(bodies) == set(T["bodies"]) - (set(["waist"]) if fixed else set()), "bodies: %s" % sorted(set(bodies) ^ set(T["bodies"])))
    require(set(joints) == set(T["joints"]) | (set() if fixed else set(["root"])), "joints: %s" % sorted(set(joints) ^ set(T["joints"])))
    require(len(fresh(w.iterbodies, b0)) == len(bodies) and len(fresh(w.iterjoints, j0)) == len(joints), "one of each")
    body = lambda n: w.ground if n == "waist" and fixed else bodies[n]
    total = 0.
    for n, parts in T["bodies"].items():
        if n == "waist" and fixed:
            continue
        M = sum(part_mass(*p) for p in parts)
        m = sum(p[1] for p in parts)
        total += m
        close(bodies[n].mass, M, 1e-9 * m, "mass matrix of %s" % n, rel=False)
        close(bodies[n].viscosity, np.zeros((6, 6)), 0., "viscosity")
    if not fixed:
        r = joints["root"]
        require(type(r).__name__ == "FreeJoint" and r.frame0.body is w.ground and r.frame1.body is bodies["waist"], "free root")
        close(r.gpos, np.eye(4), 0., "initial place of the root")
    for n, (p, H, c) in T["joints"].items():
        j = joints[n]
        require(type(j).__name__ == "RzJoint", "%s is a %s" % (n, type(j).__name__))
        require(j.frame0.body is body(p) and j.frame1.body is bodies[c], "%s links %s and %s" % (n, j.frame0.body.name, j.frame1.body.name))
        close(j.frame0.bpose, H, 1e-12, "frame of %s" % n)
        close(j.frame1.bpose, np.eye(4), 1e-12, "far frame of %s" % n)
        close([j.gpos[0], j.gvel[0]], [0., 0.], 0., "initial state of %s" % n)
    # shapes
    new = fresh(w.itershapes, s0)
    want = []
    if shapes:
        want += [(n + ".body_shape", body(n), d, H) for n, ps in T["shapes"].items() for d, H in ps]
    if contacts:
        want += [(n, body(b), d, H) for n, (b, d, H) in T["contacts"].items()]
    require(len(new) == len(want), "%d shapes instead of %d" % (len(new), len(want)))
    for s in new:
        for k, (n, b, d, H) in enumerate(want):
            if s.name == n and s.frame.body is b and len(size_of(s)) == len(d) and np.allclose(size_of(s), d, 1e-9, 1e-12) and np.allclose(s.frame.bpose, H, 0, 1e-12):
                del want[k]
                break
        else:
            require(False, "unexpected shape %r on %s" % (s.name, s.frame.body.name))
    named = [f for f in fresh(w.itersubframes, f0) if f.name is not None]
    require(sorted(f.name for f in named) == (sorted(T["contacts"]) if contacts else []), "named frames")
    for f in named:
        b, d, H = T["contacts"][f.name]
        require(f.body is body(b), "%s is on %s" % (f.name, f.body.name))
        close(f.bpose, H, 1e-12, "place of %s" % f.name)
    # the world is ready, and moves as the table says
    order = [n for n in NAMES]
    links, num, js = [], {}, []
    Z = np.zeros(6).tolist()
    if not fixed:
        links.append({"parent": 0, "jt": "FreeJoint", "q": case["root"], "v": case["rv"], "f0": None, "f1": None, "mass": {"m": 0., "I": [0.] * 3, "p": None}, "visc": None, "H": None, "b": "waist"})
        num["waist"] = 1
        js.append(joints["root"])
    else:
        num["waist"] = 0
    todo = list(order)
    while todo:
        for n in list(todo):
            p, H, c = T["joints"][n]
            if p in num:
                i = NAMES.index(n)
                links.append({"parent": num[p], "jt": "RzJoint", "q": [case["q"][i]], "v": [case["v"][i]], "f0": None, "f1": None, "mass": {"m": 0., "I": [0.] * 3, "p": None}, "visc": None, "H": H, "b": c})
                num[c] = len(links)
                js.append(joints[n])
                todo.remove(n)
    mod = ref.Model({"links": links})
    for i, l in enumerate(links):
        if l["H"] is not None:
            mod.H0[i] = np.array(l["H"])
        mod.mass[i] = sum(part_mass(*p) for p in T["bodies"][l["b"]])
    require(w.ndof == (0 if fixed else 6) + 32 + (3 if o["before"] else 0), "ndof %s" % w.ndof)
    B = _B()
    B.joints = js
    apply_state(B, links)
    w.update_geometric()
    w.update_dynamic()
    P = mod.kinematics()[0]
    M = mod.dynamics()[0]
    for i, l in enumerate(links):
        close(bodies[l["b"]].pose, P[i + 1], 1e-9, "pose of %s" % l["b"])
    a = np.concatenate([np.arange(j.dof.start, j.dof.stop) for j in js])
    b = np.concatenate([np.arange(mod.dof[i].start, mod.dof[i].stop) for i in range(len(links))])
    close(np.array(w.mass)[np.ix_(a, a)], M[np.ix_(b, b)], 1e-8 * max(1., np.abs(M).max()), "generalized mass", rel=False)
    if not fixed:
        r = joints["root"].dof
        close(np.diag(np.array(w.mass)[r, r])[3:], [total] * 3, 1e-9 * total, "total mass", rel=False)


MIRROR = np.diag([1., -1., 1., 1.])
M6 = np.diag([-1., 1., -1., 1., -1., 1.])
LR = {"l": "r", "r": "l"}
OTHER = {"lh": "rh", "rh": "lh", "lf": "rf", "rf": "lf", "l_": "r_", "r_": "l_"}


def other(n):
    return OTHER[n[:2]] + n[2:] if n[:2] in OTHER else n


@CHECK.facet(lambda: st.fixed_dictionaries({"q": gen.vec(32, -2., 2.), "fixed": st.booleans(), "trunk": st.sampled_from([True, False])}), quick=300, shards=2, rule="every case")
def mirror(case, ctx):
    """the limbs of both sides have the same postures for the same joint positions: body places, inertias, shapes and contacts mirror each other"""
    ctx.nt(True)
    w = World()
    icub.add(w, is_fixed=case["fixed"])
    lims = icub.get_joint_limits()
    for n in NAMES:
        j = w.getjoints()[n]
        s = n if n[:2] not in ("r_",) else "l_" + n[2:]
        if n[:2] in ("l_", "r_"):
            j.gpos[:] = case["q"][NAMES.index(s)]
            require(lims[n] == lims[other(n)], "limits of %s" % n)
            require(icub.get_torque_limits()[n] == icub.get_torque_limits()[other(n)], "torque limits of %s" % n)
        elif "pitch" in n and n.startswith("torso") and case["trunk"]:
            j.gpos[:] = case["q"][NAMES.index(n)]
    w.update_geometric()
    B = dict((b.name, b) for b in w.iterbodies())

    def spatial(b):
        A = ref.Ad(ref.inv(b.pose))
        return A.T.dot(b.mass).dot(A)
    shapes = [(s.name, type(s).__name__, size_of(s), s.frame.pose[:3, 3]) for s in w.itershapes()]
    for n, b in B.items():
        if n[:2] not in ("l_", "r_"):
            continue
        o = B[other(n)]
        close(o.pose[:3, 3], MIRROR.dot(b.pose)[:3, 3], 1e-9, "mirror of the place of %s" % n)
        close(spatial(o), M6.dot(spatial(b)).dot(M6), 1e-9, "mirror of the inertia of %s, seen from the ground" % n)
    for n, t, d, p in shapes:
        if n[:2] in OTHER:
            q = MIRROR[:3, :3].dot(p)
            # (the corners of the hands are not numbered alike on both sides)
            require(any(m[:2] == other(n)[:2] and u == t and np.allclose(d, e, 1e-9) and np.abs(q - r).max() < 1e-9 for m, u, e, r in shapes), "no mirror of the shape %s at %s" % (n, p))
