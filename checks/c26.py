"""C26: arm, snake and simple-shape factories build the robot described."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref
from vp.core import Check, close, require
from checks.c06 import apply_state
from arboris.core import World, SubFrame, simulate
from arboris.joints import RzJoint, FreeJoint
from arboris.shapes import Box, Sphere, Cylinder, Plane
from arboris.controllers import WeightController
from arboris.robots import simplearm, snake, simpleshapes

CHECK = Check("C26")
ID = {"r": [0., 0., 0.], "t": [0., 0., 0.]}


def tr(x, y, z):
    return {"r": [0., 0., 0.], "t": [x, y, z]}


def box_I(h, m):
    x, y, z = h
    return [m / 3. * (y * y + z * z), m / 3. * (x * x + z * z), m / 3. * (x * x + y * y)]


def arm_links(r):
    out = []
    for k, (l, m) in enumerate(zip(r["lengths"], r["masses"])):
        out.append({"jt": "RzJoint", "q": [0.], "v": [0.], "parent": k, "f0": tr(0., r["lengths"][k - 1], 0.) if k else None, "f1": None,
                    "mass": {"m": m, "I": box_I((l / 20., l / 2., l / 20.), m), "p": tr(0., l / 2., 0.)}, "visc": None})
    return out


def snake_links(r):
    out = []
    if not r["fixed"]:
        L = r["lengths"][0] / 2.
        out.append({"jt": "FreeJoint", "q": ID, "v": [0.] * 6, "parent": 0, "f0": None, "f1": None, "mass": {"m": r["masses"][0], "I": box_I((L, L, L), r["masses"][0]), "p": ID}, "visc": None})
    for k, (l, m) in enumerate(zip(r["lengths"], r["masses"])):
        R = l / 5.
        It, Ia = m * (R * R / 4. + l * l / 12.), m * R * R / 2.
        out.append({"jt": "RzJoint", "q": [r["q"][k]], "v": [r["v"][k]], "parent": len(out), "f0": tr(0., r["lengths"][k - 1], 0.) if k else None, "f1": None,
                    "mass": {"m": m, "I": [It, Ia, It], "p": tr(0., l / 2., 0.)}, "visc": None})
    return out


def shape_links(r):
    d, m = r["d"], r["m"]
    if r["k"] == "sphere":
        I = [.4 * m * d[0] ** 2] * 3
    elif r["k"] == "box":
        I = box_I(d, m)
    else:
        t = m * (d[1] ** 2 / 4. + d[0] ** 2 / 12.)
        I = [t, t, m * d[1] ** 2 / 2.]
    return [{"jt": "FreeJoint", "q": ID, "v": [0.] * 6, "parent": 0, "f0": None, "f1": None, "mass": {"m": m, "I": I, "p": ID}, "visc": None}]


L = gen.num(0.05, 3.)
MASS = gen.num(0.05, 20.)


def arms():
    return st.fixed_dictionaries({"robot": st.just("arm"), "default": st.sampled_from([False, False, False, True]), "lengths": st.lists(L, min_size=3, max_size=3),
                                  "masses": st.lists(MASS, min_size=3, max_size=3), "shapes": st.booleans(), "seq": st.sampled_from(["list", "tuple", "array"])})


def snakes():
    def mk(n):
        return st.fixed_dictionaries({"robot": st.just("snake"), "given": st.lists(st.booleans(), min_size=4, max_size=4), "lengths": st.lists(L, min_size=n, max_size=n),
                                      "masses": st.lists(MASS, min_size=n, max_size=n), "q": gen.vec(n, -3., 3.), "v": gen.vec(n, -2., 2.), "fixed": st.booleans(), "fixed_given": st.booleans(), "seq": st.sampled_from(["list", "tuple", "array"])})
    return st.integers(1, 6).flatmap(mk)


def simple():
    return st.fixed_dictionaries({"robot": st.just("shape"), "k": st.sampled_from(["sphere", "box", "cylinder"]), "default": st.sampled_from([False, False, True]), "d": st.lists(L, min_size=3, max_size=3), "m": MASS, "named": st.booleans()})


def robots():
    return st.one_of(arms(), snakes(), simple(), snakes(), arms())


def add(w, r, prefix):
    """build the robot in the world; returns its description"""
    seq = {"list": list, "tuple": tuple, "array": np.array}[r.get("seq", "list")]
    r = dict(r)
    if r["robot"] == "arm":
        if r["default"]:
            r.update(lengths=[.5, .4, .2], masses=[1., .8, .2])
            simplearm.add_simplearm(w, prefix, with_shapes=r["shapes"])
        else:
            simplearm.add_simplearm(w, prefix, seq(r["lengths"]), seq(r["masses"]), r["shapes"])
        return arm_links(r), r
    if r["robot"] == "snake":
        n, kw = len(r["lengths"]), {}
        for k, key, d, g in zip(("lengths", "masses", "gpos", "gvel"), ("lengths", "masses", "q", "v"), (.5, 2., 0., 0.), r["given"]):
            if g:
                kw[k] = seq(r[key])
            else:
                r[key] = [d] * n
        if r["fixed_given"]:
            kw["is_fixed"] = r["fixed"]
        else:
            r["fixed"] = True
        snake.add_snake(w, n, **kw)
        return snake_links(r), r
    f = getattr(simpleshapes, "add_" + r["k"])
    kw = {"name": prefix + "shape"} if r["named"] else {}
    if r["default"]:
        r.update(d=[1., 1., 1.], m=1.)
    elif r["k"] == "sphere":
        kw.update(radius=r["d"][0], mass=r["m"])
    elif r["k"] == "box":
        kw.update(half_extents=tuple(r["d"]), mass=r["m"])
    else:
        kw.update(length=r["d"][0], radius=r["d"][1], mass=r["m"])
    f(w, **kw)
    return shape_links(r), r


def children(body):
    return list(body.childrenjoints)


@CHECK.facet(lambda: st.fixed_dictionaries({"robots": st.lists(robots(), min_size=1, max_size=3), "states": st.lists(st.tuples(gen.pose(1.), gen.vec(6, -2., 2.), gen.vec(6, -3., 3.), gen.vec(6, -2., 2.)).map(list), min_size=3, max_size=3), "plane": st.booleans()}),
             quick=1200, shards=5, rule="several robots or a robot of several bodies with different lengths and masses")
def factories(case, ctx):
    w = World()
    links, specs, bodies, joints, blocks = [], [], [w.ground], [], []
    nshape = 0
    if case["plane"]:
        simpleshapes.add_groundplane(w)
        nshape += 1
    for k, r in enumerate(case["robots"]):
        before = len(children(w.ground))
        shapes0 = list(w.itershapes())
        prefix = "r%d" % k if k or len(case["robots"]) > 1 else ""
        lk, r = add(w, r, prefix)
        ctx.label(r["robot"] if r["robot"] != "shape" else r["k"])
        require(len(children(w.ground)) == before + 1, "the robot is one new chain from the ground")
        base = len(links)
        # walk the chain
        cur = w.ground
        chain = []
        for i, l in enumerate(lk):
            ch = children(cur)
            j = ch[-1] if cur is w.ground else ch[0]
            require(len(ch) == 1 or cur is w.ground, "the robot is a chain")
            require(type(j).__name__ == l["jt"], "joint %d is a %s" % (i, type(j).__name__))
            nxt = j.frame1.body
            chain.append(nxt)
            joints.append(j)
            cur = nxt
            links.append(dict(l, parent=0 if i == 0 else base + i))
        require(len(children(cur)) == 0, "the chain has %d links" % len(lk))
        bodies += chain
        blocks.append((base, len(lk)))
        for i, (l, x) in enumerate(zip(lk, chain)):
            s = max(1e-3, l["mass"]["m"], max(l["mass"]["I"]))
            close(x.mass, ref.mass(l["mass"]), 1e-9 * s, "%s: mass matrix of body %d" % (r["robot"], i), rel=False)
            close(x.viscosity, np.zeros((6, 6)), 0., "viscosity")
        # initial state
        for i, (l, j) in enumerate(zip(lk, joints[base:])):
            close(np.array(j.gpos).ravel(), (ref.pose(l["q"]) if l["jt"] == "FreeJoint" else np.array(l["q"])).ravel(), 1e-12, "initial position of joint %d" % i)
            close(np.array(j.gvel).ravel(), l["v"], 1e-12, "initial velocity of joint %d" % i)
        new = [s for s in w.itershapes() if not any(s is x for x in shapes0)]
        end = None
        if r["robot"] == "arm":
            for x, n in zip(chain, ("Arm", "Forearm", "Hand")):
                require(x.name == prefix + n, "body %r instead of %r" % (x.name, prefix + n))
            for x, n in zip(joints[base:], ("Shoulder", "Elbow", "Wrist")):
                require(x.name == prefix + n, "joint %r instead of %r" % (x.name, prefix + n))
                require(w.getjoints()[prefix + n] is x, "joint found by its name")
            fr = w.getframes()
            for n, x, h in ((prefix + "ElbowBaseFrame", chain[0], r["lengths"][0]), (prefix + "WristBaseFrame", chain[1], r["lengths"][1]), (prefix + "EndEffector", chain[2], r["lengths"][2])):
                f = fr[n]
                require(f.body is x, "%s is on %s" % (n, f.body.name))
                close(f.bpose, ref.trans(0., h, 0.), 1e-12, n)
            end = fr[prefix + "EndEffector"]
            require(len(new) == (3 if r["shapes"] else 0), "%d shapes" % len(new))
            for s in new:
                i = [c is s.frame.body for c in chain].index(True)
                h = r["lengths"][i]
                require(isinstance(s, Box), "boxes")
                close(s.half_extents, [h / 20., h / 2., h / 20.], 1e-12, "box of body %d" % i)
                close(s.frame.bpose, ref.trans(0., h / 2., 0.), 1e-12, "place of the box of body %d" % i)
            require(len(set(id(s.frame.body) for s in new)) == len(new), "one box per body")
        elif r["robot"] == "snake":
            require(not new, "no shape")
            ends = [f for f in w.itersubframes() if f.body is chain[-1]]
            require(len(ends) == 1, "one frame at the end of the snake")
            end = ends[0]
            close(end.bpose, ref.trans(0., r["lengths"][-1], 0.), 1e-12, "end of the snake")
        else:
            require(len(new) == 1 and type(new[0]).__name__.lower() == r["k"], "one %s" % r["k"])
            s = new[0]
            require(s.frame is chain[0] or (s.frame.body is chain[0] and np.allclose(s.frame.bpose, np.eye(4))), "the shape is on the body")
            if r["k"] == "sphere":
                close(s.radius, r["d"][0], 1e-12, "radius")
            elif r["k"] == "box":
                close(s.half_extents, r["d"], 1e-12, "half extents")
            else:
                close([s.length, s.radius], r["d"][:2], 1e-12, "length and radius")
            if r["named"]:
                require(chain[0].name == prefix + "shape", "name %r" % chain[0].name)
        nshape += len(new)
        require(len(list(w.itershapes())) == nshape, "%d shapes in the world" % nshape)
        specs.append((r, end, chain, base))
    if case["plane"]:
        p = [s for s in w.itershapes() if isinstance(s, Plane)]
        require(len(p) == 1 and p[0].frame is w.ground, "the ground plane is on the ground")
        close(p[0].coeffs, [0., 1., 0., 0.], 1e-12, "ground plane")
    ctx.nt(len(case["robots"]) > 1 or len(links) > 2)
    # ready to use: the world is initialised and its model is the one of the description, in any state
    require(w.ndof == sum(ref.NDOF[l["jt"]] for l in links), "ndof %s" % w.ndof)
    if not any(np.abs(np.array(l["v"])).max() > 0 for l in links):
        # zero or given configuration, at rest
        w.update_dynamic()
        for r, end, chain, base in specs:
            if end is not None and (r["robot"] == "arm" or not np.any(r["q"])):
                close(end.pose, ref.trans(0., sum(r["lengths"]), 0.), 1e-9, "end effector in the zero configuration")
    for n in range(2):
        if n:
            for i, l in enumerate(links):
                s = case["states"][i % 3]
                i2 = (i * 7) % 6
                l.update(q=s[0] if l["jt"] == "FreeJoint" else [s[2][i2]], v=s[1] if l["jt"] == "FreeJoint" else [s[3][i2]])

            class B(object):
                pass
            b = B()
            b.joints = joints
            apply_state(b, links)
        w.update_dynamic()
        m = ref.Model({"links": links, "subs": []})
        P, J, dJ, T = m.kinematics()
        M, _, h, _ = m.dynamics()
        for i, x in enumerate(bodies):
            close(x.pose, P[i], 1e-9, "state %d: pose of body %d" % (n, i))
            close(x.twist, T[i], 1e-9, "state %d: twist of body %d" % (n, i))
        sc = max(1., np.abs(M).max())
        close(w.mass, M, 1e-9 * sc, "state %d: mass matrix of the world" % n, rel=False)
        for r, end, chain, base in specs:
            if end is not None:
                i = base + len(chain)
                close(end.pose, P[i].dot(ref.trans(0., r["lengths"][-1], 0.)), 1e-9, "state %d: end effector" % n)
    w.register(WeightController())
    simulate(w, [0., .001, .002])
    require(np.all(np.isfinite(w.gvel)), "the world can be simulated")


@CHECK.facet(lambda: st.fixed_dictionaries({"a": robots(), "b": robots(), "n": st.integers(1, 4)}), quick=500, shards=3, rule="two different robots")
def independent(case, ctx):
    """the second robot moves in a common world as it does alone, and so does the first"""
    ctx.nt(case["a"] != case["b"])

    def run(rs):
        w = World()
        chains = []
        for k, r in enumerate(rs):
            add(w, r, "p%d" % k)
            x = children(w.ground)[-1].frame1.body
            c = []
            while x is not None:
                c.append(x)
                x = children(x)[0].frame1.body if children(x) else None
            chains.append(c)
        w.register(WeightController())
        simulate(w, [0.002 * i for i in range(case["n"] + 1)])
        w.update_dynamic()
        return [[np.array(x.pose) for x in c] for c in chains]
    both, a, b = run([case["a"], case["b"]]), run([case["a"]]), run([case["b"]])
    for x, y, n in ((both[0], a[0], "first"), (both[1], b[0], "second")):
        require(len(x) == len(y), "number of bodies")
        for i in range(len(x)):
            close(x[i], y[i], 1e-8, "%s robot, body %d" % (n, i))

