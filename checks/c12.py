"""C12: traversal visits every element once, parents first."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
from arboris.core import World, Body, SubFrame, MovingSubFrame, simulate
from arboris.shapes import Sphere, Plane, Point, Box, Cylinder
from arboris.controllers import WeightController
from arboris.constraints import BallAndSocketConstraint, JointLimits, SoftFingerContact

CHECK = Check("C12")


CONS = ["ball", "limit", "contact", "ball off", "limit later", "contact off"]


@st.composite
def _case(draw):
    n = draw(st.integers(0, 8))
    parents = [draw(st.integers(0, i)) for i in range(n)]
    return {"parents": parents,
            "f0": [draw(st.sampled_from(["body", "sub", "moving", "shared"])) for _ in range(n)],
            "f1": [draw(st.sampled_from(["body", "sub", "moving"])) for _ in range(n)],
            "jt": [draw(st.sampled_from(["RzJoint", "FreeJoint", "FixedJoint"])) for _ in range(n)],
            "subs": [[draw(st.integers(0, n)), draw(st.booleans())] for _ in range(draw(st.integers(0, 5)))],
            "shapes": [[draw(st.integers(0, 12)), draw(st.integers(0, 4)), draw(st.booleans())] for _ in range(draw(st.integers(0, 6)))],
            "cons": draw(st.lists(st.sampled_from(CONS), max_size=3)),
            "ctls": draw(st.integers(0, 2)),
            # names are labels: absent, shared or empty, they change nothing
            "names": draw(st.one_of(st.none(), st.lists(st.sampled_from([None, "", "a", "a", "ground"]), min_size=1, max_size=4))),
            "init": draw(st.booleans()), "t": draw(st.sampled_from([0, 0, 0, 1, -2.5, 1e4]))}


class Target(object):
    def __init__(self):
        self.calls = []

    def init_parse(self, ground, up, current_time):
        self.calls.append(("init", ground, np.array(up).tolist(), current_time))

    def register(self, obj):
        self.calls.append(("reg", obj))

    def add_link(self, f0, j, f1):
        self.calls.append(("link", f0, j, f1))


def make(case):
    import arboris.joints as aj
    w = World()
    bodies = [w.ground]
    frames = [w.ground]
    joints = []
    regs = {"subs": [], "shapes": [], "cons": [], "ctls": []}
    kids = {0: []}
    shared = {}

    def see(f):
        if not isinstance(f, Body) and not any(f is x for x in regs["subs"]):
            regs["subs"].append(f)
            frames.append(f)
    for i, p in enumerate(case["parents"]):
        body = Body(mass=np.eye(6))
        kind = case["f0"][i]
        if kind == "shared" and p in shared:
            f0 = shared[p]
        else:
            f0 = bodies[p] if kind == "body" else (MovingSubFrame if kind == "moving" else SubFrame)(bodies[p], ref.trans(0, 0, i))
        if kind == "shared":
            shared[p] = f0
        kind = case["f1"][i]
        f1 = body if kind == "body" else (MovingSubFrame if kind == "moving" else SubFrame)(body, ref.trans(0, i, 0))
        j = getattr(aj, case["jt"][i])()
        w.add_link(f0, j, f1)
        bodies.append(body)
        frames.append(body)
        joints.append(j)
        kids[p].append(i)
        kids[i + 1] = []
        see(f0)
        see(f1)
    for k, mv in case["subs"]:
        f = (MovingSubFrame if mv else SubFrame)(bodies[k], ref.trans(k, 0, 0))
        w.register(f)
        see(f)
    kinds = [Sphere, Plane, Point, Box, Cylinder]
    for k, kind, own in case["shapes"]:
        fr = frames[k % len(frames)]
        if own:
            fr = SubFrame(fr.body, ref.trans(0, 1, 0))     # not registered yet
        s = kinds[kind](fr)
        w.register(s)
        regs["shapes"].append(s)
        see(fr)
    for kind in case["cons"]:
        off = kind.split()[1:]
        kind = kind.split()[0]
        if kind == "ball":
            c = BallAndSocketConstraint((bodies[0], bodies[-1]))
        elif kind == "limit":
            lin = [j for j, jt in zip(joints, case["jt"]) if jt == "RzJoint"]
            if not lin:
                continue
            c = JointLimits(lin[0], -1., 1.)
        else:
            sp = [s for s in regs["shapes"] if isinstance(s, Sphere)]
            if len(sp) < 2 or sp[0].frame.body is sp[-1].frame.body:
                continue
            c = SoftFingerContact((sp[0], sp[-1]), .5)
            if "off" in off:
                c.disable()
            regs["cons"].append(c)
            before = ids(w.itermovingsubframes())
            w.register(c)
            new = [f for f in w.itermovingsubframes() if id(f) not in before]
            # the frames the contact moves along, one per shape
            require(ids(f.body for f in new) in (ids(x.frame.body for x in (sp[0], sp[-1])), ids(x.frame.body for x in (sp[-1], sp[0]))),
                    "registering a contact adds moving subframes to %s" % [f.body.name for f in new])
            for f in new:
                see(f)
            continue
        if "off" in off:
            c.disable()
        w.register(c)
        if "later" in off:
            c.disable()
        regs["cons"].append(c)
    for _ in range(case["ctls"]):
        c = WeightController()
        w.register(c)
        regs["ctls"].append(c)
    return w, bodies, joints, kids, regs, frames


def ids(x):
    return [id(o) for o in x]


@CHECK.facet(_case, quick=2500, shards=4, rule="at least three links, with a branch, a shape and a subframe")
def traversal(case, ctx):
    w, bodies, joints, kids, regs, frames = make(case)
    ctx.nt(len(joints) >= 3 and any(len(k) > 1 for k in kids.values()) and regs["shapes"] and regs["subs"])
    if case["init"]:
        w.init()
    if case["t"]:
        simulate(w, [case["t"]])
    if case["names"]:
        for i, x in enumerate(list(w.iterframes()) + list(w.iterjoints()) + list(w.itershapes()) + list(w.iterconstraints())):
            x.name = case["names"][i % len(case["names"])]

    def dfs(b):
        out = []
        for i in kids[b]:
            out.append(i)
            out += dfs(i + 1)
        return out
    order = dfs(0)
    # iterators
    require(ids(w.iterjoints()) == ids(joints[i] for i in order), "iterjoints")
    require(ids(w.iterbodies()) == ids([w.ground] + [bodies[i + 1] for i in order]), "iterbodies")
    require(ids(w.getbodies()) == ids(w.iterbodies()), "getbodies")
    # insertion order of the subframes created by the contacts is theirs to choose
    subs = list(w.itersubframes())
    known = [s for s in subs if any(s is x for x in regs["subs"])]
    require(ids(known) == ids(regs["subs"]), "itersubframes")
    require(len(set(ids(subs))) == len(subs), "a subframe is enumerated twice")
    require(ids(w.itermovingsubframes()) == ids(s for s in subs if isinstance(s, MovingSubFrame)), "itermovingsubframes")
    require(ids(w.iterframes()) == ids(list(w.iterbodies()) + subs), "iterframes")
    require(ids(w.getframes()) == ids(w.iterframes()), "getframes")
    require(ids(w.itershapes()) == ids(regs["shapes"]) == ids(w.getshapes()), "itershapes")
    require(ids(w.iterconstraints()) == ids(regs["cons"]) == ids(w.getconstraints()), "iterconstraints")
    require(ids(w.getcontrollers()) == ids(regs["ctls"]), "getcontrollers")
    par = {}
    for p, k in kids.items():
        for i in k:
            par[i + 1] = (p, i)
    for k, body in enumerate(bodies):
        require(ids(body.iter_descendant_joints()) == ids(joints[i] for i in dfs(k)), "iter_descendant_joints")
        require(ids(body.iter_descendant_bodies()) == ids(bodies[i + 1] for i in dfs(k)), "iter_descendant_bodies")
        anc, aj, c = [], [], k
        while c in par:
            c, i = par[c]
            anc.append(bodies[c])
            aj.append(joints[i])
        require(ids(body.iter_ancestor_bodies()) == ids(anc), "iter_ancestor_bodies")
        require(ids(body.iter_ancestor_joints()) == ids(aj), "iter_ancestor_joints")
    # parse
    for _ in range(2):
        t = Target()
        w.parse(t)
        check_parse(t.calls, w, joints, bodies, regs, subs, order)


def check_parse(calls, w, joints, bodies, regs, subs, order):
    require(bool(calls) and calls[0][0] == "init" and calls[0][1] is w.ground and calls[0][2] == [0., 1., 0.]
            and calls[0][3] == w.current_time, "parse starts with the ground, the up vector and the time")
    require(all(c[0] != "init" for c in calls[1:]), "parse starts once")
    links = [c for c in calls if c[0] == "link"]
    require(ids(c[2] for c in links) == ids(joints[i] for i in order), "links are reported once, in depth-first order")
    for c in links:
        require(c[1] is c[2].frame0 and c[3] is c[2].frame1, "a link is reported with the frames of its joint")
    reg = [c[1] for c in calls if c[0] == "reg"]
    expected = bodies + subs + regs["shapes"] + regs["cons"] + regs["ctls"]
    require(sorted(ids(reg)) == sorted(ids(expected)), "each element is reported exactly once: %d reported, %d expected, %d distinct" % (
        len(reg), len(expected), len(set(ids(reg)))))
    seen = set()
    linked = set([id(w.ground)])
    shapes = set(ids(regs["shapes"]))
    for c in calls[1:]:
        if c[0] == "link":
            require(id(c[1].body) in seen, "a link is reported before its parent body")
            require(id(c[1]) in seen, "a link is reported before its parent frame")
            require(id(c[3].body) not in seen, "a link is reported after its child body")
            linked.add(id(c[3].body))
        else:
            o = c[1]
            if isinstance(o, Body):
                require(id(o) in linked, "a body is reported before the link that carries it")
            elif isinstance(o, (SubFrame, MovingSubFrame)):
                require(id(o.body) in seen, "a subframe is reported before its body")
            elif id(o) in shapes:
                require(id(o.frame) in seen, "a shape is reported before its frame")
            seen.add(id(o))


@CHECK.facet(lambda: st.fixed_dictionaries({"n": st.integers(20, 80), "seed": st.integers(0, 10 ** 6), "near": st.sampled_from([1, 8, 8, 1000])}), quick=60, shards=2, rule="more than forty links")
def large(case, ctx):
    """trees of many bodies, frames and shapes"""
    r = np.random.RandomState(case["seed"])
    n = case["n"]

    def pick(x, k):
        return [x[int(i)] for i in r.randint(len(x), size=k)]
    traversal({"parents": [int(r.randint(max(0, i - case["near"]), i + 1) if case["near"] < 1000 else r.randint(0, min(3, i + 1))) for i in range(n)], "f0": pick(["body", "sub", "moving", "shared"], n), "f1": pick(["body", "sub", "moving"], n),
               "jt": pick(["RzJoint", "FreeJoint", "FixedJoint"], n), "subs": [[int(r.randint(n + 1)), bool(r.rand() < .5)] for _ in range(30)],
               "shapes": [[int(r.randint(12)), int(r.randint(5)), bool(r.rand() < .5)] for _ in range(30)], "cons": pick(CONS, 12), "ctls": 6,
               "names": None, "init": bool(r.rand() < .5), "t": 0}, ctx)
    ctx.nt(n > 40)
