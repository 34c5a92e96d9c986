"""C11: world bookkeeping, as operation sequences against a reference tree."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build, sim
from vp.core import Check, Violation, close, require
from arboris.core import World, Body, SubFrame, MovingSubFrame, JointsList, Controller, Constraint
from arboris.shapes import Sphere, Plane
from arboris.controllers import WeightController
from arboris.constraints import BallAndSocketConstraint, SoftFingerContact

CHECK = Check("C11")


def _op():
    i = st.integers(0, 30)
    jn = gen.joint()
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("add"), "at": i, "j": jn, "f0": st.booleans(), "f1": st.booleans(), "p": gen.pose(1.)}),
        st.fixed_dictionaries({"op": st.just("add"), "at": i, "j": jn, "f0": st.booleans(), "f1": st.booleans(), "p": gen.pose(1.)}),
        st.fixed_dictionaries({"op": st.just("addmany"), "at": i, "js": st.lists(jn, min_size=2, max_size=3)}),
        st.fixed_dictionaries({"op": st.just("replace"), "k": i, "j": jn, "frames": st.booleans(), "p": gen.pose(1.)}),
        st.fixed_dictionaries({"op": st.just("chain"), "k": i, "js": st.lists(jn, min_size=2, max_size=3), "f": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("init")}),
        st.fixed_dictionaries({"op": st.just("vel"), "k": i, "v": gen.vec(6, -3, 3)}),
        st.fixed_dictionaries({"op": st.just("step"), "dt": st.sampled_from([1e-3, .01]), "k": i, "v": gen.vec(6, -3, 3)}),
        st.fixed_dictionaries({"op": st.just("reuse"), "at": i}),
        st.fixed_dictionaries({"op": st.just("register"), "what": st.sampled_from(["sub", "moving", "sphere", "plane", "on moving", "ctl", "con", "con off", "contact", "contact off", "body"]), "at": i}),
        st.fixed_dictionaries({"op": st.just("again"), "k": i}),
        st.fixed_dictionaries({"op": st.just("bad"), "what": st.sampled_from(["parent", "joint", "unknown", "replace"]), "at": i, "k": i}))


class Tree(object):
    """the reference"""

    def __init__(self):
        self.w = World()
        self.kids = {0: []}          # body index -> [joint index]
        self.bodies = [self.w.ground]
        self.joints = []             # (joint, ndof, parent body, child body) or None when detached
        self.order_reg = {"sub": [], "shape": [], "ctl": [], "con": []}
        self.free = []               # detached joints, to be used again
        self.vel = {}

    def dfs(self, b=0):
        out = []
        for k in self.kids[b]:
            out.append(k)
            out.extend(self.dfs(self.joints[k][3]))
        return out

    def new_body(self):
        self.bodies.append(Body(name="b%d" % len(self.bodies), mass=np.eye(6)))
        self.kids[len(self.bodies) - 1] = []
        return len(self.bodies) - 1

    def new_joint(self, spec, parent, child):
        j = build.make_joint(spec, "j%d" % len(self.joints))
        return self.log_joint(j, ref.NDOF[spec["jt"]], parent, child)

    def log_joint(self, j, n, parent, child):
        self.joints.append((j, n, parent, child))
        self.vel[id(j)] = j.gvel.copy()
        return len(self.joints) - 1

    def see_frame(self, f):
        if not isinstance(f, Body) and not any(f is x for x in self.order_reg["sub"]):
            self.order_reg["sub"].append(f)


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def check(t, inited):
    w = t.w
    order = t.dfs()
    joints = [t.joints[k][0] for k in order]
    require(same(w.iterjoints(), joints), "joints in depth-first order")
    require(same(w.iterbodies(), [w.ground] + [t.bodies[t.joints[k][3]] for k in order]), "bodies in depth-first order")
    require(same(w.itersubframes(), t.order_reg["sub"]), "registered subframes")
    require(same(w.itershapes(), t.order_reg["shape"]), "registered shapes")
    require(same(w.getcontrollers(), t.order_reg["ctl"]), "registered controllers")
    require(same(w.iterconstraints(), t.order_reg["con"]), "registered constraints")
    # the lists are those of the moment, and the caller may change them
    for name in ("bodies", "frames", "shapes", "controllers", "constraints") + (("joints",) if inited else ()):
        L = getattr(w, "get" + name)()
        want = list(getattr(w, "iter" + name)()) if name != "controllers" else t.order_reg["ctl"]
        require(same(L, want), "get%s() gives %d objects instead of %d, or others" % (name, len(L), len(want)))
        del L[:]
        require(same(getattr(w, "get" + name)(), want), "get%s() once its result is changed" % name)
    for k in order:
        j, n, p, c = t.joints[k]
        require(j.frame0.body is t.bodies[p] and j.frame1.body is t.bodies[c], "frames of joint %d" % k)
        require(t.bodies[c].parentjoint is j, "parent joint of body %d" % c)
        require(j.ndof == n, "ndof")
    require(w.ground.parentjoint is None, "the ground has no parent")
    if not inited:
        return
    pos = 0
    for k in order:
        j, n, p, c = t.joints[k]
        require((j.dof.start, j.dof.stop) == (pos, pos + n) and j.dof.step in (None, 1),
                "dof of joint %d is %s, expected %d:%d" % (k, j.dof, pos, pos + n))
        close(j.gvel, t.vel[id(j)], 0., "velocity of joint %d" % k)
        close(w.gvel[j.dof], t.vel[id(j)], 0., "world velocity at joint %d" % k)
        pos += n
    require(w.ndof == pos, "ndof %d, expected %d" % (w.ndof, pos))
    require(w.gvel.shape == (pos,) and w.gforce.shape == (pos,), "size of the world vectors")
    require(np.array_equal(np.arange(pos)[w.getjoints().dof], np.arange(pos)), "getjoints().dof covers all dofs")
    # a JointsList selects the dofs of its joints, in its own order
    for sel in (order[::2], order[1::2], order[::-1]):
        L = JointsList([t.joints[k][0] for k in sel])
        exp = [d for k in sel for d in range(t.joints[k][0].dof.start, t.joints[k][0].dof.stop)]
        require(np.arange(pos)[L.dof].tolist() == exp if pos and exp else True, "JointsList.dof of a sub-list: %s, expected %s" % (L.dof, exp))


def bad_replacement(t, links, o):
    """a replacement that has to be refused: with a joint in use, or through a
    body which has a parent"""
    from arboris.joints import RzJoint
    j = t.joints[links[o["at"] % len(links)]][0]
    frames = j.frames
    other = t.joints[links[o["k"] % len(links)]]
    a, b = RzJoint(), RzJoint()
    try:
        if o["k"] % 2 and other[0] is not j:
            t.w.replace_joint(j, other[0])
        elif o["k"] % 3 == 2:
            fresh = Body(mass=np.eye(6))
            t.w.replace_joint(j, frames[0], a, fresh, fresh, a, frames[1])
        else:
            through = t.bodies[other[3]]
            t.w.replace_joint(j, frames[0], a, through, through, b, frames[1])
    finally:
        require(j.frames == frames, "a joint whose replacement is refused keeps its frames")
        require(a.frames == b.frames == (None, None), "the joints of a refused replacement are free")


@CHECK.facet(lambda: st.lists(_op(), min_size=3, max_size=25), quick=4000, shards=6,
             rule="a replacement or a reuse happened in a tree of at least three links")
def operations(case, ctx):
    t = Tree()
    w = t.w
    inited = False
    objs = []
    for o in case:
        op = o["op"]
        alive = [0] + [t.joints[k][3] for k in t.dfs()]
        links = t.dfs()
        if op == "add":
            p = alive[o["at"] % len(alive)]
            c = t.new_body()
            k = t.new_joint(o["j"], p, c)
            f0 = SubFrame(t.bodies[p], ref.pose(o["p"])) if o["f0"] else t.bodies[p]
            f1 = SubFrame(t.bodies[c], ref.pose(o["p"])) if o["f1"] else t.bodies[c]
            w.add_link(f0, t.joints[k][0], f1)
            t.kids[p].append(k)
            t.see_frame(f0)
            t.see_frame(f1)
            inited = False
        elif op == "addmany":
            p = alive[o["at"] % len(alive)]
            args = []
            for js in o["js"]:
                c = t.new_body()
                k = t.new_joint(js, p, c)
                args += [t.bodies[p], t.joints[k][0], t.bodies[c]]
                t.kids[p].append(k)
                p = c
            w.add_link(*args)
            inited = False
        elif op in ("replace", "chain") and links:
            k = links[o["k"] % len(links)]
            j, n, p, c = t.joints[k]
            slot = t.kids[p].index(k)
            ctx.nt(len(links) >= 3)
            ctx.label(op)
            if op == "replace":
                nk = t.new_joint(o["j"], p, c)
                if o["frames"]:
                    f0, f1 = SubFrame(t.bodies[p], ref.pose(o["p"])), MovingSubFrame(t.bodies[c], ref.pose(o["p"]))
                    t.see_frame(f0)
                    t.see_frame(f1)
                    w.replace_joint(j, f0, t.joints[nk][0], f1)
                else:
                    f0, f1 = j.frame0, j.frame1
                    w.replace_joint(j, t.joints[nk][0])
                    require(t.joints[nk][0].frame0 is f0 and t.joints[nk][0].frame1 is f1, "the new joint takes the frames of the old one")
                t.kids[p][slot] = nk
            else:
                args = []
                cur = p
                first = None
                for i, js in enumerate(o["js"]):
                    last = i == len(o["js"]) - 1
                    nb = c if last else t.new_body()
                    nk = t.new_joint(js, cur, nb)
                    if first is None:
                        first = nk
                    else:
                        t.kids[cur].append(nk)
                    f0 = SubFrame(t.bodies[cur]) if o["f"] else t.bodies[cur]
                    f1 = SubFrame(t.bodies[nb]) if o["f"] else t.bodies[nb]
                    t.see_frame(f0)
                    t.see_frame(f1)
                    args += [f0, t.joints[nk][0], f1]
                    cur = nb
                t.kids[p][slot] = first
                w.replace_joint(j, *args)
            t.free.append((j, n))
            require(j.frame0 is None and j.frame1 is None, "the replaced joint is detached")
            inited = True        # replacing initialises the world
        elif op == "reuse" and t.free:
            j, n = t.free.pop()
            p = alive[o["at"] % len(alive)]
            c = t.new_body()
            v = j.gvel.copy()
            k = t.log_joint(j, n, p, c)
            w.add_link(t.bodies[p], j, t.bodies[c])
            close(j.gvel, v, 0., "velocity of a reused joint")
            t.kids[p].append(k)
            inited = False
            ctx.label("reuse")
            ctx.nt(len(links) >= 3)
        elif op == "init":
            w.init()
            inited = True
        elif op == "vel" and links and inited:
            j, n, p, c = t.joints[links[o["k"] % len(links)]]
            v = np.array(o["v"][:n], float)
            j.gvel[:] = v
            t.vel[id(j)] = v
            close(w.gvel[j.dof], v, 0., "the joint velocity is a view of the world velocity")
        elif op == "step" and links and inited and w.ndof and not t.order_reg["ctl"] and not t.order_reg["con"]:
            # the velocity of a joint and the world's stay one and the same
            w.update_dynamic()
            if not np.isfinite(w.mass).all() or sim.spread(w.mass) > 1e5 or max([abs(x) for x in w.gvel]) > 50:
                continue
            ctx.label("step")
            w.update_controllers(o["dt"])
            w.update_constraints(o["dt"])
            w.integrate(o["dt"])
            gv = w.gvel.copy()
            for k in links:
                j, n, p, c = t.joints[k]
                t.vel[id(j)] = gv[j.dof]
            check(t, inited)
            j, n, p, c = t.joints[links[o["k"] % len(links)]]
            v = np.array(o["v"][:n], float)
            j.gvel[:] = v
            close(w.gvel[j.dof], v, 0., "after a step, the joint velocity is a view of the world velocity")
            t.vel[id(j)] = v
        elif op == "register":
            body = t.bodies[alive[o["at"] % len(alive)]]
            x = o["what"]
            if x == "body":
                w.register(body)
            elif x in ("sub", "moving"):
                f = (SubFrame if x == "sub" else MovingSubFrame)(body, name="s")
                w.register(f)
                t.see_frame(f)
                objs.append(f)
            elif x in ("sphere", "plane", "on moving"):
                f = (MovingSubFrame if x == "on moving" else SubFrame)(body)
                s = Plane(body) if x == "plane" else Sphere(f)
                w.register(s)
                t.order_reg["shape"].append(s)
                t.see_frame(s.frame)
                objs.append(s)
            elif x == "ctl":
                a = WeightController()
                w.register(a)
                t.order_reg["ctl"].append(a)
                objs.append(a)
            elif x in ("contact", "contact off"):
                if body is w.ground:
                    continue
                a = SoftFingerContact((Sphere(w.ground, .1), Sphere(body, .2)), .5)
                if x != "contact":
                    a.disable()
                had = [id(f) for f in w.itersubframes()]
                w.register(a)
                # enabled or not, its two moving frames come with it
                new = [f for f in w.itersubframes() if id(f) not in had]
                require(sorted(id(f.body) for f in new) == sorted([id(w.ground), id(body)]) and all(isinstance(f, MovingSubFrame) for f in new),
                        "a contact brings its two moving frames: %s" % new)
                for f in new:
                    t.see_frame(f)
                require(a.is_enabled() == (x == "contact"), "registering leaves a constraint enabled or disabled")
                t.order_reg["con"].append(a)
                objs.append(a)
            elif x in ("con", "con off"):
                a = BallAndSocketConstraint((w.ground, body))
                if x == "con off":
                    a.disable()
                w.register(a)
                t.order_reg["con"].append(a)
                objs.append(a)
        elif op == "again" and objs:
            w.register(objs[o["k"] % len(objs)])
            ctx.label("registered twice")
        elif op == "bad":
            try:
                if o["what"] == "parent" and links:
                    c = t.bodies[t.joints[links[o["k"] % len(links)]][3]]
                    p = t.bodies[alive[o["at"] % len(alive)]]
                    from arboris.joints import RzJoint
                    spare = RzJoint()
                    try:
                        w.add_link(p, spare, c)
                    finally:
                        # a joint whose link is refused stays free for another link
                        require(spare.frame0 is None and spare.frame1 is None and spare.frames == (None, None), "the joint of a refused link keeps its frames")
                elif o["what"] == "replace" and links:
                    bad_replacement(t, links, o)
                elif o["what"] == "joint":
                    from arboris.joints import RzJoint
                    w.register(t.joints[links[0]][0] if links else RzJoint())
                elif o["what"] == "unknown":
                    w.register([object(), "sub", 3, None, World()][o["k"] % 5])
                else:
                    continue
            except Violation:
                raise
            except (ValueError, AssertionError) as e:
                require(isinstance(e, ValueError) or o["what"] == "replace", "refused with an error")
                ctx.label("refused " + o["what"])
            else:
                require(False, "%s was accepted" % o["what"])
        check(t, inited)
    gpos = [(j, j.gpos.copy()) for j, _, _, _ in [t.joints[k] for k in t.dfs()]]
    w.init()
    check(t, True)
    for j, q in gpos:
        close(j.gpos, q, 0., "initialisation moved a joint")
    n = w.ndof
    w.update_dynamic()
    require(w.mass.shape == w.viscosity.shape == w.nleffects.shape == (n, n), "sizes of the model matrices")
    for k in t.dfs():
        require(t.bodies[t.joints[k][3]].jacobian.shape == (6, n), "size of the jacobians")
    # initialising again changes nothing
    w.init()
    check(t, True)


@CHECK.facet(lambda: st.fixed_dictionaries({"spec": gen.world(min_links=2, max_links=6, subframes=0), "k": st.integers(0, 30),
                                            "j": gen.joint(), "again": st.booleans()}), quick=300, shards=3,
             rule="at least three links")
def replacing_keeps_the_rest(case, ctx):
    """replacing a joint leaves the state and model of the rest as if the world
    had been built with the new joint from the start"""
    spec = case["spec"]
    L = spec["links"]
    ctx.nt(len(L) >= 3)
    b = build.world(spec)
    if case["again"]:
        b.world.update_dynamic()
    k = case["k"] % len(L)
    j = build.make_joint(case["j"])
    b.world.replace_joint(b.joints[k], j)
    b.joints[k] = j
    new = dict(spec, links=[dict(l, **case["j"]) if i == k else l for i, l in enumerate(L)])
    m = ref.Model(new)
    b.world.update_dynamic()
    close(b.world.gvel, m.gvel, 0., "world velocity")
    P, J, dJ, T = m.kinematics()
    for i, body in enumerate(b.bodies):
        close(body.pose, P[i], 1e-9, "pose of body %d" % i)
        close(body.jacobian, J[i], 1e-9, "jacobian of body %d" % i)
    close(b.world.mass, m.dynamics()[0], 1e-9, "mass matrix")
