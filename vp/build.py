"""From a world spec (gen.py) to arboris objects, through the public API only."""
import numpy as np
from . import ref


def joint_gpos(l):
    if l["jt"] == "quat:":
        return ref.quat(ref.group_pose(l))
    return ref.group_pose(l) if ref.group(l["jt"]) is not None else list(l["q"])


def make_joint(l, name=None):
    import arboris.joints as aj
    if ":" in l["jt"]:
        from . import own
        return own.joint(l["jt"], joint_gpos(l), list(l["v"]), name)
    cls = getattr(aj, l["jt"])
    if l["jt"] == "FixedJoint":
        return cls(name=name)
    return cls(gpos=joint_gpos(l), gvel=list(l["v"]), name=name)


class Built(object):
    pass


def world(spec, init=True, names=True):
    """Build the world.  bodies[0] is the ground, bodies[i+1] the child of link i."""
    from arboris.core import World, Body, SubFrame, MovingSubFrame
    b = Built()
    w = World()
    b.world = w
    b.bodies = [w.ground]
    b.joints = []
    b.f0 = []
    b.f1 = []
    for i, l in enumerate(spec["links"]):
        kw = {}
        if l["mass"] is not None:
            kw["mass"] = ref.mass(l["mass"])
        if l.get("visc"):
            kw["viscosity"] = np.array(l["visc"], float).reshape(6, 6)
        body = Body(name=("body%d" % i) if names else None, **kw)
        j = make_joint(l, ("joint%d" % i) if names else None)
        parent = b.bodies[l["parent"]]
        f0 = parent if l["f0"] is None else (MovingSubFrame if l.get("mf0") else SubFrame)(parent, ref.pose(l["f0"]), ("f0_%d" % i) if names else None)
        f1 = body if l["f1"] is None else (MovingSubFrame if l.get("mf1") else SubFrame)(body, ref.pose(l["f1"]), ("f1_%d" % i) if names else None)
        w.add_link(f0, j, f1)
        b.bodies.append(body)
        b.joints.append(j)
        b.f0.append(f0)
        b.f1.append(f1)
    b.subs = []
    for k, s in enumerate(spec.get("subs", [])):
        cls = MovingSubFrame if s["moving"] else SubFrame
        f = cls(b.bodies[s["body"]], ref.pose(s["pose"]), ("sub%d" % k) if names else None)
        w.register(f)
        b.subs.append(f)
    if init:
        w.init()
    return b
