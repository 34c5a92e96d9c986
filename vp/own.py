"""Joints written as a user would, on the abstract classes only (see ref.py for their names)."""
import numpy as np
from . import ref


def clone(jt):
    """the name of a user's joint with the coordinates of a joint of the library"""
    if jt == "FreeJoint":
        return "group:012345"
    return "user:" + repr([[float(x) for x in ref.screw(s)] for s in ref.SCREWS[jt]])


def joint(jt, gpos, gvel, name):
    from arboris.core import Joint, LinearConfigurationSpaceJoint
    if jt == "quat:":
        class Quat(Joint):
            def __init__(self, gpos, gvel, name):
                Joint.__init__(self, name)
                self.gpos = np.array(gpos, float)
                self.gvel = np.array(gvel, float)

            ndof = property(lambda self: 3)
            pose = property(lambda self: ref.unquat(self.gpos))
            jacobian = property(lambda self: ref.group(jt))
            djacobian = property(lambda self: np.zeros((6, 3)))

            def integrate(self, gvel, dt):
                self.gvel = gvel
                q = ref.quat(self.pose.dot(ref.expm(ref.hat6(np.append(gvel * dt, [0.] * 3)))))
                self.gpos = q if q.dot(self.gpos) >= 0 else -q
        return Quat(gpos, gvel, name)
    if not jt.startswith("group:"):
        class Product(LinearConfigurationSpaceJoint):
            ndof = property(lambda self: ref.NDOF[jt])
            pose = property(lambda self: ref.joint_kin(jt, self.gpos, self.gvel)[0])
            jacobian = property(lambda self: ref.joint_kin(jt, self.gpos, self.gvel)[2])
            djacobian = property(lambda self: ref.joint_kin(jt, self.gpos, self.gvel)[3])
        return Product(gpos, gvel, name)
    S = ref.group(jt)
    S.setflags(write=False)         # a constant of the user's, not to be written on

    class Group(Joint):
        def __init__(self, gpos, gvel, name):
            Joint.__init__(self, name)
            self.gpos = np.array(gpos, float)
            self.gvel = np.array(gvel, float)

        ndof = property(lambda self: S.shape[1])
        pose = property(lambda self: self.gpos.copy())
        jacobian = property(lambda self: S)
        djacobian = property(lambda self: np.zeros(S.shape))

        def integrate(self, gvel, dt):
            self.gvel = gvel
            self.gpos = self.gpos.dot(ref.expm(ref.hat6(S.dot(dt * self.gvel))))
    return Group(gpos, gvel, name)
