"""C04: each joint's pose, twist, jacobian and derivatives are consistent."""
import math
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require

CHECK = Check("C04")
PI = math.pi


def _joint(types=None):
    def mk(jt):
        if jt == "FreeJoint":
            return st.fixed_dictionaries({"jt": st.just(jt), "q": gen.pose(3.), "v": gen.vec(6, -4, 4)})
        n = ref.NDOF[jt]
        el = st.one_of(gen.num(-PI, PI), gen.num(-20, 20), st.sampled_from([0., PI / 2, -PI / 2, PI, 2 * PI, -3 * PI / 2]))
        return st.fixed_dictionaries({"jt": st.just(jt), "q": st.lists(el, min_size=n, max_size=n), "v": gen.vec(n, -4, 4)})
    multi = ["RzRyRxJoint", "RzRyJoint", "RzRxJoint", "RyRxJoint", "FreeJoint"]
    return st.one_of(st.sampled_from(types or gen.ALL), st.sampled_from(multi)).flatmap(mk)


@CHECK.facet(_joint, quick=4000, shards=4, rule="all coordinates and velocities of the joint are non-zero")
def kinematics(case, ctx):
    jt = case["jt"]
    ctx.label(jt)
    if jt == "FreeJoint":
        ctx.nt(any(case["q"]["r"]) and all(case["v"]))
    else:
        ctx.nt(all(case["q"]) and all(case["v"]))
    j = build.make_joint(case, "j")
    H, T, J, dJ = ref.joint_kin(jt, case["q"], case["v"])
    n = ref.NDOF[jt]
    v = np.array(case["v"], float)
    require(j.ndof == n, "ndof %s" % j.ndof)
    require(j.name == "j", "name")
    close(j.pose, H, 1e-12, jt + " pose")
    require(ref.is_pose(j.pose), "pose is not a rigid transformation")
    close(j.jacobian, J, 1e-12, jt + " jacobian")
    close(j.djacobian, dJ, 1e-11, jt + " djacobian")
    close(j.twist, T, 1e-11, jt + " twist")
    iH = ref.inv(H)
    close(j.ipose, iH, 1e-12, "ipose")
    iT = _twist_of_inverse(H, T)
    close(j.itwist, iT, 1e-10, "itwist")
    close(j.adjoint, ref.Ad(H), 1e-11, "adjoint")
    close(j.iadjoint, ref.Ad(iH), 1e-11, "iadjoint")
    close(j.adjacency, ref.ad(T), 1e-11, "adjacency")
    close(j.iadjacency, ref.ad(iT), 1e-10, "iadjacency")
    close(j.dadjoint, ref.Ad(H).dot(ref.ad(T)), 1e-10, "dadjoint")
    close(j.idadjoint, ref.Ad(iH).dot(ref.ad(iT)), 1e-10, "idadjoint")
    # reading must not disturb the state, and what is read must not alias it
    if n:
        for arr in (j.pose, j.twist):
            arr[...] = 7.
        close(j.pose, H, 1e-12, "pose after writing into a returned array")
        close(j.twist, T, 1e-11, "twist after writing into a returned array")
        close(j.gvel, v, 0., "gvel after reads")


def _twist_of_inverse(H, T):
    """body twist of the inverse motion, straight from d(H^-1)/dt = -H^-1 dH H^-1"""
    dH = H.dot(ref.hat6(T))
    iH = ref.inv(H)
    X = H.dot(-iH.dot(dH).dot(iH))      # (H^-1)^-1 d(H^-1)/dt
    return np.array([X[2, 1], X[0, 2], X[1, 0], X[0, 3], X[1, 3], X[2, 3]])


@CHECK.facet(_joint, quick=1200, shards=2, rule="all velocities are non-zero")
def finite_differences(case, ctx):
    """Oracle of the oracle: derivatives against central differences of the
    joint's own pose, jacobian and adjoints along its own integration."""
    jt = case["jt"]
    ctx.nt(bool(case["v"]) and all(case["v"]))
    e = 1e-5
    js = []
    for s in (-1, 0, 1):
        j = build.make_joint(case)
        if s:
            # integrate on a joint outside any world
            j.integrate(np.array(case["v"], float) * s, e)
        js.append(j)
    m, z, p = js
    if jt == "FixedJoint":
        close(p.pose, np.eye(4), 0., "fixed pose")
        return

    def d(f):
        return (f(p) - f(m)) / (2 * e)
    X = ref.inv(z.pose).dot(d(lambda j: j.pose))
    close(X, ref.hat6(z.twist), 1e-6, jt + ": pose derivative")
    close(d(lambda j: j.jacobian), z.djacobian, 1e-6, jt + ": jacobian derivative")
    close(d(lambda j: j.adjoint), z.dadjoint, 1e-5, jt + ": adjoint derivative")
    close(d(lambda j: j.iadjoint), z.idadjoint, 1e-5, jt + ": inverse adjoint derivative")
