"""C05: integrating a joint follows its velocity and stays on its manifold."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen, build
from vp.core import Check, close, require
import arboris.joints as aj
from arboris.core import World, Body

CHECK = Check("C05")


def _seq(maxlen=40):
    def mk(jt):
        n = ref.NDOF[jt]
        j = gen.joint([jt])
        step = st.tuples(st.one_of(gen.vec(n, -5, 5), gen.vec(n, -5, 5), gen.tiny(n)), st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, .01, .1, .5, 1.])).map(list)
        return st.tuples(j, st.lists(step, min_size=1, max_size=maxlen)).map(lambda t: dict(t[0], steps=t[1]))
    return st.sampled_from(gen.ALL + ["FreeJoint", "FreeJoint", "RzRyRxJoint"]).flatmap(mk)


def _ref_step(jt, q, v, dt):
    if jt == "FreeJoint":
        return q.dot(ref.expm(ref.hat6(np.array(v) * dt)))
    return q + np.array(v, float) * dt


@CHECK.facet(_seq, quick=1500, shards=4, rule="at least three steps with non-zero velocities of different sizes")
def alone(case, ctx):
    jt = case["jt"]
    ctx.label(jt)
    ctx.nt(len(case["steps"]) >= 3 and bool(case["v"]) and len(set(map(str, case["steps"]))) >= 3)
    j = build.make_joint(case)
    q = ref.pose(case["q"]) if jt == "FreeJoint" else np.array(case["q"], float)
    for k, (v, dt) in enumerate(case["steps"]):
        arg = np.array(v, float)
        keep = arg.copy()
        j.integrate(arg, dt)
        require((arg == keep).all(), "the given velocity was modified")
        if jt == "FixedJoint":
            close(j.pose, np.eye(4), 0., "a fixed joint moved")
            continue
        q = _ref_step(jt, q, v, dt)
        close(j.gvel, keep, 0., "gvel after step %d" % k)
        close(j.gpos, q, 1e-10 * (k + 1), "gpos after step %d" % k)
        close(j.twist, ref.joint_kin(jt, j.gpos, v)[1], 1e-10, "twist after step %d" % k)
    require(ref.is_pose(j.pose, 1e-14 * (len(case["steps"]) + 10)), "the pose left SE(3)")


@CHECK.facet(lambda: st.fixed_dictionaries({
    "j": gen.joint(["FreeJoint", "FreeJoint", "RzRyRxJoint", "RzJoint", "TxTyTzJoint", "RzRyJoint"]),
    "n": st.integers(2, 300), "T": gen.num(.1, 3.), "slow": st.sampled_from([0, 0, 0, -2, -4, -6]),
    "step": st.one_of(st.none(), st.tuples(gen.num(1, 10, .01), st.integers(-5, -3)).map(list))}), quick=400, shards=4,
    rule="at least 20 steps of a moving joint")
def constant_velocity(case, ctx):
    """many steps at constant velocity equal one long step, and do not drift
    away from the rigid transformations by more than rounding errors"""
    n, T = case["n"], case["T"]
    v = [x * 10. ** case["slow"] for x in case["j"]["v"]]
    w = np.linalg.norm(v[:3])
    if case["step"] and w > 0:
        # the rotation done in one step is given
        n += 100
        s = case["step"][0] * 10. ** case["step"][1] * n / T / w
        v = [x * s for x in v]
    ctx.label("slow" if case["slow"] else "fast", "given step" if case["step"] else "")
    ctx.nt(n >= 20 and any(v))
    a, b = build.make_joint(case["j"]), build.make_joint(case["j"])
    for _ in range(n):
        a.integrate(np.array(v, float), T / n)
    b.integrate(np.array(v, float), T)
    close(a.gpos, b.gpos, 1e-11 * (n + 10) if not case["step"] else 1e-10, "n steps of T/n against one step of T")
    require(ref.is_pose(a.pose, 2e-15 * (n + 10)), "the pose left SE(3)")


def _initial():
    def mk(jt):
        n = ref.NDOF[jt]
        ints = st.lists(st.integers(-3, 3), min_size=n, max_size=n)
        flo = gen.vec(n, -3, 3)
        return st.fixed_dictionaries({
            "jt": st.just(jt), "q": gen.mix(ints, ints, flo), "v": gen.mix(ints, ints, flo),
            "as_array": st.booleans(), "scalar": st.booleans(), "share": st.booleans(),
            "v2": flo, "dt": st.sampled_from([.001, .1, .25]), "in_world": st.booleans()})
    return st.sampled_from(gen.LINEAR + ["FreeJoint"]).flatmap(mk)


@CHECK.facet(_initial, quick=2000, shards=2, rule="integer initial position, or an array shared between two joints")
def initial_values(case, ctx):
    """initial values given as lists, scalars, integer or shared arrays behave
    like floats of the joint's own"""
    jt = case["jt"]
    cls = getattr(aj, jt)
    n = ref.NDOF[jt]
    free = jt == "FreeJoint"
    isint = all(isinstance(x, int) for x in case["q"])
    ctx.nt(isint or (case["share"] and case["as_array"]))
    ctx.label("int" if isint else "float", "shared" if case["share"] and case["as_array"] else "own")
    if free:
        q = [[1, 0, 0, case["q"][0]], [0, 0, -1, case["q"][1]], [0, 1, 0, case["q"][2]], [0, 0, 0, 1]]
    else:
        q = case["q"][0] if case["scalar"] and n == 1 else case["q"]
    v = case["v"][0] if case["scalar"] and n == 1 else case["v"]
    if case["as_array"]:
        q, v = np.array(q), np.array(v)
    j = cls(gpos=q, gvel=v)
    q0 = np.array(q, float).reshape((4, 4) if free else n)
    v0 = np.array(v, float).reshape(n)
    other = cls(gpos=q, gvel=v) if case["share"] else None
    close(j.gpos, q0, 0., "initial gpos")
    close(j.gvel, v0, 0., "initial gvel")
    if not case["in_world"]:
        # changing the state of the joint in place changes nothing else
        j.gvel += 1
        close(np.array(v, float).reshape(-1), np.array(case["v"], float).reshape(-1)[:n], 0., "the caller's velocity")
        if other is not None:
            close(other.gvel, v0, 0., "velocity of another joint built from the same values")
        j.gvel -= 1
    if case["in_world"]:
        w = World()
        w.add_link(w.ground, j, Body(mass=np.eye(6)))
        w.init()
        close(w.gvel, v0, 0., "world velocity")
    dt = case["dt"]
    vv = np.array(case["v2"], float)
    for _ in range(2):
        j.integrate(vv.copy(), dt)
        q0 = _ref_step(jt, q0, vv, dt)
        close(j.gpos, q0, 1e-10, "gpos after integration")
    close(j.gvel, vv, 0., "gvel after integration")
    # neither the caller's array nor the other joint followed
    close(np.array(q, float).reshape(-1), np.array(case["q"] if not free else q, float).reshape(-1), 0., "the caller's values")
    if other is not None:
        close(other.gpos, np.array(q, float).reshape(other.gpos.shape), 0., "another joint built from the same values moved")
        close(other.gvel, v0, 0., "another joint built from the same values changed velocity")
