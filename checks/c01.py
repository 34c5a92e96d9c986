"""C01: homogeneous matrices form SE(3)."""
import math
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen
from vp.core import Check, close, require
import arboris.homogeneousmatrix as Hg

CHECK = Check("C01")
PI = math.pi


def _any_angle():
    return st.one_of(gen.angle(), gen.num(-40., 40.))


@CHECK.facet(lambda: st.fixed_dictionaries({"a": st.lists(_any_angle(), min_size=3, max_size=3), "t": gen.vec(3, -50, 50)}),
             quick=2500, shards=2, rule="at least two of the three angles are not multiples of a right angle")
def constructors(case, ctx):
    z, y, x = case["a"]
    ctx.nt(sum(abs(math.sin(2 * a)) > 1e-6 for a in case["a"]) >= 2)
    Z, Y, X = ref.rot("z", z), ref.rot("y", y), ref.rot("x", x)
    for what, got, exp in (
            ("rotx", Hg.rotx(x), X), ("roty", Hg.roty(y), Y), ("rotz", Hg.rotz(z), Z),
            ("rotzy", Hg.rotzy(z, y), Z.dot(Y)), ("rotzx", Hg.rotzx(z, x), Z.dot(X)),
            ("rotyx", Hg.rotyx(y, x), Y.dot(X)), ("rotzyx", Hg.rotzyx(z, y, x), Z.dot(Y).dot(X)),
            ("transl", Hg.transl(*case["t"]), ref.trans(*case["t"]))):
        close(got, exp, 1e-12, what)
        require(np.asarray(got).dtype.kind == "f", what + " is not a float matrix")
        require(ref.is_pose(got), what + " is not a rigid transformation")
        require(bool(Hg.ishomogeneousmatrix(got)), what + " is not recognised")


@CHECK.facet(lambda: st.fixed_dictionaries({"A": gen.pose(10.), "B": gen.pose(10.), "p": gen.vec(3, -10, 10)}),
             quick=2500, shards=2, rule="both poses have a non-trivial rotation")
def group(case, ctx):
    A, B, p = ref.pose(case["A"]), ref.pose(case["B"]), np.array(case["p"])
    ctx.nt(abs(A[:3, :3] - np.eye(3)).max() > .1 and abs(B[:3, :3] - np.eye(3)).max() > .1)
    keep = [x.copy() for x in (A, B, p)]
    iA = Hg.inv(A)
    require(ref.is_pose(iA), "inv(A) is not a rigid transformation")
    close(iA.dot(A), np.eye(4), 1e-9, "inv(A).A")
    close(A.dot(iA), np.eye(4), 1e-9, "A.inv(A)")
    close(Hg.inv(A.dot(B)), Hg.inv(B).dot(Hg.inv(A)), 1e-9, "inv(AB)")
    close(Hg.inv(iA), A, 1e-9, "inv(inv(A))")
    close(Hg.pdot(A, p), A.dot(np.append(p, 1.))[:3], 1e-9, "pdot")
    close(Hg.vdot(A, p), A.dot(np.append(p, 0.))[:3], 1e-9, "vdot")
    close(Hg.pdot(A, Hg.pdot(B, p)), Hg.pdot(A.dot(B), p), 1e-9, "pdot composition")
    close(Hg.vdot(A, Hg.vdot(B, p)), Hg.vdot(A.dot(B), p), 1e-9, "vdot composition")
    close(Hg.pdot(Hg.inv(A), Hg.pdot(A, p)), p, 1e-9, "pdot inverse")
    for k, x in zip(keep, (A, B, p)):
        require((k == x).all(), "an argument was modified")
    # results are fresh arrays: writing in them must not reach the argument
    iA[:] = 7.
    close(A, keep[0], 0., "aliasing of inv's result")


def _rpy():
    mid = st.one_of(gen.angle(), st.sampled_from([PI / 2, -PI / 2]),
                    st.tuples(st.sampled_from([PI / 2, -PI / 2]), st.sampled_from([0, 1, -1]), st.integers(2, 12))
                    .map(lambda t: t[0] + t[1] * 10. ** -t[2]))
    return st.fixed_dictionaries({"z": gen.angle(), "y": mid, "x": gen.angle(), "t": gen.vec(3, -5, 5)})


@CHECK.facet(_rpy, quick=4000, shards=2, rule="pitch within 1e-3 of +-90 degrees, or outside [-90, 90] degrees")
def angles(case, ctx):
    H = ref.rot("z", case["z"]).dot(ref.rot("y", case["y"])).dot(ref.rot("x", case["x"]))
    H[:3, 3] = case["t"]
    c = abs(math.cos(case["y"]))
    ctx.label("gimbal" if c < 1e-9 else "near gimbal" if c < 1e-3 else "regular")
    ctx.nt(c < 1e-3 or math.cos(case["y"]) < 0)
    keep = H.copy()
    a = Hg.rotzyx_angles(H)
    require(len(a) == 3 and np.isfinite(a).all(), "three finite angles")
    back = ref.rot("z", a[0]).dot(ref.rot("y", a[1])).dot(ref.rot("x", a[2]))
    close(back[:3, :3], H[:3, :3], 1e-8, "rotation rebuilt from the angles %s" % (a,))
    require((H == keep).all(), "the argument was modified")


def _unit():
    raw = st.one_of(gen.vec(3, -1, 1),
                    st.tuples(*[st.sampled_from([0., 0., 1., -1.])] * 3).map(list),
                    st.tuples(st.sampled_from([[1., 0, 0], [0, 1., 0], [0, 0, 1.], [-1., 0, 0], [0, -1., 0], [0, 0, -1.]]),
                              gen.vec(3, -1, 1), st.integers(1, 12)).map(
                                  lambda t: [a + b * 10. ** -t[2] for a, b in zip(t[0], t[1])]))
    return raw.filter(lambda v: max(map(abs, v)) > 1e-3)


@CHECK.facet(_unit, quick=2500, shards=2, rule="no component of the vector is zero")
def zaligned(case, ctx):
    v = np.array(case, float)
    v = v / np.sqrt(v.dot(v))
    v = v / np.sqrt(v.dot(v))
    ctx.nt((np.abs(v) > 1e-14).all())
    keep = v.copy()
    H = Hg.zaligned(v)
    require(ref.is_pose(H), "zaligned(%s) is not a direct orthonormal frame: %s" % (v, H))
    close(H[:3, 2], keep, 1e-12, "z axis")
    close(H[:3, 3], np.zeros(3), 0., "origin")
    require((v == keep).all(), "the argument was modified")


@CHECK.facet(lambda: st.fixed_dictionaries({
    "H": gen.pose(100.), "G": gen.pose(100.),
    "kind": st.sampled_from(["ok", "chain", "shape", "row", "scale", "reflect", "axis"]),
    "k": st.integers(0, 3), "e": st.sampled_from([-1, 1]), "m": st.integers(-6, 1)}),
    quick=2500, shards=2, rule="a perturbed (invalid) matrix")
def recogniser(case, ctx):
    H, G = ref.pose(case["H"]), ref.pose(case["G"])
    kind, k = case["kind"], case["k"]
    d = case["e"] * 10. ** case["m"]
    ctx.label(kind)
    ctx.nt(kind not in ("ok", "chain"))
    expect = False
    if kind == "ok":
        expect = True
    elif kind == "chain":
        H = H.dot(G).dot(ref.inv(H)).dot(G)
        H[3] = (0, 0, 0, 1)
        expect = True
    elif kind == "shape":
        H = [H[:3, :3], H[:3, :], np.eye(5), H[0]][k]
    elif kind == "row":
        H[3, k] += d
    elif kind == "scale":
        H[:3, :3] *= 1. + (abs(d) if abs(d) >= 1 else d) / 3.
    elif kind == "reflect":
        H[:, min(k, 2)] *= -1
    elif kind == "axis":
        H[:3, min(k, 2)] *= 1. + (d if d > -1 else -.5)
    keep = H.copy()
    got = bool(Hg.ishomogeneousmatrix(H))
    require(got == expect, "ishomogeneousmatrix = %s on a matrix of kind %s:\n%r" % (got, kind, H))
    require((H == keep).all(), "the argument was modified")
