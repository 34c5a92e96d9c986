"""C03: the twist exponential is the matrix exponential, for every magnitude."""
import math
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen
from vp.core import Check, close, require
import arboris.twistvector as Tv
import arboris.homogeneousmatrix as Hg

CHECK = Check("C03")


def _twist(big=25.):
    def mk(t):
        w, v, mag = t
        n = math.sqrt(sum(x * x for x in w))
        if mag is None or n < 1e-6:
            ww = [0., 0., 0.] if n < 1e-6 or mag is None else w
        else:
            ww = [x / n * mag for x in w]
        return ww + v
    mag = st.one_of(
        st.tuples(gen.num(1, 10, .01), st.integers(-12, 0)).map(lambda t: t[0] * 10. ** t[1]),
        st.sampled_from([.001, .001 * (1 - 1e-15), .001 * (1 + 1e-15), .0009999, .0010001]),
        st.tuples(gen.num(.5, 2., .001)).map(lambda t: t[0] * 1e-3),
        st.sampled_from([math.pi, 2 * math.pi, math.pi / 2, math.pi - 1e-9, 3 * math.pi, 4 * math.pi]),
        gen.num(.01, big), gen.num(.01, big), st.none())
    direction = st.one_of(gen.vec(3, -1, 1), st.sampled_from([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [0., -1., 0.]]))
    vv = st.one_of(gen.vec(3, -3, 3), gen.vec(3, -1000, 1000), st.just([0., 0., 0.]))
    return st.tuples(direction, vv, mag).map(mk)


def _exp(t):
    """the exponential of the 4x4 twist matrix, by scaling and squaring; the
    translation is linear in v so it is computed for a unit v"""
    t = np.array(t, float)
    big = max(1., abs(t[3:]).max())
    t[3:] /= big
    E = ref.expm(ref.hat6(t))
    E[:3, 3] *= big
    return E


@CHECK.facet(_twist, quick=4000, shards=3, rule="rotation and translation both non-zero")
def matrix_exponential(case, ctx):
    t = np.array(case, float)
    n = float(np.linalg.norm(t[:3]))
    ctx.label("zero rotation" if n == 0 else "|w|<1e-3" if n < 1e-3 else "|w|<1e-2" if n < 1e-2 else "|w|<pi" if n < math.pi else "beyond half a turn")
    ctx.nt(n > 0 and abs(t[3:]).max() > 0)
    keep = t.copy()
    H = Tv.exp(t)
    require((t == keep).all(), "the argument was modified")
    E = _exp(t)
    require(np.asarray(H).shape == (4, 4), "shape")
    require((H[3] == [0, 0, 0, 1]).all(), "last row")
    # rotations are composed thousands of times, so that small systematic
    # errors add up: the rotation part is held to rounding errors
    close(H[:3, :3], E[:3, :3], 1e-14 * (1 + n), "rotation part")
    require(ref.is_pose(H, 5e-15 * (1 + n)), "exp(t) is not a rigid transformation: %r" % H)
    close(H[:3, 3] / max(1., abs(t[3:]).max()), E[:3, 3] / max(1., abs(t[3:]).max()), 1e-11, "translation part")
    if n == 0:
        close(H[:3, 3], t[3:], 1e-15, "pure translation")


@CHECK.facet(lambda: st.fixed_dictionaries({"t": _twist(6.), "s": gen.num(-2, 2), "u": gen.num(-2, 2), "H": gen.pose(3.)}),
             quick=2000, shards=3, rule="rotation and translation non-zero and s, u, s+u non-zero")
def group_laws(case, ctx):
    t = np.array(case["t"], float)
    s, u = case["s"], case["u"]
    H = ref.pose(case["H"])
    n = float(np.linalg.norm(t[:3]))
    ctx.nt(n > 0 and abs(t[3:]).max() > 0 and s * u * (s + u) != 0)
    sc = max(1., abs(t[3:]).max())
    close(Tv.exp(s * t).dot(Tv.exp(u * t)), Tv.exp((s + u) * t), 2e-9 * sc, "exp(st)exp(ut)", rel=False)
    close(Tv.exp(-t).dot(Tv.exp(t)), np.eye(4), 2e-9 * sc, "exp(-t)exp(t)", rel=False)
    a = Hg.adjoint(H).dot(t)
    close(Tv.exp(a), H.dot(Tv.exp(t)).dot(ref.inv(H)), 4e-9 * (sc + 3 * n), "H exp(t) H^-1", rel=False)


@CHECK.facet(lambda: st.fixed_dictionaries({"a": gen.vec(3, -1, 1).filter(lambda w: max(map(abs, w)) > .1), "v": gen.vec(3, -3, 3), "m": st.tuples(gen.num(1, 10, .001), st.integers(1, 5)), "s": st.sampled_from([1., -1.])}), quick=400,
             rule="translation non-zero")
def many_turns(case, ctx):
    """very fast rotations: the angle counts modulo a turn, the pitch is kept whole"""
    a = np.array(case["a"]) / np.linalg.norm(case["a"])
    n = case["s"] * case["m"][0] * 10. ** case["m"][1]
    v = np.array(case["v"])
    ctx.nt(np.abs(v).max() > 0)
    H = Tv.exp(np.concatenate((n * a, v)))
    tol = 1e-13 * (1 + abs(n))
    r = math.fmod(n, 2. * math.pi)
    close(H[:3, :3], ref.expm(ref.hat(r * a))[:3, :3], tol, "rotation part")
    require(ref.is_pose(H, 1e-13), "not a rigid transformation: %r" % H)
    # the axis is travelled along at v.a; the rest is a chord of a circle of radius |v|/n
    along = a.dot(v) * a
    p = v - along
    want = along + (math.sin(n) * p + (1. - math.cos(n)) * np.cross(a, p)) / n
    close(H[:3, 3], want, 1e-12 * (1 + 1e-3 * abs(n)), "translation part")
