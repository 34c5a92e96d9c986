"""C20: mass matrices: primitives, transport, principal frame, recogniser."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, ref
from vp.core import Check, close, require
from arboris import massmatrix as mm

CHECK = Check("C20")

GL3 = ((-np.sqrt(.6), 5 / 9.), (0., 8 / 9.), (np.sqrt(.6), 5 / 9.))


def second_moments_box(h):
    """mean of x_i x_j over the box, by exact Gauss quadrature"""
    S = np.zeros((3, 3))
    for x, wx in GL3:
        for y, wy in GL3:
            for z, wz in GL3:
                p = np.array([x, y, z]) * h
                S += wx * wy * wz / 8. * np.outer(p, p)
    return S


def second_moments_ellipsoid(r):
    """mean of x_i x_j over the ellipsoid: radial and two angular quadratures of the unit ball"""
    # <x x^T> over the unit ball = (int r^4 dr / int r^2 dr) <u u^T>_sphere; 6 points integrate u u^T exactly
    S = np.zeros((3, 3))
    for k in range(3):
        for s in (-1., 1.):
            u = np.zeros(3)
            u[k] = s
            S += np.outer(u, u) / 6.
    S *= (1 / 5.) / (1 / 3.)
    return np.diag(r).dot(S).dot(np.diag(r))


def second_moments_cylinder(L, R):
    S = np.zeros((3, 3))
    for z, wz in GL3:
        # disk: <r^2> = R^2/2, angular mean on 8 points
        for k in range(8):
            a = k * np.pi / 4
            p = np.array([R / np.sqrt(2) * np.cos(a), R / np.sqrt(2) * np.sin(a), z * L / 2])
            S += wz / 2. / 8. * np.outer(p, p)
    return S


def from_moments(S, m):
    M = np.zeros((6, 6))
    M[:3, :3] = m * (np.trace(S) * np.eye(3) - S)
    M[3:, 3:] = m * np.eye(3)
    return M


POS = st.one_of(gen.num(0.001, 5.), gen.num(0.01, 0.5))


@CHECK.facet(lambda: st.fixed_dictionaries({"k": st.sampled_from(["box", "ellipsoid", "cylinder", "sphere"]), "d": st.lists(POS, min_size=3, max_size=3, unique=True),
                                            "m": st.one_of(gen.num(0.001, 100.), st.just(0.)), "int": st.booleans()}), quick=3000, shards=2,
             rule="positive mass and three different dimensions")
def primitives(case, ctx):
    d, m = list(case["d"]), case["m"]
    if case["int"]:
        # dimensions and mass given as integers
        d = [int(x * 3) + 1 for x in d]
        m = int(m * 3) + 1
    k = case["k"]
    ctx.label(k)
    ctx.nt(m > 0 and len(set(d)) == 3)
    if k == "box":
        got, S = mm.box(tuple(d), m), second_moments_box(np.array(d, float))
    elif k == "ellipsoid":
        got, S = mm.ellipsoid(tuple(d), m), second_moments_ellipsoid(np.array(d, float))
    elif k == "cylinder":
        got, S = mm.cylinder(d[0], d[1], m), second_moments_cylinder(float(d[0]), float(d[1]))
    else:
        got, S = mm.sphere(d[0], m), second_moments_ellipsoid(np.array([d[0]] * 3, float))
    exp = from_moments(S, float(m))
    require(np.array(got).shape == (6, 6), "shape")
    close(got, exp, 1e-12 * max(1., np.abs(exp).max()), "mass matrix of the %s" % k, rel=False)
    require(mm.ismassmatrix(np.array(got, float), True), "a primitive's mass matrix is a mass matrix")
    if m > 0 and min(d) > 0.01:
        require(mm.ismassmatrix(np.array(got, float)), "a primitive's mass matrix is positive definite")


def massm(spec):
    """positive semi-definite mass matrix: inertia I (any positive, repeated or not) at the centre of mass p"""
    H = ref.pose(spec["p"])
    m = spec["m"]
    M = np.diag(list(spec["I"]) + [m] * 3)
    A = ref.Ad(ref.inv(H))
    return A.T.dot(M).dot(A), H


def inertias():
    a = gen.num(0.02, 3.)
    return st.one_of(st.lists(a, min_size=3, max_size=3), st.tuples(a, a).map(lambda x: [x[0], x[0], x[1]]), a.map(lambda x: [x] * 3),
                     st.tuples(a, a).map(lambda x: [x[0], x[1], x[0]]), st.tuples(a, a).map(lambda x: [x[0], x[1], x[0] + 1e-7]))


SCALE = st.sampled_from([1., 1., 1., 1., 1e2, 1e4, 1e6, 1e9, 1e-4, 1e-8])


def mspec():
    return st.fixed_dictionaries({"m": gen.num(0.05, 50.), "I": inertias(), "p": gen.special_pose(2.)})


@CHECK.facet(lambda: st.fixed_dictionaries({"M": mspec(), "point": st.sampled_from([False] * 4 + [True]), "k": SCALE, "H": gen.special_pose(2.), "G": gen.special_pose(2.), "v": gen.vec(6, -3., 3.)}), quick=3000, shards=2,
             rule="the frames differ by a rotation and a translation")
def transport(case, ctx):
    M, _ = massm(dict(case["M"], I=[0., 0., 0.]) if case["point"] else case["M"])
    M = M * case["k"]
    H, G = ref.pose(case["H"]), ref.pose(case["G"])
    ctx.nt(np.abs(H[:3, :3] - np.eye(3)).max() > .01 and np.abs(H[:3, 3]).max() > .01)
    M0 = M.copy()
    B = np.array(mm.transport(M, H))
    close(M, M0, 0., "argument modified")
    s = np.abs(M).max() or 1.
    v = np.array(case["v"])
    # the same motion in both frames has the same kinetic energy: twist in a = Ad(H_ab) twist in b
    va = ref.Ad(H).dot(v)
    close(v.dot(B).dot(v), va.dot(M).dot(va), 1e-9 * case["k"], "kinetic energy")
    close(B, ref.Ad(H).T.dot(M).dot(ref.Ad(H)), 1e-10 * s, "transport")
    close(B, B.T, 1e-9 * s, "symmetry")
    require(mm.ismassmatrix(B, case["point"]), "a transported mass matrix is a mass matrix")
    close(mm.transport(B, ref.inv(H)), M, 1e-8 * s, "inverse transport")
    close(mm.transport(B, G), mm.transport(M, H.dot(G)), 1e-8 * s, "composition")
    close(mm.transport(M, np.eye(4)), M, 1e-12 * s, "identity")


@CHECK.facet(lambda: st.fixed_dictionaries({"M": mspec(), "k": SCALE, "semi": st.sampled_from(["", "", "", "point", "rod", "massless", "zero"])}), quick=3000, shards=2,
             rule="the centre of mass is not the origin and the principal axes are rotated")
def principal(case, ctx):
    spec = dict(case["M"])
    k = case["semi"]
    c = case["k"]
    if k == "point":
        spec["I"] = [0., 0., 0.]
    elif k == "rod":
        spec["I"] = [spec["I"][0], spec["I"][0], 0.]
    elif k == "massless":
        spec["m"] = 0.
        spec["p"] = {"r": spec["p"]["r"], "t": [0., 0., 0.]}
    M, H = massm(spec)
    M = M * c
    if k == "zero":
        M = np.zeros((6, 6))
    ctx.label(k or "definite", "%d different moments" % len(set(spec["I"])))
    ctx.nt(np.abs(H[:3, 3]).max() > .01 and np.abs(H[:3, :3] - np.eye(3)).max() > .01)
    s = np.abs(M).max() or 1.
    M0 = M.copy()
    F = np.array(mm.principalframe(M))
    close(M, M0, 0., "argument modified")
    require(ref.is_pose(F, 1e-9), "the principal frame is not a right-handed orthonormal frame:\n%s" % F)
    if spec["m"] > 0 and k != "zero":
        close(F[:3, 3], H[:3, 3], 1e-9, "origin at the centre of mass")
    A = ref.Ad(F)
    D = A.T.dot(M).dot(A)
    close(D - np.diag(np.diag(D)), np.zeros((6, 6)), 1e-8 * s, "the mass matrix is diagonal in the principal frame", rel=False)
    if k != "zero":
        close(sorted(np.diag(D)[:3]), sorted(x * c for x in spec["I"]), 1e-7 * s, "principal moments")


@CHECK.facet(lambda: st.fixed_dictionaries({"M": mspec(), "how": st.sampled_from(["ok", "ok", "semi", "semi", "asym", "mass", "offdiag", "negative", "indefinite", "shape", "zero"]),
                                            "i": st.integers(0, 5), "j": st.integers(0, 5), "e": gen.num(0.01, 1.), "s": st.sampled_from([1., -1.]), "k": SCALE}), quick=4000, shards=2,
             rule="always")
def recogniser(case, ctx):
    spec = dict(case["M"])
    how = case["how"]
    ctx.nt()
    ctx.label(how)
    i, j = case["i"], case["j"]
    if how == "semi":
        spec["I"] = [[0., 0., 0.], [spec["I"][0], spec["I"][0], 0.], [spec["I"][0]] * 2 + [0.]][i % 3]
    M, H = massm(spec)
    s = np.abs(M).max()
    if how == "ok":
        e = (True, True)
    elif how == "semi":
        # strictly: rounding decides, no claim; semi-definite: accepted
        e = (None, True)
    elif how == "zero":
        M = np.zeros((6, 6))
        e = (False, True)
    elif how == "asym":
        if i == j:
            j = (i + 1) % 6
        M[i, j] += case["e"] * s * case["s"]
        e = (False, False)
    elif how == "mass":
        k = 3 + i % 3
        M[k, k] += case["e"] * M[k, k] + 0.01
        e = (False, False)
    elif how == "offdiag":
        # symmetric and positive, but the mass would depend on the direction
        a, c = 3 + i % 3, 3 + (i + 1) % 3
        M[a, c] = M[c, a] = case["s"] * spec["m"] * min(.5, max(1e-3, case["e"] ** 3))
        e = (False, False)
    elif how == "negative":
        M = -M
        e = (False, False)
    elif how == "indefinite":
        I = list(spec["I"])
        I[i % 3] = -case["e"]
        M, _ = massm(dict(spec, I=I))
        e = (False, False)
    elif how == "shape":
        M = [M[:5, :5], M[:3], M[:, :5], M.reshape(36), np.zeros((7, 7))][i % 5]
        e = (False, False)
    if how != "shape":
        # heavy bodies too
        M = M * case["k"]
    for semi, x in zip((False, True), e):
        r = mm.ismassmatrix(M, semi)
        if x is not None:
            require(bool(r) == x, "ismassmatrix(%s, semi=%s) is %s for\n%s" % (how, semi, r, M))
    if e[0] is not None:
        require(bool(mm.ismassmatrix(M)) == e[0], "default is strict")
