"""Strategies.  All cases are plain JSON (dict, list, int, float, str, None).

Numbers live on a lattice (multiples of 1/1000 unless said otherwise), which keeps
them JSON-exact, free of denormals, and easy to shrink; special values (0, right
angles, pi...) are mixed in explicitly."""
import math
from hypothesis import strategies as st
from .ref import NDOF

PI = math.pi


def num(lo, hi, step=0.001):
    a, b = int(round(lo / step)), int(round(hi / step))
    return st.integers(a, b).map(lambda k: round(k * step, 9))


def vec(n, lo, hi):
    return st.lists(num(lo, hi), min_size=n, max_size=n)


def angle():
    return st.one_of(num(-PI, PI), num(-PI, PI), st.sampled_from([0., PI / 2, -PI / 2, PI, -PI, PI / 4, 1e-3, -1e-6]),
                     num(-7., 7.))


def mild_angle():
    return num(-3.1, 3.1)


def mix(*strategies):
    """one_of with the weights one writes: one_of itself drops the repeated strategies and flattens the nested ones"""
    return st.integers(0, len(strategies) - 1).flatmap(lambda i: strategies[i])


def tiny(n=3):
    """vectors whose size is a small power of ten"""
    return st.tuples(st.lists(st.integers(-9, 9), min_size=n, max_size=n), st.integers(3, 9)).map(
        lambda x: [float("%de-%d" % (k, x[1])) for k in x[0]])


def pose(tmax=1.5):
    t = vec(3, -tmax, tmax)
    m, a = st.lists(mild_angle(), min_size=3, max_size=3), st.lists(angle(), min_size=3, max_size=3)
    # one axis only, or not rotated
    one = st.tuples(st.integers(0, 2), angle()).map(lambda x: [x[1] if k == x[0] else 0. for k in range(3)])
    return st.fixed_dictionaries({"r": mix(m, m, m, m, a, a, a, one, st.just([0., 0., 0.])),
                                  "t": mix(t, t, t, t, t, t, tiny(), st.just([0., 0., 0.]))})


def special_pose(tmax=1.5):
    """poses which often are pure rotations, pure translations or the identity"""
    p = pose(tmax)
    return mix(p, p, p, p, p.map(lambda x: dict(x, t=[0., 0., 0.])), p.map(lambda x: dict(x, r=[0., 0., 0.])), st.just({"r": [0., 0., 0.], "t": [0., 0., 0.]}))


def opt_pose(tmax=1.):
    return mix(pose(tmax), st.none(), pose(tmax))


def scale_mass(m, e):
    """mass distribution times 10**e"""
    if m is None:
        return None
    return dict(m, m=float("%re%d" % (m["m"], e)), I=[float("%re%d" % (x, e)) for x in m["I"]])


def rescale(spec, e):
    """world spec with all masses and viscosities times 10**e"""
    return dict(spec, links=[dict(l, mass=scale_mass(l["mass"], e), visc=[x * 10. ** e for x in l["visc"]] if l.get("visc") else None)
                             for l in spec["links"]])


def mass(zero=False, point=False, light=False):
    pd = st.fixed_dictionaries({"m": num(0.1, 8.), "I": vec(3, 0.02, 2.), "p": pose(0.7)})
    alts = [pd, pd, pd, pd]
    if zero:
        alts.append(st.none())
    if point:
        alts.append(st.fixed_dictionaries({"m": num(0.1, 8.), "I": st.just([0., 0., 0.]), "p": pose(0.7)}))
    if light:
        # much lighter (or heavier) than the others
        alts.append(st.tuples(pd, st.sampled_from([-2, -3, -4, -5, -6, 2, 3])).map(lambda x: scale_mass(*x)))
    return st.one_of(alts)


def visc(skew=False):
    """positive semi-definite 6x6 (as a flat list), symmetric unless `skew`, or none"""
    import numpy as np

    def mk(v):
        A = np.array(v).reshape(6, 2)
        return [round(x, 9) for x in (A.dot(A.T)).flatten().tolist()]
    # on the rotation only, on the translation only, on some axes only
    part = st.tuples(vec(12, -0.7, 0.7), st.sampled_from(["rot", "lin", "one"]), st.integers(0, 5)).map(
        lambda x: [v if (x[1] == "rot" and i < 6) or (x[1] == "lin" and i >= 6) or (x[1] == "one" and i // 2 == x[2]) else 0. for i, v in enumerate(x[0])])
    if skew:
        def asym(v):
            A = np.array(v).reshape(6, 2)
            B = np.zeros((6, 6))
            B[np.triu_indices(6, 1)] = (v + v)[3:18]
            return [round(x, 9) for x in (A.dot(A.T) + B - B.T).flatten().tolist()]
        return mix(st.none(), vec(12, -0.7, 0.7).map(mk), part.map(mk), vec(12, -0.7, 0.7).map(asym))
    return mix(st.none(), st.none(), st.none(), vec(12, -0.7, 0.7).map(mk), part.map(mk))


LINEAR = ["RxJoint", "RyJoint", "RzJoint", "TxJoint", "TyJoint", "TzJoint", "RzRyJoint",
          "RzRxJoint", "RyRxJoint", "RzRyRxJoint", "TxTyTzJoint"]
ALL = LINEAR + ["FreeJoint", "FixedJoint"]


SPECIAL = [""] * 9 + ["zero", "tiny", "rest"]


def joint(types=None, vmax=2., qmax=3.):
    """{"jt", "q", "v"}"""
    types = types or ALL

    def mk(jt):
        if jt == "FreeJoint":
            return st.fixed_dictionaries({"jt": st.just(jt), "q": pose(1.), "v": vec(6, -vmax, vmax)})
        n = NDOF[jt]
        lin = [num(-qmax, qmax) if jt[0] == "R" else num(-1., 1.)] * n
        return st.tuples(st.tuples(*lin).map(list), vec(n, -vmax, vmax), st.sampled_from(SPECIAL)).map(lambda x: special(jt, *x))

    def special(jt, q, v, k):
        """sometimes at zero, nearly at zero, at rest"""
        if k == "zero":
            q = [0.] * len(q)
        elif k == "tiny":
            q = [float("%re-6" % x) for x in q]
        elif k == "rest":
            v = [0.] * len(v)
        return {"jt": jt, "q": q, "v": v}
    return st.sampled_from(types).flatmap(mk)


@st.composite
def world(draw, min_links=1, max_links=5, types=None, mass_st=None, with_visc=False, vmax=2.,
          branching=True, subframes=2, frames=True):
    n = draw(st.integers(min_links, max_links))
    links = []
    mass_st = mass_st or mass(zero=True)
    for i in range(n):
        l = dict(draw(joint(types, vmax)))
        if i == 0:
            l["parent"] = 0
        elif branching:
            # biased towards chains
            l["parent"] = draw(st.one_of(st.just(i), st.integers(0, i)))
        else:
            l["parent"] = i
        l["f0"] = draw(opt_pose()) if frames else None
        l["f1"] = draw(opt_pose()) if frames else None
        l["mass"] = draw(mass_st)
        l["visc"] = draw(visc(with_visc == "skew")) if with_visc else None
        links.append(l)
    subs = []
    for k in range(draw(st.integers(0, subframes))):
        subs.append({"body": draw(st.integers(0, n)), "pose": draw(pose(1.)), "moving": draw(st.booleans())})
    return {"links": links, "subs": subs}


# -- sizes beyond what is worth drawing number by number ----------------------

def long_steps(ns=(130, 260, 520, 1030), dts=(1e-3, .002)):
    """{"n", "dt"}: see steps_of"""
    return st.fixed_dictionaries({"n": st.sampled_from(list(ns)), "dt": st.sampled_from(list(dts))})


def steps_of(c):
    return [c["dt"]] * c["n"]


def big(lo=12, hi=40):
    """a big world, drawn as a size, a shape, and the seed of everything else: see expand"""
    return st.fixed_dictionaries({"n": st.integers(lo, hi), "shape": st.sampled_from(["chain", "star", "tree", "comb"]), "seed": st.integers(0, 10 ** 6), "linear": st.booleans()})


def expand(c, with_visc=False, subs=6):
    import numpy as np
    r = np.random.RandomState(c["seed"])

    def vec_(n, a, b):
        return [round(x, 3) for x in r.uniform(a, b, n).tolist()]

    def pose_(s):
        return {"r": vec_(3, -3., 3.), "t": vec_(3, -s, s)}
    n = c["n"]
    links = []
    types = LINEAR if c["linear"] else ALL
    for i in range(n):
        jt = types[r.randint(len(types))]
        k = NDOF[jt]
        q = pose_(.3) if jt == "FreeJoint" else [round(x, 3) for x in r.uniform(-3. if jt[0] == "R" else -.3, 3. if jt[0] == "R" else .3, k).tolist()]
        parent = {"chain": i, "star": 0 if i == 0 else min(i, 1), "tree": int(r.randint(i + 1)), "comb": i if i % 2 == 0 else max(0, i - 1)}[c["shape"]]
        A = r.uniform(-.5, .5, (6, 2))
        links.append({"jt": jt, "q": q, "v": vec_(k, -.5, .5), "parent": parent, "f0": pose_(.2) if r.rand() < .4 else None, "f1": pose_(.2) if r.rand() < .4 else None,
                      "mass": {"m": round(float(r.uniform(.1, 3.)), 3), "I": vec_(3, .05, 1.), "p": pose_(.2)},
                      "visc": [round(x, 9) for x in A.dot(A.T).flatten().tolist()] if with_visc and r.rand() < .5 else None})
    return {"links": links, "subs": [{"body": int(r.randint(n + 1)), "pose": pose_(.5), "moving": bool(r.rand() < .5)} for _ in range(subs)]}
