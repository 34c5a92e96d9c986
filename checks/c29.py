"""C29: simulated motion does not depend on modelling conventions.

A case is a mechanism and a list of re-descriptions; each one turns a
description into an equivalent one, and says how to read the first motion in
the second.  Both are simulated side by side."""
import copy
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref
from vp.core import Check, close, require
from arboris.controllers import WeightController, ProportionalDerivativeController
from arboris.core import Controller, SubFrame
from arboris.constraints import BallAndSocketConstraint, JointLimits, SoftFingerContact
from arboris.shapes import Sphere, Plane

CHECK = Check("C29")
ASSUMPTIONS = ["worlds with an ill-conditioned or singular impedance matrix, or moving very fast, are skipped"]


# -- re-descriptions: (spec, parameters) -> (spec, back), back(P, T) -> (P, T) of the first description ---------------

def body_frame(sp, d):
    """another frame for the same body"""
    i = d["i"] % len(sp["links"])
    X = ref.pose(d["X"])
    Y = ref.inv(X)
    l = sp["links"][i]
    l["f1"] = Y.dot(ref.pose(l["f1"]))
    if l["mass"] is not None:
        l["mass"]["p"] = Y.dot(ref.pose(l["mass"]["p"]))
    if l.get("visc"):
        A = ref.Ad(X)
        l["visc"] = A.T.dot(np.array(l["visc"], float).reshape(6, 6)).dot(A).ravel().tolist()
    for c in sp["links"]:
        if c["parent"] == i + 1:
            c["f0"] = Y.dot(ref.pose(c["f0"]))
    for c in sp["cons"]:
        for x in "ab":
            if c[x] == i + 1:
                c["p" + x] = Y.dot(ref.pose(c["p" + x]))

    def back(P, T):
        P, T = list(P), list(T)
        P[i + 1] = P[i + 1].dot(Y)
        T[i + 1] = ref.Ad(X).dot(T[i + 1])
        return P, T
    return sp, back


def renumber(sp, order, new=None):
    """the links in another order: order[k] is the old index of the k-th link"""
    at = dict((o, k) for k, o in enumerate(order))
    num = lambda b: 0 if b == 0 else at[b - 1] + 1
    links = [sp["links"][o] for o in order]
    for l in links:
        l["parent"] = num(l["parent"])
    sp["links"] = links
    for c in sp["cons"]:
        c["a"], c["b"], c["l"] = num(c["a"]), num(c["b"]), at[c["l"]]
    n = len(order)

    def back(P, T):
        return [P[num(b)] for b in range(n + 1)], [T[num(b)] for b in range(n + 1)]
    return sp, back


def reorder(sp, d):
    """siblings, and independent branches, declared in another order"""
    todo = list(range(len(sp["links"])))
    order, k = [], 0
    while todo:
        ready = [i for i in todo if sp["links"][i]["parent"] == 0 or sp["links"][i]["parent"] - 1 in order]
        i = ready[d["pick"][k % len(d["pick"])] % len(ready)]
        k += 1
        order.append(i)
        todo.remove(i)
    return renumber(sp, order)


def chain(sp, d):
    """a joint of several dofs as a chain of elementary joints with massless bodies"""
    cand = [i for i, l in enumerate(sp["links"]) if ref.NDOF[l["jt"]] > 1 and l["jt"] != "FreeJoint"]
    n0 = len(sp["links"])
    ident = lambda P, T: (P, T)
    if not cand:
        return sp, ident
    i = cand[d["i"] % len(cand)]
    l = sp["links"][i]
    if any(c["k"] == "limit" and c["l"] == i for c in sp["cons"]):
        return sp, ident
    sc = ref.SCREWS[l["jt"]]
    at = [None] * n0
    links = []
    for k, x in enumerate(sp["links"]):
        if k != i:
            links.append(x)
        else:
            for e, s in enumerate(sc):
                last = e == len(sc) - 1
                y = {"jt": {"r": "R", "t": "T"}[s[0]] + s[1] + "Joint", "q": [x["q"][e]], "v": [x["v"][e]], "f": x["f"][e:e + 1], "kp": x["kp"], "kd": x["kd"], "goal": x["goal"][e:e + 1], "vgoal": x["vgoal"][e:e + 1], "pd": x["pd"],
                     "f0": x["f0"] if e == 0 else None, "f1": x["f1"] if last else None, "mass": x["mass"] if last else None, "visc": x["visc"] if last else None, "swap": False}
                for kk in ("kpv", "kdv"):
                    if kk in x:
                        y[kk] = x[kk][e:e + 1]
                y["parent"] = ("old", x["parent"]) if e == 0 else ("new", len(links))
                links.append(y)
        at[k] = len(links) - 1
    num = lambda b: 0 if b == 0 else at[b - 1] + 1
    for y in links:
        p = y["parent"]
        y["parent"] = p[1] if isinstance(p, tuple) and p[0] == "new" else num(p[1] if isinstance(p, tuple) else p)
    sp["links"] = links
    for c in sp["cons"]:
        c["a"], c["b"], c["l"] = num(c["a"]), num(c["b"]), at[c["l"]]

    def back(P, T):
        return [P[num(b)] for b in range(n0 + 1)], [T[num(b)] for b in range(n0 + 1)]
    return sp, back


def dummy(sp, d):
    """a massless body welded somewhere, and frames nobody uses"""
    n = len(sp["links"])
    b = d["i"] % (n + 1)
    sp["links"].append({"jt": "FixedJoint", "q": [], "v": [], "f": [], "kp": 0., "kd": 0., "goal": [], "vgoal": [], "pd": False, "parent": b, "f0": d["X"], "f1": None, "mass": None, "visc": None, "swap": False})
    sp["subs"] = sp["subs"] + [{"body": d["i"] % (n + 2), "pose": d["X"], "moving": d["pick"][0] % 2 == 1}]
    if d["pick"][1] % 2 and n > b and b > 0:
        # the welded body takes the children of its parent over
        H = ref.inv(ref.pose(d["X"]))
        kids = [c for c in sp["links"][:-1] if c["parent"] == b]
        for c in kids:
            c["parent"] = n + 1
            c["f0"] = H.dot(ref.pose(c["f0"]))
        sp, back = reorder(sp, dict(d, pick=[0]))
        return sp, lambda P, T: tuple(x[:n + 1] for x in back(P, T))
    return sp, lambda P, T: (P[:n + 1], T[:n + 1])


def displace(sp, d):
    """the whole mechanism elsewhere; under gravity, turned about the vertical"""
    X = ref.pose(d["X"])
    if sp["g"]:
        X = ref.trans(*X[:3, 3]).dot(ref.rot("y", d["X"]["r"][1]))
    for l in sp["links"]:
        if l["parent"] == 0:
            l["f0"] = X.dot(ref.pose(l["f0"]))
    for c in sp["cons"]:
        for x in "ab":
            if c[x] == 0:
                c["p" + x] = X.dot(ref.pose(c["p" + x]))
    Y = ref.inv(X)
    return sp, lambda P, T: ([P[0]] + [Y.dot(p) for p in P[1:]], T)


def units(sp, d):
    """other units of length, mass and time"""
    a, b, c = d["u"]
    if any(x["k"] != "ball" for x in sp["cons"]):
        a = b = c = 1.          # contacts and limits compare with a fixed distance or speed
        if sp["cons"]:
            return sp, lambda P, T: (P, T)

    def pose(p):
        H = ref.pose(p)
        H[:3, 3] *= a
        return H
    F = {"r": b * a * a / c ** 2, "t": b * a / c ** 2}
    D = np.diag([a, a, a, 1., 1., 1.])
    for l in sp["links"]:
        kinds = [s[0] for s in ref.SCREWS[l["jt"]]] if l["jt"] != "FreeJoint" else list("rrrttt")
        L = [a if k == "t" else 1. for k in kinds]
        l["f0"], l["f1"] = pose(l["f0"]), pose(l["f1"])
        if l["mass"] is not None:
            l["mass"] = {"m": b * l["mass"]["m"], "I": [b * a * a * x for x in l["mass"]["I"]], "p": pose(l["mass"]["p"])}
        if l.get("visc"):
            l["visc"] = (b / c * D.dot(np.array(l["visc"], float).reshape(6, 6)).dot(D)).ravel().tolist()
        l["q"] = pose(l["q"]) if l["jt"] == "FreeJoint" else [x * s for x, s in zip(l["q"], L)]
        l["v"] = [x * s / c for x, s in zip(l["v"], L)]
        l["f"] = [x * F[k] for x, k in zip(l["f"], kinds)]
        l["kpv"] = [x * b / c ** 2 * (a * a if k == "r" else 1.) for x, k in zip(gain(l, "kp"), kinds)]
        l["kdv"] = [x * b / c * (a * a if k == "r" else 1.) for x, k in zip(gain(l, "kd"), kinds)]
        l["goal"] = [x * s for x, s in zip(l["goal"], L)]
        l["vgoal"] = [x * s / c for x, s in zip(l["vgoal"], L)]
    sp["subs"] = []
    for x in sp["cons"]:
        x["pa"], x["pb"] = pose(x["pa"]), pose(x["pb"])
    sp["g"] = sp["g"] * a / c ** 2 if sp["g"] else sp["g"]
    sp["dt"] *= c

    def un(H):
        H = H.copy()
        H[:3, 3] /= a
        return H
    return sp, lambda P, T: ([un(p) for p in P], [np.concatenate((t[:3] * c, t[3:] * c / a)) for t in T])


S = np.diag([1., 1., -1., 1.])
S6 = np.diag([-1., -1., 1., 1., 1., -1.])
SIGN = {"rx": -1., "ry": -1., "rz": 1., "tx": 1., "ty": 1., "tz": -1.}


def mirror(sp, d):
    """the same mechanism in a mirror (z -> -z)"""
    m = lambda p: S.dot(ref.pose(p)).dot(S)
    if any(c["k"] == "limit" for c in sp["cons"]):
        return sp, lambda P, T: (P, T)
    for l in sp["links"]:
        l["f0"], l["f1"] = m(l["f0"]), m(l["f1"])
        if l["mass"] is not None:
            l["mass"]["p"] = m(l["mass"]["p"])
        if l.get("visc"):
            l["visc"] = S6.dot(np.array(l["visc"], float).reshape(6, 6)).dot(S6).ravel().tolist()
        s = list(np.diag(S6)) if l["jt"] == "FreeJoint" else [SIGN[x] for x in ref.SCREWS[l["jt"]]]
        l["q"] = m(l["q"]) if l["jt"] == "FreeJoint" else [x * y for x, y in zip(l["q"], s)]
        for k in ("v", "f", "goal", "vgoal"):
            l[k] = [x * y for x, y in zip(l[k], s)]
    for c in sp["cons"]:
        c["pa"], c["pb"] = m(c["pa"]), m(c["pb"])
        if c["k"] == "plane":
            c["coef"] = [c["coef"][0], c["coef"][1], -c["coef"][2], c["coef"][3]]
    sp["subs"] = []
    return sp, lambda P, T: ([S.dot(p).dot(S) for p in P], [S6.dot(t) for t in T])


def swap(sp, d):
    """some joint was another one at first, and was replaced"""
    for i in d["pick"][:2]:
        sp["links"][i % len(sp["links"])]["swap"] = True
    return sp, lambda P, T: (P, T)


def controllers(sp, d):
    """the same forces, spread over more controllers, registered in another order"""
    sp["ctl"] = d["pick"]
    return sp, lambda P, T: (P, T)


HOW = dict((f.__name__, f) for f in (body_frame, reorder, chain, dummy, displace, units, mirror, swap, controllers))


SCALE = st.sampled_from([1., .1, .5, 2., 3., 10.])


def redescription():
    return st.fixed_dictionaries({"how": st.sampled_from(sorted(HOW) + ["body_frame", "reorder", "chain"]), "i": st.integers(0, 9), "X": gen.pose(1.), "pick": st.lists(st.integers(0, 5), min_size=3, max_size=6),
                                  "u": st.tuples(SCALE, st.one_of(SCALE, st.sampled_from([1e-14, 1e-11, 1e-6, 1e6, 1e10])), SCALE).map(list)})


# -- simulation -------------------------------------------------------------------------------------------------------

class Force(Controller):
    def __init__(self, f, name):
        Controller.__init__(self, name)
        self.f = f

    def init(self, world):
        self.n = world.ndof

    def update(self, dt):
        return np.array(self.f), np.zeros((self.n, self.n))


def gain(l, k):
    n = ref.NDOF[l["jt"]]
    return l.get(k + "v") or [l[k]] * n


def make(sp):
    from arboris.joints import FixedJoint
    s2 = copy.deepcopy(sp)
    for l in s2["links"]:
        if l["swap"]:
            l.update(jt="FixedJoint", q=[], v=[])
    b = build.world(s2, names=True)
    w = b.world
    for i, l in enumerate(sp["links"]):
        if l["swap"]:
            j = build.make_joint(l, "other%d" % i)
            w.replace_joint(b.joints[i], j)
            b.joints[i] = j
    cs = []
    if sp["g"]:
        cs.append(WeightController(sp["g"]))
    f = np.zeros(w.ndof)
    parts = [np.zeros(w.ndof) for _ in range(3)]
    k = sp.get("ctl")
    for i, (l, j) in enumerate(zip(sp["links"], b.joints)):
        if l["f"]:
            parts[k[i % len(k)] % 3 if k else 0][j.dof] = l["f"]
    cs += [Force(x, "force") for x in parts if k or x.any()]
    pd = [(l, j) for l, j in zip(sp["links"], b.joints) if l["pd"] and l["jt"] != "FreeJoint" and j.ndof]
    groups = [[x] for x in pd] if k and k[0] % 2 else ([pd] if pd else [])
    for g in groups:
        cat = lambda key: [x for l, _ in g for x in (gain(l, key) if key in ("kp", "kd") else l[key])]
        cs.append(ProportionalDerivativeController([j for _, j in g], kp=np.diag(cat("kp")), kd=np.diag(cat("kd")), gpos_des=cat("goal"), gvel_des=cat("vgoal")))
    if k and k[-1] % 2:
        cs.reverse()
    for c in cs:
        w.register(c)
    b.cons = []
    for n, c in enumerate(sp["cons"]):
        if c["k"] == "limit":
            j = b.joints[c["l"]]
            co = JointLimits(j, c["lo"], c["hi"])
        else:
            f0, f1 = SubFrame(b.bodies[c["a"]], ref.pose(c["pa"]), "ca%d" % n), SubFrame(b.bodies[c["b"]], ref.pose(c["pb"]), "cb%d" % n)
            if c["k"] == "ball":
                co = BallAndSocketConstraint(frames=(f0, f1))
            elif c["k"] == "sphere":
                co = SoftFingerContact((Sphere(f0, c["ra"]), Sphere(f1, c["rb"])), c["mu"])
            else:
                co = SoftFingerContact((Plane(f0, c["coef"]), Sphere(f1, c["rb"])), c["mu"])
        w.register(co)
        b.cons.append(co)
    w.init()
    return b


def mobility(sp, b):
    """for each row of a constraint (of two bodies), the velocity that usual forces give to the bodies, which is compared to the one along that row: without any, the constraint fights a joint"""
    c = sp["cons"][0]
    y = np.sqrt(np.abs(np.diag(b.world.admittance)))
    size = max([np.linalg.norm(ref.pose(c[p])[:3, 3]) for p in ("pa", "pb")] + ([c["ra"], c["rb"]] if c["k"] != "ball" else []))
    rot, lin = 1e-300, 1e-300
    for i in (c["a"], c["b"]):
        J = np.array(b.bodies[i].jacobian) * y
        rot = max(rot, np.linalg.norm(J[:3], axis=1).max())
        lin = max(lin, np.linalg.norm(J[3:], axis=1).max())
    lin = max(lin, size * rot)
    return np.array([lin] * 3 if c["k"] == "ball" else [rot] + [lin] * 3)


def run(sp, steps, ctx, limit=30.):
    """poses and twists of all bodies at each step"""
    b = make(sp)
    w = b.world
    out, acted = [], False
    cond = 1.
    for k in range(steps + 1):
        w.update_dynamic()
        out.append(([x.pose.copy() for x in b.bodies], [np.array(x.twist) for x in b.bodies]))
        if k == steps:
            break
        w.update_controllers(sp["dt"])
        g0 = w.gforce
        if w.ndof:
            Z = w.admittance
            d = np.sqrt(np.abs(np.diag(Z))) + 1e-300
            cond = max(cond, np.linalg.cond(Z / np.outer(d, d)))
        if not cond < 1e6:
            ctx.skip("ill-conditioned")
        for c in b.cons:
            c.update(sp["dt"])
            if c.is_active():
                Yc = c.jacobian.dot(w.admittance).dot(c.jacobian.T)
                if sp["cons"][0]["k"] != "limit":
                    d = mobility(sp, b)
                    if not np.linalg.norm(Yc / np.outer(d, d), -2) > 1e-10:
                        ctx.skip("a constraint is fighting a joint")
                d = np.sqrt(np.abs(np.diag(Yc))) + 1e-300
                ci = np.linalg.cond(Yc / np.outer(d, d))
                cond = max(cond, ci)
                if not ci < 1e5:
                    ctx.skip("a constraint is fighting a joint")
        try:
            w.update_constraints(sp["dt"])
        except np.linalg.LinAlgError:
            ctx.skip("a contact is fighting a joint")
        acted = acted or (w.ndof > 0 and np.abs(w.gforce - g0).max() > 1e-9)
        w.integrate(sp["dt"])
    return out, cond, acted


def fast(motion, limit):
    return max(np.abs(t).max() for _, T in motion for t in T) > limit


@st.composite
def mechanism(draw, n=4, cons=False):
    m = draw(st.sampled_from([gen.mass(), gen.mass(), gen.mass(zero=True)])) if not cons else gen.mass()
    types = ["FreeJoint"] * 4 + ["RzRyRxJoint", "TxTyTzJoint", "RzRyJoint", "RzJoint", "TyJoint"] if cons else None
    w = draw(gen.world(1, n, types=types, mass_st=m, with_visc=True, subframes=1))
    # controllers
    for l in w["links"]:
        nd = ref.NDOF[l["jt"]]
        l["f"] = draw(st.one_of(st.just([0.] * nd), gen.vec(nd, -10., 10.)))
        l["pd"] = draw(st.booleans()) and not cons
        l["kp"], l["kd"] = draw(gen.num(0., 20.)), draw(gen.num(0., 5.))
        l["goal"], l["vgoal"] = draw(gen.vec(nd, -2., 2.)), draw(gen.vec(nd, -1., 1.))
        l["swap"] = False
    return {"links": w["links"], "subs": w["subs"], "g": draw(st.sampled_from([None, -9.81, -9.81, 3.])), "dt": draw(st.sampled_from([1e-3, .005, .01, .02])), "cons": []}


def transformed(sp, ds):
    sp = copy.deepcopy(sp)
    backs = []
    for d in ds:
        sp, back = HOW[d["how"]](sp, copy.deepcopy(d))
        backs.append(back)

    def total(P, T):
        for back in reversed(backs):
            P, T = back(P, T)
        return P, T
    return sp, total


def compare(A, B, back, tol, what):
    for k, ((P, T), (Q, U)) in enumerate(zip(A, B)):
        Q, U = back(Q, U)
        for i in range(1, len(P)):
            close(Q[i], P[i], tol, "%s, step %d: pose of body %d" % (what, k, i))
            close(U[i], T[i], tol * max(1., np.abs(T[i]).max()), "%s, step %d: twist of body %d" % (what, k, i), rel=False)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": mechanism(), "d": st.lists(redescription(), min_size=1, max_size=3), "steps": st.integers(1, 6)}), quick=2400, shards=8,
             rule="at least two links of which one moves, and a re-description that changes the description")
def motion(case, ctx):
    sp = case["w"]
    if sum(ref.NDOF[l["jt"]] for l in sp["links"]) == 0:
        ctx.skip("no dof")
    try:
        A, cond, _ = run(sp, case["steps"], ctx)
    except np.linalg.LinAlgError:
        ctx.skip("singular")
    if fast(A, 50.):
        ctx.skip("fast")
    s2, back = transformed(sp, case["d"])
    B, cond2, _ = run(s2, case["steps"], ctx)
    ctx.nt(len(sp["links"]) >= 2 and any(np.abs(t).max() > 1e-3 for t in A[-1][1]))
    for d in case["d"]:
        ctx.label(d["how"])
    compare(A, B, back, 1e-11 * max(cond, cond2) + 1e-9, "+".join(d["how"] for d in case["d"]))


# -- splitting a body --------------------------------------------------------------------------------------------------

@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 4, mass_st=gen.mass(), with_visc=True, subframes=0), "i": st.integers(0, 5), "parts": st.lists(st.fixed_dictionaries({"mass": gen.mass(point=True), "X": gen.pose(1.)}), min_size=1, max_size=3), "deep": st.booleans()}),
             quick=800, shards=3, rule="a moving body of several parts")
def split(case, ctx):
    """a body made of parts welded by fixed joints has the mass, the weight and the inertial forces of the one body with their total mass matrix"""
    sp = case["w"]
    n = len(sp["links"])
    i = case["i"] % n
    if sum(ref.NDOF[l["jt"]] for l in sp["links"]) == 0:
        ctx.skip("no dof")
    a = build.world(sp, names=True)
    total = ref.mass(sp["links"][i]["mass"])
    parts = copy.deepcopy(sp)
    at, H = i + 1, np.eye(4)
    for p in case["parts"]:
        X = ref.pose(p["X"])
        parts["links"].append({"jt": "FixedJoint", "q": [], "v": [], "parent": at, "f0": p["X"], "f1": None, "mass": p["mass"], "visc": None})
        Hp = H.dot(X)
        A = ref.iAd(Hp)
        total = total + A.T.dot(ref.mass(p["mass"])).dot(A)
        if case["deep"]:
            at, H = len(parts["links"]), Hp
    a.bodies[i + 1].mass = (total + total.T) / 2
    b = build.world(parts, names=True)
    for x in (a, b):
        x.world.register(WeightController())
        x.world.init()
        x.world.update_dynamic()
        x.world.update_controllers(.01)
    wa, wb = a.world, b.world
    ctx.nt(np.abs(a.bodies[i + 1].twist).max() > 1e-3)
    # (fixed joints have no dof: both worlds have the same layout)
    require(wa.ndof == wb.ndof, "ndof")
    s = max(1., np.abs(total).max())
    close(wb.mass, wa.mass, 1e-9 * s, "generalized mass of the parts")
    close(wb.viscosity, wa.viscosity, 1e-9 * s, "viscosity of the parts")
    close(wb.gforce, wa.gforce, 1e-8 * s, "weight of the parts")
    close(wb.nleffects.dot(wb.gvel), wa.nleffects.dot(wa.gvel), 1e-8 * s, "inertial forces of the parts")


# -- with a constraint -------------------------------------------------------------------------------------------------

@st.composite
def constrained(draw):
    sp = draw(mechanism(3, cons=True))
    n = len(sp["links"])
    k = draw(st.sampled_from(["ball", "ball", "limit", "sphere", "plane"]))
    a = draw(st.integers(0, n))
    b = draw(st.integers(0, n))
    if a == b:
        a = (b + 1) % (n + 1)
    if b == 0:
        a, b = b, a
    c = {"k": k, "a": a, "b": b, "l": draw(st.integers(0, n - 1)), "pa": draw(gen.pose(.6)), "pb": draw(gen.pose(.6)), "mu": draw(st.sampled_from([0., .3, 1., 5.])), "gap": draw(st.sampled_from([-.01, 0., .002, .05])), "rb": .1, "ra": .1, "coef": [0., 0., 1., 0.]}
    if k == "limit":
        l = sp["links"][c["l"]]
        if l["jt"] in ("FreeJoint", "FixedJoint"):
            c["k"] = "ball"
        else:
            c["lo"] = [x - max(0., c["gap"]) for x in l["q"]]
            c["hi"] = [x + 1. for x in l["q"]]
    sp["cons"] = [c]
    return sp


def place(sp):
    """put the constraint where it acts"""
    c = sp["cons"][0]
    if c["k"] == "limit":
        return True
    P = ref.Model(sp).kinematics()[0]
    Ha, Hb = P[c["a"]].dot(ref.pose(c["pa"])), P[c["b"]].dot(ref.pose(c["pb"]))
    if c["k"] == "ball":
        Hb[:3, 3] = Ha[:3, 3]
        c["pb"] = ref.inv(P[c["b"]]).dot(Hb)
    elif c["k"] == "sphere":
        d = np.linalg.norm(Ha[:3, 3] - Hb[:3, 3]) - c["gap"]
        if d < .05:
            return False
        c["ra"] = c["rb"] = d / 2
    else:
        dist = Ha[:3, 2].dot(Hb[:3, 3] - Ha[:3, 3])
        c["coef"] = [0., 0., 1., dist - c["rb"] - c["gap"]]
    return True


@CHECK.facet(lambda: st.fixed_dictionaries({"w": constrained(), "d": st.lists(redescription(), min_size=1, max_size=2), "steps": st.integers(1, 4)}), quick=1600, shards=6,
             rule="the constraint acts")
def constraint(case, ctx):
    """the same with a constraint"""
    sp = copy.deepcopy(case["w"])
    if sum(ref.NDOF[l["jt"]] for l in sp["links"]) == 0:
        ctx.skip("no dof")
    if not place(sp):
        ctx.skip("spheres too close")
    try:
        A, cond, acted = run(sp, case["steps"], ctx)
    except np.linalg.LinAlgError:
        ctx.skip("singular")
    if fast(A, 30.):
        ctx.skip("fast")
    s2, back = transformed(sp, case["d"])
    B, cond2, _ = run(s2, case["steps"], ctx)
    ctx.nt(acted)
    ctx.label(sp["cons"][0]["k"])
    compare(A, B, back, 1e-11 * max(cond, cond2) + 1e-7, "%s with a %s" % ("+".join(d["how"] for d in case["d"]), sp["cons"][0]["k"]))
