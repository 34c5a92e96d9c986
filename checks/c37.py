"""C37: the kind of numbers and of sequences an argument is made of changes nothing: integers, lists, tuples, strided,
Fortran-ordered and read-only arrays all mean what the same values in an array of floats mean, and are left unchanged."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim, fakes
from vp.core import Check, close, require

CHECK = Check("C37")
ASSUMPTIONS = ["values are small integers, so that every kind holds them exactly",
               "functions documented to take matrices and twists as arrays are given arrays (of any dtype and layout), not lists"]

ARRAYS = ["int", "int32", "fortran", "strided", "frozen", "object-free"]
SEQS = ["list", "floats", "tuple", "np-scalars"]


def nest(x, leaf, seq):
    return seq(nest(v, leaf, seq) for v in x) if isinstance(x, (list, tuple)) else leaf(x)


class Caster(object):
    """gives every argument the wanted kind and remembers it, to see whether it was changed"""

    def __init__(self, kind, fractions=()):
        self.kind, self.given, self.fractions, self.n = kind, [], fractions, 0

    def whole(self, v, pose=False, exact=False):
        """some arguments have fractions (and are floats in any kind), so that integers meet reals"""
        self.n += 1
        if exact or not self.fractions or not self.fractions[self.n % len(self.fractions)]:
            return v, True
        if pose:
            H = np.array(v, float)
            H[:3, 3] *= .5
            return H.tolist(), False
        return (np.array(v, float) * .5).tolist(), False

    def keep(self, x, arr):
        self.given.append((x, np.array(arr, float)))
        return x

    def arr(self, v, pose=False, exact=False):
        """an argument that has to be an array"""
        v, w = self.whole(v, pose, exact)
        f = np.array(v, float)
        k = self.kind
        if not w and k not in ("fortran", "strided", "frozen"):
            x = f
        elif k in ("int", "list", "tuple", "np-scalars"):
            x = np.array(v, int)
        elif k == "int32":
            x = np.array(v, np.int32)
        elif k == "fortran":
            x = np.asfortranarray(f)
        elif k == "strided":
            big = np.full(tuple(2 * s for s in f.shape), 7.5)
            x = big[tuple(slice(None, None, 2) for _ in f.shape)]
            x[...] = f
        elif k == "frozen":
            x = f.copy()
            x.flags.writeable = False
        else:
            x = f
        return self.keep(x, f)

    def seq(self, v, pose=False, exact=False):
        """an argument that may be any sequence"""
        k = self.kind
        if k not in SEQS:
            return self.arr(v, pose, exact)
        v, w = self.whole(v, pose, exact)
        if k == "list":
            x = nest(v, int if w else float, list)
        elif k == "floats":
            x = nest(v, float, list)
        elif k == "tuple":
            x = nest(v, int if w else float, tuple)
        else:
            x = nest(v, np.int64 if w else np.float64, list)
        return self.keep(x, v)

    def num(self, v, exact=False):
        k = self.kind
        v, w = self.whole(v, exact=exact)
        if not w:
            return float(v)
        if k in ("int", "list", "tuple"):
            return int(v)
        if k == "int32":
            return np.int32(v)
        if k == "np-scalars":
            return np.int64(v)
        if k == "object-free":
            return np.float64(v)
        return float(v)

    def some(self, v):
        """a sequence of objects"""
        v = list(v)
        return tuple(v) if self.kind in ("tuple", "int", "fortran") else v

    def unchanged(self):
        for x, v in self.given:
            close(np.array(x, float), v, 0., "an argument changed by the call")


def vals(x, out):
    """the numbers of a digest, flattened, and the rest of it"""
    if isinstance(x, np.ndarray) or isinstance(x, (float, int, np.number)) and not isinstance(x, bool):
        out.append(np.asarray(x, float))
    elif isinstance(x, (list, tuple)):
        for v in x:
            vals(v, out)
    else:
        out.append(x)
    return out


def compare(run, case, ctx, tol=1e-11):
    base, mine = Caster("reference", case["frac"]), Caster(case["kind"], case["frac"])
    a, b = vals(run(base, case), []), vals(run(mine, case), [])
    require(len(a) == len(b), "%s: %d results with %s, %d with floats" % (case.get("f", run.__name__), len(b), case["kind"], len(a)))
    for i, (x, y) in enumerate(zip(a, b)):
        what = "%s: result %d with %s arguments, against floats" % (case.get("f", run.__name__), i, case["kind"])
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            require(x.shape == y.shape, "%s: shape %s != %s" % (what, y.shape, x.shape))
            close(y, x, tol, what)
        else:
            require(type(x) is type(y) and x == y, "%s: %r != %r" % (what, y, x))
    mine.unchanged()
    ctx.label(case["kind"])
    if any(isinstance(x, np.ndarray) and x.size and np.abs(x).max() > 0 for x in a):
        ctx.nt()


KIND = st.sampled_from(ARRAYS + SEQS)
AKIND = st.sampled_from(ARRAYS)
FRAC = st.one_of(st.just([]), st.lists(st.booleans(), min_size=2, max_size=6))


def ivec(n, lo=-5, hi=5):
    return st.lists(st.integers(lo, hi), min_size=n, max_size=n)


ROT = []
for perm in itertools.permutations(range(3)):
    for s in itertools.product((1, -1), repeat=3):
        R = np.zeros((3, 3), int)
        for i in range(3):
            R[i, perm[i]] = s[i]
        if round(np.linalg.det(R)) == 1:
            ROT.append(R.tolist())


@st.composite
def ipose(draw):
    H = np.eye(4, dtype=int)
    H[:3, :3] = draw(st.sampled_from(ROT))
    H[:3, 3] = draw(ivec(3))
    return H.tolist()


@st.composite
def imass(draw):
    """an integer mass matrix: a box's at some frame"""
    m = draw(st.integers(1, 5))
    d = draw(ivec(3, 1, 6))
    I3 = np.diag([d[1] + d[2], d[0] + d[2], d[0] + d[1]])
    R = np.array(draw(st.sampled_from(ROT)))
    c = np.array(draw(ivec(3, -3, 3)))
    S = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
    M = np.zeros((6, 6), int)
    M[:3, :3] = R.dot(I3).dot(R.T) - m * S.dot(S)
    M[:3, 3:] = m * S
    M[3:, :3] = -m * S
    M[3:, 3:] = m * np.eye(3, dtype=int)
    return M.tolist()


# -- functions over matrices and vectors ---------------------------------------------------------------------------------

F = {}


def f(fn):
    F[fn.__name__] = fn
    return fn


@f
def rotations(k, c):
    import arboris.homogeneousmatrix as Hg
    a, b, d = [k.num(x) for x in c["v"][:3]]
    return [Hg.transl(a, b, d), Hg.rotzyx(a, b, d), Hg.rotzy(a, b), Hg.rotzx(a, b), Hg.rotyx(a, b), Hg.rotx(a), Hg.roty(a), Hg.rotz(a)]


@f
def aligned(k, c):
    import arboris.homogeneousmatrix as Hg
    return Hg.zaligned(k.seq([r[2] for r in c["H"][:3]], exact=True))


@f
def actions(k, c):
    import arboris.homogeneousmatrix as Hg
    H = k.arr(c["H"], True)
    return [Hg.pdot(H, k.seq(c["v"][:3])), Hg.vdot(H, k.seq(c["v"][3:])), Hg.inv(H), Hg.adjoint(H), Hg.iadjoint(H), Hg.rotzyx(*Hg.rotzyx_angles(H)), bool(Hg.ishomogeneousmatrix(H))]


@f
def dadjoint(k, c):
    import arboris.homogeneousmatrix as Hg
    return Hg.dAdjoint(k.arr(ref.Ad(np.array(c["H"], float)).round().astype(int).tolist(), exact=True), k.arr(c["v"]))


@f
def adjoints(k, c):
    import arboris.adjointmatrix as A
    Ad = k.arr(ref.Ad(np.array(c["H"], float)).round().astype(int).tolist(), exact=True)
    return [bool(A.isadjointmatrix(Ad)), A.inv(Ad)]


@f
def twists(k, c):
    import arboris.twistvector as T
    return [T.adjacency(k.arr(c["v"])), T.exp(k.arr(c["v"])), T.exp(k.arr([0, 0, 0] + c["v"][3:]))]


@f
def masses(k, c):
    import arboris.massmatrix as M
    m = k.arr(c["M"])
    P = M.principalframe(m)
    return [bool(M.ismassmatrix(m)), bool(M.ismassmatrix(m, True)), M.transport(m, k.arr(c["H"], True)), P[:, 3], M.transport(m, P)]


@f
def solids(k, c):
    import arboris.massmatrix as M
    x = [abs(v) + 1 for v in c["v"]]
    m = k.num(x[5])
    return [M.box(k.seq(x[:3]), m), M.ellipsoid(k.seq(x[:3]), m), M.cylinder(k.num(x[3]), k.num(x[4]), m), M.sphere(k.num(x[3]), m)]


@CHECK.facet(lambda: st.fixed_dictionaries({"f": st.sampled_from(sorted(F)), "kind": KIND, "frac": FRAC, "v": ivec(6), "H": ipose(), "M": imass()}), quick=4000, shards=2, rule="a result is not zero")
def functions(case, ctx):
    """the functions over matrices, twists, masses and rotations"""
    ctx.label(case["f"])
    case = dict(case)
    compare(F[case["f"]], case, ctx)


# -- joints --------------------------------------------------------------------------------------------------------------

def one_joint(k, c):
    import arboris.joints as aj
    from arboris.core import World, Body
    jt, n = c["jt"], ref.NDOF[c["jt"]]
    if jt == "FreeJoint":
        q, v = k.seq(c["H"], True), k.seq(c["v"])
    elif n == 1 and c["scalar"]:
        q, v = k.num(c["q"][0]), k.num(c["v"][0])
    else:
        q, v = k.seq(c["q"][:n]), k.seq(c["v"][:n])
    j = getattr(aj, jt)(gpos=q, gvel=v, name="j")
    out = [j.gpos.shape, j.gvel.shape, np.array(j.pose), np.array(j.twist), np.array(j.ipose), np.array(j.djacobian)]
    # a velocity and a position set afterwards
    for e in c["edits"]:
        if e[0] == "v":
            j.gvel[e[1] % n] = e[2]
        elif jt == "FreeJoint":
            j.gpos[e[1] % 3, 3] = e[2]
        else:
            j.gpos[e[1] % n] = e[2]
    out += [np.array(j.gpos), np.array(j.gvel), np.array(j.pose), np.array(j.twist)]
    w = None
    if c["world"]:
        w = World()
        w.add_link(w.ground, j, Body("b", mass=k.arr(c["M"])))
        w.init()
        w.update_dynamic()
        out += [np.array(w.gvel), np.array(w.mass), np.array(w.nleffects)]
    for dv in c["steps"]:
        if w is None:
            j.integrate(k.arr(dv[:n]), k.num(c["dt"]))
        else:
            sim.step(w, k.num(c["dt"]))
        out += [np.array(j.gpos), np.array(j.gvel)]
    return out


@CHECK.facet(lambda: st.fixed_dictionaries({"kind": KIND, "frac": FRAC, "jt": st.sampled_from(sorted(t for t in ref.NDOF if t != "FixedJoint" and ref.NDOF[t])), "H": ipose(), "q": ivec(3, -3, 3), "v": ivec(6, -3, 3), "M": imass(), "scalar": st.booleans(), "world": st.booleans(), "dt": st.just(1),
                                            "edits": st.lists(st.tuples(st.sampled_from("qv"), st.integers(0, 5), gen.num(-2., 2.)), max_size=3), "steps": st.lists(ivec(6, -2, 2), max_size=3)}), quick=1500, shards=2, rule="a result is not zero")
def joints(case, ctx):
    """joints made from, edited after, and moved by numbers of any kind"""
    ctx.label(case["jt"])
    compare(one_joint, case, ctx, 1e-9)


# -- worlds: frames, controllers, constraints, shapes, observers, timelines -------------------------------------------------

@st.composite
def _world_case(draw):
    n = draw(st.integers(1, 3))
    links = [{"jt": draw(st.sampled_from(["FreeJoint", "RzJoint", "RxJoint", "TyJoint", "RzRyRxJoint", "TxTyTzJoint"])), "parent": draw(st.integers(0, i)), "H": draw(ipose()), "q": draw(ivec(3, -2, 2)), "v": draw(ivec(6, -2, 2)), "M": draw(imass()),
              "visc": draw(st.one_of(st.none(), st.integers(1, 4))), "f0": draw(st.one_of(st.none(), ipose())), "f1": draw(st.one_of(st.none(), ipose()))} for i in range(n)]
    return {"kind": draw(KIND), "frac": draw(FRAC), "links": links, "g": draw(st.one_of(st.none(), st.integers(-12, 3))), "pd": draw(st.one_of(st.none(), st.fixed_dictionaries({"kp": ivec(9, 0, 6), "kd": ivec(9, 0, 6), "q": ivec(9, -2, 2), "v": ivec(9, -2, 2), "edit": st.one_of(st.none(), gen.num(-1., 1.))}))),
            "lim": draw(st.one_of(st.none(), st.fixed_dictionaries({"lo": ivec(3, -3, 0), "hi": ivec(3, 0, 3), "prox": st.one_of(st.none(), st.integers(0, 2))}))), "ball": draw(st.booleans()), "mov": draw(st.lists(ipose(), max_size=2)),
            "steps": draw(st.integers(1, 3)), "dt": draw(st.sampled_from([1, 2, .01, .05])), "t0": draw(st.integers(0, 3)), "obs": draw(st.booleans())}


def whole(k, c):
    import arboris.core as core
    import arboris.joints as aj
    from arboris.controllers import WeightController, ProportionalDerivativeController
    from arboris.constraints import JointLimits, BallAndSocketConstraint
    w = core.World()
    bodies = [w.ground]
    js = []
    for i, l in enumerate(c["links"]):
        n = ref.NDOF[l["jt"]]
        j = getattr(aj, l["jt"])(gpos=k.seq(l["H"] if l["jt"] == "FreeJoint" else l["q"][:n], l["jt"] == "FreeJoint"), gvel=k.seq(l["v"][:n]), name="j%d" % i)
        b = core.Body("b%d" % i, mass=k.arr(l["M"]), viscosity=None if l["visc"] is None else k.arr((l["visc"] * np.eye(6, dtype=int)).tolist()))
        f0 = bodies[l["parent"]] if l["f0"] is None else core.SubFrame(bodies[l["parent"]], k.arr(l["f0"], True), "p%d" % i)
        f1 = b if l["f1"] is None else core.SubFrame(b, k.arr(l["f1"], True), "c%d" % i)
        w.add_link(f0, j, f1)
        bodies.append(b)
        js.append(j)
    for i, H in enumerate(c["mov"]):
        m = core.MovingSubFrame(bodies[-1], name="m%d" % i)
        m.bpose = k.arr(H, True)
        w.register(m)
    w.init()
    if c["g"] is not None:
        w.register(WeightController(k.num(c["g"])))
    lin = [j for j in js if not isinstance(j, aj.FreeJoint)]
    n = sum(j.ndof for j in lin)
    if c["pd"] is not None and lin:
        p = ProportionalDerivativeController(k.some(lin), kp=k.seq(np.diag(c["pd"]["kp"][:n]).tolist()), kd=k.seq(np.diag(c["pd"]["kd"][:n]).tolist()), gpos_des=k.seq(c["pd"]["q"][:n]), gvel_des=k.seq(c["pd"]["v"][:n]))
        if c["pd"]["edit"] is not None:
            p.gpos_des[0] = c["pd"]["edit"]
            p.gvel_des[-1] = c["pd"]["edit"]
            p.kp[0, 0] = 1 + c["pd"]["edit"]
        w.register(p)
    if c["lim"] is not None and lin and c["dt"] < 1:
        j = lin[0]
        prox = c["lim"]["prox"]
        w.register(JointLimits(j, k.seq([x - 1 for x in c["lim"]["lo"][:j.ndof]]), k.seq([x + 1 for x in c["lim"]["hi"][:j.ndof]]), None if prox is None else k.seq([prox] * j.ndof)))
    if c["ball"]:
        w.register(BallAndSocketConstraint(k.some([bodies[-1], w.ground])))
    seen = []

    class Watch(core.Observer):
        def init(self, world, timeline):
            pass

        def update(self, dt):
            seen.append([float(dt), float(w.current_time), np.array(w.gvel), np.array(w.mass), np.array(w.gforce), np.array(w.admittance)] + [np.array(fr.pose) for fr in w.iterframes()] + [np.array(fr.twist) for fr in w.iterframes()])

        def finish(self):
            pass
    t = [c["t0"] + c["dt"] * i for i in range(c["steps"] + 1)]
    ob = Watch()
    tl = k.seq(t, exact=True) if c["dt"] >= 1 else t
    core.simulate(w, tl, {"a": ob} if k.kind in ("list", "int") else k.some([ob]))
    return [[np.array(j.gpos) for j in js], np.array(w.gvel), float(w.current_time), seen]


@CHECK.facet(_world_case, quick=700, shards=4, rule="a result is not zero")
def worlds(case, ctx):
    """whole worlds and simulations: masses, frames, controllers, limits, timelines"""
    big = []

    def run(k, c):
        with np.errstate(all="ignore"):
            out = whole(k, c)
        big.append(max([np.abs(x).max() for x in vals(out, []) if isinstance(x, np.ndarray) and x.size and np.isfinite(x).all()] or [0.]))
        return out
    try:
        base = vals(run(Caster("reference", case["frac"]), case), [])
    except (np.linalg.LinAlgError, AssertionError):
        # huge steps (whole seconds) may leave the range where a pose stays a rotation
        ctx.skip("singular or blown up")
        return
    if big[0] > 1e4 or not all(np.isfinite(x).all() for x in base if isinstance(x, np.ndarray)):
        ctx.skip("ran away")
        return
    compare(whole, case, ctx, 1e-7)


# -- shapes, contacts, factories, drawing --------------------------------------------------------------------------------

def shapes_world(k, c):
    import arboris.core as core
    from arboris.joints import FreeJoint
    from arboris.shapes import Box, Sphere, Point, Plane, Cylinder
    from arboris.collisions import choose_solver
    from arboris.constraints import SoftFingerContact
    w = core.World()
    frames = []
    for i in range(2):
        b = core.Body("b%d" % i, mass=np.eye(6))
        w.add_link(w.ground, FreeJoint(k.seq(c["H"][i], exact=True), name="j%d" % i), b)
        frames.append(b)
    x = [abs(v) + 1 for v in c["v"]]

    def mk(kind, fr):
        if kind == "Box":
            return Box(fr, k.seq(x[:3], exact=True), "box")
        if kind == "Sphere":
            return Sphere(fr, k.num(x[3]), "sphere")
        if kind == "Point":
            return Point(fr, "point")
        return Plane(fr, k.seq(c["plane"]), "plane")
    s0, s1 = mk(c["pair"][0], frames[0]), mk(c["pair"][1], frames[1])
    w.register(s0)
    w.register(s1)
    w.register(Cylinder(frames[0], k.num(x[4]), k.num(x[5]), "cyl"))
    w.init()
    w.update_dynamic()
    sh, solver = choose_solver(s0, s1)
    d, H0, H1 = solver(k.some(sh))
    out = [float(d), np.array(H0)[:, 2:], np.array(H1)[:, 2:]]
    con = SoftFingerContact(k.some([s0, s1]), friction_coeff=k.num(1), proximity=k.num(1))
    w.register(con)
    sim.step(w, k.num(1))
    out.append(np.array(w.gvel))
    # drawing
    drv = fakes_driver(k, c)
    Drawer, ColorGenerator = fakes.visu("world_drawer").Drawer, fakes.visu("world_drawer").ColorGenerator
    col = ColorGenerator({"b0": k.seq(c["col"])}, nb_colors=k.num(4, exact=True) if k.kind not in ("frozen", "fortran", "strided", "floats", "object-free", "reference") else 4)
    w.update_geometric()
    w.parse(Drawer(drv, c["flat"], col))
    return out + drv.log


def fakes_driver(k, c):
    DrawerDriver = fakes.visu("world_drawer").DrawerDriver

    class Log(DrawerDriver):
        def __init__(self):
            DrawerDriver.__init__(self, k.num(c["scale"]))
            self.log = []

        def __getattribute__(self, name):
            if name.startswith("create_") or name in ("add_ground", "add_child"):
                def rec(*a, **kw):
                    for x in list(a) + [kw[q] for q in sorted(kw)]:
                        if isinstance(x, str) or x is None or isinstance(x, bool):
                            self.log.append(str(x))
                        elif not isinstance(x, tuple) or name != "add_child":
                            self.log.append(np.array(x, float))
                    return (name,) if name == "add_child" else 0.
                return rec
            return object.__getattribute__(self, name)

        def init(self):
            pass

        def finish(self):
            pass
    return Log()


PAIRS = [("Sphere", "Sphere"), ("Sphere", "Point"), ("Point", "Sphere"), ("Box", "Sphere"), ("Sphere", "Box"), ("Box", "Point"), ("Plane", "Sphere"), ("Plane", "Point"), ("Point", "Plane")]


@CHECK.facet(lambda: st.fixed_dictionaries({"kind": KIND, "frac": FRAC, "H": st.lists(ipose(), min_size=2, max_size=2, unique_by=lambda H: tuple(r[3] for r in H)), "v": ivec(6), "plane": ivec(4).filter(lambda p: any(p[:3])), "pair": st.sampled_from(PAIRS), "col": ivec(3, 0, 1), "scale": st.integers(1, 3), "flat": st.booleans()}), quick=1500, shards=2, rule="a result is not zero")
def shapes(case, ctx):
    """shapes, collision solvers, contacts and drawing"""
    # points on a box's surface and ties between its faces have no single normal
    if "Box" in case["pair"]:
        i = case["pair"].index("Box")
        H = np.array(case["H"][i], float)
        p = np.linalg.inv(H).dot(np.array(case["H"][1 - i], float)[:, 3])[:3]
        e = np.array([abs(v) + 1 for v in case["v"][:3]], float)
        if (np.abs(p) <= e + 1e-9).all():
            g = np.sort(np.concatenate([e - p, e + p]))
            if g[0] < .5 or g[1] - g[0] < .5:
                ctx.skip("no single normal")
                return
    compare(shapes_world, case, ctx, 1e-8)


def factories_run(k, c):
    from arboris.core import World
    x = [abs(v) + 1 for v in c["v"]]
    w = World()
    which = c["which"]
    if which == "arm":
        from arboris.robots.simplearm import add_simplearm
        add_simplearm(w, lengths=k.seq(x[:3]), masses=k.seq(x[3:]), with_shapes=True)
    elif which == "snake":
        from arboris.robots.snake import add_snake
        add_snake(w, 3, lengths=k.seq(x[:3]), masses=k.seq(x[3:]), gpos=k.seq(c["v"][:3]), gvel=k.seq(c["v"][3:]), is_fixed=c["flag"])
    elif which == "human":
        from arboris.robots.human36 import add_human36
        add_human36(w, height=k.num(1 + x[0] % 2), mass=k.num(30 + x[1]))
    else:
        from arboris.robots import simpleshapes as ss
        if which == "sphere":
            ss.add_sphere(w, k.num(x[0]), k.num(x[1]), "s")
        elif which == "box":
            ss.add_box(w, k.seq(x[:3]), k.num(x[3]), "s")
        else:
            ss.add_cylinder(w, k.num(x[0]), k.num(x[1]), k.num(x[2]), "s")
    w.init()
    w.update_dynamic()
    out = [np.array(w.mass), np.array(w.gvel), np.array(w.nleffects)]
    for b in w.iterbodies():
        out += [np.array(b.mass), np.array(b.pose)]
    for fr in w.iterframes():
        out.append(np.array(fr.pose))
    for s in w.itershapes():
        out += [np.array(getattr(s, a), float) for a in ("half_extents", "radius", "length", "coeffs") if hasattr(s, a)]
    return out


@CHECK.facet(lambda: st.fixed_dictionaries({"kind": KIND, "frac": FRAC, "which": st.sampled_from(["arm", "snake", "human", "sphere", "box", "cylinder"]), "v": ivec(6, -4, 4), "flag": st.booleans()}), quick=300, shards=2, rule="a result is not zero")
def factories(case, ctx):
    """the robots and simple shapes"""
    ctx.label(case["which"])
    compare(factories_run, case, ctx, 1e-9)
