"""C21: loggers save exactly what the simulation went through."""
import os
import pickle
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import Observer, Controller, simulate, MovingSubFrame
from arboris.constraints import JointLimits
from arboris.controllers import WeightController

CHECK = Check("C21")
ASSUMPTIONS = ["element names are distinct (names given twice are refused by the loggers, see C13)", "worlds whose mass matrix is singular are skipped"]


class Mover(Controller):
    """moves the moving subframes of the world while it runs"""

    def __init__(self, subs):
        Controller.__init__(self, "mover")
        self.subs = subs

    def init(self, world):
        self.n = world.ndof
        self.k = 0

    def update(self, dt):
        self.k += 1
        for f in self.subs:
            if isinstance(f, MovingSubFrame):
                f.bpose = np.dot(f.bpose, ref.trans(0.01 * self.k, 0., 0.).dot(ref.rot("x", 0.1)))
        return np.zeros(self.n), np.zeros((self.n, self.n))


class Probe(Observer):
    """an independent recorder, reading World, Joint and Body only"""

    def __init__(self, b):
        Observer.__init__(self, "probe")
        self.b = b

    def init(self, world, timeline):
        self.w = world
        self.rec = []

    def update(self, dt):
        w, b = self.w, self.b
        self.rec.append({
            "t": float(w.current_time), "gpos": [np.array(j.gpos, float) for j in b.joints], "gvel": [np.array(j.gvel, float) for j in b.joints],
            "model": {k: np.array(getattr(w, k), float) for k in ("gvel", "mass", "admittance", "nleffects", "gforce")},
            "bodies": [np.array(x.pose, float) for x in b.bodies], "joints": [np.array(j.pose, float) for j in b.joints],
            "f0": [np.eye(4) if f is None or not hasattr(f, "bpose") else np.array(f.bpose, float) for f in b.f0],
            "f1": [np.array(f.bpose, float) for f in b.f1],
            "sub": [np.array(f.pose, float) for f in b.subs], "bsub": [np.array(f.bpose, float) for f in b.subs]})

    def finish(self):
        pass


def make(case):
    b = build.world(case["w"], init=False, names=case["names"])
    w = b.world
    w.register(sim.force_controller(case["f"]))
    if case["weight"]:
        w.register(WeightController())
    w.register(Mover(b.subs))
    for i, l in enumerate(case["w"]["links"]):
        if l["jt"] in ("RxJoint", "RyJoint", "RzJoint") and case["limit"]:
            q = l["q"][0]
            w.register(JointLimits(b.joints[i], q - .01, q + .01, proximity=0.05, name="lim"))
            break
    w.init()
    w.update_dynamic()
    if w.ndof and sim.spread(w.mass) > 1e6:
        return None
    return b


def timeline(case):
    t = [case["t0"]]
    for d in case["dts"]:
        t.append(t[-1] + d)
    return {"list": t, "tuple": tuple(t), "array": np.array(t)}[case["tl"]]


def opts():
    return st.fixed_dictionaries({"save_transforms": st.sampled_from([True, True, False]), "save_state": st.sampled_from([True, True, False]),
                                  "save_model": st.sampled_from([True, True, False]), "flat": st.booleans()})


def cases(**kw):
    d = {"w": gen.world(1, 4, mass_st=gen.mass(), subframes=2, with_visc=True, vmax=1.), "names": st.booleans(), "f": gen.vec(5, -5., 5.), "weight": st.booleans(),
         "limit": st.booleans(), "t0": st.sampled_from([0., 0., 1.5]), "dts": st.lists(st.sampled_from([1e-3, .01, .005]), min_size=1, max_size=8), "tl": st.sampled_from(["list", "tuple", "array"])}
    d.update(kw)
    return st.fixed_dictionaries(d)


def load_h5(path, group):
    import h5py
    out = {}
    with h5py.File(path, "r") as f:
        g = f
        for x in group.split("/"):
            if x:
                g = g[x]
        for k in g:
            out[k] = np.array(g[k]) if not hasattr(g[k], "keys") else {n: np.array(g[k][n]) for n in g[k]}
    return out


def load_pickle(path):
    with open(path, "rb") as f:
        return pickle.load(f)


def expected(b, rec, o):
    """the documented content"""
    e = {"timeline": np.array([r["t"] for r in rec])}
    if o["save_state"]:
        e["gpositions"] = {j.name: np.array([r["gpos"][i] for r in rec]) for i, j in enumerate(b.joints)}
        e["gvelocities"] = {j.name: np.array([r["gvel"][i] for r in rec]) for i, j in enumerate(b.joints)}
    if o["save_model"]:
        e["model"] = {k: np.array([r["model"][k] for r in rec]) for k in rec[0]["model"]}
    if o["save_transforms"]:
        if o["flat"]:
            t = {x.name: np.array([r["bodies"][i] for r in rec]) for i, x in enumerate(b.bodies)}
        else:
            t = {j.frames[1].name: np.array([r["joints"][i] for r in rec]) for i, j in enumerate(b.joints)}
        for i, f in enumerate(b.subs):
            if isinstance(f, MovingSubFrame):
                t[f.name] = np.array([r["sub" if o["flat"] else "bsub"][i] for r in rec])
        e["transforms"] = t
    return e


def compare(got, exp, what):
    require(set(got) == set(exp), "%s: saved groups %s instead of %s" % (what, sorted(got), sorted(exp)))
    for k in exp:
        if isinstance(exp[k], dict):
            a, c = dict(got[k]), exp[k]
            require(set(a) == set(c), "%s: names in %s are %s instead of %s" % (what, k, sorted(a), sorted(c)))
            for n in c:
                x = np.array(a[n])
                require(x.shape == c[n].shape, "%s: %s/%s has shape %s instead of %s" % (what, k, n, x.shape, c[n].shape))
                require(np.array_equal(x, c[n]), "%s: %s/%s differs:\n%s\ninstead of\n%s" % (what, k, n, x, c[n]))
        else:
            x = np.array(got[k])
            require(x.shape == exp[k].shape and np.array_equal(x, exp[k]), "%s: %s is %s instead of %s" % (what, k, x, exp[k]))


def chained(b, case, got, n):
    """absolute poses of the bodies from the saved relative (joint) transforms"""
    out = [[np.eye(4)] * n]
    for i, l in enumerate(case["w"]["links"]):
        f0 = np.eye(4) if l["f0"] is None else ref.pose(l["f0"])
        f1 = np.eye(4) if l["f1"] is None else ref.pose(l["f1"])
        T = np.array(got["transforms"][b.joints[i].frames[1].name])
        out.append([out[l["parent"]][k].dot(f0).dot(T[k]).dot(ref.inv(f1)) for k in range(n)])
    return out


@CHECK.facet(lambda: cases(o=opts(), group=st.sampled_from(["/", "run", "a/b", "/a/b/"]), order=st.permutations([0, 1, 2]).map(list),
                           mode=st.sampled_from(["a", "w"]), proto=st.sampled_from([0, 2, 4])),
             quick=1200, shards=5, rule="the state or the model is saved for a world of at least two dofs over at least two steps")
def files(case, ctx):
    from arboris.observers import PickleLogger, Hdf5Logger
    d = ctx.scratch()
    b = make(case)
    if b is None:
        ctx.skip("singular")
    w = b.world
    o = case["o"]
    ctx.nt((o["save_state"] or o["save_model"]) and w.ndof > 1 and len(case["dts"]) > 1)
    ctx.label("flat" if o["flat"] else "chained", "named" if case["names"] else "unnamed", case["mode"])
    probe = Probe(b)
    pk = PickleLogger(os.path.join(d, "x.pkl"), protocol=case["proto"], **o)
    h5 = Hdf5Logger(os.path.join(d, "x.h5"), case["group"], case["mode"], **o)
    try:
        obs = [probe, pk, h5]
        sim.run(ctx, w, timeline(case), [obs[i] for i in case["order"]])
    except Exception:
        try:
            h5._file.close()
        except Exception:
            pass
        raise
    n = len(case["dts"])
    require(len(probe.rec) == n, "one record per step")
    exp = expected(b, probe.rec, o)
    gp = load_pickle(os.path.join(d, "x.pkl"))
    gh = load_h5(os.path.join(d, "x.h5"), case["group"])
    compare(gp, exp, "pickle")
    compare(gh, exp, "hdf5")
    # the logger is done with its file: it may be overwritten
    import h5py
    try:
        h5py.File(os.path.join(d, "x.h5"), "w").close()
    except OSError as e:
        try:
            h5._file.close()
        except Exception:
            pass
        require(False, "the hdf5 file is still open after the simulation: %s" % e)
    if o["save_transforms"] and not o["flat"]:
        for i, P in enumerate(chained(b, case, gp, n)):
            for k in range(n):
                close(P[k], probe.rec[k]["bodies"][i], 1e-9, "body %d: chained joint transforms against the body's pose" % i)
    # logging changes nothing
    c = make(case)
    simulate(c.world, timeline(case))
    for i, j in enumerate(b.joints):
        require(np.array_equal(j.gpos, c.joints[i].gpos) and np.array_equal(j.gvel, c.joints[i].gvel), "logging changed the motion of joint %d" % i)


@CHECK.facet(lambda: cases(o=opts(), o2=opts(), dts2=st.lists(st.sampled_from([1e-3, .01]), min_size=1, max_size=8), same=st.booleans(), h5=st.booleans()),
             quick=500, shards=3, rule="the two simulations have different lengths")
def reuse(case, ctx):
    """two simulations of one world, one after the other"""
    from arboris.observers import PickleLogger, Hdf5Logger
    d = ctx.scratch()
    b = make(case)
    if b is None:
        ctx.skip("singular")
    w = b.world
    tl = timeline(case)
    t2 = [tl[-1]]
    dts2 = case["dts"] if case["same"] and case["h5"] else case["dts2"]
    for x in dts2:
        t2.append(t2[-1] + x)
    ctx.nt(len(t2) != len(tl))
    ctx.label("hdf5" if case["h5"] else "pickle")
    pr, pr2 = Probe(b), Probe(b)
    path = os.path.join(d, "x")
    if not case["h5"]:
        # the same logger serves twice, and its file holds the last simulation
        lg = PickleLogger(path, **case["o"])
        sim.run(ctx, w, tl, [lg, pr])
        compare(load_pickle(path), expected(b, pr.rec, case["o"]), "first simulation")
        sim.run(ctx, w, t2, [lg, pr2])
        compare(load_pickle(path), expected(b, pr2.rec, case["o"]), "second simulation with the same logger")
    elif case["same"]:
        # into the same group of the same file: the data of the last one
        lg = Hdf5Logger(path, "g", **case["o"])
        sim.run(ctx, w, tl, [lg, pr])
        lg = Hdf5Logger(path, "g", **case["o"])
        sim.run(ctx, w, t2, [lg, pr2])
        compare(load_h5(path, "g"), expected(b, pr2.rec, case["o"]), "overwritten group")
    else:
        # into two groups of one file
        lg = Hdf5Logger(path, "g", **case["o"])
        sim.run(ctx, w, tl, [lg, pr])
        e1 = expected(b, pr.rec, case["o"])
        lg = Hdf5Logger(path, "h/i", **case["o2"])
        sim.run(ctx, w, t2, [lg, pr2])
        compare(load_h5(path, "g"), e1, "first group")
        compare(load_h5(path, "h/i"), expected(b, pr2.rec, case["o2"]), "second group")


POOL = [None, "a", "b", "c", "d", "ground"]


@CHECK.facet(lambda: cases(o=opts(), h5=st.booleans(), n=st.lists(st.sampled_from(POOL + [None] * 4), min_size=16, max_size=16)), quick=700, shards=3, rule="a name is given twice")
def names(case, ctx):
    """what is saved under a name is what has that name; an ambiguous name is refused"""
    from arboris.core import DuplicateNameError
    from arboris.observers import PickleLogger, Hdf5Logger
    d = ctx.scratch()
    b = make(case)
    if b is None:
        ctx.skip("singular")
    w, o = b.world, case["o"]
    names = list(case["n"])
    for j in b.joints:
        j.name = names.pop()
    for f in list(b.bodies[1:]) + [f for f in b.f1 if f not in b.bodies] + list(b.subs):
        f.name = names.pop() if names else None
    groups = []
    if o["save_state"]:
        groups.append(b.joints)
    if o["save_transforms"]:
        groups.append((list(b.bodies) if o["flat"] else list(b.f1)) + [f for f in b.subs if isinstance(f, MovingSubFrame)])
    twice = False
    for g in groups:
        named = [x.name for x in g if x.name is not None]
        twice = twice or len(named) != len(set(named))
    probe = Probe(b)
    path = os.path.join(d, "x")
    lg = Hdf5Logger(path, **o) if case["h5"] else PickleLogger(path, **o)
    ctx.nt(twice)
    try:
        sim.run(ctx, w, timeline(case), [probe, lg])
    except DuplicateNameError:
        ctx.label("refused")
        require(twice, "names refused, although none of them is given twice: %s" % [[x.name for x in g] for g in groups])
        return
    finally:
        if case["h5"]:
            try:
                lg._file.close()
            except Exception:
                pass
    require(not twice, "an ambiguous name is accepted: %s" % [[x.name for x in g] for g in groups])
    compare(load_h5(path, "/") if case["h5"] else load_pickle(path), expected(b, probe.rec, o), "names")


@CHECK.facet(lambda: st.tuples(cases(o=opts()), cases(), st.booleans(), st.booleans()), quick=250, shards=2, rule="the two worlds differ in their bodies")
def another_world(case, ctx):
    """a logger first used with a world, then with another one: nothing of the first world remains"""
    from arboris.observers import PickleLogger
    ca, cb, n1, n2 = case
    path = os.path.join(ctx.scratch(), "x")
    lg = PickleLogger(path, **ca["o"])
    for k, (c, nm) in enumerate(((ca, n1), (cb, n2))):
        c = dict(c, names=nm)
        b = make(c)
        if b is None:
            ctx.skip("singular")
        probe = Probe(b)
        sim.run(ctx, b.world, timeline(c), [lg, probe])
        compare(load_pickle(path), expected(b, probe.rec, ca["o"]), "world %d" % k)
    ctx.nt(len(ca["w"]["links"]) != len(cb["w"]["links"]) or n1 != n2)


@CHECK.facet(lambda: st.fixed_dictionaries({"c": cases(w=gen.world(1, 1, mass_st=gen.mass(), subframes=1, vmax=.5), o=opts(), group=st.just("/"), order=st.just([0, 1, 2]), mode=st.just("w"), proto=st.just(2)), "long": gen.long_steps()}), quick=16, shards=4,
             rule="more than two hundred steps")
def long(case, ctx):
    """simulations of hundreds of steps"""
    files(dict(case["c"], dts=gen.steps_of(case["long"])), ctx)
    ctx.nt(case["long"]["n"] > 200)
