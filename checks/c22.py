"""C22: recorders return the observed quantity at every step."""
import re
import time
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import Observer, simulate
from arboris.constraints import JointLimits, BallAndSocketConstraint, SoftFingerContact
from arboris.controllers import WeightController
from arboris.shapes import Sphere, Plane, Point

CHECK = Check("C22")
ASSUMPTIONS = ["worlds whose mass matrix is singular are skipped", "distances are recorded between spheres, points and planes (the solvers themselves are decided by C14)"]


class Probe(Observer):
    def __init__(self, read):
        Observer.__init__(self, "probe")
        self.read = read
        self.runs = []

    def init(self, world, timeline):
        self.runs.append([])

    def update(self, dt):
        self.runs[-1].append(self.read())

    def finish(self):
        pass


def shape_spec():
    return st.fixed_dictionaries({"k": st.sampled_from(["sphere", "sphere", "point", "plane"]), "on": st.integers(0, 9), "own": gen.opt_pose(), "r": gen.num(0.01, .5), "c": gen.pose(1.)})


def mk_shape(s, b):
    from arboris.core import SubFrame
    body = b.bodies[s["on"] % len(b.bodies)]
    f = body if s["own"] is None else SubFrame(body, ref.pose(s["own"]))
    H = np.eye(4) if s["own"] is None else ref.pose(s["own"])
    if s["k"] == "sphere":
        return Sphere(f, s["r"]), (body, H, s)
    if s["k"] == "point":
        return Point(f), (body, H, dict(s, r=0.))
    c = ref.pose(s["c"])
    n = c[:3, 2]
    return Plane(f, (n[0], n[1], n[2], s["r"])), (body, H, dict(s, n=n))


def dist(a, c):
    Pa, Pc = np.array(a[0].pose).dot(a[1]), np.array(c[0].pose).dot(c[1])
    if a[2]["k"] == "plane":
        # height of the centre over the plane n.x = d, in the plane's frame
        x = ref.inv(Pa).dot(Pc[:, 3])[:3]
        return a[2]["n"].dot(x) - a[2]["r"] - c[2]["r"]
    if c[2]["k"] == "plane":
        return dist(c, a)
    return np.linalg.norm(Pa[:3, 3] - Pc[:3, 3]) - a[2]["r"] - c[2]["r"]


def supported(a, c):
    ks = sorted([a["k"], c["k"]])
    return ks in (["sphere", "sphere"], ["point", "sphere"], ["plane", "sphere"], ["plane", "point"], ["point", "plane"])


def cases():
    return st.fixed_dictionaries({
        "w": gen.world(1, 4, mass_st=st.one_of(gen.mass(), gen.mass(), gen.mass(), gen.mass(point=True)), subframes=2, vmax=1.5), "f": gen.vec(5, -5., 5.), "weight": st.booleans(),
        "free": st.fixed_dictionaries({"q": gen.pose(1.), "v": gen.vec(6, -1., 1.), "mass": gen.mass(), "visc": st.none()}),
        "shapes": st.lists(shape_spec(), min_size=2, max_size=4), "sel": st.lists(st.integers(0, 3), min_size=1, max_size=4),
        "con": st.sampled_from(["none", "ball", "limit", "contact"]), "dts": st.lists(st.sampled_from([1e-3, .01, .005]), min_size=1, max_size=8),
        "dts2": st.lists(st.sampled_from([1e-3, .01]), min_size=1, max_size=5), "first": st.booleans(),
        "remass": st.lists(st.one_of(st.none(), gen.mass(light=True)), max_size=4)})


@CHECK.facet(cases, quick=1200, shards=5, rule="at least two dofs moving, two steps, and either a constraint or a distance is recorded")
def recorders(case, ctx):
    from arboris import observers as ob
    spec = case["w"]
    if case["con"] in ("ball", "contact"):
        spec = dict(spec, links=spec["links"] + [dict(case["free"], jt="FreeJoint", parent=0, f0=None, f1=None)])
    b = build.world(spec, init=False)
    w = b.world
    w.register(sim.force_controller(case["f"]))
    if case["weight"]:
        w.register(WeightController())
    con = None
    if case["con"] == "limit":
        for i, l in enumerate(spec["links"]):
            if l["jt"] in ("RxJoint", "RyJoint", "RzJoint", "TxJoint"):
                con = JointLimits(b.joints[i], l["q"][0] - .01, l["q"][0] + .01, proximity=.05, name="c")
                break
    elif case["con"] == "ball":
        con = BallAndSocketConstraint((w.ground, b.bodies[-1]), name="c")
    elif case["con"] == "contact":
        y = spec["links"][-1]["q"]["t"][1]
        con = SoftFingerContact((Plane(w.ground, (0., 1., 0., y - .2)), Sphere(b.bodies[-1], .2)), .5, proximity=.05, name="c")
    if con is not None:
        w.register(con)
        ctx.label(case["con"])
    shp = [mk_shape(s, b) for s in case["shapes"]]
    for s, _ in shp:
        w.register(s)
    w.init()
    w.update_dynamic()
    if w.ndof == 0 or sim.spread(w.mass) > 1e6:
        ctx.skip("singular")

    recs, read, exact = [], [], []

    def add(r, f, x=True):
        recs.append(r)
        read.append(f)
        exact.append(x)
    for j in b.joints:
        add(ob.RecordJointGpos(j), lambda j=j: np.array(j.gpos, float))
        add(ob.RecordJointGvel(j), lambda j=j: np.array(j.gvel, float))
    for fr in b.bodies + b.subs + [x for x in b.f1]:
        add(ob.RecordFramePose(fr), lambda fr=fr: np.array(fr.pose, float))
        add(ob.RecordFrameTwist(fr), lambda fr=fr: np.array(fr.twist, float))
    pairs = []
    for i in range(len(shp)):
        for k in range(len(shp)):
            if i != k and supported(shp[i][1][2], shp[k][1][2]):
                a, c = shp[i], shp[k]
                if dist(a[1], c[1]) + a[1][2]["r"] * (a[1][2]["k"] != "plane") + c[1][2]["r"] < 1e-2 and "plane" not in (a[1][2]["k"], c[1][2]["k"]):
                    continue        # concentric
                add(ob.RecordDistance(a[0], c[0]), lambda a=a, c=c: dist(a[1], c[1]), False)
                pairs.append((i, k))
    sel = sorted(set(x % len(b.joints) for x in case["sel"]))
    ms = np.array([spec["links"][i]["mass"]["m"] for i in sel])

    com_of = [np.append(ref.com(spec["links"][i]["mass"]), 1.) for i in sel]

    def com():
        p = [np.array(b.bodies[i + 1].pose).dot(com_of[k])[:3] for k, i in enumerate(sel)]
        return ms.dot(np.array(p)) / ms.sum()
    # bodies without mass do not count: the ground is one
    add(ob.RecordCoMPosition([b.bodies[i + 1] for i in sel] + [w.ground]), com, False)
    if con is not None:
        rc = ob.RecordConstForce(con)
        weigh = WeightController()
        weigh.init(w)

        def applied():
            """what the constraints add to the world's force in this step"""
            g = np.resize(np.array(case["f"], float), w.ndof) if len(case["f"]) else np.zeros(w.ndof)
            if case["weight"]:
                g = g + weigh.update(0.)[0]
            return np.array(w.gforce) - g, 1 + np.abs(g).max()
        add(rc, lambda: (np.array(con.jacobian, float), np.array(con.gforce, float), applied()), None)
    ctx.nt(w.ndof > 1 and len(case["dts"]) > 1 and (con is not None or pairs))
    probe = Probe(lambda: [f() for f in read])
    tl = [0.]
    for x in case["dts"]:
        tl.append(tl[-1] + x)
    t2 = [tl[-1]]
    for x in case["dts2"]:
        t2.append(t2[-1] + x)
    for run, t in enumerate((tl, t2)):
        if run:
            # other masses in the second simulation (a different load)
            for k, i in enumerate(sel):
                x = case["remass"][k] if k < len(case["remass"]) else None
                if x is not None:
                    b.bodies[i + 1].mass = ref.mass(x)
                    ms[k], com_of[k] = x["m"], np.append(ref.com(x), 1.)
                    ctx.label("masses changed")
            w.update_dynamic()
            if sim.spread(w.mass) > 1e6:
                ctx.skip("singular")
        sim.run(ctx, w, t, [probe] + recs if case["first"] else recs + [probe])
        got = probe.runs[run]
        for i, r in enumerate(recs):
            lst = r.get_record()
            what = "%s, simulation %d" % (type(r).__name__, run)
            require(isinstance(lst, list) and len(lst) == len(t) - 1, "%s: %s entries for %d steps" % (what, len(lst), len(t) - 1))
            for k in range(len(lst)):
                x = got[k][i]
                if exact[i] is None:
                    J, g, (fc, scale) = x
                    close(J.T.dot(np.array(lst[k], float)), g, 1e-9, what + " step %d: the recorded force" % k)
                    close(J.T.dot(np.array(lst[k], float)), fc, 1e-8 * (scale + np.abs(fc).max()), what + " step %d: the recorded force and the one applied" % k, rel=False)
                elif exact[i]:
                    require(np.array_equal(np.array(lst[k]), x), "%s step %d: %s instead of %s" % (what, k, lst[k], x))
                else:
                    close(np.array(lst[k], float), x, 1e-9, what + " step %d" % k)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 3, mass_st=gen.mass(), subframes=0), "n": gen.mix(st.integers(1, 12), st.integers(1, 12), st.sampled_from([60, 150])), "slow": st.integers(0, 149), "again": st.booleans()}), quick=200, shards=2,
             rule="at least three steps")
def performance(case, ctx):
    from arboris.observers import PerfMonitor
    b = build.world(case["w"])
    w = b.world
    w.update_dynamic()
    if w.ndof == 0 or sim.spread(w.mass) > 1e6:
        ctx.skip("singular")
    n = case["n"]
    ctx.nt(n > 2)
    pm = PerfMonitor()
    k = [-1]

    def slow():
        k[0] += 1
        if k[0] == case["slow"] % n:
            time.sleep(0.004)
    t0 = time.time()
    sim.run(ctx, w, [1e-3 * i for i in range(n + 1)], [Probe(slow), pm])
    wall = time.time() - t0
    s = pm.get_summary()
    v = [float(re.search(key + r" computation time \(s\): (\S+)", s).group(1)) for key in ("total", "min", "mean", "max")]
    tot, mn, mean, mx = v
    require(0 <= mn <= mean * (1 + 1e-9) and mean <= mx * (1 + 1e-9) and mx <= tot * (1 + 1e-9), "min <= mean <= max <= total: %s" % v)
    require(abs(tot / mean - n) < 1e-6 * n, "%s computation times for %d steps" % (tot / mean, n))
    require(tot <= wall + 1e-3, "the computation times add up to more than the time spent")
    require(mx >= 0.0035, "the longest step was not measured: %s" % v)
    if case["slow"] % 5 == 0:
        # the figure: one value per step, which add up to the total
        import matplotlib
        matplotlib.use("Agg")
        import warnings
        from matplotlib import pyplot
        ctx.label("plotted")
        pyplot.close("all")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pm.plot()
            lines = pyplot.gcf().axes[-1].get_lines()
            require(len(lines) == 1, "%d curves of computation time" % len(lines))
            y = np.array(lines[0].get_ydata(), float)
            require(len(y) == n and abs(y.sum() - tot) < 1e-6 * tot and abs(y.max() - mx) < 1e-6 * mx and abs(y.min() - mn) <= 1e-6 * mx, "the curve is not that of the computation times")
        finally:
            pyplot.close("all")
    if case["again"]:
        # the time between two simulations is no computation time
        ctx.label("used twice")
        time.sleep(0.03)
        t0 = time.time()
        sim.run(ctx, w, [1e-3 * i for i in range(n + 1)], [pm])
        wall += time.time() - t0
        s = pm.get_summary()
        tot = float(re.search(r"total computation time \(s\): (\S+)", s).group(1))
        require(tot <= wall + 1e-3, "computation times of %g s in two simulations of %g s" % (tot, wall))


@st.composite
def _long(draw):
    c = draw(cases())
    c["w"] = draw(gen.world(1, 1, mass_st=gen.mass(), subframes=1, vmax=.5))
    c["shapes"] = c["shapes"][:2]
    return {"c": c, "long": draw(gen.long_steps())}


@CHECK.facet(_long, quick=16, shards=4, rule="more than two hundred steps")
def long(case, ctx):
    """simulations of hundreds of steps"""
    recorders(dict(case["c"], dts=gen.steps_of(case["long"])), ctx)
    ctx.nt(case["long"]["n"] > 200)
