"""C18: soft-finger contacts obey Signorini's condition and Coulomb's elliptic law."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import World, Body, SubFrame
from arboris.constraints import SoftFingerContact
from arboris.joints import FreeJoint
from arboris.shapes import Sphere, Point, Plane, Box
from arboris.collisions import choose_solver

CHECK = Check("C18")
ASSUMPTIONS = ["the contact admittance is positive definite and its eigenvalues spread over less than 1e5",
               "a pressing contact presses at more than 1e-3 of its sliding speed (or exactly not at all)",
               "the friction ellipsoid is the default one (a ball)"]
MU = st.one_of(st.sampled_from([0., 0.1, 0.5, 1., 3.]), gen.num(0.01, 2.))


def law(ctx, f, v, gap, dt, mu, vfree, kappa, what):
    """f, v: contact force and velocity at the end (torsion, x, y, normal); vfree: velocity without this contact's force"""
    fs = np.abs(f).max()
    vs = np.abs(v).max() + np.abs(vfree).max() + abs(gap) / dt + 1e-9
    vt = 1e-7 * vs * kappa ** .5
    ft = 1e-6 * fs * kappa ** .25 + 1e-12
    info = "%s: f=%s v=%s gap/dt=%.6g mu=%g free=%s" % (what, f.tolist(), v.tolist(), gap / dt, mu, vfree.tolist())
    open_ = gap / dt + vfree[3]
    if open_ > vt:
        ctx.label("open")
        require(fs == 0., "a force while the predicted gap stays open; " + info)
        return
    if open_ > -vt:
        ctx.label("grazing")
        return
    n, t = f[3], np.linalg.norm(f[:3])
    ctx.nt(fs > 1e-6)
    require(n >= -ft, "the contact pulls; " + info)
    require(abs(v[3] + gap / dt) <= vt, "the normal velocity does not close the gap; " + info)
    require(t <= mu * n + ft, "the friction force is outside the cone; " + info)
    slide = np.linalg.norm(v[:3])
    if t < mu * n - 10 * ft:
        ctx.label("sticking")
        require(slide <= vt * 10, "slides inside the cone; " + info)
    elif slide > 100 * vt and mu > 0 and fs > 0:
        ctx.label("sliding")
        require(abs(t - mu * n) <= 10 * ft, "slides inside the cone; " + info)
        if t > 1e-5 * fs:
            c = -f[:3].dot(v[:3]) / (t * slide)
            require(c >= 1 - 1e-4, "the friction force does not oppose the sliding velocity (cosine %g); %s" % (-c, info))
    elif mu == 0.:
        ctx.label("frictionless")


@st.composite
def _solver_case(draw):
    L = draw(st.lists(gen.num(-1.5, 1.5), min_size=10, max_size=10))
    return {"L": L, "diag": draw(st.lists(gen.num(0.2, 3.), min_size=4, max_size=4)), "coupled": draw(st.booleans()),
            "vel": draw(st.lists(gen.num(-5., 5.), min_size=4, max_size=4)), "vscale": draw(st.sampled_from([1., 1e-3, 10.])),
            "gap": draw(st.sampled_from([0., 0., 0.01, -0.01, 1e-3, -1e-4])), "dt": draw(st.sampled_from([1e-3, .01, .05])),
            "mu": draw(MU), "n": draw(st.integers(2, 5)), "skew": draw(st.sampled_from([0., 0., .05, .3])), "jump": draw(st.lists(gen.num(-2., 2.), min_size=4, max_size=4))}


@CHECK.facet(_solver_case, quick=6000, shards=4, rule="the contact presses")
def solver(case, ctx):
    """the contact's own solver, for any positive definite admittance, called as the world calls it"""
    w = World()
    b0, b1 = Body("b0"), Body("b1")
    H = np.eye(4)
    H[:3, 3] = [0., 0., 2. + case["gap"]]
    w.add_link(w.ground, FreeJoint(), b0)
    w.add_link(w.ground, FreeJoint(gpos=H), b1)
    mu, dt = case["mu"], case["dt"]
    c = SoftFingerContact((Sphere(b0, 1.), Sphere(b1, 1.)), mu, proximity=10.)
    w.register(c)
    w.init()
    w.update_dynamic()
    c.update(dt)
    gap = np.linalg.norm(b1.pose[:3, 3] - b0.pose[:3, 3]) - 2.
    A = np.diag(case["diag"])
    if case["coupled"]:
        A[np.tril_indices(4)] += case["L"]
    Y = A.dot(A.T)
    kappa = sim.spread(Y)
    if kappa > 1e5:
        ctx.skip("ill-conditioned")
    if case["skew"]:
        # the nonlinear effects make admittances asymmetric
        K = np.zeros((4, 4))
        K[np.triu_indices(4, 1)] = case["L"][:6]
        Y = Y + case["skew"] * np.linalg.eigvalsh(Y)[0] * (K - K.T)
    require(c.is_active(), "active within the proximity")
    v0 = np.array(case["vel"]) * case["vscale"]

    def vfree_ok(x):
        o = x[3] + gap / dt
        return o > 0 or o < -1e-3 * np.abs(x).max()
    f = np.zeros(4)
    vel = v0.copy()
    free = v0.copy()
    for k in range(case["n"]):
        if k == 2:
            # another constraint changes the velocity in the middle of the iterations
            vel = vel + np.array(case["jump"]) * case["vscale"]
            free = free + np.array(case["jump"]) * case["vscale"]
        if not vfree_ok(free):
            ctx.skip("grazing")
        Yc, vc = Y.copy(), vel.copy()
        df = np.array(c.solve(vel.copy(), Yc, dt))
        close(Yc, Y, 0., "the solver modified the admittance")
        f = f + df
        vel = vel + Y.dot(df)
        close(vel, free + Y.dot(f), 1e-9 * kappa * (1 + np.abs(vel).max()), "bookkeeping", rel=False)
        law(ctx, f * (np.abs(f) > 1e-14 * (1 + np.abs(free).max() * kappa)), vel, gap, dt, mu, free, kappa, "iteration %d" % k)
    close(c.gforce, c.jacobian.T.dot(f), 1e-9 * (1 + np.abs(f).max()) * kappa ** .5, "the force kept by the contact is the sum of its increments", rel=False)


def contact_frame(shapes, solver):
    """(gap, jacobian of (torsion, tangent, normal) relative velocity), from the geometry and the bodies' jacobians"""
    d, H0, H1 = solver(shapes)
    b0, b1 = shapes[0].frame.body, shapes[1].frame.body
    J0 = ref.Ad(ref.inv(H0).dot(b0.pose)).dot(b0.jacobian)
    J1 = ref.Ad(ref.inv(H0).dot(b1.pose)).dot(b1.jacobian)
    # both expressed at the first contact frame
    return float(d), (J1 - J0)[2:6]


@st.composite
def _world_case(draw, ncontacts=1, steps=1):
    kind = draw(st.sampled_from(["plane", "plane", "box", "sphere", "point", "boxpoint"]))
    spec = draw(gen.world(1, 3, types=["FreeJoint"] * 4 + ["RzRyRxJoint", "TxTyTzJoint", "RzRyJoint"], mass_st=gen.mass(), subframes=0, vmax=3.))
    if draw(st.booleans()):
        spec["links"][0]["jt"] = "FreeJoint"
        spec["links"][0].update(draw(gen.joint(["FreeJoint"], 3.)))
    if draw(st.booleans()):
        for l in spec["links"]:
            l["v"] = [0.] * len(l["v"])
    return {"w": spec, "kind": kind, "b1": draw(st.integers(1, 3)), "b0": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "rad": draw(st.sampled_from([0.05, 0.3, 1.])), "p1": draw(st.one_of(st.none(), gen.pose(0.5))),
            "gap": draw(st.one_of(st.just(0.), gen.num(-0.02, 0.), gen.num(-0.02, 0.02), gen.num(0., 0.1))), "dir": draw(st.one_of(gen.vec(3, -1., 1.), st.lists(gen.num(0.2, 1.), min_size=3, max_size=3))), "tw": draw(gen.vec(3, -3., 3.)),
            "mu": draw(MU), "f": draw(gen.vec(7, -20., 20.)), "dt": draw(st.sampled_from([1e-3, .005, .02])), "steps": draw(st.integers(1, steps)),
            "swap": draw(st.booleans()), "prox": draw(st.sampled_from([None, None, 0.1, 0.001])), "n": ncontacts}


def shapes_for(case, b, P, ctx, side=1.):
    """a moving shape, and a first shape placed at the given gap from it"""
    i1 = 1 + (case["b1"] - 1) % len(case["w"]["links"])
    i0 = case["b0"] if case["b0"] < i1 else 0
    body1, body0 = b.bodies[i1], b.bodies[i0]
    p1 = np.eye(4) if case["p1"] is None else ref.pose(case["p1"])
    f1 = SubFrame(body1, p1, "shape1")
    Pg1 = P[i1].dot(p1)
    r = 0. if "point" in case["kind"] else case["rad"]
    k = case["kind"]
    nvec = np.array(case["dir"])
    if np.linalg.norm(nvec) < 0.1:
        ctx.skip("no direction")
    R = ref.pose({"r": case["tw"], "t": [0., 0., 0.]})
    inv0 = ref.inv(P[i0])
    if k in ("box", "boxpoint"):
        h = np.array([0.5, 0.3, 0.8])
        ax = int(np.argmax(np.abs(nvec)))
        n = R[:3, ax] * np.sign(nvec[ax])
        # gap along a face normal, with the centre over the face
        off = np.zeros(3)
        for a in range(3):
            if a != ax:
                off[a] = 0.4 * nvec[a] * h[a]
        c = Pg1[:3, 3] - n * (h[ax] + r + case["gap"]) + R[:3, :3].dot(off)
        Hb = R.copy()
        Hb[:3, 3] = c
        s0 = Box(SubFrame(body0, inv0.dot(Hb), "shape0"), tuple(h), "s0")
        if abs(case["gap"] + r) < 2e-3:
            ctx.skip("centre on the surface of the box")
    elif k == "sphere":
        n = nvec / np.linalg.norm(nvec)
        r0 = 0.4
        H0 = R.copy()
        H0[:3, 3] = Pg1[:3, 3] - n * (r0 + r + case["gap"])
        s0 = Sphere(SubFrame(body0, inv0.dot(H0), "shape0"), r0, "s0")
    else:
        n = nvec / np.linalg.norm(nvec)
        H0 = R.copy()
        H0[:3, 3] = Pg1[:3, 3] + R[:3, 0]
        nl = R[:3, :3].T.dot(n)
        # n . p = d in the plane's frame, at the point below the moving shape
        d = nl.dot(ref.inv(H0).dot(Pg1)[:3, 3]) - r - case["gap"]
        s0 = Plane(SubFrame(body0, inv0.dot(H0), "shape0"), tuple(nl) + (d,), "s0")
    s1 = Point(f1, "s1") if "point" in k else Sphere(f1, r, "s1")
    return s0, s1


@CHECK.facet(lambda: _world_case(steps=4), quick=2000, shards=5, rule="the contact presses")
def single(case, ctx):
    """one contact between two bodies of a generated world"""
    b = build.world(case["w"], init=False)
    w = b.world
    P = ref.Model(case["w"]).kinematics()[0]
    s0, s1 = shapes_for(case, b, P, ctx)
    kw = {} if case["prox"] is None else {"proximity": case["prox"]}
    c = SoftFingerContact((s1, s0) if case["swap"] else (s0, s1), case["mu"], name="c", **kw)
    shapes, solver = choose_solver(s1, s0) if case["swap"] else choose_solver(s0, s1)
    w.register(s0)
    w.register(s1)
    w.register(c)
    w.register(sim.force_controller(case["f"]))
    w.init()
    dt = case["dt"]
    prox = 0.02 if case["prox"] is None else case["prox"]
    for k in range(case["steps"]):
        rec = {}

        def look(s):
            rec["gap"], rec["J"] = contact_frame(shapes, solver)
            rec["Y"] = rec["J"].dot(s.Y).dot(rec["J"].T)
            rec["kappa"] = sim.spread(rec["Y"])
            if rec["kappa"] > 1e4 or np.linalg.cond(s.Y) > 1e6 or np.diag(rec["Y"]).min() < 1e-6:
                ctx.skip("the contact is fighting a joint")
        s = sim.step(w, dt, before_constraints=look)
        J, gap, Y, kappa = rec["J"], rec["gap"], rec["Y"], rec["kappa"]
        vcur = J.dot(s.v0)
        pred = gap + dt * vcur[3]
        if abs(pred - prox) < 1e-9:
            return
        if len(s.v0) and np.isfinite(pred):
            require(c.is_active() == (pred < prox), "step %d: is_active() is %s, predicted gap %g, proximity %g" % (k, c.is_active(), pred, prox))
        if pred > prox:
            ctx.label("far")
            close(s.fc, np.zeros(len(s.fc)), 0., "force of a contact farther than its proximity")
        else:
            f, res, rk, sv = np.linalg.lstsq(J.T, s.fc, rcond=None)
            fs = np.abs(f).max()
            close(J.T.dot(f), s.fc, 1e-8 * kappa ** .5 * (1e-3 + np.abs(s.fc).max()), "the generalized force is that of a contact force", rel=False)
            vfree = J.dot(s.vfree)
            o = vfree[3] + gap / dt
            v1 = J.dot(s.v1)
            close(s.v1, s.vpred, 1e-9 * (1 + np.abs(s.v1).max()) * np.linalg.cond(s.Y) ** .5, "velocity after the step", rel=False)
            if o > 1e-9 or o < -1e-3 * np.abs(vfree).max():
                f[np.abs(f) < 1e-11] = 0.
                law(ctx, f, v1, gap, dt, case["mu"], vfree, kappa, "step %d" % k)
        if np.abs(w.gvel).max() > 50:
            return


def counting(cons):
    """count the calls to each contact's solve method, to see whether the solver converged, and keep the last change of each force"""
    calls, last = {}, {}

    def wrap(c):
        inner = c.solve

        def solve(*a, **k):
            calls[id(c)] = calls.get(id(c), 0) + 1
            out = inner(*a, **k)
            last[id(c)] = np.array(out, dtype=float)
            return out
        c.solve = solve
    for c in cons:
        wrap(c)
    return calls, last


@st.composite
def _multi_case(draw):
    free = gen.joint(["FreeJoint"], 2.)
    spec = draw(gen.world(1, 2, types=["FreeJoint"], mass_st=gen.mass(), subframes=0, frames=False))
    for l in spec["links"]:
        l["parent"] = 0
    pts = draw(st.lists(st.fixed_dictionaries({"b": st.integers(1, 2), "p": gen.vec(2, -0.5, 0.5), "g": st.one_of(st.just(0.), gen.num(-0.01, 0.02)), "r": st.sampled_from([0., 0.05, 0.2])}), min_size=2, max_size=4))
    return {"w": spec, "pts": pts, "r": draw(st.lists(gen.mild_angle(), min_size=3, max_size=3)), "h": draw(gen.num(0., 0.5)), "mu": draw(MU), "press": draw(gen.num(0., 4.)),
            "f": draw(gen.vec(7, -5., 5.)), "dt": draw(st.sampled_from([1e-3, .005, .02])), "steps": draw(st.integers(1, 6)), "perm": draw(st.booleans())}


@CHECK.facet(_multi_case, quick=700, shards=4, rule="at least two contacts press at once")
def multi(case, ctx):
    """several contacts at once: every contact keeps to its cone and never pulls; the velocities hold to the solver's threshold"""
    R = ref.pose({"r": case["r"], "t": [0., 0., 0.]})[:3, :3]
    n = R[:, 2]
    b = build.world(case["w"], init=False)
    w = b.world
    P = ref.Model(case["w"]).kinematics()[0]
    level = [-n.dot(P[i + 1][:3, 3]) for i in range(len(case["w"]["links"]))]
    d = -level[0] - case["h"]                # the plane is n . p = d, at h below the first body
    spheres = []
    for k, p in enumerate(case["pts"]):
        i = 1 + (p["b"] - 1) % len(case["w"]["links"])
        H = np.eye(4)
        o = P[i][:3, 3]
        c = o + R[:, 0] * p["p"][0] + R[:, 1] * p["p"][1]
        c = c + n * (d + p["g"] + p["r"] - n.dot(c))
        H[:3, 3] = P[i][:3, :3].T.dot(c - o)
        f = SubFrame(b.bodies[i], H, "pf%d" % k)
        spheres.append(Sphere(f, p["r"], "sp%d" % k) if p["r"] else Point(f, "sp%d" % k))
    plane = Plane(w.ground, tuple(n) + (d,), "plane")
    cons = []
    for k, s in enumerate(spheres):
        cons.append((SoftFingerContact((plane, s), case["mu"], proximity=0.2, name="c%d" % k), choose_solver(plane, s)))
    for c, _ in (cons[::-1] if case["perm"] else cons):
        w.register(c)
    w.register(sim.force_controller(case["f"]))
    w.init()
    dt = case["dt"]
    # something pressing the bodies onto the plane
    for j, l in zip(b.joints, case["w"]["links"]):
        R = j.gpos[:3, :3]
        j.gvel[3:6] -= R.T.dot(n) * case["press"]
    calls, last = counting([c for c, _ in cons])
    for k in range(case["steps"]):
        rec = {}
        calls.clear()
        last.clear()

        def look(s):
            # the last sweep moved forces and yet no velocity: redundant contacts share the load in a way that the
            # velocities (which end the iterations) do not show, so that single forces are not settled
            dv = [np.array(c.jacobian).T.dot(last[id(c)]) for c, _ in cons if id(c) in last]
            rec["idle"] = False
            if len(dv) >= 2:
                top = max(np.abs(s.Y.dot(d)).max() for d in dv)
                rec["idle"] = top > 1e-7 and np.abs(s.Y.dot(sum(dv))).max() <= 1e-3 * top
            rec["J"] = [contact_frame(*x) for _, x in cons]
            rec["f"] = [(c.is_active(), np.array(c.gforce)) for c, _ in cons]
        s = sim.step(w, dt, look, maxiters=400, tol=1e-9)
        converged = not calls or max(calls.values()) < 400
        if not converged:
            ctx.label("not converged")
        if rec["idle"]:
            ctx.label("forces still moving at still velocities")
            converged = False
        if np.abs(w.gvel).max() > 50 or np.linalg.cond(s.Y) > 1e6:
            return
        tot = np.zeros(len(s.fc))
        pressing = 0
        for (gap, J), (act, g) in zip(rec["J"], rec["f"]):
            if not act:
                close(g, np.zeros(len(g)), 0., "force reported by an inactive contact")
                continue
            tot += g
            Y = J.dot(s.Y).dot(J.T)
            kappa = sim.spread(Y)
            if kappa > 1e5:
                ctx.label("ill-conditioned: stopped")
                return
            f = np.linalg.lstsq(J.T, g, rcond=None)[0]
            fs = np.abs(f).max()
            v = J.dot(s.v1)
            info = "step %d: f=%s v=%s gap/dt=%.6g mu=%g" % (k, f.tolist(), v.tolist(), gap / dt, case["mu"])
            ft = 1e-6 * fs * kappa ** .5 + 1e-9
            require(f[3] >= -ft, "the contact pulls; " + info)
            require(np.linalg.norm(f[:3]) <= case["mu"] * f[3] + ft, "the friction force is outside the cone; " + info)
            tol = 1e-4 * (1 + np.abs(s.vfree).max() + abs(gap) / dt)
            if converged:
                require(v[3] + gap / dt >= -tol, "penetrates; " + info)
                if f[3] > 1e-4 * (1 + fs):
                    pressing += 1
                    require(v[3] + gap / dt <= tol, "presses while leaving; " + info)
        close(tot, s.fc, 1e-9 * (1 + np.abs(s.fc).max()), "sum of the contact forces", rel=False)
        if pressing >= 2:
            ctx.nt()
            ctx.label("%d pressing" % pressing)
