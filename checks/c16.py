"""C16: joint limits stop motion at the bound and never pull."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.constraints import JointLimits
from arboris.joints import FreeJoint, FixedJoint

CHECK = Check("C16")
ASSUMPTIONS = ["the mass matrix is invertible and the joint's admittance is well conditioned (spread of its eigenvalues below 1e3)"]
DTS = [1e-3, .005, .01, .05]


def limit():
    """bounds relative to the joint position, per dof: (below, above, proximity)"""
    side = st.one_of(st.just(0.), gen.num(0., 0.02), gen.num(0., 0.3), gen.num(-0.05, 0.), gen.num(1., 2.))
    return st.fixed_dictionaries({"j": st.integers(0, 5), "lo": st.lists(side, min_size=3, max_size=3), "hi": st.lists(side, min_size=3, max_size=3),
                                  "prox": gen.mix(st.none(), st.none(), gen.vec(3, 0., 0.5)), "scalar": st.booleans()})


@st.composite
def _case(draw, steps=1, nlim=1):
    spec = draw(gen.world(1, 4, types=gen.LINEAR + ["RzRyRxJoint", "TxTyTzJoint", "RzRyJoint"], mass_st=gen.mass(), subframes=0, vmax=3.))
    if draw(st.booleans()):
        # a free or fixed joint elsewhere in the tree
        k = draw(st.integers(0, len(spec["links"]) - 1))
        if len(spec["links"]) > 1:
            spec["links"][k].update(draw(gen.joint(["FreeJoint", "FixedJoint"])))
    return {"w": spec, "lim": draw(st.lists(limit(), min_size=1, max_size=nlim)), "f": draw(gen.vec(7, -30., 30.)),
            "dt": draw(st.sampled_from(DTS)), "steps": draw(st.integers(1, steps)) if steps > 1 else 1}


def setup(case, ctx, on=True):
    b = build.world(case["w"], init=False)
    w = b.world
    lims = []
    for k, l in enumerate(case["lim"]):
        i = l["j"] % len(b.joints)
        jt = case["w"]["links"][i]["jt"]
        if jt in ("FreeJoint", "FixedJoint") or any(x["i"] == i for x in lims):
            continue
        n = ref.NDOF[jt]
        q = np.array(case["w"]["links"][i]["q"], float)
        lo = q - np.array(l["lo"][:n])
        hi = q + np.array(l["hi"][:n])
        hi = np.maximum(lo, hi)
        prox = None if l["prox"] is None else np.array(l["prox"][:n])
        args = (float(lo[0]), float(hi[0])) if n == 1 and l["scalar"] else (lo.tolist(), hi.tolist()) if k % 2 else (lo, hi)
        kw = {} if prox is None else {"proximity": prox.tolist()}
        c = JointLimits(b.joints[i], args[0], args[1], name="lim%d" % k, **kw)
        lims.append(dict(i=i, c=c, lo=lo, hi=hi, prox=prox if prox is not None else np.ones(n) * 0.01, j=b.joints[i]))
        if on:
            w.register(c)
    if not lims:
        ctx.skip("no joint to limit")
    w.register(sim.force_controller(case["f"]))
    w.init()
    return b, lims


@CHECK.facet(_case, quick=2500, shards=4, rule="the limit applies a force")
def single(case, ctx):
    """one limit, one step: the exact complementarity conditions"""
    b, lims = setup(case, ctx)
    w = b.world
    L = lims[0]
    q0 = np.array(L["j"].gpos)
    dt = case["dt"]
    dof = L["j"].dof
    s = sim.step(w, dt)
    if np.linalg.cond(s.Y) > 1e8:
        ctx.skip("singular")
    Yj = s.Y[dof, dof]
    kappa = sim.spread(Yj)
    if kappa > 1e3:
        ctx.skip("ill-conditioned joint")
    f = s.fc[dof]
    other = s.fc.copy()
    other[dof] = 0.
    close(other, np.zeros(len(other)), 1e-9 * (1 + abs(f).max()), "force on the dofs of other joints", rel=False)
    q1 = np.array(L["j"].gpos)
    n = len(f)
    close(q1, q0 + dt * s.v1[dof], 1e-9, "integration")
    active = bool(((q0 - L["lo"] < L["prox"]) | (L["hi"] - q0 < L["prox"])).any())
    edge = np.abs(np.concatenate([q0 - L["lo"] - L["prox"], L["hi"] - q0 - L["prox"]])).min() < 1e-9
    if edge:
        ctx.skip("exactly at the proximity")
    ctx.label("active" if active else "inactive", "%d dofs" % n)
    if not active:
        close(f, np.zeros(n), 0., "force of an inactive limit")
        close(L["c"].gforce, np.zeros(len(s.fc)), 0., "force reported by an inactive limit")
        return
    check_lcp(ctx, L, q0, q1, f, s, dt, kappa, n, n == 1)
    # the constraint reports that force
    close(L["c"].gforce[dof], f, 1e-9 * (1 + abs(f).max()), "gforce of the constraint")


def check_lcp(ctx, L, q0, q1, f, s, dt, kappa, n, exact):
    lo, hi = L["lo"], L["hi"]
    Yj = s.Y[L["j"].dof, L["j"].dof]
    vs = 1 + np.abs(s.v1).max() + np.abs(s.vfree).max()
    # the solver stops when the constraint velocities change by less than 1e-4
    tol = 1e-9 * vs if exact else dt * 3e-4 * kappa + 1e-9 * vs
    scale = 1 + abs(f).max()
    for k in range(n):
        what = "coordinate %d of %d: %.9g -> %.9g, bounds [%.9g, %.9g], force %.6g" % (k, n, q0[k], q1[k], lo[k], hi[k], f[k])
        if lo[k] <= q0[k] <= hi[k]:
            require(q1[k] >= lo[k] - tol and q1[k] <= hi[k] + tol, "left its bounds; " + what)
        inside = q1[k] > lo[k] + tol and q1[k] < hi[k] - tol
        ftol = 1e-9 * scale if exact else (tol / dt) / Yj[k, k] + 1e-9 * scale
        if inside:
            require(abs(f[k]) <= ftol, "a force inside the bounds; " + what)
        elif q1[k] < hi[k] - tol:
            require(f[k] >= -ftol, "pulls towards the minimum; " + what)
        elif q1[k] > lo[k] + tol:
            require(f[k] <= ftol, "pulls towards the maximum; " + what)
        if abs(f[k]) > 1e-6 * scale:
            ctx.nt()
            ctx.label("at min" if f[k] > 0 else "at max")
        # also when it started outside: it is not pushed further out
        if q0[k] < lo[k]:
            require(q1[k] >= lo[k] - tol, "started below the minimum and stays below; " + what)
        if q0[k] > hi[k]:
            require(q1[k] <= hi[k] + tol, "started above the maximum and stays above; " + what)


@CHECK.facet(lambda: _case(steps=8, nlim=3), quick=900, shards=4, rule="some limit applies a force at some step")
def history(case, ctx):
    """several limits, several steps"""
    b, lims = setup(case, ctx)
    w = b.world
    dt = case["dt"]
    dofs = np.zeros(w.ndof, bool)
    for L in lims:
        dofs[L["j"].dof] = True
    for k in range(case["steps"]):
        q0 = [np.array(L["j"].gpos) for L in lims]
        if np.abs(w.gvel).max() > 50.:
            ctx.label("fast: stopped")
            return
        s = sim.step(w, dt)
        Y = s.Y[np.ix_(dofs, dofs)]
        kappa = sim.spread(Y)
        if kappa > 200 or np.linalg.cond(s.Y) > 1e8:
            ctx.label("ill-conditioned: stopped")
            return
        require(np.abs(s.fc[~dofs]).max(initial=0.) <= 1e-9 * (1 + np.abs(s.fc).max()), "force on the dofs of other joints")
        close(s.v1, s.vpred, 1e-9 * np.linalg.cond(s.Y) ** .5, "velocity after the step")
        for L, q in zip(lims, q0):
            act = (q - L["lo"] < L["prox"]).any() or (L["hi"] - q < L["prox"]).any()
            f = s.fc[L["j"].dof]
            q1 = np.array(L["j"].gpos)
            if np.abs(np.concatenate([q - L["lo"] - L["prox"], L["hi"] - q - L["prox"]])).min() < 1e-9:
                continue
            if act:
                check_lcp(ctx, L, q, q1, f, s, dt, kappa * len(dofs), len(f), False)
            else:
                close(f, np.zeros(len(f)), 0., "force of an inactive limit")
            # each limit reports the force it applies in this step, also when it does not apply any after having done so
            close(L["c"].gforce[L["j"].dof], f, 1e-9 * (1 + np.abs(s.fc).max() + np.abs(s.g0).max()), "force reported by a limit", rel=False)
    ctx.label("%d steps" % case["steps"])


@CHECK.facet(lambda: _case(), quick=300, shards=1, rule="always")
def far(case, ctx):
    """a limit whose bounds are far changes nothing at all"""
    for l in case["lim"]:
        l["lo"] = [x + 50. for x in l["lo"]]
        l["hi"] = [x + 50. for x in l["hi"]]
        l["prox"] = None
    b, _ = setup(case, ctx)
    c, _ = setup(case, ctx, on=False)
    s, t = sim.step(b.world, case["dt"]), sim.step(c.world, case["dt"])
    ctx.nt()
    close(s.v1, t.v1, 1e-12, "velocity with and without the limit")
    close(s.fc, np.zeros(len(s.fc)), 0., "force")


@CHECK.facet(lambda: st.fixed_dictionaries({"free": st.booleans(), "n": st.integers(1, 6)}), quick=20, shards=1, rule="always")
def refused(case, ctx):
    ctx.nt()
    j = FreeJoint() if case["free"] else FixedJoint()
    try:
        JointLimits(j, [0.] * case["n"], [1.] * case["n"])
    except ValueError:
        return
    require(False, "limits on %s were accepted" % type(j).__name__)
