"""C24: energy monitor reports true energies; free motion does not create energy."""
import numpy as np
from hypothesis import strategies as st
from vp import gen, build, ref, sim
from vp.core import Check, close, require
from arboris.core import Observer, simulate
from arboris.controllers import WeightController

CHECK = Check("C24")
ASSUMPTIONS = ["worlds whose mass matrix is singular or becomes ill-conditioned during the motion are skipped",
               "the drift is judged on three step sizes h, h/4, h/16 over a fixed duration: it must shrink at least by half from the larger of the first two, or be negligible"]


def weld_light_leaves(spec):
    """light bodies at the end of a chain are welded, so that the mass matrix stays regular"""
    links = [dict(l) for l in spec["links"]]
    for i, l in enumerate(links):
        m = l["mass"]
        if (m is None or max(m["I"]) == 0.) and not any(c["parent"] == i + 1 for c in links):
            l.update(jt="FixedJoint", q=[], v=[])
    return dict(spec, links=links)


class Probe(Observer):
    """energies from the poses and twists of the bodies and the masses of the spec"""

    def __init__(self, b, spec):
        Observer.__init__(self, "probe")
        self.b, self.links = b, spec["links"]
        self.m = [ref.mass(l["mass"]) for l in self.links]
        self.c = [np.append(ref.com(l["mass"]), 1.) for l in self.links]
        self.visc = [np.array(l["visc"], float).reshape(6, 6) if l.get("visc") else None for l in self.links]

    def init(self, world, timeline):
        self.w = world
        self.t, self.ec, self.ep, self.loss, self.worst = [], [], [], [], 0.

    def update(self, dt):
        self.t.append(self.w.current_time)
        ec = ep = loss = 0.
        for i, x in enumerate(self.b.bodies[1:]):
            T, P = np.array(x.twist), np.array(x.pose)
            ec += T.dot(self.m[i]).dot(T) / 2
            ep += self.m[i][3, 3] * 9.81 * P.dot(self.c[i])[1]
            if self.visc[i] is not None:
                loss += T.dot(self.visc[i]).dot(T) * dt
        self.ec.append(ec)
        self.ep.append(ep)
        self.loss.append(loss)
        self.worst = max(self.worst, sim.spread(self.w.mass), np.abs(self.w.gvel).max())

    def finish(self):
        pass


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 5, mass_st=st.one_of(gen.mass(), gen.mass(), gen.mass(), gen.mass(zero=True, point=True)), with_visc=True, subframes=0, vmax=1.5).map(weld_light_leaves),
                                            "f": gen.vec(5, -5., 5.), "weight": st.booleans(), "dts": st.lists(st.sampled_from([1e-3, .01, .005]), min_size=1, max_size=6),
                                            "dts2": st.lists(st.sampled_from([1e-3, .01]), min_size=1, max_size=4), "t0": st.sampled_from([0., 2.]),
                                            "e": st.sampled_from([0, 0, 0, -2, -4, -6, 3])}),
             quick=1500, shards=4, rule="several bodies, at least two dofs, two steps, some centre of mass off its body's origin")
def values(case, ctx):
    from arboris.observers import EnergyMonitor
    spec = gen.rescale(case["w"], case["e"])      # from light insects to heavy machines
    unit = 10. ** case["e"]
    b = build.world(spec, init=False)
    w = b.world
    w.register(sim.force_controller([x * unit for x in case["f"]]))
    if case["weight"]:
        w.register(WeightController())
    w.init()
    w.update_dynamic()
    if w.ndof == 0 or sim.spread(w.mass) > 1e8:
        ctx.skip("singular")
    ms = [l["mass"] for l in spec["links"]]
    ctx.label("some massless" if None in ms else "all massive")
    ctx.nt(len(ms) > 1 and w.ndof > 1 and len(case["dts"]) > 1 and any(m and np.abs(ref.com(m)).max() > .01 for m in ms))
    mon, pr = EnergyMonitor(), Probe(b, spec)
    t = [case["t0"]]
    for d in case["dts"]:
        t.append(t[-1] + d)
    t2 = [t[-1]]
    for d in case["dts2"]:
        t2.append(t2[-1] + d)
    for run, tl in enumerate((t, t2)):
        sim.run(ctx, w, tl, [mon, pr])
        what = "simulation %d: " % run
        ec, ep = np.array(pr.ec), np.array(pr.ep)
        s = max(unit, np.abs(ec).max(), sum(m[3, 3] for m in pr.m) * 9.81)
        for k in ("time", "kinetic_energy", "potential_energy", "mechanichal_energy"):
            require(len(getattr(mon, k)) == len(tl) - 1, what + "%d values of %s for %d steps" % (len(getattr(mon, k)), k, len(tl) - 1))
        close(mon.time, pr.t, 1e-12, what + "time")
        close(mon.kinetic_energy, ec, 1e-9 * s, what + "kinetic energy", rel=False)
        close(mon.potential_energy, ep, 1e-9 * s, what + "potential energy", rel=False)
        close(mon.mechanichal_energy, ec + ep, 1e-9 * s, what + "mechanical energy", rel=False)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 4, mass_st=gen.mass(), with_visc=True, subframes=0, vmax=2.), "weight": st.booleans()}),
             quick=240, shards=8, rule="at least two dofs, and the energy changes form by more than a thousandth of its scale")
def drift(case, ctx):
    from arboris.observers import EnergyMonitor
    spec, T = case["w"], 0.2
    d, scale, exch = [], None, 0.
    for n in (16, 64, 256):
        b = build.world(spec, init=False)
        w = b.world
        if case["weight"]:
            w.register(WeightController())
        w.init()
        w.update_dynamic()
        if w.ndof == 0 or sim.spread(w.mass) > 1e3:
            ctx.skip("singular")
        mon, pr = EnergyMonitor(), Probe(b, spec)
        sim.run(ctx, w, [T * k / n for k in range(n + 1)], [mon, pr])
        if pr.worst > 1e4 or np.abs(w.gvel).max() > 30.:
            ctx.skip("ill-conditioned along the motion")
        # energy of the motion (gravity counts if the weight acts)
        E = np.array(mon.mechanichal_energy) if case["weight"] else np.array(mon.kinetic_energy)
        loss = sum(pr.loss[:-1])
        d.append(abs(E[-1] - E[0] + loss))
        scale = max(np.abs(mon.kinetic_energy).max(), 1e-3)
        exch = max(exch, np.abs(np.array(mon.kinetic_energy) - mon.kinetic_energy[0]).max(), loss)
        require(loss >= 0, "viscosity takes energy")
    ctx.nt(w.ndof > 1 and exch > 1e-3 * scale)
    ctx.label("weight" if case["weight"] else "no weight", "viscous" if loss > 0 else "inviscid")
    require(d[2] <= 0.5 * max(d[0], d[1]) or d[2] < 1e-5 * scale, "the energy balance does not close when the step is refined: errors %s (kinetic energy up to %s)" % (d, scale))


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 1, mass_st=gen.mass(), with_visc=True, subframes=0, vmax=.5), "f": gen.vec(5, -.5, .5), "weight": st.booleans(), "long": gen.long_steps()}), quick=16, shards=4,
             rule="more than two hundred steps")
def long(case, ctx):
    """simulations of hundreds of steps"""
    values({"w": case["w"], "f": case["f"], "weight": case["weight"], "dts": gen.steps_of(case["long"]), "dts2": [1e-3], "t0": 0., "e": 0}, ctx)
    ctx.nt(case["long"]["n"] > 200)


@CHECK.facet(lambda: st.fixed_dictionaries({"w": gen.world(1, 3, mass_st=gen.mass(), with_visc=True, subframes=0, vmax=1.5), "weight": st.booleans(), "dts": st.lists(st.sampled_from([1e-3, .01, .005]), min_size=1, max_size=6), "t0": st.sampled_from([0., 2.])}), quick=60, shards=2,
             rule="at least two steps")
def plots(case, ctx):
    """the figure shows the recorded energies against time, under their names"""
    import matplotlib
    matplotlib.use("Agg")
    import warnings
    from matplotlib import pyplot, colors
    from arboris.observers import EnergyMonitor
    b = build.world(case["w"], init=False)
    w = b.world
    if case["weight"]:
        w.register(WeightController())
    w.init()
    w.update_dynamic()
    if w.ndof == 0 or sim.spread(w.mass) > 1e6:
        ctx.skip("singular")
    ctx.nt(len(case["dts"]) > 1)
    mon = EnergyMonitor()
    sim.run(ctx, w, np.cumsum([case["t0"]] + case["dts"]), [mon])
    pyplot.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.plot()
        ax = pyplot.gcf().axes[-1]
        leg = ax.get_legend()
        require(leg is not None and len(ax.get_lines()) == 3, "a legend and three curves")
        names = [t.get_text() for t in leg.get_texts()]
        for n, key in (("kinetic", "kinetic_energy"), ("potential", "potential_energy"), ("mechanical", "mechanichal_energy")):
            hit = [h for t, h in zip(names, leg.get_lines()) if n in t.lower()]
            require(len(hit) == 1, "one entry of the legend for the %s energy: %s" % (n, names))
            same = [x for x in ax.get_lines() if colors.to_rgba(x.get_color()) == colors.to_rgba(hit[0].get_color()) and x.get_linestyle() == hit[0].get_linestyle()]
            require(len(same) == 1, "one curve for the %s energy" % n)
            close(np.array(same[0].get_xdata(), float), np.array(mon.time, float), 1e-12, "times of the %s curve" % n)
            close(np.array(same[0].get_ydata(), float), np.array(getattr(mon, key), float), 1e-12, "values of the %s curve" % n)
    finally:
        pyplot.close("all")
