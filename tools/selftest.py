"""The reference model checked against finite differences of itself and energy
identities (no arboris involved).  Run by setup_cmd."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import env
env.setup()
import numpy as np
from vp import ref, gen
from hypothesis import given, settings, seed, HealthCheck


@seed(7)
@settings(max_examples=60, database=None, deadline=None, suppress_health_check=list(HealthCheck))
@given(gen.world(max_links=4))
def t(spec):
    m = ref.Model(spec)
    if not len(m.gvel):
        return
    P, J, dJ, T = m.kinematics()
    M, B, h, dM = m.dynamics()
    e = 1e-5
    vals = []
    for s in (-1, 1):
        k = ref.Model(spec)
        k.integrate(m.gvel, s * e)
        vals.append((k.kinematics(), k.dynamics()[0], k.potential()))
    for b in range(m.n + 1):
        X = (vals[1][0][0][b] - vals[0][0][0][b]) / (2 * e)
        V = ref.inv(P[b]).dot(X)
        assert np.abs(V - ref.hat6(T[b])).max() < 1e-6 * max(1., np.abs(T[b]).max() ** 2, np.abs(P[b]).max())
        X = (vals[1][0][1][b] - vals[0][0][1][b]) / (2 * e)
        assert np.abs(X - dJ[b]).max() < 1e-6 * max(1, np.abs(dJ[b]).max()) * 10
    X = (vals[1][1] - vals[0][1]) / (2 * e)
    assert np.abs(X - dM).max() < 1e-5 * max(1, np.abs(dM).max())
    # power: gvel.h = gvel.dM.gvel/2 for the inertial forces (energy identity)
    assert abs(m.gvel.dot(h) - 0.5 * m.gvel.dot(dM).dot(m.gvel)) < 1e-8 * max(1., abs(m.gvel.dot(h)))
    dE = (vals[1][2] - vals[0][2]) / (2 * e)
    assert abs(dE + m.gravity_force().dot(m.gvel)) < 1e-5 * max(1, abs(dE))


t()
print("reference model self-test passed")
