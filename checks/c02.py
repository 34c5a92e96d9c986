"""C02: adjoint matrices represent the group action on twists."""
import numpy as np
from hypothesis import strategies as st
from vp import ref, gen
from vp.core import Check, close, require
import arboris.homogeneousmatrix as Hg
import arboris.adjointmatrix as Am
import arboris.twistvector as Tv

CHECK = Check("C02")


def _unhat6(X):
    return np.array([X[2, 1], X[0, 2], X[1, 0], X[0, 3], X[1, 3], X[2, 3]])


@CHECK.facet(lambda: st.fixed_dictionaries({"A": gen.pose(10.), "B": gen.pose(10.), "T": gen.vec(6, -5, 5), "U": gen.vec(6, -5, 5)}),
             quick=3000, shards=3, rule="A has a rotation and a translation, and the twist a rotation")
def action(case, ctx):
    A, B = ref.pose(case["A"]), ref.pose(case["B"])
    T, U = np.array(case["T"]), np.array(case["U"])
    ctx.nt(abs(A[:3, :3] - np.eye(3)).max() > .1 and abs(A[:3, 3]).max() > .1 and abs(T[:3]).max() > .1)
    keep = [x.copy() for x in (A, B, T, U)]
    AdA, AdB = Hg.adjoint(A), Hg.adjoint(B)
    # conjugation is the definition of the adjoint action
    for X in (T, U):
        close(AdA.dot(X), _unhat6(A.dot(ref.hat6(X)).dot(ref.inv(A))), 1e-9, "adjoint acts by conjugation")
        close(Hg.iadjoint(A).dot(X), _unhat6(ref.inv(A).dot(ref.hat6(X)).dot(A)), 1e-9, "iadjoint acts by inverse conjugation")
    close(AdA.dot(AdB), Hg.adjoint(A.dot(B)), 1e-9, "adjoint(AB)")
    close(Hg.iadjoint(A).dot(AdA), np.eye(6), 1e-9, "iadjoint.adjoint")
    close(Am.inv(AdA), ref.iAd(A), 1e-9, "adjointmatrix.inv")
    close(Am.inv(AdA).dot(AdA), np.eye(6), 1e-9, "adjointmatrix.inv(Ad).Ad")
    close(Am.inv(Am.inv(AdA)), AdA, 1e-12, "double inverse")
    # the coupling of rotation and translation is proportional to the displacement, however small
    s = abs(A[:3, 3]).max()
    if s > 0:
        for f, what in ((Hg.adjoint, "adjoint"), (Hg.iadjoint, "iadjoint"), (lambda H: Am.inv(Hg.adjoint(H)), "adjointmatrix.inv(adjoint)")):
            e = ref.Ad(A) if what == "adjoint" else ref.iAd(A)
            close(f(A)[3:, :3] / s, e[3:, :3] / s, 1e-9, "coupling block of " + what)
    # Lie bracket
    br = _unhat6(ref.hat6(T).dot(ref.hat6(U)) - ref.hat6(U).dot(ref.hat6(T)))
    close(Tv.adjacency(T).dot(U), br, 1e-9, "adjacency is the Lie bracket")
    close(Tv.adjacency(AdA.dot(T)).dot(AdA), AdA.dot(Tv.adjacency(T)), 1e-9, "bracket equivariance")
    for k, x in zip(keep, (A, B, T, U)):
        require((k == x).all(), "an argument was modified")


@CHECK.facet(lambda: st.fixed_dictionaries({"A": gen.pose(5.), "T": gen.vec(6, -3, 3)}),
             quick=1500, shards=2, rule="the twist has both parts")
def derivative(case, ctx):
    A, T = ref.pose(case["A"]), np.array(case["T"])
    ctx.nt(abs(T[:3]).max() > .1 and abs(T[3:]).max() > .1)
    Ad = Hg.adjoint(A)
    keep = (Ad.copy(), T.copy())
    D = Hg.dAdjoint(Ad, T)
    close(D, ref.Ad(A).dot(ref.ad(T)), 1e-9, "dAdjoint")
    # along the one-parameter subgroup H exp(sT): Ad(H exp(sT)) integrates s -> Ad ad
    h = 1e-4
    F = (Hg.adjoint(A.dot(ref.expm(ref.hat6(T) * h))) - Hg.adjoint(A.dot(ref.expm(-ref.hat6(T) * h)))) / (2 * h)
    close(D, F, 1e-5, "dAdjoint is the derivative of adjoint along the motion")
    require((Ad == keep[0]).all() and (T == keep[1]).all(), "an argument was modified")


@CHECK.facet(lambda: st.fixed_dictionaries({
    "A": gen.pose(10.), "kind": st.sampled_from(["ok", "ok", "iadjoint", "inv", "shape", "blocks", "reflect", "upper", "scale", "grow", "entry"]),
    "i": st.integers(0, 2), "j": st.integers(0, 2), "m": st.integers(-6, 0), "s": st.sampled_from([-1, 1])}),
    quick=3000, shards=2, rule="every case is decided; non-trivial when the matrix is not an adjoint")
def recogniser(case, ctx):
    A = ref.pose(case["A"])
    Ad = Hg.adjoint(A)
    kind, i, j = case["kind"], case["i"], case["j"]
    d = case["s"] * 10. ** case["m"]
    ctx.label(kind)
    ctx.nt(kind not in ("ok", "iadjoint", "inv"))
    expect = kind in ("ok", "iadjoint", "inv")
    if kind == "iadjoint":
        Ad = Hg.iadjoint(A)
    elif kind == "inv":
        Ad = Am.inv(Ad)
    elif kind == "shape":
        Ad = [Ad[:3, :3], Ad[:4, :4], np.eye(7)][i]
    elif kind == "blocks":
        # another proper rotation in the second block
        Ad[3:, 3:] = Ad[3:, 3:].dot(ref.rot("xyz"[i], max(abs(d), 1e-6) * case["s"])[:3, :3])
    elif kind == "reflect":
        Ad[:, i] *= -1
        Ad[:, 3 + i] *= -1
    elif kind == "scale":
        Ad[:3, :3] *= 1 + abs(d)
        Ad[3:, 3:] *= 1 + abs(d)
    elif kind == "grow":
        # every term of the second block moved in the same direction
        Ad[3:, 3:] += d
    elif kind == "entry":
        Ad[3 + i, 3 + j] += d
    elif kind == "upper":
        Ad[i, 3 + j] += d
    keep = Ad.copy()
    got = bool(Am.isadjointmatrix(Ad))
    require(got == expect, "isadjointmatrix = %s on a matrix of kind %s:\n%r" % (got, kind, Ad))
    require((Ad == keep).all(), "the argument was modified")
