"""Independent reference model of rigid-body kinematics and dynamics.

Nothing here uses arboris.  Rotations come from the plain matrix exponential of
the elementary twists (scaling and squaring of the Taylor series), kinematics
from the product of exponentials over elementary one-dof screws, jacobians and
their time derivatives from Lie brackets of those screws.

Twists are [omega, v]; adjoint(H) = [[R,0],[px R,R]]."""
import json
import numpy as np


def hat(w):
    return np.array([[0., -w[2], w[1]], [w[2], 0., -w[0]], [-w[1], w[0], 0.]])


def hat6(tw):
    X = np.zeros((4, 4))
    X[:3, :3] = hat(tw[:3])
    X[:3, 3] = tw[3:]
    return X


def expm(X):
    X = np.asarray(X, dtype=float)
    n = np.max(np.sum(np.abs(X), axis=1)) if X.size else 0.
    s = max(0, int(np.ceil(np.log2(n / 0.25))) if n > 0.25 else 0)
    A = X / 2. ** s
    E = np.eye(len(X))
    T = np.eye(len(X))
    for k in range(1, 20):
        T = T.dot(A) / k
        E = E + T
    for _ in range(s):
        E = E.dot(E)
    return E


_AX = {"x": np.array([1., 0, 0]), "y": np.array([0, 1., 0]), "z": np.array([0, 0, 1.])}


def rot(axis, a):
    """elementary rotation, 4x4, written out"""
    c, s = np.cos(a), np.sin(a)
    H = np.eye(4)
    i, j = {"x": (1, 2), "y": (2, 0), "z": (0, 1)}[axis]
    H[i, i] = c
    H[j, j] = c
    H[i, j] = -s
    H[j, i] = s
    return H


def trans(x, y, z):
    H = np.eye(4)
    H[:3, 3] = (x, y, z)
    return H


def inv(H):
    G = np.eye(4)
    G[:3, :3] = H[:3, :3].T
    G[:3, 3] = -H[:3, :3].T.dot(H[:3, 3])
    return G


def Ad(H):
    A = np.zeros((6, 6))
    R = H[:3, :3]
    A[:3, :3] = R
    A[3:, 3:] = R
    A[3:, :3] = hat(H[:3, 3]).dot(R)
    return A


def iAd(H):
    return Ad(inv(H))


def ad(tw):
    A = np.zeros((6, 6))
    A[:3, :3] = hat(tw[:3])
    A[3:, 3:] = hat(tw[:3])
    A[3:, :3] = hat(tw[3:])
    return A


def pose(p):
    """{"r": [az, ay, ax], "t": [x, y, z]} -> 4x4"""
    if p is None:
        return np.eye(4)
    if not isinstance(p, dict):
        return np.array(p, float)
    r = p["r"]
    H = rot("z", r[0]).dot(rot("y", r[1])).dot(rot("x", r[2]))
    H[:3, 3] = p["t"]
    return H


def is_pose(H, tol=1e-9):
    H = np.asarray(H)
    if H.shape != (4, 4) or not np.isfinite(H).all():
        return False
    R = H[:3, :3]
    return (np.abs(R.T.dot(R) - np.eye(3)).max() <= tol and np.linalg.det(R) > 0
            and (H[3] == [0, 0, 0, 1]).all())


def mass(m):
    """{"m": mass, "I": [3 moments at the com], "p": pose of the central frame} -> 6x6"""
    if m is None:
        return np.zeros((6, 6))
    D = np.diag([m["I"][0], m["I"][1], m["I"][2], m["m"], m["m"], m["m"]]).astype(float)
    A = iAd(pose(m["p"]))
    M = A.T.dot(D).dot(A)
    M = (M + M.T) / 2.
    # the linear block is exactly m * identity
    M[3:, 3:] = m["m"] * np.eye(3)
    return M


def com(m):
    return pose(m["p"])[:3, 3] if m is not None else np.zeros(3)


# joint name -> elementary screws, in order, applied left to right
SCREWS = {
    "FixedJoint": [],
    "RxJoint": ["rx"], "RyJoint": ["ry"], "RzJoint": ["rz"],
    "TxJoint": ["tx"], "TyJoint": ["ty"], "TzJoint": ["tz"],
    "RzRyJoint": ["rz", "ry"], "RzRxJoint": ["rz", "rx"], "RyRxJoint": ["ry", "rx"],
    "RzRyRxJoint": ["rz", "ry", "rx"],
    "TxTyTzJoint": ["tx", "ty", "tz"],
}


# joints of the user's own: "user:[[6 numbers], ...]", a product of exponentials of these screws, "cam:[s1, s2]", with
# one dof q and the pose exp(q s1) exp(sin(q) s2), and
# "quat:", a spherical joint whose configuration is a unit quaternion,
# "group:235", the subgroup of the displacements generated by these screws of the base (FreeJoint is 012345)
class _Screws(dict):
    def __missing__(self, jt):
        if not jt.startswith("user:"):
            raise KeyError(jt)
        return [np.array(s, float) for s in json.loads(jt[5:])]


class _Ndof(dict):
    def __missing__(self, jt):
        return 1 if jt.startswith("cam:") else 3 if jt == "quat:" else len(jt) - 6 if jt.startswith("group:") else len(SCREWS[jt])


SCREWS = _Screws(SCREWS)
NDOF = _Ndof((k, len(v)) for k, v in SCREWS.items())
NDOF["FreeJoint"] = 6


def group(jt):
    """the basis of a joint whose configurations are a group, or None"""
    if jt == "FreeJoint":
        return np.eye(6)
    if jt == "quat:":
        return np.eye(6)[:, :3]
    return np.eye(6)[:, [int(c) for c in jt[6:]]] if jt.startswith("group:") else None


def group_pose(l):
    """the configuration of such a joint, in a spec"""
    return pose(l["q"]) if isinstance(l["q"], dict) or np.ndim(l["q"]) == 2 else expm(hat6(group(l["jt"]).dot(np.array(l["q"], float))))


def quat(H):
    """a unit quaternion (w, x, y, z) of this rotation"""
    R = H[:3, :3]
    K = np.array([[R[0, 0] + R[1, 1] + R[2, 2], R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]],
                  [0, R[0, 0] - R[1, 1] - R[2, 2], R[0, 1] + R[1, 0], R[0, 2] + R[2, 0]],
                  [0, 0, R[1, 1] - R[0, 0] - R[2, 2], R[1, 2] + R[2, 1]],
                  [0, 0, 0, R[2, 2] - R[0, 0] - R[1, 1]]])
    return np.linalg.eigh(K, "U")[1][:, -1]


def unquat(p):
    w, x, y, z = p
    H = np.eye(4)
    H[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                 [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    return H


def screw(s):
    if not isinstance(s, str):
        return s
    tw = np.zeros(6)
    (tw[:3] if s[0] == "r" else tw[3:])[:] = _AX[s[1]]
    return tw


def elem(s, q):
    if not isinstance(s, str):
        return expm(hat6(s * q))
    return rot(s[1], q) if s[0] == "r" else trans(*(_AX[s[1]] * q))


def joint_kin(jt, q, v):
    """pose, twist, jacobian, djacobian of a joint on its own."""
    if jt == "FreeJoint":
        return np.asarray(pose(q) if isinstance(q, dict) else q, float), np.asarray(v, float), np.eye(6), np.zeros((6, 6))
    if group(jt) is not None:
        S = group(jt)
        return np.asarray(q, float), S.dot(np.asarray(v, float)), S, np.zeros(S.shape)
    if jt.startswith("cam:"):
        s1, s2 = [np.array(s, float) for s in json.loads(jt[4:])]
        x, v = float(q[0]), np.asarray(v, float)
        A = iAd(elem(s2, np.sin(x))).dot(s1)
        J = (A + s2 * np.cos(x)).reshape(6, 1)
        dJ = (-ad(s2 * np.cos(x) * v[0]).dot(A) - s2 * np.sin(x) * v[0]).reshape(6, 1)
        return elem(s1, x).dot(elem(s2, np.sin(x))), J.dot(v), J, dJ
    sc = SCREWS[jt]
    n = len(sc)
    H = np.eye(4)
    for s, x in zip(sc, q):
        H = H.dot(elem(s, x))
    J = np.zeros((6, n))
    tail = np.eye(4)
    for i in range(n - 1, -1, -1):
        J[:, i] = iAd(tail).dot(screw(sc[i]))
        tail = elem(sc[i], q[i]).dot(tail)
    dJ = np.zeros((6, n))
    for i in range(n):
        V = np.zeros(6)
        for k in range(i + 1, n):
            V += J[:, k] * v[k]
        dJ[:, i] = -ad(V).dot(J[:, i])
    return H, J.dot(np.asarray(v, float)), J, dJ


class Model(object):
    """Reference model of a world described by a spec (see gen.py).

    spec["links"][i]: parent (0 is the ground, k is the body of link k-1), jt,
    q, v, f0, f1 (poses of the joint frames in the parent and child bodies),
    mass, visc.  `order` gives the order in which dofs are laid out: the
    depth-first order with children in the order of their links."""

    def __init__(self, spec):
        self.spec = spec
        L = spec["links"]
        self.n = len(L)
        kids = dict((i, []) for i in range(self.n + 1))
        for i, l in enumerate(L):
            kids[l["parent"]].append(i)
        self.kids = kids
        order = []

        def rec(b):
            for i in kids[b]:
                order.append(i)
                rec(i + 1)
        rec(0)
        self.order = order
        self.dof = {}
        k = 0
        for i in order:
            nd = NDOF[L[i]["jt"]]
            self.dof[i] = slice(k, k + nd)
            k += nd
        self.ndof = k
        self.q = [(group_pose(l) if group(l["jt"]) is not None else np.array(l["q"], float)) for l in L]
        self.gvel = np.zeros(k)
        for i, l in enumerate(L):
            self.gvel[self.dof[i]] = l["v"]
        self.H0 = [pose(l["f0"]) for l in L]
        self.H1 = [pose(l["f1"]) for l in L]
        self.mass = [mass(l["mass"]) for l in L]
        self.visc = [np.array(l["visc"], float).reshape(6, 6) if l.get("visc") else np.zeros((6, 6)) for l in L]

    def set_state(self, q, gvel):
        self.q = q
        self.gvel = np.array(gvel, float)

    def kinematics(self):
        """Per body (index 0 = ground): pose, jacobian, djacobian, twist."""
        L = self.spec["links"]
        P = [None] * (self.n + 1)
        J = [None] * (self.n + 1)
        dJ = [None] * (self.n + 1)
        P[0] = np.eye(4)
        J[0] = np.zeros((6, self.ndof))
        dJ[0] = np.zeros((6, self.ndof))
        for i in self.order:
            l = L[i]
            p = l["parent"]
            v = self.gvel[self.dof[i]]
            Hj, _, _, _ = joint_kin(l["jt"], self.q[i], v)
            P[i + 1] = P[p].dot(self.H0[i]).dot(Hj).dot(inv(self.H1[i]))
        # jacobian of each body straight from the ground frame: every elementary
        # screw, moved along the chain
        for i in self.order:
            chain = []
            k = i
            while True:
                chain.append(k)
                if L[k]["parent"] == 0:
                    break
                k = L[k]["parent"] - 1
            Jb = np.zeros((6, self.ndof))
            own = {}   # part of the derivative which comes from the joint itself
            cols = []  # (dof index, group) from the tip to the root
            tail = np.eye(4)
            for k in chain:
                l = L[k]
                tail = inv(self.H1[k]).dot(tail)
                base = self.dof[k].start
                if group(l["jt"]) is not None:
                    A = iAd(tail).dot(group(l["jt"]))
                    for c in range(A.shape[1]):
                        Jb[:, base + c] = A[:, c]
                    cols.append([base + c for c in range(A.shape[1])])
                    tail = self.q[k].dot(tail)
                elif l["jt"].startswith("cam:"):
                    Hj, _, Jj, dJj = joint_kin(l["jt"], self.q[k], self.gvel[self.dof[k]])
                    Jb[:, base] = iAd(tail).dot(Jj)[:, 0]
                    own[base] = iAd(tail).dot(dJj)[:, 0]
                    cols.append([base])
                    tail = Hj.dot(tail)
                else:
                    sc = SCREWS[l["jt"]]
                    for c in range(len(sc) - 1, -1, -1):
                        Jb[:, base + c] = iAd(tail).dot(screw(sc[c]))
                        cols.append([base + c])
                        tail = elem(sc[c], self.q[k][c]).dot(tail)
                tail = self.H0[k].dot(tail)
            dJb = np.zeros((6, self.ndof))
            V = np.zeros(6)
            for together in cols:
                for c in together:
                    dJb[:, c] = -ad(V).dot(Jb[:, c]) + own.get(c, 0.)
                V = V + sum(Jb[:, c] * self.gvel[c] for c in together)
            J[i + 1] = Jb
            dJ[i + 1] = dJb
        T = [j.dot(self.gvel) for j in J]
        return P, J, dJ, T

    def dynamics(self):
        """M, B, and the vector of inertial (Coriolis, centrifugal) generalized
        forces h such that M dgvel + h + B gvel = external forces."""
        P, J, dJ, T = self.kinematics()
        M = np.zeros((self.ndof, self.ndof))
        B = np.zeros((self.ndof, self.ndof))
        dM = np.zeros((self.ndof, self.ndof))
        h = np.zeros(self.ndof)
        for i in range(self.n):
            Mb, Jb, dJb, Tb = self.mass[i], J[i + 1], dJ[i + 1], T[i + 1]
            M += Jb.T.dot(Mb).dot(Jb)
            B += Jb.T.dot(self.visc[i]).dot(Jb)
            X = Jb.T.dot(Mb).dot(dJb)
            dM += X + X.T
            h += Jb.T.dot(Mb.dot(dJb.dot(self.gvel)) - ad(Tb).T.dot(Mb.dot(Tb)))
        return M, B, h, dM

    def potential(self, g=9.81, up=(0., 1., 0.)):
        P = self.kinematics()[0]
        E = 0.
        for i in range(self.n):
            m = self.spec["links"][i]["mass"]
            if m is None:
                continue
            c = P[i + 1].dot(np.append(com(m), 1.))[:3]
            E += m["m"] * g * np.dot(c, up)
        return E

    def gravity_force(self, g=-9.81, up=(0., 1., 0.)):
        """generalized force of gravity: m g up applied at each centre of mass"""
        P, J, _, _ = self.kinematics()
        f = np.zeros(self.ndof)
        for i in range(self.n):
            m = self.spec["links"][i]["mass"]
            if m is None:
                continue
            R = P[i + 1][:3, :3]
            F = R.T.dot(np.array(up, float)) * g * m["m"]   # in the body frame
            c = com(m)
            f += J[i + 1].T.dot(np.concatenate((np.cross(c, F), F)))
        return f

    def integrate(self, gvel, dt):
        gvel = np.array(gvel, float)
        q = []
        for i, l in enumerate(self.spec["links"]):
            v = gvel[self.dof[i]]
            if group(l["jt"]) is not None:
                q.append(self.q[i].dot(expm(hat6(group(l["jt"]).dot(v) * dt))))
            else:
                q.append(self.q[i] + dt * v)
        self.q = q
        self.gvel = gvel
