"""A reader of collada files written from the collada 1.4 specification, on ElementTree only."""
import xml.etree.ElementTree as ET
import numpy as np

NS = "{http://www.collada.org/2005/11/COLLADASchema}"


def q(tag):
    return NS + tag


def floats(e):
    return np.array([float(x) for x in (e.text or "").split()])


def local(e):
    return e.tag[len(NS):] if isinstance(e.tag, str) and e.tag.startswith(NS) else None


def transform(e):
    """4x4 matrix of a transform element, None if it is something else"""
    k, H = local(e), np.eye(4)
    if k == "matrix":
        return floats(e).reshape(4, 4)
    if k == "scale":
        H[[0, 1, 2], [0, 1, 2]] = floats(e)
        return H
    if k == "translate":
        H[:3, 3] = floats(e)
        return H
    if k == "rotate":
        x = floats(e)
        a = x[:3] / np.linalg.norm(x[:3])
        t = np.radians(x[3])
        K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
        H[:3, :3] = np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K.dot(K)
        return H
    if k in ("lookat", "skew"):
        raise ValueError("transform %s" % k)
    return None


# what the parameters of the accessors of an animation are (COLLADA 1.4, chapter 5)
PARAMS = {"INPUT": ("TIME", "float"), "INTERPOLATION": ("INTERPOLATION", "name"), "OUTPUT": ("TRANSFORM", "float4x4")}


def check(what, cond):
    if not cond:
        raise AssertionError("malformed collada document: " + what)


class Node(object):
    pass


class Doc(object):
    def __init__(self, path):
        self.root = ET.parse(path).getroot()
        if self.root.tag != q("COLLADA"):
            raise ValueError("not a collada document: %s" % self.root.tag)
        self.ids = {}
        self.duplicate_ids = []
        for e in self.root.iter():
            i = e.get("id")
            if i is not None:
                if i in self.ids:
                    self.duplicate_ids.append(i)
                self.ids[i] = e
        self.geoms = {}
        up = self.root.find(q("asset")).find(q("up_axis"))
        self.up = "Y_UP" if up is None else up.text.strip()
        url = self.root.find(q("scene")).find(q("instance_visual_scene")).get("url")
        self.scene = self.ids[url[1:]]
        self.nodes, self.shapes, self.arrows = [], [], []
        for e in self.scene.findall(q("node")):
            self._walk(e, np.eye(4), None, True)
        self.validate()
        self.by_id = dict((n.id, n) for n in self.nodes if n.id is not None and n.in_scene)

    def validate(self):
        """the rules of the format any reader relies on: references lead somewhere, counts are right, indices are in range"""
        for e in self.root.iter():
            for k in ("url", "source", "target"):
                v = e.get(k)
                if v is not None and v.startswith("#"):
                    check("%s refers to %s, which is not in the document" % (local(e), v), v[1:] in self.ids)
            if local(e) in ("float_array", "Name_array", "IDREF_array", "int_array"):
                n = len((e.text or "").split())
                check("%s %s has count %s for %d values" % (local(e), e.get("id"), e.get("count"), n), e.get("count") == str(n))
            if local(e) == "accessor":
                arr = self.ids[e.get("source")[1:]]
                check("accessor of %s beyond its values" % e.get("source"), int(e.get("count")) * int(e.get("stride") or 1) + int(e.get("offset") or 0) <= int(arr.get("count")))
            if local(e) in ("triangles", "lines", "polylist", "polygons"):
                self._primitive(e)

    def _size(self, i):
        s = self.ids[i]
        if local(s) == "vertices":
            s = self.ids[s.find(q("input")).get("source")[1:]]
        return int(s.find(q("technique_common")).find(q("accessor")).get("count"))

    def _primitive(self, e):
        ins = [(int(i.get("offset")), self._size(i.get("source")[1:])) for i in e.findall(q("input"))]
        width = 1 + max(o for o, _ in ins)
        n = int(e.get("count"))
        ps = [[int(x) for x in (p.text or "").split()] for p in e.findall(q("p"))]
        if local(e) == "polylist":
            vc = [int(x) for x in (e.find(q("vcount")).text or "").split()]
            check("polylist count", len(vc) == n and sum(vc) * width == len(ps[0]))
        elif local(e) in ("triangles", "lines"):
            check("%s of count %d with %d indices, %d per vertex" % (local(e), n, sum(len(p) for p in ps), width), sum(len(p) for p in ps) == n * width * {"triangles": 3, "lines": 2}[local(e)])
        for p in ps:
            for o, size in ins:
                check("index of %s out of range" % local(e), all(0 <= x < size for x in p[o::width]))

    def geometry(self, i):
        """vertices of a geometry"""
        if i not in self.geoms:
            g = self.ids[i]
            if local(g) != "geometry":
                raise ValueError("%s is not a geometry" % i)
            src = None
            for v in g.iter(q("vertices")):
                for inp in v.findall(q("input")):
                    if inp.get("semantic") == "POSITION":
                        src = inp.get("source")[1:]
            arr = self.ids[src].find(q("float_array"))
            self.geoms[i] = floats(arr).reshape(-1, 3)
        return self.geoms[i]

    def color(self, inst):
        """diffuse colours of the material of a geometry instance"""
        res = []
        for m in inst.iter(q("instance_material")):
            mat = self.ids[m.get("target")[1:]]
            eff = self.ids[mat.find(q("instance_effect")).get("url")[1:]]
            for k in ("diffuse", "emission"):
                d = [x.find(q("color")) for x in eff.iter(q(k))]
                d = [x for x in d if x is not None]
                if d:
                    res.append(tuple(floats(d[0])[:3]))
                    break
        return res

    def _walk(self, e, H, parent, in_scene):
        n = Node()
        n.e, n.id, n.parent, n.in_scene, n.kids = e, e.get("id"), parent, in_scene, []
        n.transforms = [(c, transform(c)) for c in e if transform(c) is not None]
        n.local = np.eye(4)
        for _, T in n.transforms:
            n.local = n.local.dot(T)
        n.H = H.dot(n.local)
        n.notes = [d.text for d in e.findall(".//" + q("Description")) if self._owner(e, d) is e] if e.find(q("extra")) is not None else []
        self.nodes.append(n)
        if parent is not None:
            parent.kids.append(n)
        for c in e:
            k = local(c)
            if k == "node":
                self._walk(c, n.H, n, in_scene)
            elif k == "instance_node":
                ref = self.ids[c.get("url")[1:]]
                if local(ref) != "node":
                    raise ValueError("instance of a %s" % ref.tag)
                self._walk(ref, n.H, n, False)
            elif k == "instance_geometry":
                s = Node()
                s.node, s.geom = n, c.get("url")[1:]
                s.vertices = self.geometry(s.geom).dot(n.H[:3, :3].T) + n.H[:3, 3]
                s.colors = self.color(c)
                self.shapes.append(s)

    def _owner(self, e, d):
        for x in e.findall(q("extra")):
            if d in list(x.iter(q("Description"))):
                return e
        return None

    def frame_of(self, n, frames):
        """the closest ancestor (or self) whose id is one of `frames`"""
        while n is not None and n.id not in frames:
            n = n.parent
        return n

    def animations(self):
        """{target: (times, values, interpolations)}"""
        res = {}
        for a in self.root.iter(q("animation")):
            for ch in a.findall(q("channel")):
                smp = self.ids[ch.get("source")[1:]]
                src = {}
                for i in smp.findall(q("input")):
                    s = self.ids[i.get("source")[1:]]
                    arr = [x for x in s if local(x) in ("float_array", "Name_array")][0]
                    vals = (arr.text or "").split()
                    acc = s.find(q("technique_common")).find(q("accessor"))
                    assert acc.get("source") == "#" + arr.get("id"), "accessor of %s" % s.get("id")
                    prm = [(x.get("name"), x.get("type")) for x in acc.findall(q("param"))]
                    if prm != [PARAMS[i.get("semantic")]]:
                        raise AssertionError("the accessor of %s (%s) has parameters %s" % (s.get("id"), i.get("semantic"), prm))
                    n, stride = int(acc.get("count")), int(acc.get("stride") or 1)
                    assert n * stride == len(vals), "accessor of %s: %d x %d for %d values" % (s.get("id"), n, stride, len(vals))
                    src[i.get("semantic")] = (vals, stride)
                t = np.array([float(x) for x in src["INPUT"][0]])
                v = np.array([float(x) for x in src["OUTPUT"][0]]).reshape(-1, src["OUTPUT"][1])
                if ch.get("target") in res:
                    raise ValueError("two animations of %s" % ch.get("target"))
                res[ch.get("target")] = (t, v, src["INTERPOLATION"][0])
        return res
