"""C13: named lists, naming and uniqueness."""
import numpy as np
from hypothesis import strategies as st
from vp import gen
from vp.core import Check, require
from arboris.core import (NamedObject, NamedObjectsList, DuplicateNameError, name_all_elements, World, Body, SubFrame,
                          JointsList)

CHECK = Check("C13")
NAMES = ["a", "b", "c", "ground", "", "a b", "\u00e9"]


def _elem():
    return st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES[:3]), st.none(), st.sampled_from(["%int", "%str", "%fake", "%same"]))


class Fake(object):
    """has a name, but is not a named object"""
    name = "a"


def mk(x):
    if x is None:
        return NamedObject()
    if x == "%int":
        return 3
    if x == "%str":
        return "a"
    if x == "%fake":
        return Fake()
    return NamedObject(x)


def mks(xs, have=()):
    """elements; "%same" stands for the first element of the list, once more"""
    out = []
    for x in xs:
        old = list(have) + out
        out.append(old[0] if x == "%same" and old else mk(None if x == "%same" else x))
    return out


def ids(x):
    return [id(o) for o in x]


def name_of(o):
    return o.name if isinstance(o, NamedObject) else None


def check_list(L, model):
    require(isinstance(L, list) and ids(L) == ids(model), "content")
    require(len(L) == len(model), "length")
    for k in range(-len(model), len(model)):
        require(L[k] is model[k], "positional index %d" % k)
    for s in (slice(1, None), slice(None, None, -1), slice(0, 2), slice(-2, None)):
        require(ids(L[s]) == ids(model[s]), "slice")
    for bad in (len(model), -len(model) - 1):
        try:
            L[bad]
        except IndexError:
            pass
        else:
            require(False, "no IndexError")
    for n in NAMES + ["zzz"]:
        hits = [o for o in model if isinstance(o, NamedObject) and o.name == n]
        require(ids(L.find(n)) == ids(hits), "find(%r)" % n)
        if hits:
            require(L[n] is hits[0], "lookup of %r" % n)
        else:
            try:
                L[n]
            except KeyError as e:
                require(n in str(e), "the KeyError names the missing element")
            else:
                require(False, "no KeyError for %r" % n)
    named = [o for o in model if isinstance(o, NamedObject) and o.name is not None]
    dup = len(set(o.name for o in named)) != len(named)
    try:
        d = L.as_dict()
    except DuplicateNameError as e:
        str(e)
        require(dup, "as_dict raised the duplicate-name error without duplicates")
    else:
        require(not dup, "as_dict accepted duplicates")
        require(sorted(d) == sorted(o.name for o in named) and all(d[o.name] is o for o in named), "as_dict content")


def _ops():
    i = st.integers(-3, 12)
    return st.lists(st.one_of(
        st.tuples(st.just("append"), _elem()).map(list),
        st.tuples(st.just("insert"), i, _elem()).map(list),
        st.tuples(st.just("extend"), st.lists(_elem(), max_size=3)).map(list),
        st.tuples(st.just("pop"), i).map(list),
        st.tuples(st.just("rename"), i, st.sampled_from(NAMES)).map(list),
        st.tuples(st.just("set"), i, _elem()).map(list),
        st.tuples(st.just("reverse")).map(list)), max_size=6)


@CHECK.facet(lambda: st.fixed_dictionaries({"init": st.lists(_elem(), max_size=8), "kind": st.sampled_from(["list", "tuple", "gen", "none"]),
                                            "ops": _ops()}), quick=3000, shards=3,
             rule="at least one name occurs twice, or an unnamed or foreign element is present")
def lists(case, ctx):
    objs = mks(case["init"])
    ctx.nt(len(set(case["init"])) < len(case["init"]) or any(x is None or x.startswith("%") for x in case["init"]))
    k = case["kind"]
    if k == "none":
        L, model = NamedObjectsList(), []
    else:
        L = NamedObjectsList(objs if k == "list" else tuple(objs) if k == "tuple" else (o for o in objs))
        model = list(objs)
    check_list(L, model)
    for o in case["ops"]:
        if o[0] == "append":
            x = mks([o[1]], model)[0]
            L.append(x)
            model.append(x)
        elif o[0] == "insert":
            x = mks([o[2]], model)[0]
            L.insert(o[1], x)
            model.insert(o[1], x)
        elif o[0] == "extend":
            x = mks(o[1], model)
            L.extend(x)
            model.extend(x)
        elif o[0] == "reverse":
            L.reverse()
            model.reverse()
        elif not model:
            continue
        elif o[0] == "pop":
            i = o[1] % len(model)
            require(L.pop(i) is model.pop(i), "pop")
        elif o[0] == "rename":
            x = model[o[1] % len(model)]
            if isinstance(x, NamedObject):
                x.name = o[2]
        elif o[0] == "set":
            i = o[1] % len(model)
            x = mks([o[2]], model)[0]
            L[i] = x
            model[i] = x
        check_list(L, model)
    try:
        L["a"] = 3
    except TypeError:
        pass
    else:
        require(False, "item assignment by name")


@CHECK.facet(lambda: st.fixed_dictionaries({"names": st.lists(st.one_of(st.none(), st.sampled_from(NAMES + ["d", "e", "f", "g"])), max_size=10),
                                            "kind": st.sampled_from(["list", "tuple", "gen", "NamedObjectsList"]),
                                            "check": st.sampled_from([True, True, False, None])}), quick=3000, shards=2,
             rule="unnamed elements or duplicates are present")
def naming(case, ctx):
    names = case["names"]
    objs = [NamedObject(n) for n in names]
    known = [n for n in names if n is not None]
    dup = len(set(known)) != len(known)
    ctx.nt(dup or None in names)
    ctx.label("duplicates" if dup else "unique", case["kind"])
    arg = {"list": list(objs), "tuple": tuple(objs), "gen": (o for o in objs), "NamedObjectsList": NamedObjectsList(objs)}[case["kind"]]
    try:
        if case["check"] is None:
            name_all_elements(arg)
        else:
            name_all_elements(arg, case["check"])
    except DuplicateNameError as e:
        require(case["check"] is True and dup, "the duplicate-name error was raised: check=%s names=%s" % (case["check"], names))
        msg = str(e)
        require(all(n in msg for n in set(x for x in known if known.count(x) > 1)), "the error names the duplicates")
    else:
        require(not (case["check"] and dup), "duplicates were accepted: %s" % names)
    for o, n in zip(objs, names):
        if n is not None:
            require(o.name == n, "a named element was renamed")
        else:
            require(isinstance(o.name, str) and o.name != "", "an element was left unnamed")
            require([x.name for x in objs].count(o.name) == 1, "a generated name is not unique")


@CHECK.facet(lambda: st.fixed_dictionaries({"names": st.lists(gen.mix(st.none(), st.none(), st.sampled_from(NAMES)), min_size=2, max_size=8, unique_by=lambda n: n if n is not None else object()),
                                            "sel": st.lists(st.lists(st.integers(0, 7), max_size=8), min_size=2, max_size=4)}), quick=1500, shards=2,
             rule="some element is named in a second list, together with one named before")
def histories(case, ctx):
    """lists sharing elements, named one after the other"""
    objs = [NamedObject(n) for n in case["names"]]
    done = set()
    for sel in case["sel"]:
        idx = []
        for i in sel:
            if i % len(objs) not in idx:
                idx.append(i % len(objs))
        ctx.nt(any(i in done for i in idx) and any(i not in done and case["names"][i] is None for i in idx))
        before = [o.name for o in objs]
        if len(set(x for x in [before[i] for i in idx] if x is not None)) != len([i for i in idx if before[i] is not None]):
            ctx.skip("names generated apart clash")
        name_all_elements([objs[i] for i in idx], True)
        for i, o in enumerate(objs):
            if before[i] is not None or i not in idx:
                require(o.name == before[i], "element %d was renamed %r to %r" % (i, before[i], o.name))
            else:
                require(isinstance(o.name, str) and o.name != "", "an element was left unnamed")
        ns = [objs[i].name for i in idx]
        require(len(set(ns)) == len(ns), "a generated name is not unique: %s" % ns)
        name_all_elements([objs[i] for i in idx], True)
        require([objs[i].name for i in idx] == ns, "naming again changes names")
        done.update(idx)


@CHECK.facet(lambda: st.fixed_dictionaries({"b": st.lists(st.one_of(st.none(), st.sampled_from(["a", "b", "c", "ground"])), min_size=1, max_size=4),
                                            "j": st.lists(st.one_of(st.none(), st.sampled_from(["a", "b", "c"])), min_size=4, max_size=4),
                                            "s": st.lists(st.one_of(st.none(), st.sampled_from(["s", "t", "a"])), max_size=3),
                                            "h": st.lists(st.one_of(st.none(), st.sampled_from(["s", "t"])), max_size=3),
                                            "c": st.lists(st.one_of(st.none(), st.sampled_from(["s", "t"])), max_size=3),
                                            "check": st.booleans(), "grow": st.lists(st.tuples(st.integers(0, 9), st.booleans()).map(list), max_size=3)}), quick=1500, shards=2, rule="some duplicates within one kind")
def worlds(case, ctx):
    """World.name_all_elements: per kind of element"""
    from arboris.joints import RzJoint
    from arboris.shapes import Sphere
    from arboris.controllers import WeightController
    w = World()
    bodies = [w.ground]
    joints = []
    for n, jn in zip(case["b"], case["j"]):
        b = Body(n)
        j = RzJoint(name=jn)
        w.add_link(bodies[-1], j, b)
        bodies.append(b)
        joints.append(j)
    subs = [SubFrame(bodies[-1], name=n) for n in case["s"]]
    for s in subs:
        w.register(s)
    shapes = [Sphere(bodies[0], name=n) for n in case["h"]]
    ctls = [WeightController(name=n) for n in case["c"]]
    for s in shapes + ctls:
        w.register(s)
    kinds = [joints, bodies + subs, shapes, ctls]
    before = [[o.name for o in k] for k in kinds]

    def hasdup(ns):
        ns = [n for n in ns if n is not None]
        return len(set(ns)) != len(ns)
    dup = any(hasdup(ns) for ns in before)
    ctx.nt(dup)
    w.init()
    try:
        w.name_all_elements(case["check"])
    except DuplicateNameError:
        require(case["check"] and dup, "the duplicate-name error was raised: %s" % before)
        return
    require(not (case["check"] and dup), "duplicates were accepted: %s" % before)
    for k, ns in zip(kinds, before):
        for o, n in zip(k, ns):
            require(o.name is not None and (n is None or o.name == n), "naming of %r" % n)
    # the world grows (anywhere in the tree) and is named again
    for at, isjoint in case["grow"]:
        if isjoint:
            b, j = Body(), RzJoint()
            w.add_link(bodies[at % len(bodies)], j, b)
            bodies.append(b)
            joints.append(j)
        else:
            s = SubFrame(bodies[at % len(bodies)])
            w.register(s)
            subs.append(s)
    kinds[1] = bodies + subs
    before = [[o.name for o in k] for k in kinds]
    w.init()
    w.name_all_elements(case["check"])
    for k, ns in zip(kinds, before):
        after = [o.name for o in k]
        for o, n in zip(k, ns):
            require(o.name is not None and (n is None or o.name == n), "naming of %r in a grown world" % n)
            require(n is not None or after.count(o.name) == 1, "a generated name is not unique: %s" % after)
    # lookups by name through the world's lists
    for get, k in ((w.getjoints, joints), (w.getframes, bodies + subs), (w.getshapes, shapes), (w.getcontrollers, ctls)):
        L = get()
        for o in k:
            require(any(L[o.name] is x for x in k) and L[o.name].name == o.name, "lookup")


@CHECK.facet(lambda: st.fixed_dictionaries({"n": st.integers(30, 300), "seed": st.integers(0, 10 ** 6), "kind": st.sampled_from(["list", "tuple", "gen"]), "ops": _ops()}), quick=60, shards=2, rule="more than a hundred elements")
def large(case, ctx):
    """lists of many elements"""
    r = np.random.RandomState(case["seed"])
    pool = NAMES + [None, None] + ["n%d" % i for i in range(case["n"])]
    lists({"init": [pool[int(i)] for i in r.randint(len(pool), size=case["n"])], "kind": case["kind"], "ops": case["ops"]}, ctx)
    ctx.nt(case["n"] > 100)
