"""C33: live viewers receive the state of the world at every step."""
import json
import os
import socket
import tempfile
import threading
import time
import warnings
import numpy as np
from hypothesis import strategies as st
from vp import env, gen, build, ref, sim, dae, fakes
from vp.core import Check, close, require
from checks.c30 import scene, make_scene
from checks.c31 import Poses, evaluate, movable
from arboris.core import Observer, World, Body, simulate
from arboris.joints import TzJoint

CHECK = Check("C33")
ASSUMPTIONS = ["the viewers (daenim, pydaenim) are not installed: a thread connected on the loopback interface, a program which stores its arguments, and a fake websocket stand for them"]


class Client(threading.Thread):
    """connects to a port (with retries) and stores all it receives until the end"""

    def __init__(self, host, port):
        threading.Thread.__init__(self)
        self.daemon = True
        self.addr = (host, port)
        self.data = b""
        self.stop = False
        self.start()

    def run(self):
        end = time.time() + 60
        while time.time() < end and not self.stop:
            try:
                s = socket.create_connection(self.addr, 1.)
                break
            except OSError:
                time.sleep(.002)
        else:
            return
        s.settimeout(60)
        try:
            while True:
                x = s.recv(65536)
                if not x:
                    break
                self.data += x
                if self.data.endswith(b"close_connection"):
                    break
        except OSError:
            pass
        s.close()


def program(d):
    """a program which stores its arguments, and the file it is given"""
    p = os.path.join(d, "viewer")
    with open(p, "w") as f:
        f.write('#!/bin/sh\nprintf \'%%s\\n\' "$@" > %s/args.tmp\ncp "$1" %s/shown.dae 2>/dev/null\nmv %s/args.tmp %s/args\n' % (d, d, d, d))
    os.chmod(p, 0o755)
    return p


def arguments(d):
    end = time.time() + 30
    while time.time() < end:
        if os.path.exists(d + "/args"):
            return open(d + "/args").read().splitlines()
        time.sleep(.005)
    require(False, "the viewer is not started")


def give_masses(case):
    if case.get("more"):
        # long messages
        case["s"] = dict(case["s"], w=gen.expand(case["more"], subs=4))
    for i, l in enumerate(case["s"]["w"]["links"]):
        if l["mass"] is None:
            l["mass"] = {"m": 1. + .5 * i, "I": [.2, .3, .4], "p": {"r": [0., 0., 0.], "t": [0., .1, 0.]}}


def moving_frames(b, flat):
    return [f for f in movable(b, flat).values() if f is not None] + list(b.world.itermovingsubframes())


def run(ctx, case, b, obs):
    """simulate; gives the recorded poses"""
    w = b.world
    frames = list(b.bodies) + list(b.subs) + [f for f in b.f0 + b.f1 if f not in b.bodies]
    p = Poses(frames)
    sim.run(ctx, w, [case["t0"] + k * case["dt"] for k in range(case["steps"] + 1)], [p] + obs)
    if not np.isfinite([x[-1] for t, x in p.rec]).all():
        ctx.skip("diverging")
    return frames, p.rec


def usable(ctx, b):
    b.world.update_dynamic()
    if b.world.ndof and sim.spread(b.world.mass) > 1e8:
        ctx.skip("singular")


def compare(case, b, frames, rec, steps, doc, flat):
    """steps: [{name: 12 numbers}]; with the scene, they give the poses of all frames"""
    require(len(steps) == len(rec), "%d messages for %d steps" % (len(steps), len(rec)))
    mv = moving_frames(b, flat)
    for k, ((t, poses), s) in enumerate(zip(rec, steps)):
        missing = set(f.name for f in mv) - set(s)
        require(not missing, "step %d: nothing about %s" % (k, sorted(missing)))
        require(set(s) <= set(f.name for f in mv) | {"ground"}, "step %d: unexpected %s" % (k, sorted(set(s) - set(f.name for f in mv))))
        anim = {}
        for n, v in s.items():
            H = np.eye(4)
            H[:3] = np.array(v, float).reshape(3, 4)
            anim[n + "/matrix"] = (None, [H])
        got = evaluate(doc, 0, anim)
        scale = 1. + max(np.abs(x[:3, 3]).max() for x in poses)
        for f, p in zip(frames, poses):
            if f.name is not None and (case["names"] or f in mv):
                require(np.abs(got[f.name] - p).max() < 1e-7 * scale, "step %d: the viewer shows %s off by %.3g" % (k, f.name, np.abs(got[f.name] - p).max()))


def stream_case(**kw):
    return st.fixed_dictionaries(dict({"s": scene(), "flat": st.booleans(), "names": st.booleans(), "steps": st.integers(1, 5), "dt": st.sampled_from([.01, .005, .1, 1 / 3., .0012345678, 1e-5]), "t0": st.sampled_from([0., 0., 0., 12.3456789]), "more": gen.mix(*[st.none()] * 9 + [gen.big(50, 80)])}, **kw))


@CHECK.facet(lambda: stream_case(given=st.booleans(), busy=st.sampled_from([0, 0, 1, 3]), options=st.sampled_from(["", "-a 1", "--title 'two words'"])), quick=120, shards=8, rule="at least two moving frames and two steps")
def sockets(case, ctx):
    """DaenimCom: the socket protocol of the daenim viewer"""
    m = fakes.visu("visu_collada")
    give_masses(case)
    b, _ = make_scene(case["s"], names=case["names"])
    usable(ctx, b)
    d = ctx.scratch()
    flat = case["flat"]
    path = None
    if case["given"]:
        path = os.path.join(d, "scene.dae")
        m.write_collada_scene(b.world, path, flat=flat)
    old, tempfile.tempdir = tempfile.tempdir, d
    client = None
    port = 20000 + os.getpid() % 180 * 60
    others = []
    try:
        # ports taken by others
        for k in range(case["busy"]):
            x = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            others.append(x)
            x.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                x.bind(("127.0.0.1", port + k))
                x.listen(1)
            except OSError:
                # taken by others indeed, if they listen
                pass
        com = m.DaenimCom(path, daenim_path=program(d), port=port, timeout=30, options=case["options"], flat=flat)
        if others:
            ctx.label("port taken")
            require(all(com.port != x.getsockname()[1] for x in others) and port < com.port < port + 50, "the first %d ports from %d are taken: %d" % (case["busy"], port, com.port))
        client = Client("127.0.0.1", com.port)
        frames, rec = run(ctx, case, b, [com])
    finally:
        tempfile.tempdir = old
        for x in others:
            x.close()
        if client is not None:
            client.stop = True
    client.join(60)
    args = arguments(d)
    extra = {"": [], "-a 1": ["-a", "1"], "--title 'two words'": ["--title", "two words"]}[case["options"]]
    require(args[1:] == ["-socket", "127.0.0.1", str(com.port)] + extra, "arguments of the viewer: %s" % args)
    if path is not None:
        require(args[0] == path, "file of the viewer: %s" % args[0])
    require(args[0].endswith(".dae"), "the viewer is given a file which is not known as a collada one: %s" % args[0])
    doc = dae.Doc(args[0])
    text = client.data.decode()
    require(text.endswith("close_connection"), "the end of the simulation is not told to the viewer: ...%r" % text[-60:])
    steps = [{}]
    for line in text[:-len("close_connection")].splitlines():
        x = line.split(" ")
        require(len(x) == 13, "line %r" % line)
        if x[0] in steps[-1]:
            steps.append({})
        steps[-1][x[0]] = [float(y) for y in x[1:]]
    mv = moving_frames(b, flat)
    ctx.nt(len(mv) > 1 and case["steps"] > 1)
    if not mv and not flat:
        require(steps == [{}], "nothing moves")
        return
    compare(case, b, frames, rec, steps, doc, flat)


@CHECK.facet(lambda: stream_case(kind=st.sampled_from(["nobody", "no program", "leaves"])), quick=40, shards=4, rule="at least a body")
def alone(case, ctx):
    """a viewer which is missing, or closed by the user, does not stop the simulation"""
    m = fakes.visu("visu_collada")
    give_masses(case)
    b, _ = make_scene(case["s"])
    usable(ctx, b)
    ctx.nt(len(b.bodies) > 1)
    d = ctx.scratch()
    old, tempfile.tempdir = tempfile.tempdir, d
    kind = case["kind"]
    ctx.label(kind)
    com = m.DaenimCom(None, daenim_path=os.path.join(d, "nothing") if kind == "no program" else program(d), port=20000 + os.getpid() % 180 * 60, timeout=.05 if kind != "leaves" else 30, flat=case["flat"])
    if kind == "leaves":
        class Leaver(Client):
            def run(self):
                for _ in range(5000):
                    try:
                        socket.create_connection(self.addr, 1.).close()
                        return
                    except OSError:
                        time.sleep(.002)
        Leaver("127.0.0.1", com.port)
    fin = []

    class Last(Observer):
        def init(self, world, timeline):
            pass

        def update(self, dt):
            fin.append(dt)

        def finish(self):
            fin.append("finish")
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            frames, rec = run(ctx, case, b, [com, Last()])
    finally:
        tempfile.tempdir = old
    require(len(rec) == case["steps"] and len(fin) == case["steps"] + 1 and fin[-1] == "finish", "the simulation does not go to its end: %s" % fin)


@CHECK.facet(lambda: stream_case(closed=st.booleans(), before=st.booleans(), browser=st.sampled_from([None, "fox"]), extra=st.booleans(), port=st.sampled_from([5000, 6001])), quick=400, shards=4, rule="at least two moving frames and two steps")
def websocket(case, ctx):
    """pydaenimCom: messages of the web viewer"""
    m = fakes.visu("")
    # arboris.visu may have been imported with an older stand-in
    fakes.FakeSocket.made[:] = []
    fakes.Viewer.calls[:] = []
    give_masses(case)
    b, _ = make_scene(case["s"], names=case["names"])
    usable(ctx, b)
    flat = case["flat"]
    path = os.path.join(ctx.scratch(), "scene.dae")
    m.write_collada_scene(b.world, path, flat=flat)
    kw = {"width": 640} if case["extra"] else {}
    timers = []

    class Timer(object):
        def __init__(self, delay, f, args=(), kwargs=None):
            self.a = (f, args, kwargs or {})
            timers.append(self)

        def start(self):
            f, a, k = self.a
            f(*a, **k)
    keep = m.Timer
    m.Timer = Timer
    try:
        com = m.pydaenimCom(path, browser=case["browser"], port=case["port"], flat=flat, name="live", **kw)
    finally:
        m.Timer = keep
    sock = m.pydaenim.pydaenimWebSocket.made[-1]
    require(sock.listening == 1 and sock.port == case["port"] and sock.host == "127.0.0.1", "the server listens")
    calls = m.pydaenim.create_pydaenimViewer.__globals__["Viewer"].calls
    require(len(calls) == 1 and calls[0][0] == path, "viewer of the scene: %s" % calls)
    k = calls[0][1]
    require(k == dict(kw, host="127.0.0.1", port=case["port"], browser=case["browser"]), "options of the viewer: %s" % k)
    if case["before"]:
        # another world is shown first
        other = World()
        other.add_link(other.ground, TzJoint(gpos=3.), Body("body1", mass=np.eye(6)))
        simulate(other, [0., .1, .2], [com])
        require(len(sock.messages) == 2, "%d messages for 2 steps" % len(sock.messages))
        sock.messages[:] = []
    sock.closed = case["closed"]
    frames, rec = run(ctx, case, b, [com])
    mv = moving_frames(b, flat)
    ctx.nt(len(mv) > 1 and case["steps"] > 1)
    require(com.name == "live", "name")
    require(len(rec) == case["steps"], "the simulation goes to its end")
    if case["closed"]:
        ctx.label("closed")
        return
    steps = []
    require(len(sock.messages) == len(rec), "%d messages for %d steps" % (len(sock.messages), len(rec)))
    for x, (t, _) in zip(sock.messages, rec):
        x = json.loads(x)
        require(x[0] == "update_transforms" and len(x) == 3, "message %s" % x[0])
        close(x[1], t, 1e-12, "time")
        require(all(len(v) == 12 for v in x[2].values()), "transforms of 12 values")
        steps.append(x[2])
    compare(case, b, frames, rec, steps, dae.Doc(path), flat)


@CHECK.facet(lambda: st.fixed_dictionaries({"s": scene(), "what": st.sampled_from(["world", "file", "animation", "group"]), "web": st.booleans(), "steps": st.integers(1, 4), "browser": st.sampled_from([None, "fox"])}), quick=60, shards=4, rule="at least a body")
def views(case, ctx):
    """view(): shows the scene of a world, a file, or an animation made of a scene and a log"""
    import h5py
    from arboris.observers import Hdf5Logger
    give_masses(case)
    b, frames = make_scene(case["s"])
    usable(ctx, b)
    ctx.nt(len(b.bodies) > 1)
    ctx.label(case["what"] + (" web" if case["web"] else ""))
    d = ctx.scratch()
    m = fakes.visu("") if case["web"] else fakes.visu("visu_collada")
    sc = os.path.join(d, "scene.dae")
    w = b.world
    m.write_collada_scene(w, sc)
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        if case["web"]:
            calls = m.pydaenim.create_pydaenimViewer.__globals__["Viewer"].calls
            calls[:] = []
            kw = {"browser": case["browser"]} if case["browser"] else {}
            m.view(w if case["what"] == "world" else sc, width=3, **kw)
            require(len(calls) == 1, "one viewer")
            shown = calls[0][0]
            require(calls[0][1].get("width") == 3 and calls[0][1].get("browser") == case["browser"], "options: %s" % calls[0][1])
            doc = dae.Doc(shown)
        else:
            p = program(d)
            if case["what"] == "world":
                m.view(w, daenim_path=p)
            elif case["what"] == "file":
                m.view(sc, daenim_path=p)
            else:
                log = os.path.join(d, "sim.h5")
                g = {"group": "/x/y"} if case["what"] == "group" else {}
                probe = Poses(frames)
                sim.run(ctx, w, [k * .01 for k in range(case["steps"] + 1)], [probe, Hdf5Logger(log, mode="w", **g)])
                if not np.isfinite([x[-1] for t, x in probe.rec]).all():
                    ctx.skip("diverging")
                m.view(sc, log, daenim_path=p, **({"hdf5_group": "/x/y"} if g else {}))
            a = arguments(d)
            require(len(a) == 1 and a[0].endswith(".dae"), "arguments of the viewer: %s" % a)
            left = [x for x in os.listdir(d) if x.endswith(".dae") and x not in ("scene.dae", "shown.dae")]
            require(not left, "files left after the viewer is closed: %s" % left)
            doc = dae.Doc(os.path.join(d, "shown.dae"))
    finally:
        tempfile.tempdir = old
    if not case["web"] and case["what"] in ("animation", "group"):
        anim = doc.animations()
        for k, (t, poses) in enumerate(probe.rec):
            H = evaluate(doc, k, anim)
            for f, p in zip(frames, poses):
                require(np.abs(H[f.name] - p).max() < 1e-5 * (1 + np.abs(p).max()), "step %d: %s is shown at a wrong place" % (k, f.name))
    else:
        for f in frames:
            close(doc.by_id[f.name].H, f.pose, 1e-6, "place of %s" % f.name)
