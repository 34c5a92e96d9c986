"""Stand-ins for the optional pydaenim package (a web viewer, not installed here)."""
import sys
import types
import importlib


class FakeSocket(object):
    """what pydaenim.pydaenimWebSocket has to offer: a server which keeps the messages"""
    made = []

    def __init__(self, host="127.0.0.1", port=5000, timeout=5):
        self.host, self.port, self.timeout = host, port, timeout
        self.messages = []
        self.listening = 0
        self.closed = False
        FakeSocket.made.append(self)

    def listen(self):
        self.listening += 1

    def send_message(self, msg):
        if self.closed:
            raise IOError("closed")
        self.messages.append(msg)


class Viewer(object):
    calls = []


def create_viewer(path, **kw):
    Viewer.calls.append((path, kw))


def install():
    """always the stand-in: no browser is started by a check"""
    m = types.ModuleType("pydaenim")
    m.pydaenimWebSocket = FakeSocket
    m.create_pydaenimViewer = create_viewer
    sys.modules["pydaenim"] = m


def visu(name):
    """arboris.visu.<name>, with the stand-in"""
    install()
    p = sys.modules.get("arboris.visu")
    if p is not None and getattr(p, "__file__", None) is None:
        # half a package, left by a partial import
        for k in [k for k in sys.modules if k.startswith("arboris.visu")]:
            del sys.modules[k]
    return importlib.import_module("arboris.visu" + ("." + name if name else ""))
