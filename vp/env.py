"""Import paths: code under test from /repo, numpy & co from the interpreter's
own environment, Hypothesis (pure Python) appended at the very end of sys.path
so that its neighbours (a different numpy) can never shadow anything."""
import os
import sys
import glob
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "vp-hypothesis"))
    for p in (VERIF, REPO):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        cands = sorted(glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"))
        for c in cands:
            if os.path.isdir(os.path.join(c, "hypothesis")):
                sys.path.append(c)
                break
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            tgt = tempfile.mkdtemp(prefix="vp-hyp-")
            subprocess.check_call([sys.executable, "-m", "pip", "install", "-q", "--no-index",
                                   "--find-links", "/opt/veriftools/wheels", "--no-deps",
                                   "--target", tgt, "hypothesis", "sortedcontainers", "attrs"])
            sys.path.append(tgt)
            import hypothesis  # noqa: F401
