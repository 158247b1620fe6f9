"""Makes Hypothesis importable inside the repository's interpreter (it is installed in
another virtual environment), without exposing anything else from there."""
import importlib.machinery
import os
import sys
import tempfile
import zipfile

NAMES = {
    "hypothesis", "sortedcontainers", "attr", "attrs",
    "_hypothesis_ftz_detector", "_hypothesis_globals",
}
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _Finder:
    def __init__(self, path):
        self.path = [path]

    def find_spec(self, name, path=None, target=None):
        if path is None and name.split(".")[0] in NAMES:
            return importlib.machinery.PathFinder.find_spec(name, self.path)
        return None


def _unpack():
    d = tempfile.mkdtemp(prefix="pbt-hyp-")
    for w in os.listdir(WHEELS):
        if w.split("-")[0].lower() in {"hypothesis", "sortedcontainers", "attrs"}:
            zipfile.ZipFile(os.path.join(WHEELS, w)).extractall(d)
    return d


def install():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    site = SITE if os.path.isdir(os.path.join(SITE, "hypothesis")) else _unpack()
    sys.meta_path.append(_Finder(site))
    import hypothesis  # noqa: F401
