"""Entry point: puts hypothesis and the code under test on the path."""
import importlib.machinery
import logging
import os
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYGSP_REPO", "/repo")  # a scratch copy, for sensitivity runs

# hypothesis (pure Python parts of the tooling environment): only these
# top-level packages are taken from there, everything else is the
# environment of the code under test.
_ALLOWED = {
    "hypothesis", "_hypothesis_globals", "_hypothesis_ftz_detector",
    "_hypothesis_pytestplugin", "sortedcontainers", "attr", "attrs",
}
_SITES = [
    os.path.join(VERIF, ".deps"),
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, _SITES)
        return None


sys.meta_path.append(_Finder)
sys.path[0] = REPO
sys.path.insert(1, VERIF)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
_home = tempfile.gettempdir()
os.environ.setdefault("MPLCONFIGDIR", os.path.join(_home, "pbt-mpl"))

if __name__ == "__main__":
    import pygsp

    got = os.path.realpath(os.path.dirname(pygsp.__file__))
    if got != os.path.realpath(os.path.join(REPO, "pygsp")):
        print("pygsp imported from", got, file=sys.stderr)
        sys.exit(2)
    from pbt import runner

    sys.exit(runner.main(sys.argv[1:]))
