"""Makes /repo/src importable (working tree, no bytecode) and finds Hypothesis offline.

Hypothesis is not in the repository's own interpreter (/opt/venv); it is taken from the pre-installed
tooling venv, or from the offline wheelhouse unpacked by setup (deps/), whichever is there. Only the
names hypothesis/_hypothesis_* are redirected so no other package of that venv can shadow the
repository's dependencies.
"""
import importlib.abc
import importlib.machinery
import os
import pathlib
import sys
import warnings

VERIF = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
_SITES = [str(p) for p in (
    VERIF / "deps",
    pathlib.Path("/opt/veriftools/pyvenv/lib/python3.12/site-packages"),
) if p.is_dir()]


class _HypothesisFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if path is None and (name == "hypothesis" or name.startswith("_hypothesis_")):
            return importlib.machinery.PathFinder.find_spec(name, _SITES)
        return None


sys.dont_write_bytecode = True
sys.meta_path.append(_HypothesisFinder())
sys.path.insert(0, str(SRC))
warnings.simplefilter("ignore")
