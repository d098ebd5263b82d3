"""Make Hypothesis importable in the project's interpreter.

The project's environment (/opt/venv) has torch, scipy and lalsuite but not
Hypothesis; the tool environment (/opt/veriftools/pyvenv, same Python 3.12)
has Hypothesis but not torch. Only the few names Hypothesis consists of are
resolved from the latter, so that no other package can be shadowed.
"""
import importlib.machinery
import os
import sys

NAMES = {
    "hypothesis",
    "sortedcontainers",
    "_hypothesis_globals",
    "_hypothesis_ftz_detector",
    "_hypothesis_pytestplugin",
}
CANDIDATES = [
    "/opt/veriftools/pyvenv/lib/python3.12/site-packages",
]


class _Finder:
    def find_spec(self, name, path=None, target=None):
        if path is None and name in NAMES:
            for root in CANDIDATES:
                if os.path.isdir(root):
                    spec = importlib.machinery.PathFinder.find_spec(
                        name, [root]
                    )
                    if spec is not None:
                        return spec
        return None


sys.meta_path.append(_Finder())
