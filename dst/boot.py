"""Process start-up: load skfolio from the working tree and pin what varies."""

import ast
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pkgutil
import sys

REPO = os.environ.get("DST_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "skfolio")

PINNED_ENV = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "JOBLIB_MULTIPROCESSING": "1",
    "TZ": "UTC",
}

#: code objects of every skfolio function, filled while importing
CODES = []


def reexec_pinned():
    """Restart the interpreter once with a pinned environment."""
    if os.environ.get("DST_PINNED") == "1":
        return
    env = dict(os.environ)
    for k, v in PINNED_ENV.items():
        env[k] = v
    env["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", "0")
    env["DST_PINNED"] = "1"
    os.execve(sys.executable, list(sys.orig_argv), env)


class _Loader(importlib.machinery.SourceFileLoader):
    """Always compiles from source: a stale cached bytecode file is never used."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        code = self.source_to_code(data, path)
        _collect(code)
        _cleanup_lines(ast.parse(data), path)
        return code


# per file: lines of clean-up code (finally, except, __exit__), and the header lines
# of try and with statements. No Python code survives an exception between acquiring
# something and entering the try block, or inside its clean-up, so none is raised there.
CLEANUP = {}
HEADS = {}


def _cleanup_lines(tree, path):
    body, heads = CLEANUP.setdefault(path, set()), HEADS.setdefault(path, set())

    def span(nodes):
        for n in nodes:
            body.update(range(n.lineno, n.end_lineno + 1))

    for n in ast.walk(tree):
        if isinstance(n, ast.Try | ast.TryStar):
            heads.add(n.lineno)
            span(n.finalbody)
            span(n.handlers)
        elif isinstance(n, ast.With | ast.AsyncWith):
            heads.update(range(n.lineno, n.body[0].lineno))
        elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__"):
            span(n.body)


def _collect(code):
    for const in code.co_consts:
        if hasattr(const, "co_code"):
            CODES.append(const)
            _collect(const)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "skfolio" and not fullname.startswith("skfolio."):
            return None
        rel = fullname.split(".")
        base = os.path.join(SRC, *rel)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname,
                init,
                loader=_Loader(fullname, init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py")
            )
        return None


def load():
    """Import every skfolio module from the working tree."""
    sys.dont_write_bytecode = True
    if any(isinstance(f, _Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, _Finder())
    pkg = importlib.import_module("skfolio")
    for m in pkgutil.walk_packages(pkg.__path__, "skfolio."):
        importlib.import_module(m.name)
    # third-party modules that are otherwise imported lazily, inside a run
    import cvxpy  # noqa: F401
    import joblib  # noqa: F401
    import plotly.io  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.model_selection  # noqa: F401
    import sklearn.pipeline  # noqa: F401

    assert os.path.dirname(pkg.__file__) == PKG, pkg.__file__
