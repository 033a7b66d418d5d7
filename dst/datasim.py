"""Simulated world of the dataset properties: published files, client processes."""

import gzip
import io
import os
import sys
import traceback

import numpy as np
import pandas as pd

from dst import simio, simrun

NAMES = {"ftse": "ftse100_dataset", "nasdaq": "nasdaq_dataset", "iv": "sp500_implied_vol_dataset"}
ROWS = {"ftse": (600, 9), "nasdaq": (90, 4), "iv": (500, 12)}
FILES = {}
FRAMES = {}
STUB = ["network (urllib opener serving published files)", "process death, disk errors", "time"]
REAL = ["skfolio.datasets", "joblib persistence", "gzip", "pandas CSV reader", "shutil, tempfile",
        "files (in a scratch directory)"]


def setup():
    for i, (key, name) in enumerate(NAMES.items()):
        n, k = ROWS[key]
        rs = np.random.RandomState(1000 + i)
        v = np.round(50 + rs.standard_normal((n, k)).cumsum(axis=0), 6)
        v[rs.uniform(size=v.shape) < 0.02] = np.nan
        df = pd.DataFrame(v, columns=[f"{key}{j}" for j in range(k)],
                          index=pd.date_range("2015-01-02", periods=n, freq="B"))
        df.index.name = "Date"
        text = df.to_csv()
        FILES[f"{name}.csv.gz"] = gzip.compress(text.encode(), mtime=0)
        back = pd.read_csv(io.StringIO(text), index_col=0)
        back.index = pd.to_datetime(back.index, format="%Y-%m-%d")
        FRAMES[key] = back


def loader(key):
    import skfolio.datasets as sd

    return {"ftse": sd.load_ftse100_dataset, "nasdaq": sd.load_nasdaq_dataset,
            "iv": sd.load_sp500_implied_vol_dataset}[key]


def world(root, entropy):
    """Prepare this forked process: scratch home, simulated disk and network."""
    simrun.pin_entropy(entropy)
    os.environ["HOME"] = root
    os.environ.pop("SKFOLIO_DATA", None)
    os.environ["TMPDIR"] = root
    import tempfile

    tempfile.tempdir = None
    os.chdir(root)
    simio.install()
    # errors of a killed client's finalisers are part of the simulation
    sys.unraisablehook = lambda u: None


def folder(root, which):
    """Argument for ``data_home``; 'default' and 'env' mean: not given."""
    return {"a": os.path.join(root, "a"), "b": os.path.join(root, "deep", "b"),
            "home": os.path.join("~", "h"), "default": None, "env": None}[which]


def where(root, which):
    return {"a": "a", "b": "deep/b", "home": "h", "default": "skfolio_data", "env": "envdir"}[which]


def fetch(c, root, key, which="a", allow=True, as_path=False):
    """One fetch by client ``c``; plain outcome."""
    import pathlib

    if which == "env":
        os.environ["SKFOLIO_DATA"] = os.path.join(root, "envdir")
    else:
        os.environ.pop("SKFOLIO_DATA", None)
    home = folder(root, which)
    if as_path and home is not None:
        home = pathlib.Path(home)
    with simio.as_client(c):
        try:
            df = loader(key)(data_home=home, download_if_missing=allow)
        except simio.SimCrash:
            return ["killed"]
        except simio.SimEscape as e:
            return ["escape", str(e)]
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == "Killed":
                raise
            return ["exc", type(e).__name__, isinstance(e, OSError), str(e)[:200],
                    traceback.format_exc()[-600:]]
    return ["ok", same(df, key)]


def same(df, key):
    """None if ``df`` is exactly the published dataset, else what differs."""
    ref = FRAMES[key]
    if not isinstance(df, pd.DataFrame):
        return f"a {type(df).__name__} was returned"
    if list(df.columns) != list(ref.columns):
        return f"columns {list(df.columns)[:4]}"
    if df.shape != ref.shape:
        return f"shape {df.shape} instead of {ref.shape}"
    if not df.index.equals(ref.index):
        return "index differs"
    if not np.array_equal(df.to_numpy(), ref.to_numpy(), equal_nan=True):
        return "values differ"
    return None


def clear(c, root, which="a"):
    import skfolio.datasets._base as sdb

    if which == "env":
        os.environ["SKFOLIO_DATA"] = os.path.join(root, "envdir")
    else:
        os.environ.pop("SKFOLIO_DATA", None)
    f = getattr(sdb, "clear_data_home")
    with simio.as_client(c):
        try:
            f(folder(root, which))
        except simio.SimCrash:
            return ["killed"]
        except simio.SimEscape as e:
            return ["escape", str(e)]
        except BaseException as e:  # noqa: BLE001
            if type(e).__name__ == "Killed":
                raise
            return ["exc", type(e).__name__, isinstance(e, OSError), str(e)[:200],
                    traceback.format_exc()[-600:]]
    return ["ok", None]


DISK = ["kill", "kill", "kill", "kill", "enospc", "eio", "eacces"]
NET = ["connect", "http404", "http503", "reset", "cut", "cut", "timeout", "html"]


def gen_disk(rng, ops=40):
    r = rng.random()
    at = rng.randrange(ops) if r < 0.85 else rng.randrange(3 * ops)
    return {"at": at, "kind": rng.choice(DISK), "frac": rng.choice([0.0, 0.3, 0.5, 0.9, 0.999])}


def gen_net(rng):
    return {"at": 0, "kind": rng.choice(NET), "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 0.999]),
            "nolength": rng.random() < 0.5}
