"""Process-wide settings are left as they were found."""

import gc
import json
import locale
import logging
import os
import signal
import socket
import sys
import tempfile
import warnings

import numpy as np

from dst import canon, datasim, monitor, opsuite, simio, simrun, work
from dst.runner import Violation

ID = "P15"
RUNS = {"quick": 2000, "thorough": 15000}
LEVEL = "fault_enumeration"
RULE = ("a case is one public operation run to its end and up to four times aborted at a drawn source line, under a drawn set of "
        "non-default process-wide settings; two cases are the same if operation, settings and abort sites are the same; "
        "non-trivial if the operation completed or at least one abort happened")
REAL = work.REAL
STUB = ["network and disk faults of dataset fetches", "interrupts (raised at a source line)", "solver outcome when a solver fault is planned", "OS entropy"]
ASSUMPTIONS = ["abort points are the starts of executed skfolio source lines outside clean-up code",
               "no other thread runs: Python's own warnings context manager is not thread-safe"]
SHRINK = ("aborts", "figures", "then", "queries", "which", "items", "settings")

SETTINGS = ["filters", "simple_ignore", "simple_always", "errstate", "errcall", "print", "pandas", "sklearn", "environ", "plotting",
            "template", "logging", "recursion", "cwd"]


BUNDLED = ["load_sp500_dataset", "load_sp500_index", "load_factors_dataset"]


def _gen_data(rng):
    ops = []
    for _ in range(rng.choice([1, 2, 3])):
        op = {"op": rng.choice(["fetch", "fetch", "fetch", "clear", "bundled"]), "ds": rng.choice(list(datasim.NAMES)),
              "allow": rng.random() < 0.8, "load": rng.choice(BUNDLED), "net": [], "disk": []}
        r = rng.random()
        if r < 0.3:
            op["net"] = [datasim.gen_net(rng)]
        elif r < 0.6:
            op["disk"] = [{**datasim.gen_disk(rng), "kind": rng.choice(["eio", "enospc", "eacces"])}]
        ops.append(op)
    return {"op": "data", "items": ops, "folder": rng.choice(["a", "b", "home", "default", "env"])}


def gen(rng, tier):
    return {"o": _gen_data(rng) if rng.random() < 0.08 else opsuite.gen(rng), "aborts": [work.Abort.gen(rng) for _ in range(rng.choice([0, 1, 2, 4]))],
            "settings": [s for s in SETTINGS if rng.random() < 0.4], "entropy": rng.randrange(1, 10**6)}


def _apply(settings, scratch):
    import pandas as pd
    import plotly.io as pio
    import sklearn

    warnings.simplefilter("ignore")
    for s in settings:
        if s == "filters":
            warnings.filterwarnings("ignore", message="nothing like this", category=UserWarning)
        elif s == "simple_ignore":
            warnings.simplefilter("ignore", DeprecationWarning)
        elif s == "simple_always":
            warnings.filterwarnings("always", category=ResourceWarning)
        elif s == "errstate":
            np.seterr(divide="ignore", over="warn", invalid="ignore")
        elif s == "errcall":
            np.seterrcall(_errcall)
        elif s == "print":
            np.set_printoptions(precision=3, suppress=True, linewidth=60)
        elif s == "pandas":
            pd.set_option("display.max_rows", 7)
            pd.set_option("display.precision", 4)
            pd.set_option("display.width", 100)
            pd.set_option("display.max_columns", 9)
            pd.set_option("display.expand_frame_repr", False)
            pd.set_option("mode.chained_assignment", None)
            pd.set_option("display.float_format", "{:.3f}".format)
        elif s == "sklearn":
            sklearn.set_config(print_changed_only=False, display="text", working_memory=512)
        elif s == "environ":
            os.environ["SKFOLIO_CHECK"] = "1"
            os.environ["OMP_NUM_THREADS"] = "1"
        elif s == "plotting":
            pd.set_option("plotting.backend", "plotly")
        elif s == "template":
            pio.templates.default = "plotly_dark"
        elif s == "logging":
            logging.getLogger().setLevel(logging.ERROR)
            logging.getLogger("skfolio").setLevel(logging.DEBUG)
        elif s == "recursion":
            sys.setrecursionlimit(3000)
        elif s == "cwd":
            os.chdir(scratch)


def _errcall(kind, flag):
    pass


def _settings():
    """Name -> value of every process-wide setting looked at."""
    import pandas as pd
    import plotly.io as pio
    import sklearn

    out = {
        "warning filters": [repr((a, getattr(m, "pattern", m), c.__name__, getattr(o, "pattern", o), n))
                            for a, m, c, o, n in warnings.filters],
        "warnings.showwarning": repr(warnings.showwarning),
        "numpy error handling": dict(np.geterr()),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "scikit-learn configuration": {k: repr(v) for k, v in sklearn.get_config().items()},
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "plotly template": repr(pio.templates.default),
        "plotly renderer": repr(pio.renderers.default),
        "root logger": [logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable],
        "skfolio logger": [logging.getLogger("skfolio").level, len(logging.getLogger("skfolio").handlers)],
        "logging.raiseExceptions": logging.raiseExceptions,
        "recursion limit": sys.getrecursionlimit(),
        "locale": repr(locale.getlocale()),
        "excepthook": repr(sys.excepthook),
        "stdout": repr(id(sys.stdout)), "stderr": repr(id(sys.stderr)),
        "interrupt handler": repr(signal.getsignal(signal.SIGINT)),
        "socket timeout": repr(socket.getdefaulttimeout()),
        "garbage collection": gc.isenabled(),
        "umask": _umask(),
        "sys.path": list(sys.path),
    }
    pdo = {}
    for k in pd.core.config.config._registered_options if hasattr(pd.core, "config") else _pandas_keys():
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                pdo[k] = repr(pd.get_option(k))
        except Exception:  # noqa: BLE001
            pass
    out["pandas options"] = pdo
    return out


def _pandas_keys():
    import pandas._config.config as c

    return sorted(c._registered_options)


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


class DataOp:
    """Fetching and clearing datasets in a scratch folder with a faulty disk and network."""

    def __init__(self, plan, root, entropy):
        self.plan, self.root, self.fired = plan, root, []
        datasim.world(root, entropy)
        if plan["folder"] == "env":
            os.environ["SKFOLIO_DATA"] = os.path.join(root, "envdir")

    def run(self):
        import skfolio.datasets as sd

        for i, op in enumerate(self.plan["items"]):
            if op["op"] == "bundled":
                getattr(sd, op["load"])()
                continue
            c = simio.Client(f"p{i}", self.root, simio.Network(datasim.FILES), faults=op["disk"], net=op["net"], pid=5000 + i)
            with simio.as_client(c):
                home = datasim.folder(self.root, self.plan["folder"])
                try:
                    if op["op"] == "clear":
                        sd._base.clear_data_home(home)
                    else:
                        datasim.loader(op["ds"])(data_home=home, download_if_missing=op["allow"])
                except OSError:
                    pass
            self.fired += c.fired


def setup():
    datasim.setup()
    # imported lazily by pandas and plotly on first use
    import pandas as pd
    import plotly.io  # noqa: F401

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pd.Series([1.0, 2.0]).plot(backend="plotly")


def _guarded(fn, ctx):
    """Like work.guarded without touching the warning filters."""
    try:
        with monitor.watching(ctx):
            return ["ok", fn()]
    except monitor.Runaway as e:
        return ["exc", "Runaway", False, str(e)]
    except BaseException as e:  # noqa: BLE001
        return ["exc", type(e).__name__, monitor.is_injected(e), str(e)[:300]]


def _run(plan):
    simrun.pin_entropy(plan["entropy"])
    home = os.getcwd()
    with simio.Scratch() if plan["o"]["op"] == "data" else tempfile.TemporaryDirectory(prefix="dst15-") as scratch:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            op = DataOp(plan["o"], scratch, plan["entropy"]) if plan["o"]["op"] == "data" else opsuite.Op(plan["o"])
        _apply(plan["settings"], scratch)
        before = _settings()
        log, bad = [], None
        ctx = monitor.LineContext(record=True)

        def look(what):
            after = _settings()
            d = canon.diff(after, before)
            return f"{what}: {d}" if d else None

        r = _guarded(op.run, ctx)
        log.append(["complete", r[0] if r[0] == "ok" else r[1], None])
        bad = look("operation completed" if r[0] == "ok" else f"operation failed with {r[1]}")
        for a in plan["aborts"]:
            if bad:
                break
            c = work.Abort.context(a, ctx.extent)
            r = _guarded(op.run, c)
            log.append(["abort", r[0] if r[0] == "ok" else r[1], c.fired])
            bad = look(f"operation aborted at {c.fired}" if c.fired else "operation completed")
        os.chdir(home)
    return log, bad, getattr(op, "fired", [])


def execute(plan, ctx):
    log, bad, fired = ctx.fork(_run, plan)
    for f in fired:
        ctx.fault("disk or network:" + f)
    ctx.record(json.dumps(plan["o"], sort_keys=True), plan["settings"], log)
    ctx.notes = log
    ctx.count("op:" + plan["o"]["op"])
    if "spec" in plan["o"]:
        ctx.count("class:" + plan["o"]["spec"].get("cls", "Pipeline"))
    for s in plan["settings"]:
        ctx.count("initial setting:" + s)
    ctx.count("first run:" + log[0][1])
    ctx.nontrivial = log[0][1] == "ok"
    ctx.comparisons += len(log)
    for a in plan["aborts"]:
        ctx.fault_planned("abort:" + a["exc"])
    for (_, _, fired), a in zip(log[1:], plan["aborts"], strict=False):
        if fired:
            ctx.fault("abort:" + a["exc"])
            ctx.sites.add(fired)
    if bad:
        raise Violation("setting-changed", f"{plan['o']['op']} {json.dumps(plan['o'].get('spec', ''))[:300]}: {bad}")
