"""Seeded search over plans, reporting, minimisation, replay and evidence."""

import argparse
import copy
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import select
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """Passed to ``execute``: forks runs and counts what happened in them."""

    def __init__(self, timeout=75.0):
        self.timeout = timeout
        self.comparisons = 0
        self.stats = {}
        self.planned = {}
        self.injected = {}
        self.steps = 0
        self.switches = 0
        self.inter = set()
        self.hits = set()
        self.sites = set()
        self.states = set()
        self.nontrivial = False
        self.hash = hashlib.sha1()
        self.notes = []

    def fork(self, fn, *args):
        from dst import fork

        return fork.call(fn, *args, timeout=self.timeout)

    def record(self, *what):
        """Append to the history whose digest identifies the execution."""
        self.hash.update(repr(what).encode())

    def fault_planned(self, kind, n=1):
        self.planned[kind] = self.planned.get(kind, 0) + n

    def fault(self, kind, n=1):
        if n:
            self.injected[kind] = self.injected.get(kind, 0) + n
            self.nontrivial = True

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def sched(self, info):
        """info: dict with steps, switched, digest of one scheduler."""
        self.steps += info["steps"]
        self.switches += info["switched"]
        self.hits.update(info.get("hits", ()))
        if info["switched"]:
            self.inter.add(info["digest"])
        # handing over at the end of a thread is not an interleaving
        if info.get("preempted", info["switched"]):
            self.nontrivial = True
        self.record("sched", info["digest"], info["steps"])


class Violation(Exception):
    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


def run_seed(base, prop, index):
    h = hashlib.sha256(f"{base}/{prop}/{index}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def make_plan(mod, base, index, tier):
    seed = run_seed(base, mod.ID, index)
    rng = random.Random(seed)
    plan = mod.gen(rng, tier)
    plan["seed"] = seed
    plan["index"] = index
    return plan


def execute(mod, plan, timeout=75.0):
    """Run one plan; returns a plain result dict."""
    from dst import fork

    ctx = Ctx(timeout)
    vio = None
    t0 = time.monotonic()
    err = None
    try:
        mod.execute(copy.deepcopy(plan), ctx)
    except Violation as v:
        vio = {"kind": v.kind, "detail": v.detail}
    except fork.Stuck as e:
        # ordinary runs take well under a second per call
        vio = {"kind": "hang", "detail": f"a call did not return: {e}"}
    except fork.Died as e:
        err = f"died: {e}"
    except Exception:  # noqa: BLE001
        err = traceback.format_exc()
    ctx.record("verdict", vio["kind"] if vio else None)
    return {
        "violation": vio,
        "error": err,
        "comparisons": ctx.comparisons,
        "stats": ctx.stats,
        "planned": ctx.planned,
        "injected": ctx.injected,
        "steps": ctx.steps,
        "switches": ctx.switches,
        "inter": sorted(ctx.inter),
        "sites": sorted(ctx.sites),
        "hits": sorted(ctx.hits),
        "states": sorted(ctx.states),
        "nontrivial": ctx.nontrivial,
        "digest": ctx.hash.hexdigest()[:20],
        "notes": ctx.notes,
        "wall": time.monotonic() - t0,
    }


# ------------------------------------------------------------------ minimiser
def _list_paths(plan, names, prefix=()):
    for k, v in plan.items():
        if isinstance(v, list) and k in names and v:
            yield (*prefix, k)
        elif isinstance(v, dict):
            yield from _list_paths(v, names, (*prefix, k))


def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _with(plan, path, value):
    out = copy.deepcopy(plan)
    cur = out
    for k in path[:-1]:
        cur = cur[k]
    cur[path[-1]] = value
    return out


def minimise(mod, plan, kind, seconds):
    """Greedy delta debugging on the lists of the plan, then property hints."""
    deadline = time.monotonic() + seconds
    tries = 0

    def still(p):
        nonlocal tries
        if time.monotonic() > deadline:
            return False
        tries += 1
        r = execute(mod, p)
        return r["violation"] is not None and r["violation"]["kind"] == kind

    best = plan
    names = set(getattr(mod, "SHRINK", ()))
    # selections of source lines become the lines at which threads were switched
    for path in list(_list_paths(best, {"switches"})):
        old = _get(best, path)
        most = max((s[3] for s in old if s[0] == "@"), default=0)
        if most:
            hits = execute(mod, best)["hits"]
            cand = _with(best, path, [["@=", h, most] for h in hits] + [s for s in old if s[0] != "@"])
            if still(cand):
                best = cand
    changed = True
    while changed and time.monotonic() < deadline:
        changed = False
        for path in list(_list_paths(best, names)):
            n = len(_get(best, path))
            size = n
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(_get(best, path)):
                    cur = _get(best, path)
                    cand = _with(best, path, cur[:i] + cur[i + size:])
                    ok = getattr(mod, "valid", lambda p: True)(cand)
                    if ok and still(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                    if time.monotonic() > deadline:
                        break
                size = size // 2
        hints = getattr(mod, "simplify", None)
        if hints is not None:
            for cand in hints(copy.deepcopy(best)):
                if json.dumps(cand, sort_keys=True) == json.dumps(best, sort_keys=True):
                    continue
                if still(cand):
                    best = cand
                    changed = True
                    break
    return best, tries


# ------------------------------------------------------------------- workers
def _send(fd, obj):
    data = pickle.dumps(obj, protocol=5)
    data = struct.pack("<Q", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _worker(mod, base, tier, start, stride, total, limit, fd, recheck):
    try:
        i = start
        while i < total:
            lim = struct.unpack("<q", limit[:8])[0]
            if i >= lim:
                break
            plan = make_plan(mod, base, i, tier)
            res = execute(mod, plan)
            res["index"] = i
            if res["violation"] is None and res["error"] is None and i % recheck == 0:
                again = execute(mod, plan)
                res["recheck"] = again["digest"] == res["digest"]
            if i < 3 * stride:
                res["plan"] = plan
            _send(fd, res)
            i += stride
        _send(fd, None)
    except BaseException:  # noqa: BLE001
        _send(fd, {"fatal": traceback.format_exc()})
    os._exit(0)


def explore(mod, base, tier, total, workers, wall, recheck=23, stop=True):
    limit = mmap.mmap(-1, 8)
    limit[:8] = struct.pack("<q", 1 << 60)
    fds = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            _worker(mod, base, tier, w, workers, total, limit, wr, recheck)
        os.close(wr)
        fds[r] = [pid, bytearray()]
    results = []
    fatal = None
    t0 = time.monotonic()
    stopped = False
    while fds:
        if time.monotonic() - t0 > wall and not stopped:
            limit[:8] = struct.pack("<q", 0)
            stopped = True
        ready, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in ready:
            b = os.read(fd, 1 << 20)
            pid, buf = fds[fd]
            buf += b
            end = not b
            while len(buf) >= 8:
                n = struct.unpack("<Q", buf[:8])[0]
                if len(buf) < 8 + n:
                    break
                obj = pickle.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                if obj is None:
                    end = True
                elif "fatal" in obj:
                    fatal = obj["fatal"]
                    limit[:8] = struct.pack("<q", 0)
                    end = True
                else:
                    results.append(obj)
                    if obj["violation"] is not None and stop:
                        cur = struct.unpack("<q", limit[:8])[0]
                        limit[:8] = struct.pack("<q", min(cur, obj["index"] + 1))
            if end:
                os.close(fd)
                os.waitpid(pid, 0)
                del fds[fd]
    results.sort(key=lambda r: r["index"])
    return results, fatal, stopped


# ---------------------------------------------------------------------- main
def load_known():
    """Known findings: lines 'finding: property=<id> signature=<text> :: what'."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    head, _, what = line[len("finding:"):].partition("::")
                    d = dict(p.split("=", 1) for p in head.split() if "=" in p)
                    out.append((d["property"], d["signature"], what.strip()))
    return out


def known_match(known, prop, vio):
    for p, sig, what in known:
        if p == prop and sig and sig in (vio["kind"] + " " + vio["detail"]).replace(" ", "_"):
            return what
    return None


def evidence(mod, tier, seed, results, wall, extra):
    inj, plan_, stats = {}, {}, {}
    inter, sites, keys, states = set(), set(), set(), set()
    steps = switches = comps = 0
    rechecks = agree = 0
    errors = 0
    for r in results:
        for k, v in r["injected"].items():
            inj[k] = inj.get(k, 0) + v
        for k, v in r["planned"].items():
            plan_[k] = plan_.get(k, 0) + v
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
        inter.update(r["inter"])
        sites.update(r["sites"])
        states.update(r["states"])
        steps += r["steps"]
        switches += r["switches"]
        comps += r["comparisons"]
        if r["nontrivial"]:
            keys.add(r["digest"])
        if "recheck" in r:
            rechecks += 1
            agree += bool(r["recheck"])
        errors += r["error"] is not None
    samples = []
    for r in results:
        if "plan" in r and len(samples) < 3:
            p = json.dumps(r["plan"])
            samples.append(
                {
                    "index": r["index"],
                    "plan": r["plan"] if len(p) < 2500 else p[:2500] + "...",
                    "injected": r["injected"],
                    "switches": r["switches"],
                    "history_digest": r["digest"],
                }
            )
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples,
        "oracle_comparisons": comps,
        "runs_per_hour": round(len(results) / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(len({r["index"] for r in results}) / max(wall, 1e-9) * 3600),
        "simulated_time_steps": steps,
        "simulated_time_unit": "yield points passed (executed skfolio source lines and simulated I/O operations)",
        "context_switches": switches,
        "distinct_interleavings": len(inter),
        "interleaving_measure": "digest of the sequence (step, from thread, to thread) of one scheduler",
        "faults_planned": plan_,
        "faults_injected": inj,
        "distinct_fault_sites": len(sites),
        "distinct_states": len(states),
        "workload": dict(sorted(stats.items())),
        "determinism_rechecks": rechecks,
        "determinism_agreements": agree,
        "components_real": mod.REAL,
        "components_stub": mod.STUB,
        "errors": errors,
    }
    cov.update(extra)
    return cov


def main(argv=None):
    from dst import boot

    boot.reexec_pinned()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--index", type=int)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--survey", action="store_true", help="list all violations, no evidence")
    ap.add_argument("--digests", action="store_true", help="print one digest per run")
    args = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.monotonic()

    from dst import locks

    locks.install()
    boot.load()
    from dst import monitor

    monitor.install()
    from dst import parallel

    parallel.install()
    mod = importlib.import_module(f"dst.props.{args.prop.lower()}")
    if hasattr(mod, "setup"):
        mod.setup()

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        r = execute(mod, rep["plan"])
        print(json.dumps({"violation": r["violation"], "error": r["error"], "digest": r["digest"],
                          "expected_digest": rep.get("digest"), "trace": r["notes"]}, indent=1))
        if r["violation"]:
            print(f"VIOLATION property={mod.ID} replay={args.replay}")
            return 1
        return 2 if r["error"] else 0
    if args.index is not None:
        plan = make_plan(mod, base, args.index, tier)
        print(json.dumps(plan, indent=1))
        r = execute(mod, plan)
        print(json.dumps(r, indent=1))
        return 1 if r["violation"] else 0

    total = args.runs or mod.RUNS[tier]
    workers = args.workers or min(8, os.cpu_count() or 1)
    wall = {"quick": 560.0, "thorough": 3 * 3600.0}[tier]
    results, fatal, stopped = explore(mod, base, tier, total, workers, wall,
                                      stop=not args.survey)
    if args.survey:
        for r in results:
            if r["violation"]:
                print(r["index"], r["violation"]["kind"], r["violation"]["detail"][:900])
            if r["error"]:
                print(r["index"], "ERROR", r["error"])
            if r.get("recheck") is False:
                print(r["index"], "NOT DETERMINISTIC")
        n = sum(r["wall"] for r in results)
        slow = sorted(results, key=lambda r: -r["wall"])[:3]
        print(len(results), "runs", f"{n:.0f} worker-s", f"{time.monotonic() - t0:.0f} s",
              "fatal" if fatal else "", [(r["index"], round(r["wall"], 1)) for r in slow],
              {k: v for r in [evidence(mod, tier, base, results, 1, {})] for k, v in r.items()
               if k in ("faults_injected", "oracle_comparisons", "distinct_nontrivial", "context_switches",
                        "distinct_fault_sites", "determinism_rechecks", "determinism_agreements")})
        if fatal:
            print(fatal)
        return 0
    if args.digests:
        for r in results:
            print(r["index"], r["digest"], r["violation"]["kind"] if r["violation"] else "-")
    known = load_known()
    status = 0
    reported = []
    extra = {"stopped_by_wall_budget": stopped, "workers": workers}
    unreproduced = []
    nviol = 0
    for r in results:
        if not r["violation"]:
            continue
        what = known_match(known, mod.ID, r["violation"])
        if what is not None:
            print(f"KNOWN-FINDING: property={mod.ID} {what}")
            continue
        if status == 1:
            nviol += 1
            continue
        plan = make_plan(mod, base, r["index"], tier)
        again = execute(mod, plan)
        if again["violation"] is None or again["digest"] != r["digest"]:
            again = execute(mod, plan)
        if again["violation"] is None:
            unreproduced.append(r)
            continue
        kind = again["violation"]["kind"]
        if kind == "hang":
            small, tries = plan, 0
        else:
            small, tries = minimise(mod, plan, kind, 90 if tier == "quick" else 600)
        final = execute(mod, small)
        second = execute(mod, small)
        if final["violation"] is None:
            small, final = plan, again
        path = write_replay(mod, base, tier, r, small, final, second, tries, plan)
        print(f"seed={run_seed(base, mod.ID, r['index'])} run={r['index']} kind={kind}")
        print("detail: " + final["violation"]["detail"][:1500])
        print(f"VIOLATION property={mod.ID} replay={path}")
        sys.stdout.flush()
        nviol += 1
        status = 1
    errs = [r for r in results if r["error"]]
    if status == 0 and (fatal or errs or unreproduced):
        status = 2
        if fatal:
            print("harness error:\n" + fatal, file=sys.stderr)
        for r in errs[:3]:
            print(f"run {r['index']} error:\n{r['error']}", file=sys.stderr)
        for r in unreproduced[:3]:
            print(f"run {r['index']} violation not reproduced: {r['violation']}", file=sys.stderr)
    if status == 0 and (not results or not any(r["comparisons"] for r in results)):
        print("nothing was checked", file=sys.stderr)
        status = 2
    wall_s = time.monotonic() - t0
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": base,
        "level": mod.LEVEL,
        "coverage": evidence(mod, tier, base, results, wall_s, extra),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
        "assumptions": mod.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(
        f"{mod.ID}: {c['evaluations']} runs, {c['distinct_nontrivial']} distinct non-trivial, "
        f"{c['oracle_comparisons']} comparisons, {c['context_switches']} switches, "
        f"faults {c['faults_injected']}, {wall_s:.1f} s, exit {status}"
    )
    return status


def write_replay(mod, base, tier, r, small, final, second, tries, original):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.ID}-{run_seed(base, mod.ID, r['index'])}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": mod.ID,
                "base_seed": base,
                "run_seed": run_seed(base, mod.ID, r["index"]),
                "run_index": r["index"],
                "tier": tier,
                "violation": final["violation"],
                "digest": final["digest"],
                "replayed_identically": bool(second["digest"] == final["digest"]),
                "trace": final["notes"],
                "plan": small,
                "minimiser_executions": tries,
                "original_plan": original,
                "replay_cmd": f"./check {mod.ID} --replay {path}",
            },
            f,
            indent=1,
        )
    return path
