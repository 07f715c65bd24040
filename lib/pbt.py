"""Small property-based-testing runner on top of Hypothesis.

A check module (``/verif/checks/cNN.py``) declares

    PROPERTY = "C01"
    RULE     = "how cases are made / what makes one non-trivial"
    ASSUMPTIONS = [...]
    SUBS     = [Sub(name, strategy, check, quick=.., thorough=..), ...]

``strategy`` is a Hypothesis strategy that yields a JSON-serialisable *case*
(plain dict), ``check(case)`` executes the real code on the case, compares it
with the oracle, raises ``Violation`` when the property is broken and returns a
list of labels (the case is trivial iff the list contains ``"trivial"``).

Every run is a pure function of (code in /repo, VERIF_SEED, tier); a wall clock
budget only ever *truncates* the exploration.
"""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class Sub:
    def __init__(
        self,
        name,
        strategy,
        check,
        quick=100,
        thorough=None,
        shards=1,
        budget=None,
        cost=1.0,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 12 * quick
        self.shards = shards
        self.budget = budget
        self.cost = cost


# --------------------------------------------------------------------------
# executing one case
# --------------------------------------------------------------------------


def _in_repo(tb):
    """Does the traceback pass through the code under test?"""
    root = os.path.join(os.path.realpath(REPO), "simpeg") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case):
    """Return (labels, None) or (None, message of the violation)."""
    case = json.loads(json.dumps(case))  # exactly what a replay would see
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="pbt_")
    try:
        os.chdir(scratch)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            import numpy as np

            np.random.seed(1234)
            with np.errstate(all="ignore"):
                labels = sub.check(case)
        return list(labels or []), None
    except Violation as err:
        return None, str(err)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except HarnessError:
        raise
    except BaseException as err:  # noqa: BLE001
        if _in_repo(err.__traceback__):
            tb = traceback.extract_tb(err.__traceback__)
            loc = [f for f in tb if f.filename.startswith(REPO)][-1]
            return None, (
                f"unexpected {type(err).__name__} on a valid input: {err} "
                f"(at {os.path.relpath(loc.filename, REPO)}:{loc.lineno})"
            )
        if isinstance(err, (IndexError, KeyError, ValueError, TypeError, AttributeError, AssertionError)) and not os.environ.get("VERIF_STRICT"):
            # the checks run clean on the unchanged tree: what they were given has another shape, type or attribute than promised
            return None, f"the result cannot be judged: {type(err).__name__}: {err}"
        raise HarnessError(
            f"sub-check {sub.name}: {type(err).__name__}: {err}\n"
            + traceback.format_exc()
        ) from err
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:12]


# --------------------------------------------------------------------------
# one worker = one shard of one sub-check
# --------------------------------------------------------------------------


def _worker(modname, subname, shard, nshards, tier, seed, budget, out):
    res = {
        "sub": subname,
        "shard": shard,
        "evaluations": 0,
        "skipped": 0,
        "labels": {},
        "nontrivial": [],
        "samples": [],
        "failure": None,
        "error": None,
    }
    cur = out + ".case"
    t0 = time.time()
    try:
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        mod = importlib.import_module(modname)
        sub = {s.name: s for s in mod.SUBS}[subname]
        n = sub.quick if tier == "quick" else sub.thorough
        n = max(1, -(-n // nshards))
        seen = set()
        listed = {canon(f["case"]) for f in load_known() if f["property"] == mod.PROPERTY and f.get("sub") == subname}
        state = {"fail": None, "fail_t": None, "first": True}
        fails = []
        shrink_budget = 45.0 if tier == "quick" else 180.0

        def body(case):
            now = time.time()
            if state["fail_t"] is None:
                if now - t0 > budget:
                    res["skipped"] += 1
                    return
            elif now - state["fail_t"] > shrink_budget:
                # stop shrinking: only what is already known to fail, fails
                if canon(case) not in {canon(c) for c, _ in fails}:
                    return
                raise Violation("known failing case")
            with open(cur, "w") as fh:
                fh.write(canon(case))
            labels, msg = run_case(sub, case)
            if msg is not None and canon(case) in listed:  # a known finding, reported by the driver
                labels, msg = ["known finding", "trivial"], None
            if msg is not None:
                if state["fail_t"] is None:
                    state["fail_t"] = time.time()
                fails.append((json.loads(canon(case)), msg))
                raise Violation(msg)
            if state["fail_t"] is None:
                res["evaluations"] += 1
                for lab in set(labels):
                    res["labels"][lab] = res["labels"].get(lab, 0) + 1
                if "trivial" not in labels:
                    d = digest(case)
                    if d not in seen:
                        seen.add(d)
                        if len(res["samples"]) < 2:
                            res["samples"].append({"sub": subname, "case": case})

        test = given(sub.strategy)(body)
        test = settings(
            max_examples=n,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            print_blob=False,
        )(test)
        test = hypothesis.seed(seed * 100003 + shard * 7919 + _h(subname))(test)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stderr(buf), contextlib.redirect_stdout(buf):
                test()
        except HarnessError:
            raise
        except BaseException as err:  # noqa: BLE001
            if isinstance(err, (KeyboardInterrupt, MemoryError)):
                raise
            if not fails:
                raise
        if fails:
            # smallest failing case seen; confirm it before reporting
            order = sorted(
                range(len(fails)), key=lambda i: (len(canon(fails[i][0])), -i)
            )
            # Hypothesis' own final (minimal) example is the last failure
            cand = [len(fails) - 1] + order[:3]
            for i in cand:
                labels, msg = run_case(sub, fails[i][0])
                if msg is not None:
                    res["failure"] = {"case": fails[i][0], "message": msg}
                    break
            else:
                res["error"] = "failure did not reproduce: " + fails[-1][1]
        res["nontrivial"] = sorted(seen)
    except BaseException as err:  # noqa: BLE001
        res["error"] = f"{type(err).__name__}: {err}\n{traceback.format_exc()}"
    res["wall"] = time.time() - t0
    res["rss_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    with open(out + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.replace(out + ".tmp", out)
    os._exit(0)


def _h(s):
    return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)


def _replay_worker(modname, subname, case, out):
    mod = importlib.import_module(modname)
    sub = {s.name: s for s in mod.SUBS}[subname]
    try:
        labels, msg = run_case(sub, case)
        r = {"labels": labels, "msg": msg}
    except HarnessError as err:
        r = {"error": str(err)}
    with open(out, "w") as fh:
        json.dump(r, fh)
    os._exit(0)


def replay_in_child(modname, subname, case, timeout=600):
    """-> ('ok'|'violation'|'signal'|'error', message)"""
    d = tempfile.mkdtemp(prefix="pbtr_")
    try:
        out = os.path.join(d, "r.json")
        p = mp.get_context("fork").Process(
            target=_replay_worker, args=(modname, subname, case, out)
        )
        p.start()
        p.join(timeout)
        if p.is_alive():
            p.kill()
            p.join()
            return "error", "timeout"
        if p.exitcode and p.exitcode < 0:
            return "signal", signal.Signals(-p.exitcode).name
        with open(out) as fh:
            r = json.load(fh)
        if r.get("error"):
            return "error", r["error"]
        if r["msg"] is not None:
            return "violation", r["msg"]
        return "ok", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# the driver
# --------------------------------------------------------------------------


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return json.load(fh)["findings"]


def write_replay(prop, modname, sub, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{sub}-{digest(case)}.json")
    with open(path, "w") as fh:
        json.dump(
            {
                "property": prop,
                "module": modname,
                "sub": sub,
                "case": case,
                "message": msg,
                "how": f"cd {VERIF} && ./check replay {path}",
            },
            fh,
            indent=1,
        )
    return path


def run_property(modname, tier, seed, only=None, jobs=8, scale=1.0):
    t0 = time.time()
    mod = importlib.import_module(modname)
    if hasattr(mod, "warmup"):
        mod.warmup()
    prop = mod.PROPERTY
    total_budget = 240.0 if tier == "quick" else 2400.0
    total_budget = float(os.environ.get("VERIF_BUDGET", total_budget))
    tasks = []
    for s in mod.SUBS:
        if only and s.name not in only:
            continue
        if scale != 1.0:
            s.quick = max(1, int(s.quick * scale))
            s.thorough = max(1, int(s.thorough * scale))
        ns = s.shards if tier == "quick" else max(s.shards, 4)
        for k in range(ns):
            tasks.append((s.cost * s.quick / ns, s, k, ns))
    tasks.sort(key=lambda t: -t[0])
    work = tempfile.mkdtemp(prefix="pbtw_")
    ctx = mp.get_context("fork")
    running, results, crashed = [], [], []
    queue = list(tasks)
    stop = False
    deadline = t0 + total_budget
    hard = t0 + total_budget + (200 if tier == "quick" else 600)
    try:
        while queue or running:
            while queue and len(running) < jobs and not stop:
                _, s, k, ns = queue.pop(0)
                out = os.path.join(work, f"{s.name}.{k}.json")
                left = max(1.0, deadline - time.time())
                b = min(s.budget or left, left)
                if tier != "quick" and s.budget:
                    b = left
                p = ctx.Process(
                    target=_worker, args=(modname, s.name, k, ns, tier, seed, b, out)
                )
                p.start()
                running.append((p, s, k, out))
            if stop:
                queue = []
            time.sleep(0.02)
            still = []
            for p, s, k, out in running:
                if p.is_alive():
                    if time.time() > hard:
                        p.kill()
                        p.join()
                        crashed.append((s, k, "timeout", out))
                        continue
                    still.append((p, s, k, out))
                    continue
                p.join()
                if os.path.exists(out):
                    with open(out) as fh:
                        results.append(json.load(fh))
                    if (
                        results[-1]["failure"]
                        and tier == "quick"
                        and not os.environ.get("VERIF_TRIAGE")
                    ):
                        stop = True
                        deadline = min(deadline, time.time() + 1)
                        hard = min(hard, time.time() + 5)
                else:
                    crashed.append((s, k, p.exitcode, out))
            running = still
    finally:
        for p, *_ in running:
            p.kill()

    failures, errors = [], []
    for r in results:
        if r["failure"]:
            failures.append((r["sub"], r["failure"]["case"], r["failure"]["message"]))
        if r["error"]:
            errors.append(f"{r['sub']}: {r['error']}")
    for s, k, code, out in crashed:
        if stop and code == "timeout":
            continue
        case = None
        if os.path.exists(out + ".case"):
            with open(out + ".case") as fh:
                case = json.load(fh)
        if case is not None and code != "timeout":
            kind, msg = replay_in_child(modname, s.name, case)
            if kind == "signal" and msg in ("SIGSEGV", "SIGABRT", "SIGFPE", "SIGBUS"):
                failures.append((s.name, case, f"the process died with {msg}"))
                continue
        if code == "timeout":
            print(f"note: {s.name}[{k}] stopped by the wall clock (inconclusive)")
        else:
            errors.append(f"{s.name}[{k}]: worker ended with {code}")
    shutil.rmtree(work, ignore_errors=True)

    known = load_known()
    code = 0
    for f in known:
        if f["property"] != prop or f.get("status") == "fixed":
            continue
        kind, msg = replay_in_child(modname, f["sub"], f["case"])
        if kind == "violation":
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    nviol = 0
    seen_fail = set()
    for sub, case, msg in failures:
        if (sub, canon(case)) in seen_fail or (sub, msg[:60]) in seen_fail:
            continue
        seen_fail |= {(sub, canon(case)), (sub, msg[:60])}
        nviol += 1
        path = write_replay(prop, modname, sub, case, msg)
        print(f"  [{sub}] {msg[:1500]}")
        print(f"  case: {canon(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1

    nontriv = set()
    labels, samples, ev, skipped, persub = {}, [], 0, 0, {}
    for r in results:
        ev += r["evaluations"]
        skipped += r["skipped"]
        nontriv |= {r["sub"] + d for d in r["nontrivial"]}
        for k, v in r["labels"].items():
            key = f"{r['sub']}:{k}"
            labels[key] = labels.get(key, 0) + v
        q = persub.setdefault(r["sub"], {"evaluations": 0, "wall_s": 0.0})
        q["evaluations"] += r["evaluations"]
        q["wall_s"] = round(q["wall_s"] + r["wall"], 1)
        samples += r["samples"][:1]
    wall = time.time() - t0
    evid = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples[:12],
            "labels": labels,
            "sub_checks": persub,
            "skipped_by_wall_clock": skipped,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(evid, fh, indent=1)
    for s, q in sorted(persub.items(), key=lambda x: -x[1]["wall_s"]):
        print(f"  {s:40s} {q['evaluations']:6d} cases {q['wall_s']:7.1f} s")
    print(
        f"{prop} {tier} seed={seed}: {ev} cases, {len(nontriv)} distinct non-trivial, "
        f"{skipped} skipped by the clock, {nviol} violations, {wall:.1f} s"
    )
    if errors and code == 0:
        for e in errors:
            print("HARNESS-ERROR", e)
        return 2
    for e in errors:
        print("note:", e[:2000])
    return code
