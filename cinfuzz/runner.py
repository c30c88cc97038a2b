"""Runs one property: sharded Hypothesis search, shrinking, replay, evidence.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line, anything
else is an error of the harness.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import boot

NSHARDS = 8


class Violation(AssertionError):
    """The property does not hold for the case that is being checked."""


class HarnessError(Exception):
    """The harness itself is broken; never reported as a violation."""


# ---------------------------------------------------------------- one evaluation
CASE_SECONDS = 120  # cases take milliseconds to a few seconds
SHRINK_SECONDS = 60


def _timeout(signum, frame):
    raise TimeoutError(f"no result after {CASE_SECONDS} s")


def evaluate(prop, case):
    """Returns the info dict of the check, or raises Violation."""
    from hypothesis.errors import UnsatisfiedAssumption

    from . import nets

    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(CASE_SECONDS)
    nets.TRAIN = bool(isinstance(case, dict) and case.get("train_mode"))
    try:
        info = prop.check(case)
    except Violation:
        raise
    except UnsatisfiedAssumption:
        info = {"tags": ["outside of the domain"]}
    except TimeoutError as e:
        raise Violation(str(e)) from e
    except (HarnessError, MemoryError, KeyboardInterrupt, OSError, ImportError):
        raise
    except Exception as e:  # the public API raised on an input of its documented domain
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if boot.REPO in f.filename] or tb
        f = last[-1]
        raise Violation(
            f"unexpected {type(e).__name__}: {str(e)[:300]} "
            f"(at {os.path.basename(f.filename)}:{f.lineno} in {f.name})"
        ) from e
    finally:
        signal.alarm(0)
    return info or {}


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


# ---------------------------------------------------------------- shard worker
def _shard(prop, idx, seed, n, deadline, tier, out, shrink=True):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45
    stats = {"evals": 0, "skipped": 0, "keys": set(), "tags": {}, "samples": []}
    fail = {}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink] if shrink else [Phase.generate],
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(prop.strategy(tier))
    def test(case):
        if time.time() > fail.get("until", deadline):
            stats["skipped"] += 1
            return
        try:
            info = evaluate(prop, case)
        except Violation as v:
            fail["case"], fail["msg"] = case, str(v)
            fail.setdefault("first", case)
            fail.setdefault("until", time.time() + SHRINK_SECONDS)
            raise
        stats["evals"] += 1
        for t in info.get("tags", ()):
            stats["tags"][t] = stats["tags"].get(t, 0) + 1
        if info.get("nontrivial"):
            k = _key(case)
            if k not in stats["keys"]:
                stats["keys"].add(k)
                if len(stats["samples"]) < 2 and len(stats["keys"]) % 17 == 3:
                    stats["samples"].append(case)

    try:
        test()
    except Violation:
        pass
    except BaseException as e:
        # Hypothesis wraps flaky failures; a recorded failing case is re-checked by the parent
        if not fail:
            out.put((idx, "error", "".join(traceback.format_exception(e))[-6000:]))
            return
    stats["keys"] = list(stats["keys"])
    out.put((idx, "fail" if fail else "ok", {"stats": stats, "fail": fail}))


# ---------------------------------------------------------------- known findings
def known_findings(prop_id):
    """`finding: property=<id> case=<json> | <what fails>` lines of KNOWN_FINDINGS.txt."""
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop_id):
                body, what = line.split(" case=", 1)[1].split(" | ", 1)
                res.append((json.loads(body), what.strip()))
    return res


# ---------------------------------------------------------------- main
def load_prop(pid):
    return importlib.import_module("cinfuzz.props." + pid.lower())


def rerun(prop, seed, n, tier):
    """Repeats the cases of one shard up to its first failure, in a new process."""
    ctx = mp.get_context("fork")
    out = ctx.SimpleQueue()
    p = ctx.Process(target=_shard, args=(prop, 0, seed, n, time.time() + 300, tier, out, False))
    p.start()
    end = time.time() + 330
    while out.empty() and p.is_alive() and time.time() < end:
        time.sleep(0.05)
    res = out.get() if not out.empty() else None
    p.terminate()
    p.join()
    return res[2]["fail"] if res and res[1] == "fail" else None


def write_replay(pid, case, msg, history=None):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{_key(case)[:12]}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "message": msg, **({"history": history} if history else {})}, f, indent=1)
    return path


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, boot.VERIF)
    boot.boot()
    if pid == "selftest":  # everything the checks need can be imported
        for f in sorted(os.listdir(os.path.join(boot.VERIF, "cinfuzz", "props"))):
            if f.startswith("c") and f.endswith(".py"):
                load_prop(f[:-3]).strategy("quick")
        print("ok")
        return 0
    prop = load_prop(pid)

    if len(argv) > 1 and argv[1] == "replay":
        data = json.load(open(argv[2]))
        try:
            if data.get("history"):
                again = rerun(prop, **data["history"])
                if again:
                    raise Violation(again["msg"])
            else:
                evaluate(prop, data["case"])
        except Violation as v:
            print(v)
            print(f"VIOLATION property={pid} replay={argv[2]}")
            return 1
        print("replay: the property holds for this case")
        return 0

    n_total = prop.CASES[tier]
    budget = 240 if tier == "quick" else 840
    if os.environ.get("CINFUZZ_SCALE"):
        n_total = int(n_total * float(os.environ["CINFUZZ_SCALE"]))

    # Findings that are recorded rather than repaired: report, never fail
    for case, what in known_findings(pid):
        try:
            evaluate(prop, case)
        except Violation:
            print(f"KNOWN-FINDING: property={pid} {what}")

    # Fixed cases that every run evaluates (corner configurations); part of the search
    fixed_done, violation = 0, None
    fixed_keys = set()
    for case in getattr(prop, "FIXED", lambda: [])():
        try:
            info = evaluate(prop, case)
        except Violation as v:
            violation = (case, str(v))
            break
        fixed_done += 1
        if info.get("nontrivial"):
            fixed_keys.add(_key(case))

    stats, errors = [], []
    if violation is None:
        ctx = mp.get_context("fork")
        out = ctx.SimpleQueue()
        shards = min(NSHARDS, getattr(prop, "SHARDS", NSHARDS))
        deadline = t0 + budget
        procs = []
        seeds = [int(hashlib.sha256(f"{pid}/{tier}/{seed}/{i}".encode()).hexdigest()[:8], 16) for i in range(shards)]
        for i, s in enumerate(seeds):
            p = ctx.Process(target=_shard, args=(prop, i, s, max(1, n_total // shards), deadline, tier, out))
            p.start()
            procs.append(p)
        pending = set(range(shards))
        fails = []
        hard = deadline + 100
        while pending and time.time() < hard:
            if out.empty():
                for i in list(pending):
                    if not procs[i].is_alive() and out.empty():
                        time.sleep(0.3)
                        if out.empty():
                            errors.append(f"shard {i} died with exit code {procs[i].exitcode}")
                            pending.discard(i)
                time.sleep(0.05)
                continue
            i, kind, payload = out.get()
            pending.discard(i)
            if kind == "error":
                errors.append(payload)
            else:
                stats.append(payload["stats"])
                if kind == "fail":
                    fails.append((i, payload["fail"]))
                    break
        if pending and not fails:
            errors.append(f"shards {sorted(pending)} did not finish in time")
        for p in procs:
            if p.is_alive():
                p.terminate()
            p.join()
        for i, f in sorted(fails, key=lambda x: x[0]):
            # confirm outside of Hypothesis, from the plain JSON case
            for c in (f["case"], f["first"]):
                case = json.loads(json.dumps(c))
                try:
                    evaluate(prop, case)
                except Violation as v:
                    violation = (case, str(v))
                    break
            if violation is None:
                # it may depend on the cases before it: repeat the whole history in a new process
                history = {"seed": seeds[i], "n": max(1, n_total // shards), "tier": tier}
                again = rerun(prop, **history)
                if again:
                    violation = (again["case"], again["msg"] + " (depends on the cases evaluated before in the process)", history)
                else:
                    errors.append("failure did not reproduce from its replay: " + f["msg"])
            if violation:
                break

    tags = {}
    keys, samples, evals, skipped = set(fixed_keys), [], fixed_done, 0
    for s in stats:
        evals += s["evals"]
        skipped += s["skipped"]
        keys.update(s["keys"])
        samples += s["samples"]
        for k, v in s["tags"].items():
            tags[k] = tags.get(k, 0) + v
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(keys),
            "rule": prop.RULE,
            "samples": samples[:4] or ([violation[0]] if violation else []),
            "classes": dict(sorted(tags.items())),
            "fixed_cases": fixed_done,
            "not_run_for_time": skipped,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0,
    }
    rc = 0
    if violation is not None:
        path = write_replay(pid, *violation)
        evidence["violations"] = 1
        evidence["violation"] = {"replay": path, "message": violation[1]}
        print(violation[1])
        print("case:", json.dumps(violation[0]))
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        rc = 3
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if rc == 0:
        print(f"{pid}: held on {evals} cases ({len(keys)} distinct non-trivial), {evidence['wall_s']} s")
    return rc
