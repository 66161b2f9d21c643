"""Parent / worker driver around Hypothesis."""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT = {"quick": 420.0, "thorough": 3000.0}
SHRINK = {"quick": 25.0, "thorough": 120.0}


def case_id(case):
    return hashlib.sha256(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def load(pid):
    return importlib.import_module(f"checks.{pid.lower()}")


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == pid]


def one_arg(func):
    def test_case(case):
        func(case)

    return test_case


def safe_run(prop, case):
    """Run one case. Anything that goes wrong on a case counts against the code,
    except explicit harness errors."""
    from vlib.core import HarnessError
    from vlib.core import Violation

    try:
        return prop.run(json.loads(json.dumps(case)))
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        from hypothesis.errors import HypothesisException

        if isinstance(e, HypothesisException):
            raise
        raise Violation(
            f"output could not be interpreted: {type(e).__name__}: {e}\n"
            + traceback.format_exc(limit=-8)
        )


# ---------------------------------------------------------------- worker
def worker(pid, tier, seed, wid, n_workers, outdir, only):
    import hypothesis
    from hypothesis import HealthCheck
    from hypothesis import Phase
    from hypothesis import given
    from hypothesis import settings
    from hypothesis.internal.conjecture import engine

    from vlib.core import HarnessError
    from vlib.core import Violation

    engine.MAX_SHRINKING_SECONDS = SHRINK[tier]
    start = time.time()
    soft = float(os.environ.get("VERIF_SOFT_SECONDS", SOFT[tier]))
    mod = load(pid)
    result = {"props": {}, "violation": None, "error": None, "known": []}
    path = os.path.join(outdir, f"w{wid}.json")

    def dump():
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f, default=str)
        os.replace(tmp, path)

    props = [p for p in mod.PROPS if only is None or p.name == only]
    try:
        if wid == 0 and only is None:
            by_name = {p.name: p for p in mod.PROPS}
            # regressions: shrunk inputs of repaired defects, without the library
            regdir = os.path.join(HERE, "regress", pid)
            for fn in sorted(os.listdir(regdir)) if os.path.isdir(regdir) else []:
                with open(os.path.join(regdir, fn)) as f:
                    reg = json.load(f)
                stat = result["props"].setdefault(
                    "regressions",
                    dict(n=0, nontrivial=[], labels={}, samples=[], skipped=0),
                )
                stat["n"] += 1
                try:
                    safe_run(by_name[reg["prop"]], reg["case"])
                    stat["nontrivial"].append(case_id(reg["case"]))
                except Violation as e:
                    result["violation"] = dict(
                        prop=reg["prop"], case=reg["case"], message=str(e)
                    )
                    dump()
                    return
            for entry in known_findings(pid):
                try:
                    safe_run(by_name[entry["prop"]], entry["case"])
                    state = "no longer fails"
                except Violation as e:
                    state = "fails"
                    entry = dict(entry, message=str(e)[:300])
                result["known"].append(dict(entry, state=state))

        for pi, prop in enumerate(props):
            total = prop.quick if tier == "quick" else prop.thorough
            n = total // n_workers + (1 if wid < total % n_workers else 0)
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            n = int(n * scale) if scale != 1 else n
            if n <= 0:
                continue
            stat = dict(n=0, nontrivial=[], labels={}, samples=[], skipped=0)
            result["props"][prop.name] = stat
            seen = set()
            labels = collections.Counter()
            last = {}

            def evaluate(
                case, prop=prop, stat=stat, seen=seen, labels=labels, last=last
            ):
                if time.time() - start > soft and not last:
                    stat["skipped"] += 1
                    return
                if not last:
                    stat["n"] += 1
                try:
                    out = safe_run(prop, case)
                except Violation as e:
                    last["case"] = case
                    last["message"] = str(e)
                    first = result["violation"] is None
                    result["violation"] = dict(
                        prop=prop.name, case=case, message=str(e), final=False
                    )
                    if first:
                        dump()
                    raise
                if not last:
                    for lab in out["labels"]:
                        labels[lab] += 1
                    if out["nontrivial"]:
                        cid = case_id(case)
                        if cid not in seen:
                            seen.add(cid)
                            if len(stat["samples"]) < 2:
                                stat["samples"].append(case)
                if stat["n"] % 15 == 0:
                    import gc

                    jax = sys.modules.get("jax")
                    if jax is not None:
                        jax.clear_caches()
                    gc.collect()

            test = given(prop.strategy())(one_arg(evaluate))
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                print_blob=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=[
                    HealthCheck.too_slow,
                    HealthCheck.data_too_large,
                    HealthCheck.large_base_example,
                ],
                report_multiple_bugs=False,
            )(test)
            test = hypothesis.seed(seed * 100003 + wid * 101 + pi)(test)
            err = None
            try:
                test()
            except Violation:
                pass
            except HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                if not last:
                    raise
                err = e
            stat["nontrivial"] = sorted(seen)
            stat["labels"] = dict(labels)
            if last:
                result["violation"] = dict(
                    prop=prop.name,
                    case=last["case"],
                    message=last["message"],
                    final=True,
                    note=repr(err)[:300] if err is not None else None,
                )
                dump()
                return
    except BaseException as e:  # noqa: BLE001
        result["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    dump()


# ---------------------------------------------------------------- parent
def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def parent(pid, tier, seed, n_workers, only):
    t0 = time.time()
    mod = load(pid)
    outdir = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    procs = []
    results = [None] * n_workers
    try:
        for w in range(n_workers):
            cmd = [sys.executable, os.path.join(HERE, "run_check.py"), pid]
            cmd += ["--tier", tier, "--worker", f"{w}/{n_workers}", "--out", outdir]
            cmd += ["--seed", str(seed)]
            if only:
                cmd += ["--prop", only]
            with open(os.path.join(outdir, f"w{w}.log"), "w") as log:
                procs.append(
                    subprocess.Popen(
                        cmd, stdout=log, stderr=log, start_new_session=True, cwd=HERE
                    )
                )
        first_viol = None
        while True:
            alive = [p for p in procs if p.poll() is None]
            if first_viol is None:
                for w in range(n_workers):
                    f = os.path.join(outdir, f"w{w}.json")
                    if os.path.exists(f):
                        with open(f) as fh:
                            r = json.load(fh)
                        if r["violation"] is not None:
                            first_viol = w
                            viol_time = time.time()
                            for i, p in enumerate(procs):
                                if i != w:
                                    kill(p)
                            break
            if first_viol is not None:
                p = procs[first_viol]
                if p.poll() is not None:
                    break
                if time.time() - viol_time > SHRINK[tier] * 2 + 30:
                    kill(p)
                    break
            elif not alive:
                break
            time.sleep(0.1)
        for p in procs:
            if p.poll() is None and first_viol is not None:
                kill(p)
            p.wait()
        errors = []
        for w in range(n_workers):
            f = os.path.join(outdir, f"w{w}.json")
            if os.path.exists(f):
                with open(f) as fh:
                    results[w] = json.load(fh)
                if results[w]["error"]:
                    errors.append(results[w]["error"])
            elif first_viol is None:
                with open(os.path.join(outdir, f"w{w}.log")) as fh:
                    errors.append(f"worker {w} died: " + fh.read()[-2000:])
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(outdir, ignore_errors=True)

    # ------------------------------------------------------------ merge
    viol = results[first_viol]["violation"] if first_viol is not None else None
    per_prop, all_ids, samples = {}, set(), []
    evaluations = skipped = 0
    rules = {p.name: p.rule for p in mod.PROPS}
    for r in results:
        if not r:
            continue
        for name, s in r["props"].items():
            d = per_prop.setdefault(
                name, dict(evaluations=0, distinct_nontrivial=0, labels={}, skipped=0)
            )
            d["evaluations"] += s["n"]
            d["skipped"] += s["skipped"]
            evaluations += s["n"]
            skipped += s["skipped"]
            new = {f"{name}:{c}" for c in s["nontrivial"]} - all_ids
            all_ids |= new
            d["distinct_nontrivial"] += len(new)
            for k, v in s["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            have = sum(1 for x in samples if x["prop"] == name)
            samples += [
                dict(prop=name, case=c) for c in s["samples"][: max(0, 2 - have)]
            ]
    for name, d in per_prop.items():
        d["labels"] = dict(sorted(d["labels"].items(), key=lambda kv: -kv[1])[:40])
        d["rule"] = rules.get(name, "")
    known = [k for r in results if r for k in r["known"]]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(all_ids),
            "rule": getattr(mod, "RULE", "")
            + " | ".join(f" [{p.name}] {p.rule}" for p in mod.PROPS if p.rule),
            "samples": samples[:12],
            "per_prop": per_prop,
            "not_run_time_budget": skipped,
            "known_findings": [
                {"what": k["what"], "state": k["state"]} for k in known
            ],
            "workers": n_workers,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for k in known:
        if k["state"] == "fails":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            print(f"note: listed finding no longer fails: {k['what']}")
    if viol is None and errors:
        print("HARNESS ERROR")
        print(errors[0])
        return 2
    if viol is not None:
        rdir = os.path.join(HERE, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{viol['prop']}-{case_id(viol['case'])}.json")
        with open(rp, "w") as f:
            json.dump(
                dict(
                    property=pid,
                    prop=viol["prop"],
                    case=viol["case"],
                    message=viol["message"],
                    seed=seed,
                    tier=tier,
                ),
                f,
                indent=1,
            )
        print(f"[{pid}/{viol['prop']}] {viol['message'][:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(
        f"OK property={pid} evaluations={evaluations} "
        f"nontrivial={len(all_ids)} skipped={skipped} wall={evidence['wall_s']}s"
    )
    return 0


def replay(pid, path):
    from vlib.core import Violation

    mod = load(pid)
    with open(path) as f:
        d = json.load(f)
    prop = {p.name: p for p in mod.PROPS}[d["prop"]]
    try:
        out = safe_run(prop, d["case"])
    except Violation as e:
        print(str(e))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("replay holds", out)
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=None)
    a = ap.parse_args(argv)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    if a.replay:
        return replay(a.pid, a.replay)
    if a.worker:
        w, n = map(int, a.worker.split("/"))
        worker(a.pid, a.tier, seed, w, n, a.out, a.prop)
        return 0
    # the number of workers is fixed so that a run is a function of the seed only
    return parent(a.pid, a.tier, seed, a.jobs or 8, a.prop)
