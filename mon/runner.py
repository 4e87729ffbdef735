"""Check driver:  python -m mon.runner C01 [--replay FILE] [--jobs N] [--no-evidence]

Exit 0: property held on everything explored (known findings are printed).
Exit 1: at least one violation; a VIOLATION line per property.
Exit 2: inconclusive (monitor not reached, worker lost, time out).
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Many small programs are compiled once each, so LLVM optimisation does not pay off.
XLA = ("--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
       "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true")
FINDINGS = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """key -> description for the 'finding:' lines of this property."""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith("finding:"):
                rest = line[len("finding:"):].strip()
                toks = rest.split(None, 2)
                if toks[0] == f"property={prop}" and toks[1].startswith("key="):
                    out[toks[1][4:]] = toks[2].strip()
    return out


class Pool:
    def __init__(self, prop, n, env):
        self.prop, self.n, self.env = prop, n, env

    def run(self, cases, deadline):
        results = [None] * len(cases)
        todo = collections.deque(range(len(cases)))
        lock = threading.Lock()
        procs = []

        def loop(slot):
            proc = None
            while True:
                with lock:
                    if not todo or time.time() > deadline:
                        break
                    i = todo.popleft()
                if proc is None or proc.poll() is not None:
                    env = dict(self.env)
                    env["MON_SLOT"] = str(slot)
                    env.update({k: str(v) for k, v in (cases[i].get("env") or {}).items()})
                    proc = subprocess.Popen(
                        [sys.executable, "-m", "mon.worker", self.prop],
                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                        cwd=HERE, env=env,
                    )
                    procs.append(proc)
                try:
                    proc.stdin.write(json.dumps(cases[i]) + "\n")
                    proc.stdin.flush()
                    line = proc.stdout.readline()
                    results[i] = json.loads(line)
                except Exception as e:  # noqa: BLE001
                    results[i] = {"lost": f"worker lost: {e!r} rc={proc.poll()}"}
                    proc.kill()
                    proc = None
                if cases[i].get("fresh") and proc is not None:
                    proc.stdin.close()
                    proc.wait()
                    proc = None
            if proc is not None:
                try:
                    proc.stdin.close()
                    proc.wait(timeout=20)
                except Exception:  # noqa: BLE001
                    proc.kill()

        threads = [threading.Thread(target=loop, args=(k,), daemon=True) for k in range(min(self.n, len(cases)))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(max(1.0, deadline - time.time() + 5))
        for p in procs:
            if p.poll() is None:
                p.kill()
        return results


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = importlib.import_module(f"mon.props.{a.prop.lower()}")
    prop = a.prop.upper()

    if a.replay:
        cases = json.load(open(a.replay))["cases"]
    else:
        cases = mod.cases(tier, seed)
    for i, c in enumerate(cases):
        c.setdefault("i", i)

    import tempfile
    import shutil

    scratch = tempfile.mkdtemp(prefix="soepymon_")
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
        TMPDIR=scratch, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONPATH=HERE + ":" + os.environ.get("SOEPY_REPO", "/repo"),
    )
    env.setdefault("XLA_FLAGS", XLA)
    budget = float(os.environ.get("MON_BUDGET_S", "780" if tier == "quick" else "7200"))
    try:
        results = Pool(prop, a.jobs, env).run(cases, t0 + budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    events = collections.Counter()
    distinct, samples, viol, finds, lost = set(), [], [], collections.Counter(), []
    find_detail = {}
    for c, r in zip(cases, results):
        if r is None or "lost" in r:
            lost.append((c, (r or {}).get("lost", "not run (time budget)")))
            continue
        events.update(r.get("events", {}))
        distinct.update(r.get("distinct", []))
        if r.get("sample") is not None and len(samples) < 4:
            samples.append(r["sample"])
        for v in r.get("viol", []):
            viol.append((c, v))
        for k, d in r.get("find", {}).items():
            finds[k] += 1
            find_detail.setdefault(k, (c, d))

    listed = known_findings(prop)
    for k in finds:
        if k not in listed:
            c, d = find_detail[k]
            viol.append((c, f"[{k}] {d}"))

    need = getattr(mod, "NEED", {})
    if isinstance(need, dict) and tier in need and isinstance(need[tier], dict):
        need = need[tier]
    missing = {k: n for k, n in need.items() if events.get(k, 0) < n} if not a.replay else {}

    n_eval = len([r for r in results if r and "lost" not in r])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": int(events.get(getattr(mod, "EVAL", ""), 0)) or n_eval,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no case completed"}],
            "worlds_run": n_eval,
            "events_observed": dict(sorted(events.items())),
            "known_findings_seen": dict(finds),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if not a.no_evidence and not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    print(f"{prop} tier={tier} seed={seed} cases={n_eval}/{len(cases)} distinct={len(distinct)} wall={evidence['wall_s']}s")
    print("events: " + ", ".join(f"{k}={v}" for k, v in sorted(events.items())))
    for k in sorted(finds):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {listed[k]}")
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        bad, seen = [], set()
        for c, _ in viol:
            if c["i"] not in seen:
                seen.add(c["i"])
                bad.append(c)
        h = hashlib.sha1(json.dumps(bad, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(HERE, "replays", f"{prop}-{h}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "cases": bad, "violations": [str(v)[:600] for _, v in viol[:50]],
                       "replay_cmd": f"./check {prop} --replay {path}"}, f, indent=1, default=str)
        for c, v in viol[:6]:
            print(f"  case {c['i']}: {str(v)[:700]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if lost:
        for c, why in lost[:5]:
            print(f"INCONCLUSIVE case {c['i']}: {str(why)[-500:]}")
        return 2
    if missing:
        print(f"INCONCLUSIVE: monitor saw too few events: {missing} (have {dict(events)})")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
