"""Runs cases of one property, one JSON line in, one JSON line out."""
import contextlib
import importlib
import json
import os
import subprocess
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
try:
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[int(os.environ.get("MON_SLOT", "0")) % len(cpus)]})
except Exception:  # noqa: BLE001
    pass

out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)  # anything the code under test prints goes to stderr


class Report:
    """What a monitor saw on one case."""

    def __init__(self):
        self.events, self.distinct, self.viol, self.find = {}, set(), [], {}
        self.sample = None

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *key):
        self.distinct.add("|".join(map(str, key)))

    def bad(self, msg):
        if len(self.viol) < 12:
            self.viol.append(str(msg)[:900])

    def finding(self, key, msg):
        self.find.setdefault(key, str(msg)[:900])

    def check(self, ok, msg):
        if not ok:
            self.bad(msg)
        return bool(ok)

    def dump(self):
        return {"events": self.events, "distinct": sorted(self.distinct), "viol": self.viol,
                "find": self.find, "sample": self.sample}


def main():
    prop = sys.argv[1]
    mod = importlib.import_module(f"mon.props.{prop.lower()}")
    from mon import api

    os.chdir(os.environ.get("TMPDIR", "/tmp"))
    for line in sys.stdin:
        case = json.loads(line)
        rep = Report()
        try:
            with contextlib.redirect_stdout(sys.stderr):
                mod.run(case, rep)
            res = rep.dump()
        except api.CodeUnderTestError as e:
            rep.bad(f"soepy raised on a valid input: {e}")
            res = rep.dump()
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            if isinstance(e, (ImportError, MemoryError, subprocess.TimeoutExpired, AssertionError, OSError)) or "has no attribute" in str(e):
                res = {"lost": f"harness error {type(e).__name__}: {e} :: {tb[-900:]}"}
            else:
                # on the intended behaviour the monitors digest every output (see DESIGN.md)
                rep.bad(f"output the monitor cannot digest: {type(e).__name__}: {e} :: {tb[-500:]}")
                res = rep.dump()
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()
        import jax

        jax.clear_caches() if case.get("clear") else None


if __name__ == "__main__":
    main()
