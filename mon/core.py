"""Shared frame of every check: seed and tier, evidence, verdicts, known findings.

Verdicts are three-valued: held (exit 0), violated (exit 1 with a VIOLATION
line), inconclusive (exit 2: the harness failed, or the monitors observed too
little).  A violation is keyed by its mechanism, never by a case's values.
"""
import collections
import faulthandler
import hashlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_real_time = time.time
_real_monotonic = time.monotonic


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, detail, witness=None):
        super().__init__(f"{key}: {detail}")
        self.key, self.detail, self.witness = key, detail, witness


class CaseStuck(KeyboardInterrupt):  # which event loops let through
    """A case ran far longer (in wall time) than any case ever does."""


def in_repo(exc):
    """Did this exception leave the code under test (innermost frame in /repo)?"""
    tb = traceback.extract_tb(exc.__traceback__)
    return bool(tb) and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(REPO) + os.sep)


def passed_repo(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep) for f in tb)


class Check:
    def __init__(self, pid, rule, level="exploration", assumptions=(), max_violations=5):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = _real_monotonic()
        self.evaluations = 0
        self.signatures = set()
        self.counters = collections.Counter()
        self.samples = []
        self.violations = {}
        self.known_hit = {}
        self.max_violations = max_violations
        self.require = {}
        self.notes = {}
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            kf = json.load(f)
        self.known = {
            (k["property"], k["key"]): k["what"] for k in kf.get("known", [])
        }
        wall = int(os.environ.get("VERIF_WALL", 3600 if self.thorough else 840))
        signal.signal(signal.SIGALRM, self._on_alarm)
        self._case_deadline = None
        self._hard = self.t0 + wall
        signal.setitimer(signal.ITIMER_REAL, 2, 2)

    # -- time budget -----------------------------------------------------
    def elapsed(self):
        return _real_monotonic() - self.t0

    def budget(self, quick, thorough):
        """Wall seconds this run may spend generating cases."""
        scale = float(os.environ.get("VERIF_BUDGET_SCALE", "1"))
        return (thorough if self.thorough else quick) * scale

    def _on_alarm(self, signum, frame):
        now = _real_monotonic()
        if now > self._hard:
            faulthandler.dump_traceback(all_threads=True)
            print(f"INCONCLUSIVE property={self.pid} wall-clock watchdog fired", flush=True)
            os._exit(2)
        if self._case_deadline is not None and now > self._case_deadline:
            self._case_deadline = now + 20
            raise CaseStuck()

    # -- cases -----------------------------------------------------------
    def rng(self, *parts):
        h = hashlib.sha256(repr((self.pid, self.seed) + parts).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def case(self, signature=None, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial and signature is not None:
            self.signatures.add(
                hashlib.sha256(repr(signature).encode()).hexdigest()[:16]
            )
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.counters[name] += n

    def need(self, **mins):
        """Counters that must be reached, or the run is inconclusive."""
        self.require.update(mins)

    def violation(self, key, detail, witness=None):
        if (self.pid, key) in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = detail
                print(f"KNOWN-FINDING: property={self.pid} {self.known[(self.pid, key)]}", flush=True)
            return
        if key in self.violations:
            self.violations[key]["times"] += 1
            return
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        safe = "".join(c if c.isalnum() else "-" for c in key)[:60]
        path = os.path.join(ROOT, "replay", f"{self.pid}-{safe}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.pid,
                    "key": key,
                    "detail": detail,
                    "seed": self.seed,
                    "tier": self.tier,
                    "witness": witness,
                },
                f,
                indent=1,
                default=repr,
            )
        self.violations[key] = {"detail": detail, "path": path, "times": 1}
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)
        print(f"  {key}: {str(detail)[:1500]}", flush=True)

    def stop(self):
        return len(self.violations) >= self.max_violations

    def run_case(self, name, fn, seconds=90, repo_errors=True, witness=None):
        """Run fn(); turn its outcome into a verdict. Returns fn's value or None."""
        self._case_deadline = _real_monotonic() + seconds
        try:
            return fn()
        except Violation as exc:
            self.violation(exc.key, exc.detail, {"case": name, "scenario": witness, "history": exc.witness})
        except CaseStuck as exc:
            tb = "".join(traceback.format_exception(exc))
            if passed_repo(exc):
                self.violation("no-progress", f"case {name} did not end within {seconds}s of wall time, stuck in the code under test", {"case": name, "scenario": witness, "stack": tb})
            else:
                raise Inconclusive(f"case {name} stuck outside the code under test\n{tb}")
        except Inconclusive:
            raise
        except Exception as exc:
            tb = "".join(traceback.format_exception(exc))
            if repo_errors and in_repo(exc):
                self.violation("unexpected-exception", f"{type(exc).__name__}: {exc}", {"case": name, "scenario": witness, "stack": tb})
                print(tb)
            else:
                raise
        finally:
            self._case_deadline = None
        return None

    # -- parallel cases ---------------------------------------------------
    def pool(self, case, budget, procs=None, limit=None, seconds=90):
        """Run case(i) for i = 0, 1, ... in parallel until the budget is used."""
        procs = procs or int(os.environ.get("VERIF_PROCS", "7"))
        end = _real_monotonic() + budget
        tmp = tempfile.mkdtemp(prefix=f"verif-{self.pid}-")
        pids = []
        sys.stdout.flush()
        for k in range(procs):
            pid = os.fork()
            if pid == 0:
                self._child(case, k, procs, end, limit, seconds, os.path.join(tmp, str(k)))
            pids.append(pid)
        for pid in pids:
            while True:
                try:
                    os.waitpid(pid, 0)
                    break
                except InterruptedError:
                    continue
        problems = []
        for k in range(procs):
            path = os.path.join(tmp, str(k))
            try:
                with open(path, "rb") as f:
                    res = pickle.load(f)
            except Exception as exc:
                problems.append(f"worker {k} died: {exc!r}")
                continue
            self.evaluations += res["evaluations"]
            self.signatures |= res["signatures"]
            self.counters.update(res["counters"])
            self.samples.extend(res["samples"][: max(0, 6 - len(self.samples))])
            for v in res["violations"]:
                self.violation(*v)
            if res["problem"]:
                problems.append(res["problem"])
        shutil.rmtree(tmp, ignore_errors=True)
        if problems and not self.violations:
            raise Inconclusive("; ".join(problems)[:3000])
        for p in problems:
            print("note:", p[:3000], flush=True)

    def _child(self, case, k, procs, end, limit, seconds, path):
        signal.setitimer(signal.ITIMER_REAL, 2, 2)
        self.evaluations, self.signatures = 0, set()
        self.counters, self.samples = collections.Counter(), []
        self.violations = {}
        found = []

        def violation(key, detail, witness=None):
            self.violations.setdefault(key, True)
            if (self.pid, key) in self.known:
                self.violations.pop(key)
            if sum(1 for f in found if f[0] == key) < 1:
                found.append((key, str(detail), json.loads(json.dumps(witness, default=repr))))

        self.violation = violation
        problem = None
        code = 0
        try:
            i = k
            while _real_monotonic() < end and (limit is None or i < limit) and not self.stop():
                self.run_case(f"case {i}", lambda: case(i), seconds=seconds)
                i += procs
        except Inconclusive as exc:
            problem = str(exc)
        except BaseException:
            problem = f"case {i}: " + traceback.format_exc()
        try:
            with open(path, "wb") as f:
                pickle.dump({
                    "evaluations": self.evaluations, "signatures": self.signatures,
                    "counters": self.counters, "samples": json.loads(json.dumps(self.samples, default=repr)),
                    "violations": found, "problem": problem,
                }, f)
        finally:
            os._exit(code)

    # -- end -------------------------------------------------------------
    def evidence(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.signatures),
            "rule": self.rule,
            "samples": self.samples or ["none"],
            "observed": dict(sorted(self.counters.items())),
        }
        cov.update(self.notes)
        out = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(self.elapsed(), 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", f"{self.pid}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(out, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)

    def finish(self):
        signal.setitimer(signal.ITIMER_REAL, 0)
        self.evidence()
        if self.violations:
            return 1
        missing = {k: (self.counters[k], v) for k, v in self.require.items() if self.counters[k] < v}
        if missing or not self.evaluations:
            print(f"INCONCLUSIVE property={self.pid} observed too little: {missing}", flush=True)
            return 2
        print(
            f"HELD property={self.pid} on {self.evaluations} executions "
            f"({len(self.signatures)} distinct non-trivial), {self.elapsed():.1f}s; "
            f"observed {dict(sorted(self.counters.items()))}",
            flush=True,
        )
        return 0


def main(pid, rule, body, **kw):
    """Run a check's body(check) and exit with its verdict."""
    # started in the background of a shell, a process ignores interrupts, and so would those it starts
    signal.signal(signal.SIGINT, signal.default_int_handler)
    ck = Check(pid, rule, **kw)
    try:
        try:
            body(ck)
        except Inconclusive as exc:
            if not ck.violations:
                print(f"INCONCLUSIVE property={pid} {exc}", flush=True)
                ck.evidence()
                code = 2
            else:
                code = ck.finish()
        except Exception:
            traceback.print_exc()
            if ck.violations:
                code = ck.finish()
            else:
                print(f"INCONCLUSIVE property={pid} harness error", flush=True)
                ck.evidence()
                code = 2
        else:
            code = ck.finish()
    except BaseException:
        traceback.print_exc()
        code = 1 if ck.violations else 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
