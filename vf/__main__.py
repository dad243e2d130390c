"""Run a check: fan the cases out to worker processes, collect the verdicts."""

import importlib
import json
import os
import queue
import resource
import signal
import subprocess
import sys
import threading
import time

from . import core, findings
from .core import VERIF, dumps, run_case

CPU_LIMIT = 120  # seconds of CPU time for one case
WALL_LIMIT = 400  # seconds without news from a worker: no verdict
MAX_VIOLATIONS = 3
# Cases which could not be decided (reported, counted) without giving up the run
TOLERATED = 2
BUDGET = {"quick": 780, "thorough": 3600}


def load(prop):
    return importlib.import_module("vf.checks.%s" % prop.lower())


# --- worker side --------------------------------------------------------------


def worker(prop, seed, tier, out_fd):
    """Read case numbers on stdin, write a JSON record per case."""
    out = os.fdopen(out_fd, "w", buffering=1)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    core.import_sut()
    mod = load(prop)
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    limit = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
    for line in sys.stdin:
        i = int(line)
        signal.setitimer(signal.ITIMER_PROF, limit)
        rec = run_case(mod, prop, seed, tier, i)
        signal.setitimer(signal.ITIMER_PROF, 0)
        out.write(dumps(rec) + "\n")
        out.flush()


class Worker:
    def __init__(self, prop, seed, tier, results):
        r, w = os.pipe()
        os.set_inheritable(w, True)
        self.errpath = os.path.join(
            core.SCRATCH, "worker-%d-%d.err" % (os.getpid(), w)
        )
        self.err = open(self.errpath, "wb+")
        mod = load(prop)
        env = dict(os.environ)
        env.update(getattr(mod, "worker_env", dict)())
        self.proc = subprocess.Popen(
            [sys.executable, "-X", "faulthandler", "-m", "vf", "--worker", prop,
             str(seed), tier, str(w)],
            stdin=subprocess.PIPE,
            stdout=self.err,
            stderr=self.err,
            pass_fds=(w,),
            cwd=VERIF,
            env=env,
            start_new_session=True,
        )
        os.close(w)
        self.current = None
        self.since = time.monotonic()
        self.pipe = os.fdopen(r, "rb")
        self.results = results
        threading.Thread(target=self.read, daemon=True).start()

    def read(self):
        for line in self.pipe:
            self.results.put((self, json.loads(line)))
        self.proc.wait()
        self.results.put((self, None))

    def give(self, i):
        self.current = i
        self.since = time.monotonic()
        try:
            self.proc.stdin.write(b"%d\n" % i)
            self.proc.stdin.flush()
        except OSError:
            pass  # the reader thread reports the death

    def stop(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass

    def stderr(self):
        self.err.flush()
        with open(self.errpath, "rb") as f:
            data = f.read()
        return data[-6000:].decode("utf-8", "replace")


def isolated(prop, seed, tier, i, timeout):
    """Run one case again in a fresh process: (record, how it ended, stderr)."""
    results = queue.Queue()
    w = Worker(prop, seed, tier, results)
    w.give(i)
    rec = None
    try:
        _, rec = results.get(timeout=timeout)
        if rec is None:
            ended = "exit status %s" % w.proc.returncode
        else:
            ended = "done"
    except queue.Empty:
        ended = "no answer"
    w.kill()
    w.proc.wait()
    return rec, ended, w.stderr()


# --- main side ----------------------------------------------------------------


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = load(prop)
        self.n = self.mod.CASES[tier]
        self.events, self.distinct, self.sigs = {}, {}, set()
        self.evaluations, self.samples = 0, []
        self.violations, self.problems = [], []
        self.start = time.monotonic()

    def account(self, rec):
        self.evaluations += 1
        for k, v in rec["ev"].items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in rec["distinct"].items():
            self.distinct.setdefault(k, set()).update(v)
        if rec["nt"]:
            self.sigs.add(rec["sig"])
        if rec.get("sample"):
            self.samples.append({"case": rec["i"], "input": rec["sample"]})
        if rec["verdict"] == "violated":
            if not rec["hard"]:
                again, ended, _ = isolated(
                    self.prop, self.seed, self.tier, rec["i"], WALL_LIMIT
                )
                if again is None or again["verdict"] != "violated":
                    self.problems.append(
                        "case %d failed once: %s\n%s" % (rec["i"], rec["mess"], rec["tb"])
                    )
                    return
            self.violate(rec)
        elif rec["verdict"] == "infra":
            self.problems.append("case %d: %s\n%s" % (rec["i"], rec["mess"], rec["tb"]))

    def violate(self, rec):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(
            d, "%s-%s-%s-%d.json" % (self.prop, self.tier, self.seed, rec["i"])
        )
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "case": rec["i"],
            "violation": rec["mess"],
            "details": rec.get("details"),
            "traceback": rec.get("tb"),
            "inputs": rec.get("inputs"),
        }
        with open(path, "w") as f:
            json.dump(data, f, indent=1, default=repr)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("  case %d: %s" % (rec["i"], rec["mess"]))
        for k, v in (rec.get("details") or {}).items():
            print("    %s: %s" % (k, core.short(v)))
        sys.stdout.flush()

    def crashed(self, i, how, stderr):
        """The process died in the middle of a case: confirm it."""
        rec, ended, err = isolated(self.prop, self.seed, self.tier, i, WALL_LIMIT)
        if rec is not None and rec["verdict"] == "violated":
            self.account(rec)
            return
        if rec is None and ended != "no answer":
            mess = "the process died (%s)" % ended
            if ended == "exit status -%d" % signal.SIGPROF:
                mess = "no end: more than the CPU time allowed for a case"
        elif rec is None:
            self.problems.append("case %d gives no answer" % i)
            return
        else:
            again, ended2, err2 = isolated(
                self.prop, self.seed, self.tier, i, WALL_LIMIT
            )
            if again is not None:
                # Not reproduced alone: a sanitizer report is still a witness.
                if "AddressSanitizer" in stderr:
                    mess, err = "the process died (%s)" % how, stderr
                else:
                    self.problems.append(
                        "case %d: the worker died once (%s)\n%s" % (i, how, stderr)
                    )
                    return
            else:
                mess, err = "the process died (%s)" % ended2, err2
        self.evaluations += 1
        self.violate(
            {"i": i, "mess": mess, "details": {"stderr": err[-3500:]}, "inputs": None}
        )

    def go(self):
        results = queue.Queue()
        jobs = min(getattr(self.mod, "WORKERS", 8), max(1, self.n), os.cpu_count() or 1)
        todo = list(range(self.n))[::-1]
        workers = []

        def feed(w):
            if todo and not self.stopping():
                w.give(todo.pop())
            else:
                w.current = None
                w.stop()

        for _ in range(jobs):
            w = Worker(self.prop, self.seed, self.tier, results)
            workers.append(w)
            feed(w)
        try:
            while workers:
                try:
                    w, rec = results.get(timeout=5)
                except queue.Empty:
                    for w in workers:
                        if time.monotonic() - w.since > WALL_LIMIT:
                            w.kill()
                    continue
                if rec is None:
                    workers.remove(w)
                    if w.current is not None and not self.stopping():
                        self.crashed(
                            w.current, "exit status %s" % w.proc.returncode, w.stderr()
                        )
                        if todo and not self.stopping():
                            nw = Worker(self.prop, self.seed, self.tier, results)
                            workers.append(nw)
                            feed(nw)
                    continue
                self.account(rec)
                feed(w)
                if self.stopping() and self.violations:
                    break
        finally:
            for w in workers:
                w.kill()
        return not todo

    def stopping(self):
        return (
            len(self.violations) >= MAX_VIOLATIONS
            or len(self.problems) >= 5
            or time.monotonic() - self.start > BUDGET[self.tier]
        )

    def finish(self, complete):
        missing = [
            k
            for k, n in getattr(self.mod, "REQUIRE", {}).items()
            if self.events.get(k, 0) < n
        ]
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.sigs),
            "rule": self.mod.RULE,
            "samples": sorted(self.samples, key=lambda s: s["case"])[:3],
            "monitor_events": dict(sorted(self.events.items())),
            "distinct_observed": {
                k: {"count": len(v), "some": sorted(v)[:12]}
                for k, v in sorted(self.distinct.items())
            },
            "planned_cases": self.n,
            "all_planned_cases_run": complete,
            "undecided_cases": len(self.problems),
        }
        if getattr(self.mod, "EXHAUSTIVE", None):
            cov["enumerated"] = self.mod.EXHAUSTIVE
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": getattr(self.mod, "LEVEL", "exploration"),
            "coverage": cov,
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(time.monotonic() - self.start, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
        for p in self.problems:
            print("PROBLEM: " + p)
        print(
            "%s %s seed=%s: %d cases, %d distinct, %d comparisons, %d violations, %.1f s"
            % (
                self.prop,
                self.tier,
                self.seed,
                self.evaluations,
                len(self.sigs),
                self.events.get("comparisons", 0),
                len(self.violations),
                ev["wall_s"],
            )
        )
        if self.violations:
            return 1
        if len(self.problems) > TOLERATED:
            print("INCONCLUSIVE: the machinery failed")
            return 2
        if missing or not self.sigs or not self.events.get("comparisons"):
            print("INCONCLUSIVE: not observed: %s" % (missing or "anything"))
            return 2
        return 0


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(prop, tier, seed)
    replays = os.path.join(VERIF, "evidence", "replays")
    if os.path.isdir(replays):
        for f in os.listdir(replays):
            if f.startswith("%s-%s-%s-" % (prop, tier, seed)):
                os.unlink(os.path.join(replays, f))
    complete = run.go()
    for line in findings.report(prop):
        print(line)
    return run.finish(complete)


def replay(path):
    with open(path) as f:
        data = json.load(f)
    rec, ended, err = isolated(
        data["property"], data["seed"], data["tier"], data["case"], WALL_LIMIT
    )
    if rec is None:
        print("the case ended with: %s\n%s" % (ended, err))
        return 1
    print(json.dumps(rec, indent=1)[:8000])
    return 1 if rec["verdict"] == "violated" else 0


def selftest():
    core.import_sut()
    d = os.path.join(VERIF, "vf", "checks")
    names = sorted(f[:-3] for f in os.listdir(d) if f.startswith("c") and f[1].isdigit())
    for n in names:
        mod = load(n)
        assert mod.RULE and mod.CASES["quick"] and mod.CASES["thorough"], n
    findings.entries()
    print("%d checks ready" % len(names))
    return 0


def main(argv):
    if argv[0] == "--worker":
        worker(argv[1], int(argv[2]), argv[3], int(argv[4]))
        return 0
    if argv[0] == "--selftest":
        return selftest()
    if argv[0] == "--probe":
        core.import_sut()
        return findings.probe(argv[1])
    if argv[0] == "--replay":
        return replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(argv[0].upper(), tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
