"""Runs one check: forks the workers, collects what they observed, decides, writes the evidence.

usage: run.py PROPERTY quick|thorough          explore
       run.py PROPERTY replay FILE             replay one recorded case
"""

import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import env
from .cov import Coverage
from .mon import Monitor, Violation
from .tape import Tape, mutate, shrink

WORKERS = int(os.environ.get("PSRPMON_WORKERS", "8"))
CASE_S = 60
RETRY_S = 150


class Hang(BaseException):
    pass


def _alarm(_sig, _frame):
    raise Hang()


def _seed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")


def _where(exc):
    """The innermost frames, for the report."""
    tb = traceback.extract_tb(exc.__traceback__)
    return ["%s:%s %s" % (f.filename, f.lineno, f.name) for f in tb[-6:]]


def attempt(fn, limit=CASE_S):
    """Run one case. None: held. Otherwise (kind, message, frames)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn()
        return None
    except Violation as e:
        return ("violation", str(e)[:2000], _where(e))
    except Hang as e:
        return ("hang", "no progress within %s s" % limit, _where(e))
    except MemoryError as e:
        return ("memory", "memory limit exceeded", _where(e))
    except Exception as e:
        return ("exception", ("unexpected %s: %s" % (type(e).__name__, str(e)[:1500])), _where(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Worker:
    def __init__(self, mod, idx, n, tier, seed, deadline):
        self.mod, self.idx, self.n, self.tier, self.seed, self.deadline = mod, idx, n, tier, seed, deadline
        self.mon = Monitor()
        self.cov = Coverage(env.SRC)
        self.evals = 0
        self.fixed = 0
        self.bad = None

    def confirm(self, res, again):
        """Decide about a failed attempt: hangs and memory errors count only when they happen again."""
        if res is None:
            return None
        if res[0] in ("hang", "memory"):
            second = again(RETRY_S)
            if second is None:
                self.mon.count("unconfirmed_" + res[0])
                return None
            return second
        return res

    def run(self):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        mod = self.mod
        if hasattr(mod, "setup"):
            mod.setup()
        self.cov.start()
        # The deterministic part: every n-th unit belongs to this worker.
        units = mod.units(self.tier) if hasattr(mod, "units") else []
        share = int(os.environ.get("PSRPMON_UNIT_SHARE", "1"))  # (only to speed up the mutation tests)
        for i, (name, fn) in enumerate(units):
            if i % self.n != self.idx or i // self.n % share:
                continue
            self.mon.start_trace()
            res = self.confirm(attempt(lambda: fn(self.mon), 240), lambda s: attempt(lambda: fn(Monitor()), 300))
            self.fixed += 1
            if res:
                self.bad = {"kind": "unit", "unit": name, "why": res[0], "message": res[1], "frames": res[2],
                            "trace": self.mon.trace(), "reproduced": True}
                return
            if time.time() > self.deadline:
                self.mon.count("time_cap")
                break
        total = getattr(mod, "CASES", {}).get(self.tier, 0)
        todo = total // self.n
        rng = random.Random(_seed(self.seed, mod.PROP, self.idx))
        corpus = []
        i = 0
        while i < todo:
            if time.time() > self.deadline:
                self.mon.count("time_cap")
                break
            if corpus and rng.random() < 0.4:
                base = corpus[-1 - int(rng.random() ** 2 * len(corpus))]
                data = mutate(rng, base, rng.choice(corpus))
                tape = Tape(data=data, tail_rng=random.Random(rng.random()))
            else:
                tape = Tape(seed=rng.getrandbits(48))
            before = self.cov.fresh
            self.mon.start_trace()
            res = attempt(lambda: mod.case(tape, self.mon))
            self.evals += 1
            i += 1
            if res:
                data = list(tape.out)
                res = self.confirm(res, lambda s: attempt(lambda: mod.case(Tape(data=data), Monitor()), s))
            if res:
                self.report(res, data)
                return
            if self.cov.fresh != before:
                corpus.append(list(tape.out))
                if len(corpus) > 400:
                    del corpus[rng.randrange(200)]
            if i % 40 == 0:
                self.cov.rearm()
            if len(self.mon.samples) < 2 and tape.pos > 10 and self.mon.trace():
                self.mon.samples.append({"draws": len(tape.out), "trace": self.mon.trace()[:14]})
        self.mon.count("corpus", len(corpus))

    def report(self, res, data):
        mod = self.mod
        trace = self.mon.trace()
        again = attempt(lambda: mod.case(Tape(data=data), Monitor()), RETRY_S)
        reproduced = again is not None
        if reproduced and res[0] not in ("hang", "memory"):
            end = time.time() + (12 if self.tier == "quick" else 40)

            def fails(cand):
                if time.time() > end:
                    return False
                r = attempt(lambda: mod.case(Tape(data=cand), Monitor()), 20)
                return r is not None and r[0] == res[0]

            small = shrink(data, fails, 1500)
            m = Monitor()
            m.start_trace()
            r = attempt(lambda: mod.case(Tape(data=small), m), RETRY_S)
            if r is not None:
                data, res, trace = small, r, m.trace()
        self.bad = {"kind": "tape", "tape": data, "why": res[0], "message": res[1], "frames": res[2], "trace": trace,
                    "reproduced": reproduced, "worker": self.idx, "case": self.evals}

    def result(self):
        m = self.mon
        return {"counts": m.counts, "sets": m.sets, "nontrivial": m.nontrivial, "samples": m.samples,
                "evals": self.evals, "fixed": self.fixed, "bad": self.bad, "known": getattr(m, "known", {}),
                "lines": self.cov.lines(), "branches": self.cov.branches()}


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]


def spawn(mod, idx, n, tier, seed, deadline):
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 1
    try:
        os.setpgid(0, 0)
        os.close(r)
        wk = Worker(mod, idx, n, tier, seed, deadline)
        try:
            wk.run()
            out = wk.result()
        except BaseException:
            out = {"crash": traceback.format_exc()}
        wk.cov.stop()
        _send(w, out)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        os._exit(code)


def explore(mod, tier, seed):
    t0 = time.time()
    cap = getattr(mod, "TIME", {}).get(tier, 45 if tier == "quick" else 600)
    scale = float(os.environ.get("PSRPMON_SCALE", "1"))
    cap *= max(1.0, scale)
    if scale != 1:
        mod.CASES = {k: int(v * scale) for k, v in getattr(mod, "CASES", {}).items()}
    deadline = t0 + cap
    n = WORKERS
    sys.stdout.flush()
    procs = {}
    for i in range(n):
        pid, fd = spawn(mod, i, n, tier, seed, deadline)
        procs[fd] = [pid, b"", i]
    results, lost = [], []
    hard = deadline + 420
    stop = None
    while procs:
        left = (stop if stop is not None else hard) - time.time()
        if left <= 0:
            break
        ready, _, _ = select.select(list(procs), [], [], min(left, 5))
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            p = procs[fd]
            if chunk:
                p[1] += chunk
                continue
            os.close(fd)
            del procs[fd]
            os.waitpid(p[0], 0)
            if len(p[1]) >= 8 and len(p[1]) - 8 == struct.unpack("<Q", p[1][:8])[0]:
                r = pickle.loads(p[1][8:])
                if "crash" in r:
                    lost.append((p[2], r["crash"]))
                else:
                    results.append(r)
                    if r["bad"] and stop is None:
                        stop = time.time() + 3  # the others need not go on for long
            else:
                lost.append((p[2], "worker ended without a result"))
    for fd, p in procs.items():
        try:
            os.killpg(p[0], signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(p[0], 0)
        os.close(fd)
        if stop is None:
            lost.append((p[2], "worker did not end in time"))
    return results, lost, time.time() - t0


def merge(results):
    counts, sets, nontrivial, samples, lines, branches = {}, {}, set(), [], set(), set()
    evals = fixed = 0
    known = {}
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["sets"].items():
            sets.setdefault(k, set()).update(v)
        nontrivial |= r["nontrivial"]
        samples += r["samples"]
        lines |= r["lines"]
        branches |= r["branches"]
        evals += r["evals"]
        fixed += r["fixed"]
        known.update(r["known"])
    return counts, sets, nontrivial, samples, lines, branches, evals, fixed, known


def listed_findings(prop):
    path = os.path.join(env.VERIF, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return {}
    return {f["id"]: f for f in data.get("findings", []) if f["property"] == prop}


def main(argv):
    prop, mode = argv[0], argv[1]
    mod = importlib.import_module("psrpmon.checks." + prop.lower())
    sys.setrecursionlimit(1000)
    if mode == "replay":
        return replay(mod, argv[2])
    tier = mode
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    results, lost, wall = explore(mod, tier, seed)
    counts, sets, nontrivial, samples, lines, branches, evals, fixed, known = merge(results)
    bad = [r["bad"] for r in results if r["bad"]]
    bad.sort(key=lambda b: (not b["reproduced"], len(b.get("tape", []))))
    listed = listed_findings(prop)
    for kid, text in sorted(known.items()):
        if kid in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[kid]["what"]))
        else:
            bad.append({"kind": "finding", "why": "violation", "message": "%s: %s" % (kid, text), "frames": [],
                        "trace": [], "reproduced": True})
    missing = [c for c in getattr(mod, "REQUIRE", []) if not counts.get(c)]
    replay_path = None
    if bad:
        rdir = os.path.join(env.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        replay_path = os.path.join(rdir, "%s-%s-%d.json" % (prop, tier, seed))
        rec = dict(bad[0], property=prop, tier=tier, seed=seed)
        with open(replay_path, "w", encoding="utf-8", errors="backslashreplace") as f:
            json.dump(rec, f, indent=1, ensure_ascii=True)
    picked = samples[:3] if samples else []
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evals + fixed + counts.get("enumerated", 0),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": picked or [{"units": fixed}],
            "random_cases": evals,
            "enumeration_units": fixed,
            "observed": dict(sorted(counts.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(sets.items())},
            "source_lines_executed": len(lines),
            "source_branch_outcomes_executed": len(branches),
            "workers_lost": len(lost),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    edir = os.path.join(env.VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d random cases, %d units, %d distinct non-trivial, %d lines / %d branch outcomes of the source, "
          "%.1f s" % (prop, tier, evals, fixed, len(nontrivial), len(lines), len(branches), wall))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
    for i, why in lost:
        print("worker %d lost: %s" % (i, why.strip().splitlines()[-1]), file=sys.stderr)
        if "Traceback" in why:
            print(why, file=sys.stderr)
    if bad:
        b = bad[0]
        print("%s: %s" % (b["why"], b["message"]))
        for fr in b["frames"]:
            print("    at " + fr)
        for line in b["trace"][-25:]:
            print("    | " + line.encode("ascii", "backslashreplace").decode())
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if lost and len(lost) > 2:
        print("inconclusive: %d workers lost" % len(lost))
        return 2
    if missing:
        print("inconclusive: never observed: %s" % ", ".join(missing))
        return 2
    print("held")
    return 0


def replay(mod, path):
    rec = json.load(open(path))
    if hasattr(mod, "setup"):
        mod.setup()
    m = Monitor()
    m.start_trace()
    if rec["kind"] == "tape":
        res = attempt(lambda: mod.case(Tape(data=rec["tape"]), m), RETRY_S)
    elif rec["kind"] == "unit":
        fn = dict(mod.units(rec["tier"]))[rec["unit"]]
        res = attempt(lambda: fn(m), 300)
    else:
        print("not replayable on its own: " + rec["message"])
        return 2
    for line in m.trace():
        print("    | " + line.encode("ascii", "backslashreplace").decode())
    if res is None:
        print("held")
        return 0
    print("%s: %s" % (res[0], res[1]))
    for fr in res[2]:
        print("    at " + fr)
    print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    return 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
