"""Bookkeeping of one check: counters, verdicts, known findings, evidence."""
import hashlib
import json
import os
import random
import sys
import time

from vlib import env

KNOWN = os.path.join(env.VERIF, "known_findings.json")


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in parts))


def sig(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode("utf-8", "backslashreplace"))
        h.update(b"\0")
    return h.hexdigest()


def load_known(pid):
    try:
        with open(KNOWN) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return {}
    return {e["key"]: e for e in data["findings"]
            if e["property"] == pid and e.get("status") == "known"}


class Result:
    """What one case observed (picklable, sent from worker to parent)."""

    def __init__(self):
        self.evals = 0
        self.sigs = []
        self.events = {}
        self.viol = []
        self.samples = []
        self.inconclusive = []

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def seen(self, *parts):
        self.sigs.append(sig(*parts))

    def fail(self, key, msg, **data):
        if len(self.viol) < 20:
            self.viol.append({"key": key, "msg": str(msg)[:2000], "data": data})
        self.ev("violations_raw")

    def expect(self, cond, key, msg, **data):
        self.evals += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, **data)
        return cond


class Check:
    def __init__(self, pid, rule, level="exploration", required=()):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.required = required     # event counters which must be > 0
        self.t0 = time.monotonic()
        self.seed = env.SEED
        self.tier = env.TIER
        self.quick = env.TIER == "quick"
        self.known = load_known(pid)
        self.evals = 0
        self.cases = 0
        self.sigs = set()
        self.events = {}
        self.samples = []
        self.viol = {}
        self.known_hit = {}
        self.problems = []      # things which make the run inconclusive
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.timeouts = []
        self.truncated = False  # the deadline stopped a run before its last case
        self.hangs = 0

    def elapsed(self):
        return time.monotonic() - self.t0

    def deadline(self, quick, thorough):
        return self.t0 + (quick if self.quick else thorough)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def rng(self, *parts):
        return rng_for(self.seed, self.pid, *parts)

    def merge(self, res, case=None):
        self.cases += 1
        self.evals += res.evals
        self.sigs.update(res.sigs)
        for k, v in res.events.items():
            self.events[k] = self.events.get(k, 0) + v
        for s in res.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for v in res.viol:
            self.violation(v["key"], v["msg"], case=case, **v["data"])
        for p in res.inconclusive:
            self.problems.append(p)

    def violation(self, key, msg, case=None, **data):
        if key in self.known:
            self.known_hit.setdefault(key, msg)
            return
        ent = self.viol.setdefault(key, {"key": key, "msg": msg, "case": case,
                                         "data": data, "count": 0})
        ent["count"] += 1

    def run(self, fn, cases, timeout=60.0, deadline=None, workers=None,
            mem=2 << 30, on_timeout=None):
        from vlib import pool
        for case, status, res in pool.run_cases(
                fn, cases, workers=workers or pool.NCPU, timeout=timeout,
                deadline=deadline, mem=mem):
            if status == "ok":
                self.merge(res, case)
            elif status == "error":
                self.cases += 1
                self.error(case, res)
            elif status == "crash" and on_timeout is None:
                self.violation("crash", "case %r: the process died" % (case,), case=case)
            elif status == "timeout" and pool.CPU_AT_KILL.get(repr(case), 0) > max(40, timeout * .6):
                # CPU time, not wall-clock time: independent of the load
                self.hangs += 1
                self.violation("hang", "case %r did not end after %.0f s of CPU time"
                               % (case, pool.CPU_AT_KILL[repr(case)]), case=case)
                if self.hangs >= 4:
                    break
            elif on_timeout is not None:
                on_timeout(case, status)
            else:
                self.problems.append("case %r: %s" % (case, status))
        if deadline and time.monotonic() > deadline:
            self.truncated = True

    def error(self, case, trace):
        """An exception left a case.  Every case of every check completes on
        the unchanged tree, so either the code under test raised where its
        interface does not, or it delivered something the monitor could not
        even look at: both are deviations.  Exceptions which tell about the
        machine (no space left, too many processes...) are not."""
        last = trace.strip().splitlines()[-1]
        if last.startswith(("OSError: [Errno 28]", "OSError: [Errno 24]", "OSError: [Errno 12]", "BlockingIOError",
                            "KeyboardInterrupt", "SystemExit", "subprocess.TimeoutExpired")):
            self.problems.append("harness error in case %r:\n%s" % (case, trace))
            return
        where = [ln.strip() for ln in trace.splitlines() if ln.lstrip().startswith("File ")]
        name = last.split(":")[0][:60]
        site = where[-1].split(", in ")[-1] if where else "?"
        self.violation("exception: %s in %s" % (name, site),
                       "case %r: %s" % (case, trace[-1500:]), case=case)

    def note_timeout(self, case, status):
        """The wall-clock watchdog fired: not a verdict (C04 decides hangs),
        and not a reason to give no answer as long as it stays rare."""
        self.timeouts.append(repr(case))
        if len(self.timeouts) > 3 + self.cases // 20:
            self.problems.append("too many watchdog timeouts: %s" % ", ".join(self.timeouts[:5]))

    def finish(self):
        for name in self.required:
            if not self.events.get(name):
                if self.truncated or not self.cases:
                    self.problems.append("monitor %r observed nothing" % name)
                else:
                    # the same cases produce such events on the unchanged tree
                    self.violation("nothing observed: %s" % name, "no event %r in %s cases" % (name, self.cases))
        wall = round(time.monotonic() - self.t0, 2)
        cov = {"evaluations": self.evals,
               "distinct_nontrivial": len(self.sigs),
               "rule": self.rule,
               "samples": self.samples[:12] or ["(none)"],
               "cases": self.cases,
               "events": dict(sorted(self.events.items()))}
        if self.timeouts:
            cov["watchdog_timeouts"] = self.timeouts[:10]
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": wall,
              "violations": len(self.viol)}
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        path = os.path.join(env.VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as fp:
            json.dump(ev, fp, indent=1, sort_keys=True, default=repr)
            fp.write("\n")
        os.replace(path + ".tmp", path)

        for key, msg in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s: %s"
                  % (self.pid, key, self.known[key]["what"]))
        code = 0
        if self.viol:
            rdir = os.path.join(env.VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            items = sorted(self.viol.values(), key=lambda v: v["key"])
            for num, v in enumerate(items):
                if num >= 25:
                    print("... %s more distinct violations" % (len(items) - num))
                    break
                rp = os.path.join(rdir, "%s-%s.json" % (self.pid, sig(v["key"])))
                with open(rp, "w") as fp:
                    json.dump({"property": self.pid, "seed": self.seed,
                               "tier": self.tier, **v}, fp, indent=1, default=repr)
                    fp.write("\n")
                print("  [%s] x%d %s" % (v["key"], v["count"], v["msg"][:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            code = 1
        for p in self.problems[:10]:
            print("INCONCLUSIVE property=%s %s" % (self.pid, p))
        if self.problems and not code:
            code = 2
        print("%s %s: %d cases, %d evaluations, %d distinct, %.1fs%s"
              % (self.pid, self.tier, self.cases, self.evals, len(self.sigs), wall,
                 ", %d problems" % len(self.problems) if self.problems else ""))
        sys.stdout.flush()
        return code
