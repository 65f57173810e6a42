"""Runs one check: builds, enumerates in parallel, writes the evidence, prints the verdict.

A check module (checks/cNN.py) defines
  ID, LEVEL, RULE, ASSUME (optional), VARIANT (optional, build variant)
and either
  cases(tier)   generator of JSON-able cases, complete and in a fixed order
  check(case)   -> R (see class R) ; exceptions are reported as violations
or
  explore(tier, shard, nshards) -> Acc   for state-space searches.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

MAXV = 8  # violations kept per shard


class R:
    """Result of one case."""

    def __init__(self):
        self.msgs = []  # [(sig, text)]
        self.keys = []  # hashables: non-trivial outcomes observed
        self.n = 1
        self.counts = {}

    def bad(self, sig, text):
        self.msgs.append((str(sig), str(text)[:2000]))

    def key(self, *k):
        self.keys.append(k)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


class Acc:
    """Accumulated over a shard, merged over shards."""

    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.violations = []
        self.nviol = 0
        self.samples = []
        self.counts = {}
        self.capped = False
        self.known = {}

    def add(self, case, r):
        self.evals += r.n
        for k in r.keys:
            self.keys.add(hashlib.blake2b(repr(k).encode(), digest_size=8).digest())
        for k, v in r.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for sig, text in r.msgs:
            if sig in KNOWN:
                self.known.setdefault(sig, (case, text))
                continue
            self.nviol += 1
            if len(self.violations) < MAXV and sum(v["sig"] == sig for v in self.violations) < 3:
                self.violations.append(dict(case=case, sig=sig, what=text))

    def merge(self, o):
        self.evals += o.evals
        self.keys |= o.keys
        self.violations += o.violations
        self.nviol += o.nviol
        self.samples += o.samples
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.capped |= o.capped
        for k, v in o.known.items():
            self.known.setdefault(k, v)


KNOWN = {}


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e["property"] == pid:
                KNOWN[e["sig"]] = e


def safe_check(mod, case):
    r = None
    try:
        r = mod.check(case)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # deodr raises BaseException itself
        r = R()
        tb = traceback.format_exc()
        r.bad("exception:" + type(e).__name__, "unexpected exception\n" + tb[-1500:])
    return r


def shard_main(mod, tier, shard, nshards, deadline, progress):
    acc = Acc()
    limit = getattr(mod, "CASE_LIMIT", 200) * (1 if tier == "quick" else 10)
    if hasattr(mod, "explore"):
        a = mod.explore(tier, shard, nshards)
        acc.merge(a)
    if hasattr(mod, "cases"):
        for i, case in enumerate(mod.cases(tier)):
            if i % nshards != shard:
                continue
            progress(case)
            signal.alarm(limit)  # default action: a case that hangs ends the shard, reported with the case
            r = safe_check(mod, case)
            signal.alarm(0)
            acc.add(case, r)
            if len(acc.samples) < 2 and r.keys:
                acc.samples.append(case)
            if acc.nviol >= 50:
                acc.capped = True
                break
            if time.time() > deadline:
                acc.capped = True
                break
    return acc


def run(pid, tier, seed, nshards=None):
    t0 = time.time()
    mod = importlib.import_module(pid.lower())
    load_known(pid)
    budget = float(os.environ.get("VERIF_BUDGET", 420 if tier == "quick" else 6 * 3600))
    hard = float(os.environ.get("VERIF_HARD", 780 if tier == "quick" else 7 * 3600))
    nshards = nshards or getattr(mod, "NSHARDS", 8)
    tmp = os.path.join(VERIF, ".cache", "run-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    if hasattr(mod, "prepare"):
        mod.prepare()
    sys.stdout.flush()
    pids = {}
    deadline = time.time() + budget
    for s in range(nshards):
        p = os.fork()
        if p == 0:
            try:
                os.setsid()
                out = open(os.path.join(tmp, "log%d" % s), "wb", buffering=0)
                os.dup2(out.fileno(), 1)
                os.dup2(out.fileno(), 2)
                pf = open(os.path.join(tmp, "case%d" % s), "w")

                def progress(case):
                    pf.seek(0)
                    pf.truncate()
                    pf.write(json.dumps(case))
                    pf.flush()

                acc = shard_main(mod, tier, s, nshards, deadline, progress)
                with open(os.path.join(tmp, "res%d.tmp" % s), "wb") as f:
                    pickle.dump(acc, f)
                os.rename(os.path.join(tmp, "res%d.tmp" % s), os.path.join(tmp, "res%d" % s))
                sys.stdout.flush()
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(3)
        pids[p] = s
    total = Acc()
    died = []
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.time() - t0 > hard:
                for q in pids:
                    try:
                        os.killpg(q, signal.SIGKILL)
                    except OSError:
                        pass
                for q, s in pids.items():
                    os.waitpid(q, 0)
                    died.append((s, "did not terminate"))
                pids = {}
                break
            time.sleep(0.02)
            continue
        if p not in pids:
            continue
        s = pids.pop(p)
        res = os.path.join(tmp, "res%d" % s)
        if os.path.exists(res):
            total.merge(pickle.load(open(res, "rb")))
        else:
            died.append((s, "process ended with wait status %d" % st))
    errors = []
    for s, why in died:
        log = open(os.path.join(tmp, "log%d" % s), errors="replace").read()
        try:
            case = json.load(open(os.path.join(tmp, "case%d" % s)))
        except Exception:
            case = None
        if "wait status 768" in why and case is None:  # our own exit code 3 outside any case
            errors.append(log[-3000:])
        v = dict(case=case, sig="died", what="%s while running this case\n%s" % (why, log[-3000:]))
        total.violations.append(v)
        total.nviol += 1
    wall = time.time() - t0
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    cov = dict(getattr(mod, "coverage", lambda a: {})(total))
    level = mod.LEVEL
    base = dict(rule=mod.RULE, samples=total.samples[:4] or [v["case"] for v in total.violations[:1]] or ["none"])
    if level in ("exploration", "fault_enumeration"):
        base.update(evaluations=total.evals, distinct_nontrivial=len(total.keys))
    elif level == "model_checking":
        base.update(states=total.counts.pop("states", len(total.keys)), transitions=total.counts.pop("transitions", 0),
                    traces_validated_against_impl=total.counts.pop("traces", total.evals))
    base["exhaustive"] = not total.capped and not died
    base["counts"] = total.counts
    base.update(cov)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=base,
              assumptions=getattr(mod, "ASSUME", []), wall_s=round(wall, 2), violations=total.nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for sig, (case, text) in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, KNOWN[sig]["what"]))
    print("%s tier=%s evaluations=%d distinct=%d counts=%s capped=%s wall=%.1fs" %
          (pid, tier, total.evals, len(total.keys), total.counts, total.capped, wall))
    if errors and not [v for v in total.violations if v["sig"] != "died"]:
        # the code under test does not even load or the harness failed outside any case
        print(errors[0])
    if total.violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        firsts, seen = [], set()
        for v in total.violations:
            if v["sig"] not in seen and v["sig"] != "detail":
                seen.add(v["sig"])
                firsts.append(v)
        for i, v in enumerate(firsts[:4] or total.violations[:1]):
            v["also"] = [u["what"] for u in total.violations if u["case"] == v["case"] and u["sig"] == "detail"][:1]
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump(dict(property=pid, **v), f, indent=1, default=str)
            print("  case: %s" % json.dumps(v["case"], default=str)[:600])
            print("  [%s] %s %s" % (v["sig"], v["what"][:1200], v["also"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def replay(pid, path):
    mod = importlib.import_module(pid.lower())
    v = json.load(open(path))
    if hasattr(mod, "prepare"):
        mod.prepare()
    r = safe_check(mod, v["case"])
    for sig, text in r.msgs:
        print("[%s] %s" % (sig, text))
    print("reproduced" if r.msgs else "not reproduced")
    return 1 if r.msgs else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.pid, a.replay))
    sys.exit(run(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.shards))


if __name__ == "__main__":
    sys.modules["runner"] = sys.modules["__main__"]
    main()
