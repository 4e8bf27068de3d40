"""Hypothesis driver: shards, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

from client import Worker, HarnessError, LibraryError, Hang  # noqa: E402


class Violation(Exception):
    pass


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def execute(worker, mod, case, fresh=False):
    """(message or None, info) for one case; a hang counts only if it repeats."""
    if "sequence" in case:
        for i, c in enumerate(case["sequence"]):
            msg, info = execute(worker, mod, c, i == 0)
            if msg:
                return msg, info
        return None, {}
    try:
        try:
            out = worker.run(case, fresh)
        except Hang:
            try:
                out = worker.run(case, True)
            except Hang:
                return "the code under test does not terminate (twice, %d s each)" % worker.timeout, {}
    except LibraryError as e:
        return "the code under test raises %s" % e, {}
    try:
        return mod.judge(case, out)
    except Exception:
        return "the outcome has a form it never has: %s" % traceback.format_exc().strip().splitlines()[-1], {}


def shard_main(pid, tier, seed, shard, shards, examples, conn):
    worker = Worker()
    stats = {"evaluations": 0, "labels": Counter(), "nontrivial": 0, "hashes": set(), "samples": [], "excluded": Counter()}
    res = {"shard": shard}
    failed, log, log_until = [], [], []
    try:
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given
        import hypothesis.internal.conjecture.engine as engine
        if hasattr(engine, "MAX_SHRINKING_SECONDS"):
            engine.MAX_SHRINKING_SECONDS = 40
        # Up to five near-copies of every random case otherwise: one shard in four keeps them, the others search broadly.
        if shard % 4 and hasattr(engine, "ConjectureRunner"):
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
        mod = importlib.import_module("props." + pid.lower())
        strategy = mod.cases(tier)

        def test(case):
            msg, info = execute(worker, mod, case)
            log.append(case)
            stats["evaluations"] += 1
            for lab in info.get("labels", ()):
                stats["labels"][lab] += 1
            if info.get("nontrivial"):
                h = digest(case)
                stats["nontrivial"] += 1
                if h not in stats["hashes"]:
                    stats["hashes"].add(h)
                    if len(stats["samples"]) < 2 and not failed:
                        stats["samples"].append(case)
            if msg:
                if not failed:
                    log_until.append(len(log))
                failed.append((msg, case))
                raise Violation(msg)

        test = given(strategy)(test)
        test = settings(max_examples=examples, database=None, deadline=None, print_blob=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink))(test)
        test = hypothesis.seed(seed * 1009 + shard)(test)
        try:
            test()
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            pass
        if failed:
            order = [failed[-1]] + sorted(failed, key=lambda f: len(json.dumps(f[1])))[:3]
            for i in range(20):
                msg, case = order[i % len(order)]
                msg2, _ = execute(worker, mod, case, fresh=i % 2 == 0)
                if msg2:
                    res["violation"] = [msg2, case, i]
                    break
            else:
                res["violation"] = together(worker, mod, log[:log_until[0]])
                if not res["violation"]:
                    res["error"] = "not reproducible: %s %s" % (failed[-1][0], json.dumps(failed[-1][1])[:3000])
    except HarnessError as e:
        res["error"] = "harness: %s" % e
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        worker.stop()
    stats["hashes"] = sorted(stats["hashes"])
    stats["labels"] = dict(stats["labels"])
    res["stats"] = stats
    conn.send(res)
    conn.close()


def together(worker, mod, log, seconds=150):
    """A failure which needs what earlier cases have left behind in the process: the shortest sequence found within the time."""
    end = time.time() + seconds
    for n in (2, 4, 16, 64, 256, len(log)):
        seq = log[-n:]
        msg, _ = execute(worker, mod, {"sequence": seq})
        if msg or n >= len(log):
            break
    if not msg:
        return None
    best = msg, {"sequence": seq}
    size = (len(seq) + 1) // 2
    while size and time.time() < end:
        i, seq = 0, best[1]["sequence"]
        while i < len(seq) and time.time() < end:
            part = seq[:i] + seq[i + size:]
            msg, _ = execute(worker, mod, {"sequence": part}) if part else (None, None)
            if msg:
                seq, best = part, (msg, {"sequence": part})
            else:
                i += size
        size //= 2
    return [best[0], best[1], 0]


def known_findings(pid):
    """Findings recorded (not repaired) for this property."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):]
                fid, _, text = rest.partition(" ")
                out.append((fid[3:], text))
    return out


def run_check(pid, tier, seed, shards, examples):
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    if examples is None:
        examples = mod.EXAMPLES[tier]
    ctx = multiprocessing.get_context("fork")
    procs = []
    # regression tier: fixed cases of the module run first, in one fresh worker
    fixed = list(getattr(mod, "FIXED", ()))
    res_all, violation, errors = [], None, []
    stats_fixed = 0
    fixed_labels = Counter()
    worker = Worker()
    try:
        for name, case in fixed:
            msg, info = execute(worker, mod, case)
            stats_fixed += 1
            if msg:
                msg2, _ = execute(worker, mod, case, True)
                if msg2:
                    violation = [msg2, case]
                    break
        known = known_findings(pid)
        for fid, text in known:
            case, still = mod.KNOWN[fid]
            try:
                still = still(worker.run(case))
            except LibraryError as e:
                violation = violation or ["the code under test raises %s" % e, case]
                continue
            if still:
                print("KNOWN-FINDING: property=%s %s: %s" % (pid, fid, text))
            else:
                print("NOTE: known finding %s of %s no longer occurs" % (fid, pid))
    except HarnessError as e:
        errors.append(str(e))
    finally:
        worker.stop()
    if violation is None and not errors:
        for i in range(shards):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=shard_main, args=(pid, tier, seed, i, shards, examples, b))
            p.start()
            b.close()
            procs.append((p, a))
        waiting = {a: p for p, a in procs}
        while waiting:
            for c in multiprocessing.connection.wait(list(waiting)):
                p = waiting.pop(c)
                try:
                    r = c.recv()
                except EOFError:
                    errors.append("shard died")
                    p.join()
                    continue
                p.join()
                res_all.append(r)
                if r.get("error"):
                    errors.append(r["error"])
                if r.get("violation") and violation is None:
                    violation = r["violation"]
            if violation is not None:
                for c, p in waiting.items():
                    kill_tree(p)
                break
    ev = Counter()
    labels = Counter(fixed_labels)
    hashes = set()
    samples = []
    for r in res_all:
        s = r["stats"]
        ev["evaluations"] += s["evaluations"]
        ev["nontrivial"] += s["nontrivial"]
        hashes |= set(s["hashes"])
        for k, v in s["labels"].items():
            labels[k] += v
        samples += s["samples"][:1]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"] + stats_fixed,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:3] or [c for _, c in fixed[:2]],
            "classes": dict(sorted(labels.items())),
            "fixed_cases": stats_fixed,
            "shards": shards,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())) + [
            "cases run on the code of /repo under PyPy with virtual time and virtual timers"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if violation:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, digest(violation[1])))
        with open(path, "w") as f:
            json.dump({"property": pid, "message": violation[0], "case": violation[1]}, f, indent=1)
        evidence["coverage"]["failing_case"] = violation[1]
        evidence["coverage"]["message"] = violation[0]
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(evidence, f, indent=1)
    if violation:
        print("%s: %s" % (pid, violation[0]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR %s: %s" % (pid, e), file=sys.stderr)
        return 2
    print("%s ok: %d cases, %d distinct non-trivial, %.1f s" % (
        pid, evidence["coverage"]["evaluations"], len(hashes), time.time() - t0))
    return 0


def kill_tree(p):
    """Ends a shard and the worker it started."""
    import subprocess
    try:
        kids = subprocess.run(["pgrep", "-P", str(p.pid)], capture_output=True, text=True).stdout.split()
    except OSError:
        kids = []
    p.kill()
    for k in kids:
        try:
            os.kill(int(k), 9)
        except OSError:
            pass
    p.join()


def replay(pid, path):
    mod = importlib.import_module("props." + pid.lower())
    with open(path) as f:
        case = json.load(f)["case"]
    w = Worker()
    for i in range(20):
        msg, _ = execute(w, mod, case, fresh=i % 2 == 0)
        if msg:
            print("%s: %s" % (pid, msg))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            w.stop()
            return 1
    w.stop()
    print("not reproduced")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--examples", type=int)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.replay:
        sys.exit(replay(pid, a.replay))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = run_check(pid, a.tier, seed, a.shards, a.examples)
    except Exception:
        traceback.print_exc()
        rc = 2
    if a.stats:
        print(json.dumps(json.load(open(os.path.join(VERIF, "evidence", pid + ".json")))["coverage"]["classes"], indent=1))
    sys.exit(rc)
