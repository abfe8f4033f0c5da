"""Entry point: python run.py <property> [tier] | --replay <file> | --build"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B                                                         # noqa: E402

VERIF = os.path.dirname(HERE)
HANG_CPU = 80.0         # seconds of processor time in one case; the cases take milliseconds to a few seconds
WALL = {"quick": 700.0}                 # no new shards after this time, running ones are given up shortly afterwards
WALL_FAILED = {"quick": 240.0}          # the same once a violation is known


def load(prop):
    import core
    importlib.import_module("props.%s" % prop.lower())
    return core, core.LAWS[prop]


def scope():
    return [B.SRC + os.sep, os.path.join(VERIF, ".cache")]


def child(lw, tier, seed, task, outdir, core):
    """runs in its own (forked) process"""
    name, shard, n = task
    key = "%s-%d" % (name, shard)
    log = os.open(os.path.join(outdir, "log-"+key), os.O_WRONLY | os.O_CREAT)
    os.dup2(log, 1)
    os.dup2(log, 2)
    os.setsid()
    r = core.run_shard(lw, tier, seed, shard, n, scope(), os.path.join(outdir, "state-"+key))
    r["task"] = task
    r["cpu"] = time.process_time()
    tmp = os.path.join(outdir, "tmp-"+key)
    with open(tmp, "w") as f:
        json.dump(r, f)
    os.rename(tmp, os.path.join(outdir, "res-"+key))


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11])+int(f[12]))/os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ext = B.build()
    B.setup_path(ext)
    core, laws = load(prop)
    ncpu = max(1, min(16, os.cpu_count() or 1, int(os.environ.get("VERIF_JOBS", "64"))))
    shards = 8 if tier == "quick" else 32
    tasks = []
    for lw in laws:
        total = lw.quick if tier == "quick" else lw.thorough
        s = max(1, min(shards, total//4))
        for i in range(s):
            tasks.append([lw.name, i, total//s + (1 if i < total % s else 0)])
    outdir = tempfile.mkdtemp(prefix="verif-")
    results, crashes, running = [], [], {}
    byname = {lw.name: lw for lw in laws}
    todo = list(reversed(tasks))
    unfinished = 0
    try:
        while todo or running:
            t = time.time()-t0
            failed = bool(crashes) or t > WALL_FAILED.get(tier, 1e9) and any(
                json.load(open(os.path.join(outdir, f)))["failure"] for f in os.listdir(outdir) if f.startswith("res-"))
            if os.environ.get("VERIF_FAST") and (crashes or any(          # mutation runs: the first violation is enough
                    json.load(open(os.path.join(outdir, f)))["failure"] for f in os.listdir(outdir) if f.startswith("res-"))):
                break
            limit = WALL_FAILED.get(tier, 1e9) if failed else WALL.get(tier, 1e9)
            if t > limit:
                unfinished += len(todo)
                todo = []
            if t > limit+60:
                unfinished += len(running)
                break
            while todo and len(running) < ncpu:
                task = todo.pop()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    rc = 70
                    try:
                        child(byname[task[0]], tier, seed, task, outdir, core)
                        rc = 0
                    except BaseException:
                        import traceback
                        os.write(2, traceback.format_exc().encode())
                    finally:
                        os._exit(rc)
                running[pid] = task
            time.sleep(0.02)
            for pid in list(running):
                task = running[pid]
                key = "%s-%d" % (task[0], task[1])
                statef = os.path.join(outdir, "state-"+key)
                done, status = os.waitpid(pid, os.WNOHANG)
                if not done:
                    try:
                        st = json.load(open(statef))
                        c = cpu_of(pid)
                        if c is not None and c-st["cpu"] > HANG_CPU and json.load(open(statef)) == st:
                            os.killpg(pid, signal.SIGKILL)
                            os.waitpid(pid, 0)
                            crashes.append({"law": st["law"], "case": st["case"], "message":
                                            "one case did not end within %d s of processor time" % HANG_CPU})
                            del running[pid]
                            todo = [x for x in todo if x[0] != task[0]]
                    except (OSError, ValueError, KeyError):
                        pass
                    continue
                del running[pid]
                rc = os.waitstatus_to_exitcode(status)
                if rc == 0:
                    continue
                log = open(os.path.join(outdir, "log-"+key)).read()
                if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                    try:
                        st = json.load(open(statef))
                    except (OSError, ValueError):
                        st = {"law": task[0], "case": None}
                    crashes.append({"law": st["law"], "case": st["case"],
                                    "message": "the interpreter died with signal %d" % -rc})
                else:
                    results.append({"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [], "failure": None,
                                    "harness": {"law": task[0], "case": None,
                                                "message": "shard ended with %s\n%s" % (rc, log[-3000:])}, "task": task})
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
    for f in sorted(os.listdir(outdir)):
        if f.startswith("res-"):
            results.append(json.load(open(os.path.join(outdir, f))))
    shutil.rmtree(outdir, ignore_errors=True)
    failures = [r["failure"] for r in results if r["failure"]] + crashes
    harness = [r["harness"] for r in results if r["harness"]]
    labels, samples, distinct, per_law = {}, [], set(), {}
    for r in sorted(results, key=lambda r: r["task"]):
        name = r["task"][0]
        d = per_law.setdefault(name, {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "cpu_s": 0.0})
        d["cpu_s"] = round(d["cpu_s"]+r.get("cpu", 0), 1)
        d["evaluations"] += r["evaluations"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0)+v
        new = {(name, h) for h in r["nontrivial"]}-distinct
        d["distinct_nontrivial"] += len(new)
        distinct |= new
        if len([s for s in samples if s["law"] == name]) < 2:
            samples.extend(r["samples"][:1])
    paths = []
    seen = set()
    rdir = os.path.join(VERIF, "replays")
    for f in failures:
        if f["law"] in seen:
            continue
        seen.add(f["law"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, f["law"]))
        json.dump(dict(f, property=prop), open(path, "w"), indent=1, sort_keys=True)
        paths.append((path, f))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(d["evaluations"] for d in per_law.values()),
                       "distinct_nontrivial": len(distinct),
                       "rule": "cases are drawn by Hypothesis strategies, one per law; a case counts as non-trivial when its "
                               "law reached its comparison with the stated oracle and returned a label. "
                               + " | ".join("%s: %s" % (l.name, " ".join(l.rule.split())) for l in laws),
                       "samples": samples, "per_law": per_law, "unfinished_shards": unfinished},
          "assumptions": ["mpmath, exact integer arithmetic and scipy reference routines are trusted",
                          "tolerances stated in DESIGN.md separate rounding from wrong results"],
          "wall_s": round(time.time()-t0, 2), "violations": len(paths)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in per_law.items():
            print("%-30s %6d evaluations %6d distinct nontrivial %6.1f s  %s" % (
                n, d["evaluations"], d["distinct_nontrivial"], d["cpu_s"], d["labels"]))
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], len(distinct), ev["wall_s"]))
    for p, f in paths:
        print("law %s: %s\n  case: %s" % (f["law"], f["message"], json.dumps(f["case"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for h in harness:
        print("HARNESS ERROR law %s: %s\n  case: %s" % (h["law"], h["message"], json.dumps(h["case"])[:1500]), file=sys.stderr)
    if paths:
        return 1
    if harness:
        return 2
    return 0


def replay(path):
    f = json.load(open(path))
    B.setup_path(B.build())
    core, laws = load(f["property"])
    lw = {l.name: l for l in laws}[f["law"]]
    try:
        label = core.execute(lw, f["case"])
    except Exception as e:
        print("law %s: %s" % (f["law"], core.describe(e)))
        if core.classify(e, scope()) == "violation":
            print("VIOLATION property=%s replay=%s" % (f["property"], path))
            return 1
        return 2
    print("law %s holds for this case (%s)" % (f["law"], label))
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[:1] == ["--build"]:
            print(B.build())
            sys.exit(0)
        if a[:1] == ["--replay"]:
            sys.exit(replay(a[1]))
        sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    except B.BuildError as e:
        print("BUILD ERROR: %s" % e, file=sys.stderr)
        sys.exit(3)
