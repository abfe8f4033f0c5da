"""mkseed.py SPEC.py [id ...]: makes the planted bugs of a specification file, verifies them in a scratch copy of /repo and
   writes them to /verif/seeded.  SPEC defines S = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

OUT = os.environ.get("SEED_OUT", "/verif/seeded")
BASE = "5dbdbf4"
DEMO = '''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'rm -rf "$S"' EXIT
export PYTHONPATH="$PWD/CasimirRio" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S" LANG=C.UTF-8
export OPENBLAS_NUM_THREADS=1 SCRATCH="$S" SRC="$PWD/CasimirRio"
exec_dir="$PWD"
cd "$S" || exit 2
timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d, repo):
    r = sh("bash %s/demo.sh" % d, cwd=repo)
    return r.returncode, (r.stdout+r.stderr)[-400:]


def main():
    specs = runpy.run_path(sys.argv[1])["S"]
    want = sys.argv[2:]
    for s in specs:
        if want and s["id"] not in want:
            continue
        w = tempfile.mkdtemp(prefix="seed")
        try:
            d = os.path.join(w, "seeded")
            os.mkdir(d)
            open(d+"/demo.sh", "w").write(DEMO)
            open(d+"/demo.py", "w").write(s["demo"].lstrip("\n"))
            repo = os.path.join(w, "repo")
            sh("cp -a /repo %s" % repo)
            rc0, out0 = demo(d, repo)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(repo, "CasimirRio", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "text found", t.count(old), "times in", f)
                    ok = False
                    break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            diff = sh("git -C %s diff" % repo).stdout
            # changed lines must be lines of the original repository
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig = ""
            for f, _, _ in s["edits"]:
                orig += sh("git -C /repo show %s:CasimirRio/%s" % (BASE, f)).stdout
            mine = [l for l in removed if l not in orig.splitlines()]
            if any(f.endswith(".pyx") for f, _, _ in s["edits"]):
                b = sh(". /opt/vp/env.inc; SRC=%s/CasimirRio; build_ext" % repo, executable="/bin/bash")
            t = sh("cd %s/CasimirRio && . /opt/vp/env.inc && PYTHONPATH= /opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors tests 2>&1 | tail -8" % repo, executable="/bin/bash")
            rc1, out1 = demo(d, repo)
            tests = t.stdout.strip().splitlines()
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            failed = [l.split("::")[-1].split(" ")[0] for l in tests if l.startswith("FAILED")]
            passed = bool(tests) and " passed" in tests[-1] and not [f for f in failed if any(x.endswith("::"+f) for x in stable)]
            good = rc0 == 0 and rc1 not in (0,) and passed
            print("%-22s %s  demo %d -> %d, tests: %s%s" % (s["id"], "OK " if good else "BAD", rc0, rc1, tests[-1] if tests else "?", "; NOT ORIGINAL: %r" % mine if mine else ""))
            if not good:
                print("   ", out0, "|", out1, "\n".join(tests[-6:]))
                continue
            o = os.path.join(OUT, s["id"])
            shutil.rmtree(o, ignore_errors=True)
            shutil.copytree(d, o)
            open(o+"/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o+"/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(w)


main()
