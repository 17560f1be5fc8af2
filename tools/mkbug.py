#!/usr/bin/env python3
"""mkbug.py defs.py [id...] : builds and confirms planted changes in a scratch copy of /repo.

defs.py defines BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=python source)].
A change is kept only when the demo passes on the unchanged tree, fails with the change, and the stable tests pass."""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/bugscratch"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    env.update(k)
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)


def fresh():
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree("/repo", SCR, symlinks=True)


def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in defs:
        if want and b["id"] not in want:
            continue
        fresh()
        out = os.path.join(HERE, "seeded", b["id"])
        tmp = "/tmp/bugdemo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(tmp + "/demo.py", "w") as f:
            f.write(b["demo"])
        with open(tmp + "/demo.sh", "w") as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(tmp + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % tmp, SCR)
        if r0.returncode != 0:
            print(b["id"], "DEMO FAILS ON UNCHANGED TREE", r0.stdout[-800:])
            continue
        ok = True
        for fn, old, new in b["edits"]:
            p = os.path.join(SCR, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit does not match once:", fn, s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = sh("git diff", SCR).stdout
        r1 = sh("bash %s/demo.sh" % tmp, SCR)
        if r1.returncode == 0:
            print(b["id"], "DEMO PASSES WITH THE CHANGE", r1.stdout[-300:])
            continue
        rep = "/tmp/bugjunit.xml"
        t = sh("%s -m pytest tests -q -n 8 -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=%s 2>&1 | tail -5" % (PY, rep), SCR, PYTHONPATH=SCR)
        where = sh("%s -c 'import spafe;print(spafe.__file__)'" % PY, SCR, PYTHONPATH=SCR).stdout
        if SCR not in where:
            print("scratch import goes to", where)
            return
        res = subprocess.run(["python3", "/opt/vp/results.py", "/tmp/bugres.json", "junit:" + rep], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = json.load(open("/tmp/bugres.json"))
        passed = set(got.get("passed", got if isinstance(got, list) else []))
        bad = sorted(stable - passed)
        if bad:
            print(b["id"], "TESTS FAIL: %d" % len(bad), bad[:3], t.stdout[-200:])
            continue
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy2(tmp + "/" + n, out + "/" + n)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(b["id"], "kept; demo says:", r1.stdout.strip().splitlines()[-1][:160] if r1.stdout.strip() else "")
    shutil.rmtree(SCR, ignore_errors=True)


main()
