#!/usr/bin/env python3
"""plant.py SPEC.py...: turns bug specifications into /verif/seeded/<id>/ after checking, in a scratch copy, that
the patch builds, passes the stable tests, and that its demonstration fails with it and passes without it.
A specification defines id, property, edits=[(file, old, new)], needs, breaks, demo (Python source)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, timeout=300, env=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def tests(repo):
    out = run(["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-x", "--timeout=120",
               "-p", "no:cacheprovider", "-o", "python_files=test_*.py *_test.py tests.py", "tests"], repo, env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"))
    return out.returncode == 0, out.stdout[-1500:]


def plant(spec, force=False):
    s = {}
    exec(open(spec).read(), s)
    root = subprocess.run("git rev-list --max-parents=0 HEAD | tail -1; git log --format=%H --grep='^fix:' --reverse",
                          shell=True, cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.split()
    tmp = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
        repo = tmp + "/repo"
        mine = set(root[1:])
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != s.get("count", 1):
                return "%s: text found %d times in %s: %r" % (s["id"], t.count(old), f, old)
            ln = t[:t.index(old)].count("\n") + 1
            bl = run(["git", "blame", "-l", "-s", "-L", "%d,+%d" % (ln, old.count("\n") + 1), f], repo).stdout
            for l in bl.splitlines():
                if l.split()[0].lstrip("^") in mine:
                    print("   note: context/changed line of a fix commit:", l[41:120])
            open(p, "w").write(t.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        demo_dir = tmp + "/demo"
        os.mkdir(demo_dir)
        open(demo_dir + "/demo.sh", "w").write(SH)
        open(demo_dir + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        os.chmod(demo_dir + "/demo.sh", 0o755)
        ok, msg = tests(repo)
        if not ok:
            return "%s: tests fail\n%s" % (s["id"], msg)
        bad = run(["bash", demo_dir + "/demo.sh"], repo)
        good = run(["bash", demo_dir + "/demo.sh"], "/repo")
        if good.returncode != 0 or bad.returncode == 0:
            return "%s: demo good=%d bad=%d\n%s\n%s" % (s["id"], good.returncode, bad.returncode,
                                                     good.stdout[-600:], bad.stdout[-300:])
        out = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(demo_dir, n), os.path.join(out, n))
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        # does the check catch it?
        env = dict(os.environ, VERIF_REPO=repo)
        chk = run(["./run.sh", s["property"]], VERIF, 900, env)
        last = chk.stdout.strip().splitlines()
        return "%s: planted; %s rc=%d %s" % (s["id"], s["property"], chk.returncode,
                                           [l[:200] for l in last[-3:]] if chk.returncode != 1 else "CAUGHT")
    finally:
        shutil.rmtree(tmp)


for spec in sys.argv[1:]:
    print(plant(spec), flush=True)
