#!/usr/bin/env python3
"""matrix.py [ID...]: runs, in scratch copies, the check of the property of every planted bug (or of the given ones)
and updates tools/caught.json with the first divergence it reports."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "tools", "caught.json")


def main(ids):
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    have = sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*"))
    res = {k: v for k, v in res.items() if k in have}
    for b in have:
        if ids and not any(b.startswith(i) for i in ids) or (not ids and b in res and res[b]["caught"]):
            continue
        d = os.path.join(VERIF, "seeded", b)
        prop = json.load(open(d + "/meta.json"))["property"]
        tmp = tempfile.mkdtemp(prefix="matrix", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
            subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
            p = subprocess.run(["./run.sh", prop], cwd=VERIF, env=dict(os.environ, VERIF_REPO=tmp + "/repo"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            shutil.rmtree(tmp)
        lines = p.stdout.splitlines()
        key = ""
        for k, l in enumerate(lines):
            if l.startswith("first divergence") and k + 1 < len(lines):
                key = lines[k + 1].strip()[:90]
        res[b] = {"property": prop, "caught": p.returncode == 1, "first": key}
        print(b, prop, p.returncode, key, flush=True)
        json.dump(res, open(OUT, "w"), indent=1, sort_keys=True)


main(sys.argv[1:])
