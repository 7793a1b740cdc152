"""Runs every planted bug of /verif/seeded against its property's check (in a
scratch copy of /repo) and writes the table between the markers of DESIGN.md.

verdicts.py [ID ...]   (J = number of bugs at a time, SEED)"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAVE = os.path.join(ROOT, "tools", "planted.json")


def verdict(i):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="verdict_", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C " + tmp, shell=True, check=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tmp)
        if r.returncode:
            return i, "does not apply"
        e = dict(os.environ, VERIF_REPO=tmp, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick")
        r = subprocess.run(["./check.sh", prop], cwd=ROOT, env=e, capture_output=True, text=True)
        v = "missed" if r.returncode == 0 else "error %d" % r.returncode
        for l in r.stdout.splitlines():
            m = re.match(r"VIOLATION property=(\w+) replay=(.*)", l)
            if m and r.returncode == 1 and m.group(1) == prop:
                v = "caught"
                p = os.path.join(ROOT, m.group(2).strip())
                if os.path.exists(p):
                    v = "caught by test %s" % json.load(open(p))["test"]
                    os.remove(p)
        return i, v
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def table(res):
    out = ["| planted bug | what it breaks | needs | verdict of its property's check (quick, seed 1) |", "|---|---|---|---|"]
    for i in sorted(res):
        m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (i, *[str(m[k]).replace("|", "/").replace("\n", " ") for k in ("what_it_breaks", "needs")], res[i]))
    return "\n".join(out)


if __name__ == "__main__":
    have = sorted(os.listdir(os.path.join(ROOT, "seeded")))
    res = json.load(open(SAVE)) if os.path.exists(SAVE) else {}
    res = {k: v for k, v in res.items() if k in have}
    want = sys.argv[1:] or have
    if want != ["-"]:
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
            for i, v in ex.map(verdict, want):
                res[i] = v
                print(i, v, flush=True)
    json.dump(res, open(SAVE, "w"), indent=0, sort_keys=True)
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- verdicts -->\n", "<!-- end of verdicts -->"
    if a in s:
        s = s[: s.index(a) + len(a)] + table(res) + "\n" + s[s.index(b):]
        open(p, "w").write(s)
    print(len(res), "bugs,", sum(v.startswith("caught") for v in res.values()), "caught")
