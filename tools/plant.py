"""Plants bugs: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, prop, file (below src/pykrige),
edits [(old, new)] (unique matches, LF; CRLF files are handled), demo (Python
source), needs, breaks, also (other checks to run).  Each bug is made in a
scratch copy of /repo, the stable tests and the demonstration are run with and
without it, then the property's check; a confirmed bug is kept in /verif/seeded.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "e8d18cb"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def sh(cmd, cwd=None, env=None, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def edit(path, edits):
    raw = open(path, newline="").read()
    crlf = "\r\n" in raw
    s = raw.replace("\r\n", "\n")
    for old, new, *nth in edits:
        if s.count(old) != 1 and not nth:
            raise LookupError("%d matches of %r" % (s.count(old), old))
        parts = s.split(old)
        k = nth[0] if nth else 0
        s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1:])
    open(path, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def plant(b):
    log = []
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        repo = os.path.join(tmp, "repo")
        os.mkdir(repo)
        sh(["bash", "-c", "git -C /repo archive HEAD | tar -x -C " + repo])
        sh(["git", "init", "-q"], repo)
        sh(["git", "add", "-A", "-f"], repo)
        sh(["git", "-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"], repo)
        files = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        try:
            for f, eds in files.items():
                edit(os.path.join(repo, "src/pykrige", f), eds)
        except LookupError as e:
            return b, "EDIT", str(e), log
        rc, diff = sh(["git", "diff", "--no-color"], repo)
        # only original lines are changed
        for f in files:
            rc, bl = sh(["git", "blame", "-s", "--abbrev=7", "HEAD", "--", "src/pykrige/" + f], "/repo")
            mine = {l.split(") ", 1)[1].rstrip() if ") " in l else "" for l in bl.splitlines() if not l.startswith(("^" + BASE, BASE))}
            rc, d0 = sh(["git", "diff", "--no-color", "-U0", "--", "src/pykrige/" + f], repo)
            rem = [l[1:].rstrip() for l in d0.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not rem:
                log.append("NOTE %s: no original line changed" % f)
            if any(l in mine and l.strip() for l in rem):
                log.append("NOTE %s: may touch a line of a fix: %r" % (f, [l for l in rem if l in mine and l.strip()]))
        # build of the scratch copy
        sys.path.insert(0, os.path.join(ROOT, "harness"))
        env = dict(ENV, PYTHONPATH=os.path.join(repo, "src"))
        bt = os.path.join(tmp, "b")
        rc, o = sh([PY, "-c", "import sys,os;sys.path.insert(0,%r);import build;build.build(%r)" % (os.path.join(ROOT, "harness"), bt)],
                   env=dict(ENV, VERIF_REPO=repo))
        if rc:
            return b, "BUILD", o, log
        for f in os.listdir(os.path.join(bt, "src/pykrige/lib")):
            if f.endswith(".so"):
                shutil.copy(os.path.join(bt, "src/pykrige/lib", f), os.path.join(repo, "src/pykrige/lib", f))
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write(textwrap.dedent(b["demo"]).lstrip())
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r0, o0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        r1, o1 = sh(["bash", os.path.join(d, "demo.sh")], repo, env)
        if r0 or not r1:
            return b, "DEMO unpatched %d patched %d" % (r0, r1), o0[-1500:] + "\n----\n" + o1[-1500:], log
        log.append("demo: " + o1.strip().splitlines()[-1][:200] if o1.strip() else "demo failed silently")
        rc, o = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml", tmp + "/j.xml", "tests"], repo, env)
        import xml.etree.ElementTree as ET

        ok = set()
        for tc in ET.parse(tmp + "/j.xml").getroot().iter("testcase"):
            if len(tc) == 0 or all(x.tag not in ("failure", "error", "skipped") for x in tc):
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        miss = stable() - ok
        if miss:
            return b, "TESTS", "%s" % sorted(miss), log
        out = {}
        for c in [b["prop"]] + b.get("also", []):
            rc, o = sh(["./check.sh", c], ROOT, dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in o.splitlines() if "VIOLATION" in l]
            out[c] = (rc, v[:1] or o.strip().splitlines()[-3:])
            for l in v:  # replay files of planted bugs are not kept
                p = l.split("replay=")[-1].strip()
                p = p if os.path.isabs(p) else os.path.join(ROOT, p)
                if os.path.exists(p):
                    try:
                        out[c] = (rc, [json.load(open(p)).get("message", v[0])[:300]])
                    except Exception:
                        pass
                    os.remove(p)
        k = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(k, ignore_errors=True)
        shutil.copytree(d, k)
        r = subprocess.run(["git", "diff", "--no-color"], cwd=repo, capture_output=True)
        open(os.path.join(k, "patch.diff"), "wb").write(r.stdout)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(k, "meta.json"), "w"), indent=1)
        rc, o = sh(["git", "apply", "--check", os.path.join(k, "patch.diff")], "/repo")
        if rc:
            return b, "APPLY", o, log
        return b, "KEPT " + " ".join("%s:%s" % (c, "caught" if v[0] == 1 else "MISSED(%d)" % v[0]) for c, v in out.items()), \
            "\n".join("%s %s" % (c, v[1]) for c, v in out.items()), log
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for f in cf.as_completed([ex.submit(plant, b) for b in bugs]):
            b, verdict, text, log = f.result()
            print("=== %s (%s): %s" % (b["id"], b["prop"], verdict))
            for l in log:
                print("   ", l)
            print(textwrap.indent(text[:1500], "    "), flush=True)
