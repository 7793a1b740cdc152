"""Entry point of every check:  run.py <ID> [--replay FILE]

Copies /repo's current sources to a scratch directory, compiles the extension
there, runs the property's generated tests in parallel shards, writes
/verif/evidence/<ID>.json and reports.  Exit 0: held; 1: VIOLATION; 2: error."""
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B  # noqa: E402

CRASH = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL}


def env():
    e = dict(os.environ)
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["MPLBACKEND"] = "Agg"
    e["HYPOTHESIS_STORAGE_DIRECTORY"] = "/nonexistent-hypothesis"
    e.pop("PYTHONPATH", None)
    return e


def known_findings(prop):
    """Lines 'known: property=<id> signature=<hash> <text>' of the committed file."""
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                f = line.split(None, 3)
                out[f[2].split("=", 1)[1]] = f[3].strip()
    return out


def main():
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    if replay:
        replay = os.path.abspath(replay)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    nsh = int(os.environ.get("VERIF_SHARDS", "8"))
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="pkv_")
    try:
        rc = run(prop, replay, tier, seed, 1 if replay else nsh, scratch, t0)
    except B.BuildError as e:
        print("ERROR: cannot build the code under test: %s" % str(e)[-2000:])
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(prop, replay, tier, seed, nsh, scratch, t0):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    B.build(scratch, ext=True)
    t_build = time.monotonic() - t0
    work = []
    for i in range(nsh):
        d = os.path.join(scratch, "shard%d" % i)
        os.mkdir(d)
        out = os.path.join(d, "result.json")
        cmd = [sys.executable, os.path.join(HERE, "worker.py"), prop, str(i), str(nsh),
               str(seed), tier, scratch, out]
        if replay:
            cmd.append(replay)
        log = open(os.path.join(d, "log"), "w")
        work.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env()), out, d))
    limit = t0 + (780 if tier == "quick" else 6 * 3600)
    results, errors, violation = [], [], None
    pending = dict(enumerate(work))
    while pending:
        for i, (p, out, d) in list(pending.items()):
            rc = p.poll()
            if rc is None:
                if time.monotonic() > limit:
                    p.kill()
                    errors.append("shard %d ran into the time limit" % i)
                    del pending[i]
                continue
            del pending[i]
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r["error"]:
                    errors.append("shard %d: %s" % (i, r["error"]))
                if r["violation"] and (
                    violation is None
                    or len(json.dumps(r["violation"])) < len(json.dumps(violation))
                ):
                    violation = r["violation"]
            elif rc in CRASH and os.path.exists(out + ".cur"):
                c = json.load(open(out + ".cur"))
                violation = dict(test=c["test"], case=c["case"],
                                 message="the interpreter crashed (signal %d)" % -rc)
            else:
                tail = open(os.path.join(d, "log")).read()[-3000:]
                errors.append("shard %d ended with %s and no result: %s" % (i, rc, tail))
        if violation is not None and pending:
            # enough: stop the other shards after a short grace period
            end = time.monotonic() + 2.0
            while time.monotonic() < end and any(p.poll() is None for p, _, _ in pending.values()):
                time.sleep(0.05)
            for i, (p, out, d) in list(pending.items()):
                if p.poll() is None:
                    p.kill()
                    p.wait()
                    del pending[i]
        time.sleep(0.02)
    known = known_findings(prop)
    if not replay:
        evidence(prop, tier, seed, results, violation, time.monotonic() - t0, t_build, nsh)
        for sig, text in known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if violation is not None:
        sig = hashlib.blake2b(
            json.dumps([violation["test"], violation["case"]], sort_keys=True).encode(), digest_size=8
        ).hexdigest()
        if sig in known:
            return 0
        if replay:
            path = replay
        else:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%s.json" % (prop, sig))
            with open(path, "w") as f:
                json.dump(dict(property=prop, **violation), f, indent=1)
        print("test: %s" % violation["test"])
        print("message: %s" % violation["message"])
        print("case: %s" % json.dumps(violation["case"])[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors)[-6000:])
        return 2
    n = sum(t["evaluations"] for r in results for t in r["tests"])
    print("property %s held on %d generated cases (%.1f s)" % (prop, n, time.monotonic() - t0))
    return 0


def evidence(prop, tier, seed, results, violation, wall, t_build, nsh):
    info = json.load(open(os.path.join(HERE, "rules.json"))).get(prop, {})
    tests = {}
    for r in results:
        for t in r["tests"]:
            e = tests.setdefault(
                t["name"], dict(evaluations=0, rejected=0, nontrivial=set(), labels={}, samples=[])
            )
            e["evaluations"] += t["evaluations"]
            e["rejected"] += t["rejected"]
            e["nontrivial"] |= set(t["nontrivial"])
            for a, b in t["labels"].items():
                e["labels"][a] = e["labels"].get(a, 0) + b
            if len(e["samples"]) < 1:
                e["samples"] += t["samples"][:1]
    cov = dict(
        evaluations=sum(e["evaluations"] for e in tests.values()),
        distinct_nontrivial=sum(len(e["nontrivial"]) for e in tests.values()),
        rule=info.get("rule", ""),
        samples=[dict(test=n, case=s) for n, e in tests.items() for s in e["samples"]],
        tests={
            n: dict(
                evaluations=e["evaluations"],
                not_judged=e["rejected"],
                distinct_nontrivial=len(e["nontrivial"]),
                classes=dict(sorted(e["labels"].items())),
            )
            for n, e in tests.items()
        },
        shards=nsh,
        build_s=round(t_build, 2),
    )
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
        assumptions=info.get("assumptions", []),
        wall_s=round(wall, 2), violations=0 if violation is None else 1,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
