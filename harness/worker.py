"""Runs the generated tests of one property (one shard) against the scratch
build, or replays one saved case.  Results go to a JSON file; the exit status
is only used to notice crashes of the interpreter."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def setup(scratch):
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    sys.path.insert(0, os.path.join(scratch, "src"))
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    os.environ.setdefault("MPLBACKEND", "Agg")
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import pykrige

    root = os.path.realpath(os.path.join(scratch, "src"))
    assert os.path.realpath(pykrige.__file__).startswith(root), pykrige.__file__


class Stats:
    def __init__(self, name):
        self.name = name
        self.evaluations = 0
        self.rejected = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def as_dict(self):
        return dict(
            name=self.name,
            evaluations=self.evaluations,
            rejected=self.rejected,
            nontrivial=sorted(self.nontrivial),
            labels=self.labels,
            samples=self.samples,
        )


def judge(test, case):
    """Returns (label dict | None for rejected, violation message | None)."""
    from common import Reject, Violation

    try:
        return test.check(case), None
    except Reject as e:
        return None, None
    except Violation as e:
        return {}, str(e)
    except (ValueError, TypeError, LookupError, AttributeError, ArithmeticError):
        # results of the code under test that the check cannot even digest
        return {}, "cannot examine the results: " + " | ".join(traceback.format_exc().strip().splitlines()[-6:])


def main():
    prop, shard, nshards, seed, tier, scratch, outfile = sys.argv[1:8]
    replay = sys.argv[8] if len(sys.argv) > 8 else None
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    res = dict(tests=[], violation=None, error=None)
    curfile = outfile + ".cur"
    budget = float(os.environ.get("VERIF_BUDGET", "120" if tier == "quick" else "600"))
    t0 = time.monotonic()
    try:
        setup(scratch)
        os.chdir(os.path.dirname(outfile))
        mod = importlib.import_module("props." + prop.lower())
        if replay:
            with open(replay) as f:
                r = json.load(f)
            test = [t for t in mod.TESTS if t.name == r["test"]][0]
            with open(curfile, "w") as f:
                json.dump(dict(test=test.name, case=r["case"]), f)
            lab, msg = judge(test, r["case"])
            if msg is not None:
                res["violation"] = dict(test=test.name, case=r["case"], message=msg)
            st = Stats(test.name)
            st.evaluations = 1
            res["tests"].append(st.as_dict())
        else:
            only = os.environ.get("VERIF_TESTS")  # names, for development
            for k, test in enumerate(mod.TESTS):
                if only and test.name not in only.split(","):
                    continue
                st = Stats(test.name)
                v = run_test(test, st, shard, nshards, seed + 7919 * k, tier, curfile, t0 + budget)
                res["tests"].append(st.as_dict())
                if v is not None:
                    res["violation"] = v
                    break
    except BaseException:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    with open(outfile + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(outfile + ".tmp", outfile)
    # the current case file tells the parent that we did not crash in a case
    if os.path.exists(curfile):
        os.remove(curfile)
    sys.stdout.flush()
    os._exit(0)


def run_test(test, st, shard, nshards, seed, tier, curfile, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from common import Violation

    total = test.quick if tier == "quick" else test.thorough
    n = max(1, (total + nshards - 1) // nshards)
    state = dict(best=None, first=None, calls=0)

    def body(case):
        txt = json.dumps(case, sort_keys=True)
        now = time.monotonic()
        if state["best"] is None and now > deadline:
            return
        if state["first"] is not None and now - state["first"] > test.shrink:
            # shrinking took long enough: let the library finish quickly
            if txt == state["best"][2]:
                raise Violation(state["best"][1])
            return
        with open(curfile, "w") as f:
            f.write('{"test": %s, "case": %s}' % (json.dumps(test.name), txt))
        lab, msg = judge(test, json.loads(txt))
        if state["first"] is None:
            st.evaluations += 1
            if lab is None:
                st.rejected += 1
            elif lab:
                h = hashlib.blake2b(txt.encode(), digest_size=8).hexdigest()
                if lab.get("nontrivial", True):
                    st.nontrivial.add(h)
                    if len(st.samples) < 2 and len(txt) < 3000:
                        st.samples.append(json.loads(txt))
                for a, b in lab.items():
                    key = "%s=%s" % (a, b)
                    st.labels[key] = st.labels.get(key, 0) + 1
        if msg is not None:
            if state["first"] is None:
                state["first"] = now
            b = state["best"]
            if b is None or (len(txt), txt) < (len(b[2]), b[2]):
                state["best"] = (case, msg, txt)
            raise Violation(msg)

    f = given(test.strategy)(body)
    f = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
    )(f)
    f = hypothesis.seed(seed * 1009 + shard)(f)
    try:
        f()
    except BaseException:
        if state["best"] is None:
            raise
    if state["best"] is not None:
        case, msg, txt = state["best"]
        return dict(test=test.name, case=json.loads(txt), message=msg)
    return None


if __name__ == "__main__":
    main()
