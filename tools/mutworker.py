"""Used by mutate.py: runs selected tests in one process, without shrinking.

mutworker.py SCRATCH OUT SHARD lines PROP        lines executed by each test
mutworker.py SCRATCH OUT SHARD judge PLAN.json   [[prop, [test, ...]], ...]"""
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import worker as W  # noqa: E402


def run(test, k, shard, out, seed):
    test.shrink = 0.0
    st = W.Stats(test.name)
    return W.run_test(test, st, shard, 8, seed + 7919 * k, "quick", out + ".cur", time.monotonic() + 60)


def main():
    scratch, out, shard, mode, what = sys.argv[1:6]
    shard, seed = int(shard), int(os.environ.get("SEED", "1"))
    res = dict(violation=None, error=None)
    try:
        W.setup(scratch)
        os.chdir(os.path.dirname(out))
        if mode == "lines":
            root = os.path.realpath(os.path.join(scratch, "src", "pykrige")) + os.sep
            mon = sys.monitoring
            hit = set()

            def line(code, no):
                if code.co_filename.startswith(root):
                    hit.add((code.co_filename[len(root):], no))
                return mon.DISABLE

            mon.use_tool_id(3, "lines")
            mon.register_callback(3, mon.events.LINE, line)
            mon.set_events(3, mon.events.LINE)
            res["tests"] = {}
            mod = importlib.import_module("props." + what.lower())
            for k, t in enumerate(mod.TESTS):
                hit.clear()
                mon.restart_events()
                t0 = time.monotonic()
                v = run(t, k, shard, out, seed)
                res["tests"][t.name] = dict(lines=sorted(hit), s=time.monotonic() - t0, bad=v is not None)
        else:
            for prop, names in json.load(open(what)):
                mod = importlib.import_module("props." + prop.lower())
                for k, t in enumerate(mod.TESTS):
                    if t.name in names:
                        v = run(t, k, shard, out, seed)
                        if v is not None:
                            res["violation"] = [prop, v["test"], v["message"][:150]]
                            raise SystemExit
    except SystemExit:
        pass
    except BaseException:  # noqa: BLE001
        import traceback

        res["error"] = traceback.format_exc()[-300:]
    with open(out, "w") as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
