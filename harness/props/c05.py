"""C05: exact values at data points."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import close
from proptest import T
from props import blup


@st.composite
def case(draw, cls, exact, geo=False, nmin=4, nmax=12):
    c = draw(gen.kcase(cls, nmin, nmax, geo=geo, exact=True, pinv=True))
    c["exact"] = exact
    c["window"] = draw(st.one_of(st.none(), st.integers(2, len(c["pts"]) + 2)))
    if cls.startswith("UK"):
        c["window"] = None
    n = len(c["pts"])
    c["at"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5, unique=True))
    if not exact:
        c["targets"] = draw(gen.targets_for(c, 1, 3))
        # next to data points, outside of the range that counts as coincidence
        steps = [1e-8, -1e-7, 3e-9] + ([5e-10, -3e-10, 1e-9] if not geo else [])
        for i in draw(st.lists(st.integers(0, n - 1), max_size=2)):
            p = list(c["pts"][i])
            k = draw(st.integers(0, len(p) - 1))
            p[k] += draw(st.sampled_from(steps))
            c["targets"] += gen.clip_ext(c, [p])
    return c


def _backends(c):
    bs = kcase.backends(c, c["window"])
    if c["cls"] == "OK3D" and c["window"] is not None:
        bs = ["loop"]
    return bs


def check_honoured(c):
    R = kcase.Reference(c)
    at = c["at"]
    P = [c["pts"][i] for i in at]
    if c["window"]:
        # at a data point the window always contains that point
        keep = [i for i in at if _untied(R, c["pts"][i], c["window"])]
        at, P = keep, [c["pts"][i] for i in keep]
        if not at:
            from common import Reject

            raise Reject("ties")
        want = R.krige_window(P, c["window"])
    else:
        want = R.krige(P)
    obj = kcase.build(c)
    z = np.array(c["val"], dtype=float)[at]
    for b in _backends(c):
        ez, es = kcase.points(c, obj, P, b, c["window"])
        close("%s %s estimate at data" % (c["cls"], b), ez, z, want[2])
        close("%s %s variance at data" % (c["cls"], b), es, np.zeros(len(z)), want[3])
    # the same through grid and masked execution
    d = kcase.dim(c)
    axes = [[P[0][k]] for k in range(d)]
    for style in ("grid", "masked"):
        shape = (1,) * d
        m = np.zeros(shape, bool) if style == "masked" else None
        ez, es = kcase.execute(c, obj, style, axes, _backends(c)[-1], c["window"], m)
        close(style + " estimate at data", np.ma.getdata(ez).ravel(), z[:1], want[2][:1])
        close(style + " variance at data", np.ma.getdata(es).ravel(), [0.0], want[3][:1])
    return blup.labels(c, nugget=blup._nugget(c), window=c["window"] is not None, pinv=str(c.get("pinv")))


def _untied(R, p, k):
    from common import Reject

    try:
        R.nearest([p], k)
        return True
    except Reject:
        return False


def check_filtered(c):
    R = kcase.Reference(c)
    pts = [c["pts"][i] for i in c["at"]]
    T_ = pts + c["targets"]
    d0, on = R.d0(T_), R.coincide(np.array(T_, dtype=float))
    # neither at a data point nor clearly away from it: nothing is stated
    far = (on & (d0 < 4e-11 + 8 * R.dd)) | (d0 > 2.5e-10 + 8 * R.dd)
    T_ = [t for t, f in zip(T_, far) if f.all()]
    if c["window"]:
        T_ = R.untied(T_, c["window"])
        soft = R.krige_window(T_, c["window"], exact=False)
        hard = R.krige_window(T_, c["window"], exact=True)
    else:
        soft = R.krige(T_, exact=False)
        hard = R.krige(T_, exact=True)
    on = R.coincide(np.array(T_, dtype=float)).any(axis=1)
    o_soft = kcase.build(c)
    o_hard = kcase.build(dict(c, exact=True))
    for b in _backends(c):
        gs = kcase.points(c, o_soft, T_, b, c["window"])
        gh = kcase.points(c, o_hard, T_, b, c["window"])
        kcase.compare("exact_values=False %s" % b, gs, soft)
        kcase.compare("exact_values=True %s" % b, gh, hard)
        same = np.ones(len(T_), bool) if not blup._nugget(c) else ~on
        for k, nm in ((0, "estimate"), (1, "variance")):
            close("%s with and without exact_values (%s)" % (nm, b), gs[k][same], gh[k][same],
                  (hard[k + 2] + soft[k + 2])[same])
    return blup.labels(c, nugget=blup._nugget(c), window=c["window"] is not None,
                       nontrivial=bool(on.any()) and blup._nugget(c))


TESTS = []
for cls, q in (("OK", 900), ("OK3D", 600), ("UK", 600), ("UK3D", 500)):
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 4)
    TESTS.append(T("honoured-" + cls, case(cls, True, nmin=nmin, nmax=nmin + 8), check_honoured, q))
    TESTS.append(T("filtered-" + cls, case(cls, False, nmin=nmin, nmax=nmin + 8), check_filtered, q))
TESTS.append(T("honoured-geographic", case("OK", True, geo=True), check_honoured, 300))
TESTS.append(T("filtered-geographic", case("OK", False, geo=True), check_filtered, 300))
for cls, g in (("OK", False), ("OK", True), ("OK3D", False), ("UK", False), ("UK3D", False)):
    for ex, ck in ((True, check_honoured), (False, check_filtered)):
        nm = ("honoured" if ex else "filtered") + "-grown-" + ("geographic" if g else cls)
        TESTS.append(T(nm, gen.grown(case(cls, ex, geo=g, nmin={"UK": 7, "UK3D": 8}.get(cls, 4))), gen.larger(ck), 48))
