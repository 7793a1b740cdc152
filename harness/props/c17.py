"""C17: pseudo-inverse and redundant data."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close
from proptest import T
from props import blup

RATIO = 1e-9  # smallest accepted ratio of singular values of the regular part
SLACK = 30.0  # a pseudo-inverse is less accurate than solving the system


@st.composite
def case(draw, cls, geo=False, dup=True):
    uk = cls.startswith("UK")
    c = draw(gen.kcase(cls, 7 if uk else 3, 11, geo=geo, exact="any", nugget=not dup, big=False))
    if dup and geo:
        m = c["model"]
        if m["name"] == "custom":
            m["params"][2] = 0.0
        else:
            m["params"][-1] = 0.0
    c["pinv"] = draw(st.sampled_from(["pinv", "pinvh"]))
    n = len(c["pts"])
    if dup:
        # groups: for every point the values of its copies
        g = [[v] for v in c["val"]]
        for _ in range(draw(st.integers(1, 5))):
            i = draw(st.integers(0, n - 1))
            g[i].append(c["val"][i] + draw(st.integers(-8, 8)) / 4.0 * (1.0 + abs(c["val"][i])))
        c["groups"] = g
        m = sum(len(q) for q in g)
        c["order"] = draw(st.permutations(range(m)))
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["near"] = draw(st.integers(1, n))
    if not geo:
        c["axes"] = draw(gen.axes_for(c, 1, 3))
    c["how"] = draw(st.sampled_from(["ctor", "update"]))
    return c


def expand(c):
    """The data set with the copies, in a shuffled order."""
    rows = [(p, v) for p, g in zip(c["pts"], c["groups"]) for v in g]
    rows = [rows[i] for i in c["order"]]
    return dict(c, pts=[list(p) for p, _ in rows], val=[v for _, v in rows])


def merged(c):
    return dict(c, val=[float(np.mean(g)) for g in c["groups"]])


def judge(R, idx=None):
    s = np.linalg.svd(R.system(idx).a, compute_uv=False)
    if not s[-1] > RATIO * s[0]:
        raise Reject("singular values span too many decades")


def slack(w, R, e=None):
    z = float(np.max(np.abs(R.val if e is None else e["val"]), initial=0))
    return w[0], w[1], SLACK * w[2] + 1e-9 * z, SLACK * w[3] + 1e-9 * R.system().gscale


def make(c):
    if c["how"] == "ctor" or c.get("coord") == "geographic":
        return kcase.build(c)
    first = dict(c, model=dict(name="linear", params=[1.0, 0.0], form="list"))
    try:
        obj = kcase.build(first)
    except Violation as v:
        raise Reject(str(v))
    call("update_variogram_model", obj.update_variogram_model, **dict(kcase.variogram_args(c["model"]), **kcase.aniso_args(c)))
    return obj


def check_dup(c):
    M = merged(c)
    R = kcase.Reference(M)
    judge(R)
    e = expand(c)
    T_ = np.array(c["targets"], float)
    want = slack(R.krige(T_), R, e)
    obj = make(e)
    for b in kcase.backends(c):
        kcase.compare("%s %s %s" % (c["cls"], c["pinv"], b), kcase.points(e, obj, T_, b), want)
    if c.get("axes"):
        G = kcase.grid_targets(c["axes"])
        shape = tuple(len(a) for a in reversed(c["axes"]))
        gw = slack(R.krige(G), R, e)
        for b in ("vectorized", "loop"):
            r = kcase.execute(e, obj, "grid", c["axes"], b)
            kcase.compare("grid %s" % b, [kcase.plain("grid", a, shape).ravel() for a in r], gw)
    win = 0
    if c["cls"] in ("OK", "OK3D"):
        size = [len(g) for g in c["groups"]]
        for t in c["targets"]:
            try:
                idx = R.nearest(np.array([t], float), c["near"])[0]
                k = sum(size[i] for i in idx)
                if k < 2:
                    continue
                judge(R, idx)
                ww = slack(R.krige_window([t], c["near"]), R, e)
            except Reject:
                continue
            if c.get("coord") == "geographic" and R.d0([t]).max() > 179.5:
                continue
            for b in kcase.backends(c, k):
                kcase.compare("window %d %s %s" % (k, c["pinv"], b), kcase.points(e, obj, [t], b, k), ww)
            win += 1
    return blup.labels(c, pinv=c["pinv"], window=bool(win), coord=c.get("coord", "euclidean"),
                       groups=sum(len(g) > 1 for g in c["groups"]), how=c["how"],
                       nontrivial=any(max(g) > min(g) for g in c["groups"]))


def check_plain(c):
    R = kcase.Reference(c)
    judge(R)
    T_ = np.array(c["targets"], float)
    w = R.krige(T_)
    want = slack(w, R)
    a, b = kcase.build(dict(c, pinv=None)), make(c)
    for be in kcase.backends(c):
        kcase.compare("inverse %s" % be, kcase.points(c, a, T_, be), w)
        kcase.compare("%s %s" % (c["pinv"], be), kcase.points(c, b, T_, be), want)
    if c["cls"] in ("OK", "OK3D"):
        k = max(2, c["near"])
        try:
            keep = R.untied(c["targets"], k)
            for t in keep:
                judge(R, R.nearest(np.array([t], float), k)[0])
            ww = R.krige_window(keep, k)
        except Reject:
            ww = None
        if ww is not None and not (c.get("coord") == "geographic" and R.d0(keep).max() > 179.5):
            for be in kcase.backends(c, k):
                kcase.compare("window %s %s" % (c["pinv"], be), kcase.points(c, b, keep, be, k), slack(ww, R))
    return blup.labels(c, pinv=c["pinv"], coord=c.get("coord", "euclidean"))


TESTS = [
    T("dup-OK", case("OK"), check_dup, 700),
    T("dup-geographic", case("OK", geo=True), check_dup, 300),
    T("dup-OK3D", case("OK3D"), check_dup, 350),
    T("dup-UK", case("UK"), check_dup, 450),
    T("dup-UK3D", case("UK3D"), check_dup, 350),
    T("plain-OK", case("OK", dup=False), check_plain, 200),
    T("plain-geographic", case("OK", geo=True, dup=False), check_plain, 100),
    T("plain-OK3D", case("OK3D", dup=False), check_plain, 120),
    T("plain-UK", case("UK", dup=False), check_plain, 150),
    T("plain-UK3D", case("UK3D", dup=False), check_plain, 120),
    T("dup-grown-OK", gen.grown(case("OK")), gen.larger(check_dup), 56),
    T("dup-grown-geographic", gen.grown(case("OK", geo=True)), gen.larger(check_dup), 56),
    T("dup-grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_dup), 56),
    T("dup-grown-UK", gen.grown(case("UK")), gen.larger(check_dup), 56),
    T("dup-grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_dup), 56),
    # many redundant data: the decompositions behind the pseudo-inverse may fail to converge
    T("dup-heavy-OK", gen.grown(case("OK"), 70, 150), gen.larger(check_dup), 120),
    T("dup-heavy-OK3D", gen.grown(case("OK3D"), 70, 150), gen.larger(check_dup), 96),
    T("dup-heavy-UK", gen.grown(case("UK"), 70, 150), gen.larger(check_dup), 64),
]
