"""C09: unbiasedness and reproduction of the drift functions."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, check, close
from proptest import T
from props import blup


@st.composite
def const(draw, cls, geo=False):
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 2)
    c = draw(gen.kcase(cls, nmin, nmin + 9, geo=geo, exact="any", pinv=True))
    v = draw(st.sampled_from([0.0, 1.0, -3.5, 1234.5, 1e-6, -7.25e7]))
    c["val"] = [v] * len(c["pts"])
    if cls in ("OK", "OK3D"):
        c["window"] = draw(st.one_of(st.none(), st.integers(2, len(c["pts"]) + 1)))
    style_of(draw, c, 1, 5)
    return c


def style_of(draw, c, lo, hi):
    """Targets: scattered, or the (unmasked) nodes of a grid."""
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    if c["style"] == "points":
        c["targets"] = draw(gen.targets_for(c, lo, hi))
    else:
        c["axes"] = draw(gen.axes_for(c, 1, 4))
        if c["style"] == "masked":
            c["mask"] = draw(gen.mask_for(c["axes"]))


def _nodes(c):
    """(targets, unmasked nodes as a grid-shaped array)"""
    if c["style"] == "points":
        return np.array(c["targets"], dtype=float), None
    shape = tuple(len(a) for a in reversed(c["axes"]))
    on = np.ones(shape, bool) if c["style"] == "grid" else ~np.array(c["mask"], bool).reshape(shape)
    if not on.any():
        raise Reject("everything is masked")
    return kcase.grid_targets(c["axes"])[on.ravel()], on


def _run(c, obj, T_, b, k, on):
    """Estimates and variances at the targets of any style."""
    if on is None:
        return kcase.points(c, obj, T_, b, k)
    m = ~on if c["style"] == "masked" else None
    out = []
    for a in kcase.execute(c, obj, c["style"], c["axes"], b, k, mask=m):
        check(np.shape(a) == on.shape, "%s result has shape %s", c["style"], np.shape(a))
        out.append(np.array(np.ma.getdata(a)[on], dtype=float))
    return out


def _bs(c):
    bs = kcase.backends(c, c.get("window"))
    return bs if c["cls"] == "OK" else [b for b in bs if b != "C"]


def check_const(c):
    R = kcase.Reference(c)
    k = c.get("window")
    T_, on = _nodes(c)
    if k and on is None:
        T_ = np.array(R.untied(T_, k), dtype=float)
    want = R.krige_window(T_, k) if k else R.krige(T_)
    obj = kcase.build(c)
    v = c["val"][0]
    for b in _bs(c):
        e, s = _run(c, obj, T_, b, k, on)
        close("constant data, %s %s" % (c["cls"], b), e, np.full(len(T_), v), want[2])
    return blup.labels(c, window=k is not None, style=c["style"], nontrivial=v != 0.0)


@st.composite
def driftcase(draw, cls):
    nmin = {"UK": 8, "UK3D": 9}[cls]
    c = draw(gen.kcase(cls, nmin, nmin + 8, must_drift=True, exact="any", pinv=True))
    c["beta"] = draw(st.lists(st.integers(-8, 8).map(lambda k: k / 4.0), min_size=12, max_size=12))
    style_of(draw, c, 1, 5)
    return c


def check_drift(c):
    R = kcase.Reference(c)
    T_, on = _nodes(c)
    F, f0 = R.F(c["pts"]), R.F(T_)
    # coefficients giving contributions of comparable size
    size = np.maximum(np.max(np.abs(F), axis=0), 1e-300)
    zs = max(1.0, float(np.max(np.abs(c["val"]))))
    beta = zs * np.array(c["beta"][: F.shape[1]]) / size
    trend, at = F @ beta, f0 @ beta
    ct = dict(c, val=list(map(float, trend)))
    cs = dict(c, val=list(map(float, trend + np.array(c["val"]))))
    Rt, Rs = kcase.Reference(ct), kcase.Reference(cs)
    wt, ws, w0 = Rt.krige(T_), Rs.krige(T_), R.krige(T_)
    o, ot, os_ = kcase.build(c), kcase.build(ct), kcase.build(cs)
    for b in _bs(c):
        g0 = _run(c, o, T_, b, None, on)
        gt = _run(ct, ot, T_, b, None, on)
        gs = _run(cs, os_, T_, b, None, on)
        mag = 1e-12 * (np.abs(f0) @ np.abs(beta))
        close("%s %s: pure drift reproduced" % (c["cls"], b), gt[0], at, wt[2] + mag)
        close("%s %s: drift added to the data" % (c["cls"], b), gs[0], g0[0] + at,
              ws[2] + w0[2] + mag)
        close("%s %s: variance unchanged by drift" % (c["cls"], b), gs[1], g0[1], ws[3] + w0[3])
        close("%s %s: variance of pure drift data" % (c["cls"], b), gt[1], g0[1], wt[3] + w0[3])
    return blup.labels(c, style=c["style"], nontrivial=bool(np.any(beta[:-1] != 0)))


TESTS = [
    T("constant-OK", const("OK"), check_const, 700),
    T("constant-geographic", const("OK", geo=True), check_const, 250),
    T("constant-OK3D", const("OK3D"), check_const, 400),
    T("constant-UK", const("UK"), check_const, 300),
    T("constant-UK3D", const("UK3D"), check_const, 300),
    T("drift-UK", driftcase("UK"), check_drift, 900),
    T("drift-UK3D", driftcase("UK3D"), check_drift, 700),
    T("constant-grown-OK", gen.grown(const("OK")), gen.larger(check_const), 48),
    T("constant-grown-geographic", gen.grown(const("OK", geo=True)), gen.larger(check_const), 48),
    T("constant-grown-OK3D", gen.grown(const("OK3D")), gen.larger(check_const), 48),
    T("constant-grown-UK", gen.grown(const("UK")), gen.larger(check_const), 48),
    T("constant-grown-UK3D", gen.grown(const("UK3D")), gen.larger(check_const), 48),
    T("drift-grown-UK", gen.grown(driftcase("UK")), gen.larger(check_drift), 64),
    T("drift-grown-UK3D", gen.grown(driftcase("UK3D")), gen.larger(check_drift), 64),
]
