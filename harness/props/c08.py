"""C08: moving window."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from proptest import T
from props import blup


@st.composite
def case(draw, cls, geo=False, nmin=3, nmax=14, kmax=None):
    c = draw(gen.kcase(cls, nmin, nmax, geo=geo, exact="any", pinv=True))
    c["targets"] = draw(gen.targets_for(c, 1, 6))
    c["window"] = draw(st.integers(2, kmax or len(c["pts"]) + 3))
    if not geo:
        c["axes"] = draw(gen.axes_for(c, 1, 3))
    return c


def check_window(c):
    R = kcase.Reference(c)
    k = c["window"]
    Tp = R.untied(c["targets"], k)
    want = R.krige_window(Tp, k)
    obj = kcase.build(c)
    bs = [b for b in kcase.backends(c, k) if c["cls"] == "OK" or b != "C"]
    for b in bs:
        kcase.compare("%s window %d %s" % (c["cls"], k, b), kcase.points(c, obj, Tp, b, k), want)
    n = len(c["pts"])
    if k >= n:
        for b in bs + ["vectorized"]:
            kcase.compare("no window %s" % b, kcase.points(c, obj, Tp, b), want)
    full = ""
    if c.get("axes"):
        G = kcase.grid_targets(c["axes"])
        shape = tuple(len(a) for a in reversed(c["axes"]))
        from common import Reject

        try:
            R.nearest(G, k)
            gw = R.krige_window(G, k)
        except Reject:
            gw = None
        if gw is not None:
            b = bs[-1]
            for style in ("grid", "masked"):
                m = np.zeros(shape, bool) if style == "masked" else None
                r = kcase.execute(c, obj, style, c["axes"], b, k, mask=m)
                r = [kcase.plain(style, a, shape).ravel() for a in r]
                kcase.compare("%s window %d %s" % (style, k, b), r, gw)
            full = "grid"
    return blup.labels(c, k="2" if k == 2 else "all" if k >= n else "n-1" if k == n - 1 else "some",
                       coord=c.get("coord", "euclidean"), grid=full, exact=c["exact"],
                       nontrivial=k < n)


TESTS = [
    T("OK", case("OK"), check_window, 1300),
    T("OK3D", case("OK3D"), check_window, 700),
    T("geographic", case("OK", geo=True), check_window, 800),
    T("larger", case("OK", nmin=20, nmax=34, kmax=12), check_window, 150),
    T("many", gen.many("OK", window=True), blup.check_many, 120),
    T("many-OK3D", gen.many("OK3D", window=True), blup.check_many, 80),
    T("many-geographic", gen.many("OK", geo=True, window=True), blup.check_many, 80),
    T("huge", gen.many("OK", window=True, huge=True), blup.check_many, 24),
    T("huge-OK3D", gen.many("OK3D", window=True, huge=True), blup.check_many, 24),
]
