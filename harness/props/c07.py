"""C07: grid, points and masked execution."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import check, close
from proptest import T
from props import blup


@st.composite
def case(draw, cls, geo=False):
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 3)
    c = draw(gen.kcase(cls, nmin, nmin + 7, geo=geo, exact="any"))
    if geo:
        a = draw(gen.geo_targets(c["pts"], 1, 5))
        b = draw(gen.geo_targets(c["pts"], 1, 4))
        c["axes"] = [[t[0] for t in a], [t[1] for t in b]]
    else:
        c["axes"] = draw(gen.axes_for(c, 1, 6 if kcase.dim(c) == 2 else 4))
        if draw(st.integers(0, 4)) == 0:
            # repeated and unordered coordinates are a legitimate grid too
            k = draw(st.integers(0, len(c["axes"]) - 1))
            c["axes"][k] = c["axes"][k] + [c["axes"][k][0]]
    c["mask"] = draw(gen.mask_for(c["axes"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    if cls in ("OK", "OK3D"):
        c["window"] = draw(st.one_of(st.none(), st.none(), st.integers(2, len(c["pts"]))))
    c["transpose"] = draw(st.booleans())
    c["tspec"] = draw(st.booleans())
    c["subset"] = draw(st.lists(st.integers(0, 200), min_size=1, max_size=4))
    return c


def check_layout(c):
    k = c.get("window")
    bs = kcase.backends(c, k)
    if c["cls"] == "OK3D":
        bs = [b for b in bs if b != "C"]
    b = c["backend"] if c["backend"] in bs else bs[0]
    axes = c["axes"]
    dim = kcase.dim(c)
    G = kcase.grid_targets(axes)
    shape = tuple(len(a) for a in reversed(axes))
    R = kcase.Reference(c)
    if k:
        R.nearest(G, k)
        want = R.krige_window(G, k)
    else:
        want = R.krige(G)
    tol = [2 * want[2].reshape(shape), 2 * want[3].reshape(shape)]
    obj = kcase.build(c)
    P = [a.reshape(shape) for a in kcase.points(c, obj, G, b, k)]
    g = kcase.execute(c, obj, "grid", axes, b, k)
    g = [kcase.plain("grid result", a, shape) for a in g]
    for i, nm in ((0, "estimate"), (1, "variance")):
        close("grid and points %s (%s %s)" % (nm, c["cls"], b), g[i], P[i], tol[i])
    # specified drift passed transposed where the shape tells
    flipped = tuple(reversed(shape))
    spec = kcase.spec_arrays(c, G, shape)
    if spec is not None and c["tspec"] and flipped != shape:
        spec = [s.T.copy() if c["subset"][0] % 2 else s.T for s in spec]
        g2 = kcase.execute(c, obj, "grid", axes, b, k, spec=spec)
        for i in (0, 1):
            close("grid result with transposed drift arrays", kcase.plain("grid", g2[i], shape), g[i], tol[i])
    else:
        spec = None
    m = np.array(c["mask"], dtype=bool).reshape(shape)
    mm = m.T if c["transpose"] and flipped != shape else m
    if c["subset"][-1] % 2:  # the other layout in memory
        mm = np.copy(mm, order="C" if mm.flags.f_contiguous else "F")
    q = kcase.execute(c, obj, "masked", axes, b, k, mask=mm, spec=spec)
    for i, nm in ((0, "estimates"), (1, "variances")):
        check(np.ma.isMaskedArray(q[i]), "masked execution returned no masked array")
        check(q[i].shape == shape, "masked %s have shape %s, expected %s", nm, q[i].shape, shape)
        check(np.array_equal(np.ma.getmaskarray(q[i]), m), "masked %s: wrong mask", nm)
        close("masked and grid " + nm, np.ma.getdata(q[i])[~m], g[i][~m], tol[i][~m])
    # a point on its own
    idx = sorted({j % len(G) for j in c["subset"]}, reverse=True)
    s = kcase.points(c, obj, G[idx], b, k)
    for i in (0, 1):
        close("points evaluated separately", s[i], P[i].ravel()[idx], tol[i].ravel()[idx])
    return blup.labels(c, backend=b, window=k is not None, square=len(set(shape)) == 1,
                       single=1 in shape, transposed=mm.shape != shape, masked=bool(m.any()),
                       nontrivial=len(G) > 1)


TESTS = [
    T("OK", case("OK"), check_layout, 1000),
    T("geographic", case("OK", geo=True), check_layout, 300),
    T("OK3D", case("OK3D"), check_layout, 700),
    T("UK", case("UK"), check_layout, 700),
    T("UK3D", case("UK3D"), check_layout, 600),
    T("many-OK", gen.many("OK", nmax=80, nodes=1600), blup.check_many_styles, 64),
    T("many-OK3D", gen.many("OK3D", nmax=80, nodes=1600), blup.check_many_styles, 64),
    T("many-UK", gen.many("UK", nmax=80, nodes=1600), blup.check_many_styles, 64),
    T("many-UK3D", gen.many("UK3D", nmax=80, nodes=1600), blup.check_many_styles, 64),
]
