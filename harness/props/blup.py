"""Shared by C01-C04: comparison of the kriging classes with the reference."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, close


def labels(c, **more):
    n = len(c["pts"])
    lab = dict(
        model=c["model"]["name"],
        n="<=5" if n <= 5 else "<=10" if n <= 10 else ">10",
        aniso=any(v != 1.0 for v in c["scale"]) or any(v % 360 for v in c["angle"]),
    )
    if c["cls"].startswith("UK"):
        d = c.get("drift") or {}
        lab["drift"] = "+".join(k for k in ("regional", "wells", "extz", "spec", "func") if d.get(k)) or "none"
    lab.update(more)
    return lab


@st.composite
def with_points(draw, base, lo=1, hi=6):
    c = draw(base)
    c["targets"] = draw(gen.targets_for(c, lo, hi))
    return c


def check_points(c):
    """Every backend on scattered targets equals the reference."""
    R = kcase.Reference(c)
    want = R.krige(c["targets"])
    obj = kcase.build(c)
    for b in kcase.backends(c):
        got = kcase.points(c, obj, c["targets"], b)
        kcase.compare("%s %s" % (c["cls"], b), got, want)
    same = bool(np.any(R.coincide(np.array(c["targets"], float))))
    return labels(c, at_data=same, exact=c["exact"], coord=c.get("coord", "euclidean"),
                  nugget=_nugget(c))


def _nugget(c):
    m = c["model"]
    p = m["params"]
    if m["name"] == "custom":
        return {"stable": p[2:3], "cauchy": p[1:2], "log": [0], "sneaky": p[2:3]}[m["fn"]][0] > 0
    return p[-1] > 0


@st.composite
def with_grid(draw, base, hi=4):
    c = draw(base)
    c["axes"] = draw(gen.axes_for(c, 1, hi))
    c["mask"] = draw(gen.mask_for(c["axes"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    c["tspec"] = draw(st.integers(0, 2)) == 0
    return c


def check_grid(c):
    """Grid and masked execution equal the reference at every node."""
    T = kcase.grid_targets(c["axes"])
    R = kcase.Reference(c)
    want = R.krige(T)
    obj = kcase.build(c)
    b = c["backend"] if c["backend"] in kcase.backends(c) else "vectorized"
    shape = tuple(len(a) for a in reversed(c["axes"]))
    spec = kcase.spec_arrays(c, T, shape)
    if spec is not None and c.get("tspec") and shape != shape[::-1]:
        # drift arrays may come transposed where the shape tells
        spec = [a.T.copy() if i % 2 == 0 else a.T for i, a in enumerate(spec)]
    elif spec is not None and c["backend"] != "loop":
        spec = [np.asfortranarray(a) for a in spec]
    z, s = kcase.execute(c, obj, "grid", c["axes"], b, spec=spec)
    z, s = kcase.plain("estimates", z, shape), kcase.plain("variances", s, shape)
    kcase.compare("%s grid %s" % (c["cls"], b), (z.ravel(), s.ravel()), want)
    m = np.array(c["mask"], dtype=bool).reshape(shape)
    zm, sm = kcase.execute(c, obj, "masked", c["axes"], b, mask=m, spec=spec)
    for nm, a, k in (("estimates", zm, 0), ("variances", sm, 1)):
        kcase.check(np.ma.isMaskedArray(a), "masked %s are not a masked array", nm)
        kcase.check(a.shape == shape, "masked %s have shape %s", nm, a.shape)
        kcase.check(np.array_equal(np.ma.getmaskarray(a), m), "mask of %s differs", nm)
        close("masked " + nm, np.ma.getdata(a)[~m], want[k].reshape(shape)[~m],
              want[k + 2].reshape(shape)[~m])
    return labels(c, size="1" if len(T) == 1 else ">1", masked=bool(m.any()), backend=b,
                  nontrivial=len(T) > 1)


def check_many(small):
    return _many(small, False, False)


def check_many_backends(small):
    return _many(small, True, False)


def check_many_styles(small):
    return _many(small, False, True)


def _many(small, all_backends, all_styles):
    """Many data points and many targets in one call."""
    c = gen.expand(small)
    k = c.get("window")
    bs = kcase.backends(c, k)
    if c["cls"] != "OK":
        bs = [b for b in bs if b != "C"]
    if not all_backends:
        bs = [c["backend"] if c["backend"] in bs else bs[0]]
    T = kcase.grid_targets(c["axes"])
    shape = tuple(len(a) for a in reversed(c["axes"]))
    pick = c["pick"]
    if c["style"] == "points" and not all_styles:
        # also at data points, twice
        i = [j % len(c["pts"]) for j in pick[:12]]
        at = [c["pts"][j] for j in i + i[::-1]] + [w[:2] for w in (c.get("drift") or {}).get("wells", [])] * 2
        at = gen.clip_ext(c, at)
        pick = pick + list(range(len(T), len(T) + len(at)))
        T = np.concatenate([T, at])
        shape = None
    obj = kcase.build(c)
    R = kcase.Reference(c)
    idx = list(range(len(T)))
    if k:
        idx = []
        for i in pick:
            try:
                R.nearest(T[i : i + 1], k)
                idx.append(i)
            except Reject:
                pass
        if not idx:
            raise Reject("only ties")
    krige = (lambda t: R.krige_window(t, k)) if k else R.krige
    want = [np.concatenate(w) for w in zip(*[krige(T[idx[i : i + 8000]]) for i in range(0, len(idx), 8000)])]
    for style in ["points", "grid", "masked"] if all_styles else [c["style"]]:
        for b in bs:
            m = np.zeros(len(T), bool)
            if style == "points":
                z, s = kcase.points(c, obj, T, b, k)
            elif style == "grid":
                z, s = [kcase.plain("grid", a, shape).ravel() for a in kcase.execute(c, obj, "grid", c["axes"], b, k)]
            else:
                m = c["mask"]
                z, s = kcase.execute(c, obj, "masked", c["axes"], b, k, mask=m)
                for a in (z, s):
                    kcase.check(a.shape == shape, "masked result has shape %s", a.shape)
                    kcase.check(np.array_equal(np.ma.getmaskarray(a), m), "mask of the result differs")
                z, s = np.ma.getdata(z).ravel(), np.ma.getdata(s).ravel()
            j = np.flatnonzero(~m.ravel()[idx])
            ii = np.array(idx)[j]
            kcase.compare("%s, %d data, %d targets, %s %s" % (c["cls"], len(c["pts"]), len(T), style, b),
                          (z[ii], s[ii]), [w[j] for w in want])
    return labels(c, backend="+".join(bs), style=c["style"], window=bool(k),
                  targets="<=500" if len(T) <= 500 else "<=1000" if len(T) <= 1000 else "<=10000" if len(T) <= 10000 else "<=30000" if len(T) <= 30000 else ">30000",
                  data="<=40" if len(c["pts"]) <= 40 else "<=120" if len(c["pts"]) <= 120 else "<=400" if len(c["pts"]) <= 400 else ">400")
