"""C06: backends agree with each other."""
import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, check, close, must_raise
from proptest import T
from props import blup


@st.composite
def case(draw, cls, geo=False):
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 3)
    c = draw(gen.kcase(cls, nmin, nmin + 9, geo=geo, exact="any", pinv=True))
    if draw(st.integers(0, 5)) == 0 and not cls.startswith("UK"):
        # integer-like parameters
        m = c["model"]
        if m["name"] in ("linear", "spherical", "exponential") and not geo:
            m["params"] = [float(draw(st.integers(1, 5))) for _ in m["params"]]
            c["intpar"] = draw(st.booleans())
    c["targets"] = draw(gen.targets_for(c, 1, 6))
    if not geo:
        c["axes"] = draw(gen.axes_for(c, 1, 4))
    else:
        a = draw(gen.geo_targets(c["pts"], 1, 3))
        c["axes"] = [[t[0] for t in a], [t[1] for t in a]]
    c["mask"] = draw(gen.mask_for(c["axes"]))
    if not cls.startswith("UK"):
        c["window"] = draw(st.one_of(st.none(), st.integers(2, len(c["pts"]) + 2)))
    return c


def _obj(c):
    if c.get("intpar"):
        m = c["model"]
        kw = kcase.variogram_args(m)
        v = kw["variogram_parameters"]
        kw["variogram_parameters"] = (
            {k: int(x) for k, x in v.items()} if isinstance(v, dict) else [int(x) for x in v]
        )
        return kcase.build(c, **kw)
    return kcase.build(c)


def check_agree(c):
    R = kcase.Reference(c)
    obj = _obj(c)
    k = c.get("window")
    dim = kcase.dim(c)
    G = kcase.grid_targets(c["axes"])
    Tp = np.array(c["targets"], dtype=float)
    shape = tuple(len(a) for a in reversed(c["axes"]))
    m = np.array(c["mask"], bool).reshape(shape)
    if k:
        Tp = np.array(R.untied(Tp, k))
        tol_p = R.krige_window(Tp, k)[2:]
        R.nearest(G, k)
        tol_g = R.krige_window(G, k)[2:]
    else:
        tol_p = R.krige(Tp)[2:]
        tol_g = R.krige(G)[2:]
    tol_g = [t.reshape(shape) for t in tol_g]
    bs = ["loop", "C"] if k else kcase.backends(c)
    bs = [b for b in bs if b in kcase.backends(c, k)]
    res = {}
    for b in bs:
        p = kcase.points(c, obj, Tp, b, k)
        g = [
            kcase.plain("grid", a, shape)
            for a in kcase.execute(c, obj, "grid", c["axes"], b, k)
        ]
        q = kcase.execute(c, obj, "masked", c["axes"], b, k, mask=m)
        for a in q:
            check(np.array_equal(np.ma.getmaskarray(a), m), "%s backend changed the mask", b)
        res[b] = (p, g, [np.ma.getdata(a) for a in q])
    for a, b in itertools.combinations(bs, 2):
        for i, nm in ((0, "estimate"), (1, "variance")):
            w = "%s backends %s and %s, %s: %s" % (c["cls"], a, b, "%s", nm)
            close(w % "points", res[a][0][i], res[b][0][i], 2 * tol_p[i])
            close(w % "grid", res[a][1][i], res[b][1][i], 2 * tol_g[i])
            close(w % "masked", res[a][2][i][~m], res[b][2][i][~m], 2 * tol_g[i][~m])
    return blup.labels(c, window=k is not None, pinv=str(c.get("pinv")), exact=c["exact"],
                       nontrivial=len(bs) > 1)


@st.composite
def auto(draw, cls):
    c = draw(gen.kcase(cls, 5, 14, custom=False, exact="any", nugget=False))
    c["model"] = {"name": draw(st.sampled_from(gen.MODELS))}
    c["weight"] = draw(st.booleans())
    c["nlags"] = draw(st.integers(2, 8))
    c["targets"] = draw(gen.targets_for(c, 1, 6))
    if len(set(c["val"])) < 2:
        c["val"][0] += 1.0
    if not cls.startswith("UK"):
        c["window"] = draw(st.one_of(st.none(), st.integers(2, len(c["pts"]) + 2)))
    return c


def check_auto(c):
    try:
        obj = kcase.build(c)
    except Exception as e:  # degenerate experimental variogram (one lag)
        raise Reject(str(e)[:80])
    p = [float(v) for v in obj.variogram_model_parameters]
    c2 = dict(c, model=dict(c["model"], params=p, form="psill"))
    R = kcase.Reference(c2)
    k = c.get("window")
    Tp = np.array(R.untied(c["targets"], k) if k else c["targets"], dtype=float)
    want = R.krige_window(Tp, k) if k else R.krige(Tp)
    bs = kcase.backends(c2, k)
    if c["cls"] == "OK3D":
        bs = [b for b in bs if b != "C"]
    for b in bs:
        kcase.compare("fitted model, %s %s" % (c["cls"], b), kcase.points(c2, obj, Tp, b, k), want)
    return blup.labels(c, window=k is not None, nontrivial=len(bs) > 1)


@st.composite
def refused(draw):
    cls = draw(st.sampled_from(["OK", "OK", "OK", "OK3D", "UK", "UK3D"]))
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 4)
    c = draw(gen.kcase(cls, nmin, nmin + 4))
    c["targets"] = draw(gen.targets_for(c, 1, 3))
    if cls == "OK":
        c["what"] = draw(st.sampled_from(["window", "model", "model", "window-custom"]))
        if c["what"] == "model":
            c["model"] = draw(gen.model(c["frame"], ["hole-effect"], custom=True))
        if c["what"] == "window-custom":
            c["model"] = draw(gen.model(c["frame"], ["custom"]))
    elif cls == "OK3D":
        c["what"] = draw(st.sampled_from(["C", "window-vectorized", "window-C"]))
    else:
        c["what"] = "C"
    c["window"] = draw(st.integers(2, len(c["pts"])))
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    return c


def check_refused(c):
    obj = kcase.build(c)
    w = c["what"]
    kw = dict(backend="C")
    if w in ("window", "window-vectorized"):
        kw["backend"] = "vectorized"
    if w.startswith("window"):
        kw["n_closest_points"] = c["window"]
    t = np.array(c["targets"], dtype=float)
    args = list(t.T)
    shape = (len(t),) * kcase.dim(c)
    if c["style"] == "masked":
        kw["mask"] = np.zeros(shape, bool)
    if (c.get("drift") or {}).get("spec"):
        if c["style"] == "points":
            kw["specified_drift_arrays"] = kcase.spec_arrays(c, t)
        else:
            kw["specified_drift_arrays"] = kcase.spec_arrays(c, kcase.grid_targets(args), shape)
    must_raise("%s %s with %s" % (c["cls"], w, kw["backend"]), obj.execute, c["style"], *args, **kw)
    # the object is still usable and the supported backend answers (unless the
    # drift terms are linearly dependent on the data)
    kcase.Reference(c).krige(t)
    kcase.points(c, obj, t, "loop")
    return dict(cls=c["cls"], what=w, model=c["model"]["name"])


TESTS = [
    T("agree-OK", case("OK"), check_agree, 1400),
    T("agree-geographic", case("OK", geo=True), check_agree, 500),
    T("agree-OK3D", case("OK3D"), check_agree, 500),
    T("agree-UK", case("UK"), check_agree, 600),
    T("agree-UK3D", case("UK3D"), check_agree, 400),
    T("fitted-OK", auto("OK"), check_auto, 400),
    T("fitted-OK3D", auto("OK3D"), check_auto, 150),
    T("refused", refused(), check_refused, 400),
    T("many-OK", gen.many("OK", nmax=80, nodes=1600), blup.check_many_backends, 64),
    T("many-OK3D", gen.many("OK3D", nmax=80, nodes=1600), blup.check_many_backends, 64),
    T("many-UK", gen.many("UK", nmax=80, nodes=1600), blup.check_many_backends, 64),
    T("many-UK3D", gen.many("UK3D", nmax=80, nodes=1600), blup.check_many_backends, 64),
]
