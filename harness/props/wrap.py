"""Shared by C22-C24: kriging cases for the scikit-learn style wrappers."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close
from props import blup, c17
from props.c18 import gsmodel

METHODS = {"OK": "ordinary", "UK": "universal", "OK3D": "ordinary3d", "UK3D": "universal3d"}
DRIFTS = {"UK": ["regional", "wells", "extz", "func"], "UK3D": ["regional", "func"]}


@st.composite
def setting(draw, cls, geo=False, nmax=14, exact="any", auto=True, nmin=None, dups=False):
    """A kriging case with everything Krige can be told."""
    nmin = nmin or (8 if cls.startswith("UK") else 4)
    c = draw(gen.kcase(cls, nmin, nmax, geo=geo, exact=exact, drifts=DRIFTS.get(cls), pinv=True))
    d = kcase.dim(c)
    how = draw(st.integers(0, 7))
    if how == 0 and auto:
        c["model"] = {"name": draw(st.sampled_from(gen.MODELS))}
    elif how == 1:
        c.update(draw(gsmodel(d, c["frame"], geo)))
    if draw(st.booleans()):
        c["nlags"] = draw(st.sampled_from([2, 4, 9]))
    c["weight"] = draw(st.booleans())
    c["near"] = draw(st.sampled_from([2, 3, 4, 6, 10, 10, 50, None]))
    c["verbose"] = draw(st.integers(0, 3)) == 0
    c["stat"] = draw(st.booleans())
    if dups and c["pinv"] and c["model"].get("params") and c["model"]["name"] != "gstools" and not blup._nugget(c):
        # redundant data, which only the pseudo-inverse can handle
        for _ in range(draw(st.integers(0, 3))):
            i = draw(st.integers(0, len(c["pts"]) - 1))
            j = draw(st.integers(0, len(c["pts"])))
            c["pts"].insert(j, list(c["pts"][i]))
            c["val"].insert(j, draw(st.integers(-40, 40)) / 4.0)
        if c["cls"] in ("OK", "OK3D") and len(c["pts"]) > len({tuple(p) for p in c["pts"]}):
            c["near"] = None
    return c


@st.composite
def tile(draw):
    """Number of rows and seed of a request with many points."""
    if draw(st.integers(0, 5)):
        return None
    return [draw(st.sampled_from([40, 130, 600, 1200, 2500, 4500, 11000])), draw(st.integers(0, 2**31 - 1))]


def tiles(c, n):
    """Row numbers of a request with many points, or None."""
    if not c.get("tile") or n < 2:
        return None
    return np.random.RandomState(c["tile"][1]).randint(0, n, c["tile"][0])


@st.composite
def large(draw, cls, geo=False, auto=True):
    """A setting with up to 150 data (see grow)."""
    nmin = 8 if cls.startswith("UK") else 4
    c = draw(setting(cls, geo, nmax=nmin, auto=auto))
    c["near"] = draw(st.sampled_from([4, 10, 10, 25, 60, None]))
    c["n"] = draw(st.integers(16, 150))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["nodes"] = [4, 3] + [2] * (kcase.dim(c) - 2)
    c["masked"] = 0.5
    return c


def grow(c):
    """The full data set of a large setting, with targets."""
    m = dict(c["model"])
    if m["name"] == "gstools" or not m.get("params"):
        e = gen.expand(dict(c, model=dict(name="linear", params=[1.0, 0.0])))
        e["model"] = m
    else:
        e = gen.expand(c)
    t = kcase.grid_targets(e["axes"])
    e["targets"] = [list(map(float, t[i])) for i in e["pick"][:5]] + [e["pts"][-1]]
    return e


def krige_args(c, full=False):
    """Keyword arguments of Krige for a case; full: also all defaults."""
    kw = dict(method=METHODS[c["cls"]])
    kw.update(kcase.variogram_args(c["model"]))
    if c["model"]["name"] != "gstools" and c.get("coord") != "geographic":
        s, a = list(c["scale"]), list(c["angle"])
        if full or any(v != 1.0 for v in s) or any(v != 0.0 for v in a):
            # the parts that a 2D method does not use must not matter
            kw["anisotropy_scaling"] = tuple(s + [5.0] * (2 - len(s)))
            kw["anisotropy_angle"] = tuple(a + [33.0] * (3 - len(a)))
    if c.get("coord"):
        kw["coordinates_type"] = c["coord"]
    if not c["exact"]:
        kw["exact_values"] = False
    if c.get("pinv"):
        kw["pseudo_inv"] = True
        kw["pseudo_inv_type"] = c["pinv"]
    if c.get("nlags"):
        kw["nlags"] = c["nlags"]
    if c["weight"]:
        kw["weight"] = True
    if c["near"] != 10:
        kw["n_closest_points"] = c["near"]
    if c["verbose"]:
        kw["verbose"] = True
    if c["stat"]:
        kw["enable_statistics"] = True
    if c.get("drift"):
        d = kcase.drift_args(c)
        kw["drift_terms"] = d["drift_terms"]
        if "external_drift" in d:
            kw["ext_drift_grid"] = (d["external_drift"], d["external_drift_x"], d["external_drift_y"])
        for k in ("point_drift", "functional_drift"):
            if k in d:
                kw[k] = d[k]
    if full:
        for k, v in DEFAULTS.items():
            kw.setdefault(k, v)
    return kw


DEFAULTS = dict(
    method="ordinary", variogram_model="linear", nlags=6, weight=False, n_closest_points=10,
    verbose=False, exact_values=True, pseudo_inv=False, pseudo_inv_type="pinv",
    variogram_parameters=None, variogram_function=None, anisotropy_scaling=(1.0, 1.0),
    anisotropy_angle=(0.0, 0.0, 0.0), enable_statistics=False, coordinates_type="euclidean",
    drift_terms=None, point_drift=None, ext_drift_grid=(None, None, None), functional_drift=None,
)


def quiet(fn, *a, **k):
    return heard(fn, *a, **k)[0]


def heard(fn, *a, **k):
    """(result, text printed)."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn(*a, **k)
    return r, out.getvalue()


def again(what, fn, *arrays, **k):
    """The result for these arrays after a call with the same array objects
    holding the rows in another order."""
    bufs = [np.array(a) for a in arrays]
    if len(bufs[0]) > 1:
        for b in bufs:
            b[...] = b[::-1].copy()
        quiet(call, what, fn, *bufs, **k)
        for b, a in zip(bufs, arrays):
            b[...] = a
    return quiet(call, what, fn, *bufs, **k)


def window(c):
    return c["near"] if c["cls"] in ("OK", "OK3D") else None


class Direct:
    """The kriging class itself with the same data and options."""

    def __init__(self, c):
        self.c = c
        over = {}
        if c["cls"] == "OK" and c.get("stat"):
            over["enable_statistics"] = True
        try:
            self.obj = quiet(kcase.build, c, **over)
        except Violation as v:
            raise Reject(str(v))
        m = c["model"]
        if m.get("params") is None and m["name"] != "gstools":
            m = dict(m, params=[float(v) for v in self.obj.variogram_model_parameters])
        self.slack = 2.0
        pts = [list(p) for p in dict.fromkeys(tuple(p) for p in c["pts"])]
        if len(pts) < len(c["pts"]):
            # tolerances of the data set with coincident data averaged
            if not c["pinv"]:
                raise Reject("duplicates")
            val = [float(np.mean([v for q, v in zip(c["pts"], c["val"]) if list(q) == p])) for p in pts]
            c = dict(c, pts=pts, val=val)
            self.slack = 30.0
        self.R = kcase.Reference(dict(c, model=m))
        if self.slack > 2:
            c17.judge(self.R)

    def keep(self, targets):
        """The targets whose window is beyond doubt."""
        w = window(self.c)
        if w is not None and w < len(self.c["pts"]):
            targets = self.R.untied(targets, w)
        if self.c.get("coord") == "geographic" and self.R.d0(targets).max() > 179.5:
            raise Reject("nearly antipodal")
        return targets

    def at(self, targets):
        """est, var, tolerances: those of the class, not those of the reference."""
        w = window(self.c)
        if w is None:
            t = self.R.krige(targets)
        else:
            t = self.R.krige_window(targets, w)
        try:
            e, v = quiet(kcase.points, self.c, self.obj, targets, "loop", w)
        except Violation as x:
            raise Reject(str(x))
        return e, v, self.slack * t[2], self.slack * t[3]


def options(c):
    """Number of options that are not at their default."""
    return sum(k not in DEFAULTS or not _same(v, DEFAULTS[k]) for k, v in krige_args(c).items())


def _same(a, b):
    return repr(a) == repr(b)


def labels(c, **more):
    lab = dict(
        model=c["model"]["name"] if c["model"].get("params") or c["model"]["name"] == "gstools" else "auto",
        window="none" if window(c) is None else "all" if c["near"] >= len(c["pts"]) else "part",
        pinv=c.get("pinv"), dups=len(c["pts"]) - len({tuple(p) for p in c["pts"]}), exact=c["exact"], coord=c.get("coord", "euclidean"),
        options=min(options(c), 6), nontrivial=options(c) > 0,
    )
    if c["cls"].startswith("UK"):
        d = c.get("drift") or {}
        lab["drift"] = "+".join(k for k in ("regional", "wells", "extz", "func") if d.get(k)) or "none"
    lab.update(more)
    return lab
