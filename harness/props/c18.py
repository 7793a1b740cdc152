"""C18: GSTools covariance models."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, call, check, close, must_raise
from proptest import T
from props import blup

GS = {
    "Gaussian": {}, "Exponential": {}, "Spherical": {}, "Linear": {}, "Circular": {}, "Cubic": {},
    "Stable": {"alpha": [0.6, 1.0, 1.5]}, "Matern": {"nu": [0.5, 1.5]},
    "Rational": {"alpha": [0.7, 2.0]}, "HyperSpherical": {}, "SuperSpherical": {"nu": [3.0]},
}


@st.composite
def gsmodel(draw, dim, fr, geo=False, gdim=None):
    """A GSTools model with the equivalent pykrige anisotropy."""
    name = draw(st.sampled_from(sorted(GS)))
    if name in ("Linear", "Circular") and (geo or dim > (1 if name == "Linear" else 2)):
        name = "Exponential"  # valid in one (two) dimensions only
    if geo and name in ("Gaussian", "Cubic"):
        name = "Spherical"
    s = fr[1]
    g = {"cls": name, "var": draw(st.sampled_from([1.0, 0.037, 250.0])) * draw(gen.sixteenth(2, 48))}
    if draw(st.integers(0, 2)) == 0:
        g["nugget"] = g["var"] * draw(st.sampled_from([0.1, 0.5, 2.0]))
    if GS[name]:
        g["opt"] = {k: draw(st.sampled_from(v)) for k, v in GS[name].items()}
    if name == "Gaussian":
        g["len_scale"] = s * draw(st.sampled_from([0.6, 1.0, 1.5]))
    else:
        g["len_scale"] = s * draw(st.sampled_from([0.7, 1.0, 2.2, 5.0]))
    if draw(st.integers(0, 3)) == 0:
        g["rescale"] = draw(st.sampled_from([0.5, 2.0]))
        if name in ("Gaussian", "Rational", "Stable", "Matern", "Cubic"):
            g["rescale"] = 2.0
    if geo:
        g["latlon"] = True
        g["geo_scale"] = draw(st.sampled_from([1.0, 180.0 / np.pi, 6371.0]))
        g["len_scale"] = g["geo_scale"] * draw(st.sampled_from([0.1, 0.3, 0.8]))
        return {"model": {"name": "gstools", "gs": g}, "scale": [1.0], "angle": [0.0]}
    k, q = (1, 1) if dim == 2 else (2, 3)
    if dim == 2 and (gdim == 1 or (gdim is None and draw(st.integers(0, 4)) == 0)):
        g["dim"] = 1
        return {"model": {"name": "gstools", "gs": g}, "scale": [1.0], "angle": [0.0]}
    g["dim"] = dim
    scale, angle = draw(gen.anisotropy(dim))
    if any(v != 1.0 for v in scale) or any(angle):
        an = [draw(st.sampled_from([0.3, 0.5, 0.8, 1.0, 1.7])) for _ in range(k)]
        g["anis"] = an if dim == 3 else an[0]
        scale = [1.0 / v for v in an]
        rad = [float(np.radians(v)) for v in angle]
        # GSTools rotates about z, y, x in this order of its angles
        g["angles"] = rad[::-1] if dim == 3 else rad[0]
    return {"model": {"name": "gstools", "gs": g}, "scale": scale, "angle": angle}


@st.composite
def case(draw, cls, geo=False):
    c = draw(gen.kcase(cls, 9 if cls.startswith("UK") else 4, 12, geo=geo, exact="any", pinv=True))
    c.update(draw(gsmodel(kcase.dim(c), c["frame"], geo)))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["how"] = draw(st.sampled_from(["ctor", "update"]))
    c["first"] = draw(gen.geo_model() if geo else gen.model(c["frame"]))
    c["window"] = draw(st.integers(2, len(c["pts"])))
    return c


def _gs(c):
    return ref.gs_model(c["model"]["gs"])


def check_model(c):
    m = _gs(c)
    R = kcase.Reference(c)
    T_ = np.array(c["targets"], float)
    want = R.krige(T_)
    if c["how"] == "ctor":
        obj = kcase.build(c)
    else:
        st0 = dict(c, model=c["first"])
        obj = kcase.build(st0)
        call("update_variogram_model(GSTools)", obj.update_variogram_model, m)
    nm = c["model"]["gs"]["cls"]
    for b in kcase.backends(c):
        kcase.compare("%s %s %s" % (nm, c["how"], b), kcase.points(c, obj, T_, b), want)
    if c["cls"] in ("OK", "OK3D"):
        try:
            keep = R.untied(c["targets"], c["window"])
            ww = R.krige_window(keep, c["window"])
        except Reject:
            ww = None
        if ww is not None and not (c.get("coord") and R.d0(keep).max() > 179.5):
            kcase.compare("%s window" % nm, kcase.points(c, obj, keep, "loop", c["window"]), ww)
    # the same as the equivalent custom function with explicit anisotropy
    f = ref.gs_fn(c["model"]["gs"])
    args, kw = kcase.ctor_args(c)
    kw.update(variogram_model="custom", variogram_parameters=[], variogram_function=lambda p, d: f(d))
    if c.get("coord") != "geographic":
        kw.update(kcase.aniso_args(dict(c, model={"name": "custom"})))
    twin = call("custom twin", kcase.classes()[c["cls"]], *args, **kw)
    kcase.compare("custom twin of %s" % nm, kcase.points(c, twin, T_, "vectorized"), want)
    other = _gstools_krige(c, R, want) if c["cls"] in ("OK", "OK3D") else False
    return blup.labels(c, gs=nm, how=c["how"], dim=c["model"]["gs"].get("dim", "latlon"),
                       peer=other, aniso=bool(c["model"]["gs"].get("anis")), drift=None)


def _gstools_krige(c, R, want):
    """GSTools' ordinary kriging agrees (away from the data)."""
    import gstools as gs

    m = _gs(c)
    if m.dim == 1:
        return False
    away = ~R.coincide(np.array(c["targets"], float)).any(axis=1)
    T_ = np.array(c["targets"], float)[away]
    if not len(T_) or R.d0(T_).min() < 1e-3 * c["frame"][1]:
        return False
    pts, t = R.pts.T, T_.T
    if c.get("coord") == "geographic":
        pts, t = pts[::-1], t[::-1]
    try:
        k = gs.krige.Ordinary(m, list(pts), R.val, exact=True)
        est, var = k(list(t), return_var=True)
    except np.linalg.LinAlgError:
        return False
    # GSTools solves with a pseudo-inverse of the covariance matrix
    sill = float(m.sill)
    te = 1e3 * want[2][away] + 1e-6 * (1 + np.max(np.abs(R.val)))
    tv = 1e3 * want[3][away] + 1e-6 * sill
    if np.max(te) > 1e-3 * (1 + np.max(np.abs(R.val))) or np.max(tv) > 1e-3 * sill or R.system().cond > 1e7:
        return False
    # the two references agree: GSTools and the system written down here
    close("reference and GSTools estimates", est, want[0][away], te)
    close("reference and GSTools variances", var, np.maximum(want[1][away], 0), tv)
    return True


@st.composite
def unsuitable(draw):
    cls = draw(st.sampled_from(["OK", "UK", "OK3D", "UK3D", "GEO"]))
    if cls.endswith("3D"):
        bad = draw(st.sampled_from([dict(dim=1), dict(dim=2), dict(dim=4), dict(latlon=True), dict(latlon=True, temporal=True)]))
    elif cls == "GEO":
        bad = draw(st.sampled_from([dict(dim=3), dict(dim=4), dict(latlon=True, temporal=True)]))
    else:
        bad = draw(st.sampled_from([dict(dim=3), dict(dim=4), dict(latlon=True), dict(latlon=True, temporal=True)]))
    geo = cls == "GEO"
    c = draw(gen.kcase("OK" if geo else cls, 5, 8, geo=geo, drifts=["regional"]))
    g = {"cls": draw(st.sampled_from(["Exponential", "Gaussian", "Stable"])), "var": 1.0, "len_scale": 1.5}
    g.update(bad)
    c["bad"] = g
    c["how"] = draw(st.sampled_from(["ctor", "update"]))
    return c


def check_unsuitable(c):
    m = ref.gs_model(c["bad"])
    what = "%s with GSTools model %s" % (c["cls"], {k: v for k, v in c["bad"].items() if k in ("dim", "latlon", "temporal")})
    if c["how"] == "ctor":
        args, kw = kcase.ctor_args(dict(c, model={"name": "gstools", "gs": c["bad"]}))
        must_raise(what, kcase.classes()[c["cls"]], *args, **kw)
    else:
        obj = kcase.build(c)
        must_raise(what + " (update)", obj.update_variogram_model, m)
    # something that only looks like a model
    class Fake:
        pykrige_kwargs = {}
        field_dim = 2 if not c["cls"].endswith("3D") else 3
        dim = field_dim
        latlon = False

    args, kw = kcase.ctor_args(c)
    kw["variogram_model"] = Fake()
    must_raise("an object that is not a covariance model", kcase.classes()[c["cls"]], *args, **kw)
    return dict(cls=c["cls"], how=c["how"], bad=sorted(c["bad"])[-1], nontrivial=True)


TESTS = [
    T("OK", case("OK"), check_model, 800),
    T("geographic", case("OK", geo=True), check_model, 400),
    T("OK3D", case("OK3D"), check_model, 500),
    T("UK", case("UK"), check_model, 500),
    T("UK3D", case("UK3D"), check_model, 400),
    T("unsuitable", unsuitable(), check_unsuitable, 300),
    T("grown-OK", gen.grown(case("OK")), gen.larger(check_model), 48),
    T("grown-geographic", gen.grown(case("OK", geo=True)), gen.larger(check_model), 48),
    T("grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_model), 48),
    T("grown-UK", gen.grown(case("UK")), gen.larger(check_model), 48),
    T("grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_model), 48),
]
