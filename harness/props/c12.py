"""C12: variogram formulas, parameter forms, custom functions."""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import call, check, close
from proptest import T
from props import blup

FN = {
    "linear": "linear_variogram_model",
    "power": "power_variogram_model",
    "gaussian": "gaussian_variogram_model",
    "spherical": "spherical_variogram_model",
    "exponential": "exponential_variogram_model",
    "hole-effect": "hole_effect_variogram_model",
}


# ------------------------------------------------------------ formulas direct
@st.composite
def formula(draw):
    name = draw(st.sampled_from(gen.MODELS))
    e = draw(st.integers(-6, 6))
    s = 10.0 ** draw(st.integers(-4, 5))
    r = s * draw(gen.sixteenth(1, 160))
    p = [10.0**e * draw(gen.sixteenth(0, 96)), r, 10.0**e * draw(gen.sixteenth(0, 32))]
    if name == "linear":
        p = [p[0] / s, p[2]]
    elif name == "power":
        p = [p[0], draw(st.sampled_from([0.001, 0.25, 0.5, 1.0, 1.1, 1.5, 1.75, 1.999])), p[2]]
    kind = draw(st.lists(st.integers(0, 7), min_size=1, max_size=8))
    f = [0.0, 1.0, 1.0 - 2.0**-20, 1.0 + 2.0**-20, None, None, None, 1e3]
    d = []
    for k in kind:
        q = f[k] if f[k] is not None else draw(st.floats(1e-6, 5.0)) if k != 6 else draw(st.floats(1e-9, 1e-3))
        d.append(r * q)
    return dict(name=name, params=p, d=d, shape=draw(st.sampled_from(["1d", "2d", "col"])),
                how=draw(st.sampled_from(["list", "array", "int"])),
                whole=draw(st.sampled_from([None, None, None, "int64", "int32"])) if s <= 1e4 else None)


def check_formula(c):
    import pykrige.variogram_models as vm

    d = np.array(c["d"], dtype=float)
    if c["shape"] == "2d":
        d = np.stack([d, d[::-1]])
    elif c["shape"] == "col":
        d = d[:, None]
    elif c["shape"] != "1d":
        d = d.reshape(c["shape"], -1)
    p = list(c["params"])
    if c.get("whole"):
        # whole-number distances, given as integers
        d = np.minimum(np.ceil(d), 2.0**40).astype(c["whole"])
    if c["how"] == "int":
        p = [float(math.ceil(v)) if i != 1 or c["name"] != "power" else v for i, v in enumerate(p)]
        pp = [int(v) if float(v).is_integer() and abs(v) < 2**53 else v for v in p]
    elif c["how"] == "array":
        pp = np.array(p)
    else:
        pp = list(p)
    d0 = d.copy()
    got = call(FN[c["name"]], getattr(vm, FN[c["name"]]), pp, d)
    want = ref.gamma(c["name"], p, d.astype(float))
    scale = abs(p[-1]) + (abs(p[0]) if len(p) == 3 and c["name"] != "power" else 0.0)
    tol = 4e-14 * (np.abs(want) + scale)
    close("%s at distances %s" % (c["name"], d.ravel()[:5]), got, want, tol)
    check(np.array_equal(d, d0), "the distances were modified")
    z = call(FN[c["name"]], getattr(vm, FN[c["name"]]), pp, np.array([0.0]))
    close("%s at zero" % c["name"], z, [p[-1]], 1e-15 * scale)
    return dict(name=c["name"], how=c["how"], whole=c.get("whole"), nontrivial=bool(np.any(d > 0)) and p[0] > 0)


@st.composite
def formula_large(draw):
    c = draw(formula())
    c["many"] = [draw(st.sampled_from([60, 300, 2000, 10000, 40000, 150000, 300000])), draw(st.integers(0, 2**31 - 1))]
    return c


def check_formula_large(c):
    """The same formula over arrays as large as those of a vectorized execution."""
    c = dict(c)
    m, seed = c.pop("many")
    rng = np.random.RandomState(seed)
    d = np.array(c["d"])[rng.randint(0, len(c["d"]), m)]
    r = c["params"][1] if len(c["params"]) == 3 and c["name"] != "power" else max(c["d"]) or 1.0
    new = rng.uniform(size=m) < 0.7
    c["d"] = np.where(new, r * 10.0 ** rng.uniform(-4, 0.7, m), d)
    if c["shape"] == "2d" and rng.randint(2):
        c["shape"] = int(rng.choice([2, 7, 50, int(m**0.5)]))
        c["d"] = c["d"][: m // c["shape"] * c["shape"]]
    return check_formula(c)


# ----------------------------------------------- formulas seen through kriging
@st.composite
def seen(draw):
    """Two or three data points: the results depend on single variogram values."""
    cls = draw(st.sampled_from(["OK", "OK", "OK3D"]))
    c = draw(gen.kcase(cls, 2, 3, custom=False, exact="any"))
    r = c["model"]["params"][1] if len(c["model"]["params"]) == 3 and c["model"]["name"] != "power" else c["frame"][1]
    t = []
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(c["pts"]) - 1))
        f = draw(st.sampled_from([0.1, 1.0 / 3.0, 0.5, 4.0 / 7.0, 0.999, 1.0, 1.001, 2.0, 50.0]))
        k = draw(st.integers(0, kcase.dim(c) - 1))
        p = list(c["pts"][i])
        p[k] += f * r
        t.append(p)
    c["targets"] = t
    return c


def check_seen(c):
    R = kcase.Reference(c)
    want = R.krige(c["targets"])
    obj = kcase.build(c)
    bs = kcase.backends(c)
    if c["cls"] != "OK":
        bs = [b for b in bs if b != "C"]
    for b in bs:
        kcase.compare("%s through kriging, %s" % (c["model"]["name"], b),
                      kcase.points(c, obj, c["targets"], b), want)
        kcase.compare("%s through windowed kriging, %s" % (c["model"]["name"], b if b != "vectorized" else "loop"),
                      kcase.points(c, obj, c["targets"], b if b != "vectorized" else "loop", len(c["pts"])), want)
    if c["cls"] != "OK":
        return blup.labels(c)
    lags, g = call("get_variogram_points", obj.get_variogram_points)
    close("variogram points", g, R.g(np.asarray(lags)), 1e-12 * (1e-300 + np.abs(R.g(np.asarray(lags)))))
    return blup.labels(c)


# ------------------------------------------------------------ parameter forms
@st.composite
def forms(draw):
    cls = draw(st.sampled_from(["OK", "OK", "OK3D", "UK", "UK3D"]))
    nmin = {"UK": 7, "UK3D": 8}.get(cls, 3)
    c = draw(gen.kcase(cls, nmin, nmin + 5, custom=False, exact="any"))
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["update"] = draw(st.booleans())
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    c["order"] = draw(st.permutations([0, 1, 2]))
    c["extra"] = draw(st.integers(0, 3))
    return c


def check_forms(c):
    R = kcase.Reference(c)
    want = R.krige(c["targets"])
    name, p = c["model"]["name"], c["model"]["params"]
    bs = [b for b in kcase.backends(c) if c["cls"] == "OK" or b != "C"]
    b = c["backend"] if c["backend"] in bs else bs[0]
    dicts = []
    for form in ("list", "sill", "psill"):
        v = kcase.variogram_args(dict(c["model"], form=form))["variogram_parameters"]
        if isinstance(v, dict):
            k = list(v)
            v = {k[i]: v[k[i]] for i in c["order"] if i < len(k)}
        dicts.append((form, dict(variogram_model=name, variogram_parameters=v)))
    full = [p[0] + p[2], p[1], p[2]] if len(p) == 3 and name != "power" else list(p)
    seen = []

    def custom(m, d):
        seen.append(list(m))
        q = [m[0] - m[2], m[1], m[2]] if len(p) == 3 and name != "power" else list(m[: len(p)])
        return ref.gamma(name, q, d)

    cp = full + [7.5, -2.0, 0.0][: c["extra"]]
    dicts.append(("custom", dict(variogram_model="custom", variogram_parameters=cp, variogram_function=custom)))
    given = list(cp)
    for form, kw in dicts:
        if c["update"]:
            obj = kcase.build(c, variogram_model="linear", variogram_parameters=[1.0, 0.5])
            kw2 = dict(kw)
            kw2.update(kcase.aniso_args(c))
            call("update_variogram_model", obj.update_variogram_model, **kw2)
        else:
            obj = kcase.build(c, **kw)
        bb = b if form != "custom" or b != "C" else "loop"
        got = kcase.points(c, obj, c["targets"], bb)
        kcase.compare("%s as %s, %s" % (name, form, bb), got, want)
    check(len(seen) > 0, "the custom function was never called")
    for s in seen:
        check(s == given, "the custom function received %s, expected %s", s, given)
    return blup.labels(c, update=c["update"], backend=b)


TESTS = [
    T("formula", formula(), check_formula, 3000),
    T("formula-large", formula_large(), check_formula_large, 400),
    T("kriging", seen(), check_seen, 1600),
    T("forms", forms(), check_forms, 1000),
]
