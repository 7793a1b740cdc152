"""C26: representations of the inputs; inputs are neither modified nor kept."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, Violation, call, check, close
from proptest import T
from props import wrap

VEC = ["list", "tuple", "array", "int", "ints", "column", "row", "strided", "reversed", "fortran", "readonly", "float32",
       "bigendian", "mixed", "npfloats", "broadcastable"]
GRID = ["list", "array", "fortran", "strided", "transposed", "readonly", "int", "float32", "tuple"]
MASK = ["array", "list", "int", "uint8", "fortran", "strided", "readonly", "transposed", "tuple", "float"]


def rep(name, a):
    """The numbers of a in another representation (or a plain array)."""
    a = np.array(a, float)
    whole = a.size > 0 and np.all(a == np.round(a)) and np.max(np.abs(a)) < 2**31
    if name == "list":
        return a.tolist()
    if name == "tuple":
        return tuple(a.tolist()) if a.ndim == 1 else tuple(tuple(r) for r in a.tolist())
    if name == "int" and whole:
        return a.astype(np.int64)
    if name == "ints" and whole:
        return [int(v) for v in a]
    if name == "mixed":
        return [int(v) if v == int(v) and abs(v) < 1e15 else float(v) for v in a]
    if name == "npfloats":
        return [np.float64(v) for v in a]
    if name == "column":
        return a.reshape(-1, 1)
    if name == "row":
        return a.reshape(1, -1)
    if name == "strided":
        b = np.full([2 * n for n in a.shape], -77.5)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if name == "reversed":
        return a[::-1].copy()[::-1]
    if name == "fortran":
        if a.ndim == 1:
            return np.asfortranarray(np.stack([a, a * 2 + 1], axis=1))[:, 0]
        return np.asfortranarray(a)
    if name == "transposed":
        return np.ascontiguousarray(a.T).T
    if name == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if name == "float32" and np.array_equal(a.astype(np.float32).astype(float), a):
        return a.astype(np.float32)
    if name == "bigendian":
        return a.astype(">f8")
    return a


def repmask(name, m):
    m = np.array(m, bool)
    if name == "list":
        return m.tolist()
    if name == "tuple":
        return tuple(tuple(r) for r in m.tolist())
    if name == "int":
        return m.astype(int)
    if name == "uint8":
        return m.astype(np.uint8)
    if name == "float":
        return m.astype(float)
    if name == "fortran":
        return np.asfortranarray(m)
    if name == "transposed":
        return np.ascontiguousarray(m.T).T
    if name == "strided":
        b = np.ones([2 * n for n in m.shape], bool)
        v = b[tuple(slice(None, None, 2) for _ in m.shape)]
        v[...] = m
        return v
    if name == "readonly":
        b = m.copy()
        b.flags.writeable = False
        return b
    return m


def repnum(name, v):
    """A scalar option."""
    if name in ("int", "ints", "mixed") and v == int(v):
        return int(v)
    if name in ("npfloats", "array", "column"):
        return np.float64(v)
    return v


# ------------------------------------------------------------------- snapshots
def snap(o):
    if isinstance(o, np.ndarray):
        return ("array", o.dtype, o.shape, o.copy())
    if isinstance(o, (list, tuple)):
        return (type(o), [snap(v) for v in o])
    if isinstance(o, dict):
        return ("dict", [(k, snap(v)) for k, v in o.items()])
    return ("value", o)


def same(s, o):
    if s[0] == "array":
        return isinstance(o, np.ndarray) and o.dtype == s[1] and o.shape == s[2] and np.array_equal(o, s[3])
    if s[0] in (list, tuple):
        return type(o) is s[0] and len(o) == len(s[1]) and all(same(a, b) for a, b in zip(s[1], o))
    if s[0] == "dict":
        return isinstance(o, dict) and [k for k, _ in s[1]] == list(o) and all(same(v, o[k]) for k, v in s[1])
    return o is s[1] or o == s[1]


def scribble(o):
    """Changes every mutable part of an argument."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            if o.dtype == bool:
                o[...] = ~o
            else:
                o[...] = (o * 3 + 7).astype(o.dtype)
    elif isinstance(o, list):
        for v in o:
            scribble(v)
        if o and isinstance(o[0], (int, float)):
            o[:] = [v * 3 + 7 for v in o]
        elif o:
            o.pop()
    elif isinstance(o, tuple):
        for v in o:
            scribble(v)
    elif isinstance(o, dict):
        for k in list(o):
            o[k] = o[k] * 3 + 7


# ----------------------------------------------------------------------- cases
@st.composite
def case(draw, cls, geo=False):
    c = draw(gen.kcase(cls, 9 if cls.startswith("UK") else 4, 12, geo=geo, exact="any", pinv=True, big=False))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["axes"] = [[12.25, 40.5], [3.75, -20.5, 33.0]] if geo else draw(gen.axes_for(c, 1, 4))
    if c["frame"] == [0.0, 1.0] and not geo:
        # whole numbers
        c["whole"] = True
        c["pts"] = [[float(round(v)) for v in p] for p in c["pts"]]
        c["val"] = [float(round(v)) for v in c["val"]]
        c["targets"] = [[float(round(v)) for v in p] for p in c["targets"]]
        c["axes"] = [sorted({float(round(v)) for v in a}) for a in c["axes"]]
    c["mask"] = draw(gen.mask_for(c["axes"]))
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    c["near"] = draw(st.sampled_from([None, None, 2, 4, 20]))
    c["upd"] = draw(st.booleans())
    d = kcase.dim(c)
    c["rdata"] = [draw(st.sampled_from(VEC)) for _ in range(d + 1)]
    c["raxes"] = [draw(st.sampled_from(VEC)) for _ in range(d)]
    c["rmask"] = draw(st.sampled_from(MASK))
    c["rgrid"] = draw(st.sampled_from(GRID))
    c["rvec"] = draw(st.sampled_from([v for v in VEC if v != "row"]))
    c["rspec"] = draw(st.sampled_from(VEC))
    c["rnum"] = draw(st.sampled_from(VEC))
    return c


def repparams(name, kw):
    v = kw.get("variogram_parameters")
    if isinstance(v, dict):
        kw["variogram_parameters"] = {k: repnum(name, x) for k, x in v.items()}
    elif isinstance(v, list):
        kw["variogram_parameters"] = [repnum(name, x) for x in v]
    for k in kw:
        if k.startswith("anisotropy"):
            kw[k] = repnum(name, kw[k])
    return kw


def represented(c):
    """Constructor arguments in the chosen representations."""
    args, kw = kcase.ctor_args(c)
    args = [rep(r, a) for r, a in zip(c["rdata"], args)]
    repparams(c["rnum"], kw)
    if "point_drift" in kw:
        kw["point_drift"] = rep(c["rgrid"], kw["point_drift"])
    if "external_drift" in kw:
        kw["external_drift"] = rep(c["rgrid"], kw["external_drift"])
        kw["external_drift_x"] = rep(c["rvec"], kw["external_drift_x"])
        kw["external_drift_y"] = rep(c["rvec"], kw["external_drift_y"])
    if "specified_drift" in kw:
        kw["specified_drift"] = [rep(c["rspec"], v) for v in kw["specified_drift"]]
    if "drift_terms" in kw and c["rvec"] == "tuple":
        kw["drift_terms"] = tuple(kw["drift_terms"])
    return args, kw


def check_case(c):
    d = kcase.dim(c)
    win = c["near"] if c["cls"] in ("OK", "OK3D") else None
    backend = c["backend"]
    if backend not in kcase.backends(c, win):
        backend = "loop"
    if c["style"] == "points":
        t = np.array(c["targets"], float)
        axes, shape = [list(a) for a in t.T], (len(t),)
    else:
        axes = c["axes"]
        t = kcase.grid_targets(axes)
        shape = tuple(len(a) for a in reversed(axes))
    R = kcase.Reference(c)
    try:
        if win is not None and win < len(c["pts"]):
            if c.get("coord") == "geographic" and R.d0(t).max() > 179.5:
                raise Reject("nearly antipodal")
            w = R.krige_window(t, win)
        else:
            w = R.krige(t)
    except Reject:
        raise
    m = np.zeros(shape, bool)
    if c["style"] == "masked":
        m = np.array(c["mask"], bool).reshape(shape)

    def judge(what, r):
        for i, nm in ((0, "estimates"), (1, "variances")):
            check(np.shape(r[i]) == shape, "%s: %s have shape %s, expected %s", what, nm, np.shape(r[i]), shape)
            check(np.array_equal(np.ma.getmaskarray(r[i]), m), "%s: mask", what)
            close("%s: %s vs plain arrays" % (what, nm), np.ma.getdata(r[i])[~m], base[i][~m], 2 * w[i + 2].reshape(shape)[~m])

    # plain arrays
    plain = kcase.build(c)
    kw = {}
    if c["style"] == "masked":
        kw["mask"] = m.copy()
    b = kcase.execute(c, plain, c["style"], axes, backend, win, **kw)
    base = [np.array(np.ma.getdata(q), float) for q in b]
    for i in (0, 1):
        check(np.all(np.isfinite(base[i][~m])), "not finite: %s", base[i])

    # represented
    args, ckw = represented(c)
    if c["upd"] and c.get("coord") != "geographic":
        up = repparams(c["rnum"], dict(kcase.variogram_args(c["model"]), **kcase.aniso_args(c)))
        for k in up:
            ckw.pop(k, None)
        ckw.update(variogram_model="linear", variogram_parameters=[1.0, 0.0])
    else:
        up = None
    s = snap([args, ckw])
    what = "%s with %s" % (c["cls"], [c["rdata"], c["rnum"], c["rgrid"], c["rvec"], c["rspec"]])
    obj = call(what, kcase.classes()[c["cls"]], *args, **ckw)
    check(same(s, [args, ckw]), "%s: construction modifies its arguments", what)
    if up is not None:
        su = snap(up)
        call(what + " update", obj.update_variogram_model, **up)
        check(same(su, up), "%s: update modifies its arguments", what)

    raxes = [rep(r, a) for r, a in zip(c["raxes"], axes)]
    ex = dict(backend=backend)
    if win is not None:
        ex["n_closest_points"] = np.int64(win) if c["rnum"] in ("array", "npfloats") else win
    if c["style"] == "masked":
        ex["mask"] = repmask(c["rmask"] if d == 2 or c["rmask"] not in ("list", "tuple") else "array", m)
        if d == 3 and c["rmask"] == "list":
            ex["mask"] = m.tolist()
    sp = kcase.spec_arrays(c, t, shape)
    if sp is not None:
        if c["style"] == "points":
            ex["specified_drift_arrays"] = [rep(c["rspec"], v) for v in sp]
        else:
            ex["specified_drift_arrays"] = [rep(c["rgrid"] if c["rgrid"] != "tuple" else "list", v) for v in sp]
    what += " %s %s" % (c["style"], [c["raxes"], c["rmask"]])
    for again in range(2):
        s2 = snap([raxes, ex])
        r = call(what, obj.execute, c["style"], *raxes, **ex)
        check(same(s2, [raxes, ex]), "%s: execute modifies its arguments", what)
        check(same(s, [args, ckw]), "%s: execute modifies the data", what)
        judge(what, r)
    # the arguments change afterwards
    for o in (args, [v for k, v in ckw.items()], [v for k, v in (up or {}).items()]):
        for v in o:
            scribble(v)
    r = call(what, obj.execute, c["style"], *raxes, **ex)
    judge("after the arguments have changed: " + what, r)
    keep = [np.ma.copy(q) for q in r]
    for o in [raxes] + [v for v in ex.values() if isinstance(v, (np.ndarray, list))]:
        for v in o if isinstance(o, list) else [o]:
            scribble(v)
    judge("results after the evaluation points have changed: " + what, r)
    # results are the caller's: changing them does not matter either
    for q in r:
        q[...] = -1.0
    axes2 = [np.array(a, float) for a in axes]
    k2 = {}
    if c["style"] == "masked":
        k2["mask"] = m.copy()
    judge("after the results have changed: " + what, kcase.execute(c, obj, c["style"], axes2, backend, win, **k2))
    return dict(style=c["style"], backend=backend, window=win is not None, whole=bool(c.get("whole")), data=c["rdata"][0],
                axis=c["raxes"][0], mask=c["rmask"] if c["style"] == "masked" else "-",
                nontrivial=any(v != "array" for v in c["rdata"] + c["raxes"]))


# -------------------------------------------------------------------- wrappers
@st.composite
def wcase(draw):
    c = draw(wrap.setting(draw(st.sampled_from(["OK", "UK", "OK3D", "UK3D"])), auto=False))
    c["verbose"] = False
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["rx"] = draw(st.sampled_from(["array", "fortran", "strided", "transposed", "readonly", "float32", "int"]))
    c["rt"] = draw(st.sampled_from(["array", "fortran", "strided", "transposed", "readonly", "float32", "int"]))
    c["ry"] = draw(st.sampled_from(VEC))
    c["reg"] = draw(st.booleans())
    return c


def check_wrapper(c):
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression

    if c["frame"] == [0.0, 1.0] and c["rx"] == "int" and c.get("coord") is None:
        c = dict(c, pts=[[float(round(v)) for v in p] for p in c["pts"]], targets=[[float(round(v)) for v in p] for p in c["targets"]])
    val = np.array(c["val"], float)
    P = np.array(c["pts"], float)
    if c["reg"]:
        own = LinearRegression().fit(P, val)
        D = wrap.Direct(dict(c, val=[float(v) for v in val - own.predict(P)]))
    else:
        D = wrap.Direct(c)
    t = D.keep([list(p) for p in c["targets"]])
    want = D.at(t)
    extra = own.predict(np.array(t)) if c["reg"] else 0.0
    X, y, tt = rep(c["rx"], c["pts"]), rep(c["ry"] if not c["reg"] else "array", c["val"]), rep(c["rt"], t)
    kw = wrap.krige_args(c)
    s = snap([X, y, tt, kw])
    if c["reg"]:
        e = call("RegressionKriging", RegressionKriging, LinearRegression(), **kw)
        # the regression model computes in the precision of its predictors
        pp = np.array(t, float) if c["rt"] == "float32" else tt
        wrap.quiet(call, "fit", e.fit, P if c["rx"] == "float32" else X, X, y)
        z = wrap.quiet(call, "predict", e.predict, pp, tt)
    else:
        e = call("Krige", Krige, **kw)
        wrap.quiet(call, "fit", e.fit, X, y)
        z = wrap.quiet(call, "predict", e.predict, tt)
    check(same(s, [X, y, tt, kw]), "fit or predict modify their arguments (%s, %s, %s)", c["rx"], c["ry"], c["rt"])
    if not c["reg"]:
        d = {k + "points": tt[:, i] for i, k in enumerate("xyz"[: tt.shape[1]])}
        given = dict(d)
        r = wrap.quiet(call, "execute", e.execute, d)
        check(d.keys() == given.keys() and all(d[k] is given[k] for k in d) and same(s[1][2], tt),
              "execute modifies the dictionary of points passed to it: it has %s now", sorted(d))
        kcase.compare("execute", [kcase.plain("execute", q, (len(t),)) for q in r], want)
    tol = want[2] + 1e-8 * np.max(np.abs(val))
    close("prediction (%s, %s, %s)" % (c["rx"], c["ry"], c["rt"]), z, want[0] + extra, tol)
    scribble(X)
    scribble(y)
    z2 = wrap.quiet(call, "predict", e.predict, *([pp, tt] if c["reg"] else [tt]))
    close("prediction after the data have changed", z2, want[0] + extra, tol)
    return dict(x=c["rx"], y=c["ry"], t=c["rt"], reg=c["reg"], method=c["cls"], nontrivial=c["rx"] != "array" or c["ry"] != "array")


TESTS = [
    T("OK", case("OK"), check_case, 1000),
    T("geographic", case("OK", geo=True), check_case, 400),
    T("OK3D", case("OK3D"), check_case, 600),
    T("UK", case("UK"), check_case, 900),
    T("UK3D", case("UK3D"), check_case, 600),
    T("wrappers", wcase(), check_wrapper, 400),
    T("grown-OK", gen.grown(case("OK")), gen.larger(check_case), 64),
    T("grown-geographic", gen.grown(case("OK", geo=True)), gen.larger(check_case), 64),
    T("grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_case), 64),
    T("grown-UK", gen.grown(case("UK")), gen.larger(check_case), 64),
    T("grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_case), 64),
]
