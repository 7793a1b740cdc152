"""C10: the same drift given in different ways."""
import copy

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, check, close, must_raise
from proptest import T
from props import blup


# --------------------------------------------------- one drift, several forms
@st.composite
def forms(draw, cls):
    nmin = {"UK": 8, "UK3D": 9}[cls]
    dim = 3 if cls == "UK3D" else 2
    c = draw(gen.kcase(cls, nmin, nmin + 7, drifts=["spec"], must_drift=True, exact="any", pinv=True))
    fr = c["frame"]
    which = draw(st.sampled_from(["linear", "func", "wells", "extz"] if dim == 2 else ["linear", "func"]))
    c["which"] = which
    d = {}
    if which == "linear":
        d["regional"] = True
    elif which == "wells":
        d["wells"] = draw(gen.drift(2, fr, c["pts"], True, ["wells"]))["wells"]
    elif which == "extz":
        d["extz"] = draw(gen.extgrid(fr, gen.LAT[2]))
    else:
        d["func"] = draw(gen.drift(dim, fr, c["pts"], True, ["func"]))["func"]
    if draw(st.booleans()):
        o = draw(gen.drift(dim, fr, c["pts"], True, ["func"]))["func"]
        used = {s[0] for s in d.get("func", [])} | ({"x", "y", "z"} if which == "linear" else set())
        o = [s for s in o if s[0] not in used][:2]
        if o:
            d["func"] = d.get("func", []) + o
    c["drift"] = d
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    if which == "wells" and draw(st.booleans()):
        c["targets"][0] = list(d["wells"][0][:2])
    if which == "extz" and draw(st.booleans()):
        e = d["extz"]
        c["targets"][0] = [draw(st.sampled_from(e["x"])), draw(st.sampled_from(e["y"]))]
    return c


def _run(c, kw, T_, spec, b, style):
    """Executes an object built with explicit drift keywords."""
    args, base = kcase.ctor_args(dict(c, drift={}))
    base.update(kw)
    from common import call

    obj = call(c["cls"] + "()", kcase.classes()[c["cls"]], *args, **base)
    T_ = np.asarray(T_, dtype=float)
    dim = T_.shape[1]
    if style == "points":
        ex = {} if spec is None else dict(specified_drift_arrays=[s for s in spec])
        r = call("execute", obj.execute, "points", *T_.T, backend=b, **ex)
        return [np.ma.getdata(a) for a in r]
    out = []
    for j, t in enumerate(T_):
        ex = {} if spec is None else dict(
            specified_drift_arrays=[np.full((1,) * dim, s[j]) for s in spec])
        if style == "masked":
            ex["mask"] = np.zeros((1,) * dim, bool)
        r = call("execute", obj.execute, style, *[[v] for v in t], backend=b, **ex)
        out.append([np.ma.getdata(a).ravel()[0] for a in r])
    return list(np.array(out).T)


def check_forms(c):
    R = kcase.Reference(c)
    T_ = np.array(c["targets"], dtype=float)
    want = R.krige(T_)
    P = np.array(c["pts"], dtype=float)
    dim = kcase.dim(c)
    native = kcase.drift_args(c)
    native["drift_terms"] = list(native["drift_terms"])
    # the same columns as specified arrays
    cp, ct = R.drift(P), R.drift(T_)
    spec = dict(drift_terms=["specified"], specified_drift=[cp[:, k].copy() for k in range(cp.shape[1])])
    spec_t = [ct[:, k].copy() for k in range(ct.shape[1])]
    # the same columns as functions of the adjusted coordinates
    fl = []
    d = c["drift"]
    if d.get("regional"):
        fl += [lambda *q, k=k: q[k] for k in range(dim)]
    if d.get("wells"):
        for w in d["wells"]:
            a = R.adj([w[:2]])[0]

            def wf(x, y, a=a, s=w[2]):
                h = np.hypot(x - a[0], y - a[1])
                tiny = h <= 1e-10
                return -s * np.where(tiny, -100.0, np.log(np.where(tiny, 1.0, h)))

            fl.append(wf)
    if d.get("extz"):
        e = d["extz"]
        ang, sc = c["angle"], c["scale"]

        def ef(x, y):
            # back to original coordinates
            u = np.stack([np.ravel(x), np.ravel(y)], 1) - R.center
            t = np.radians(ang[0])
            v = u[:, 1] / sc[0]
            ox = np.cos(t) * u[:, 0] - np.sin(t) * v + R.center[0]
            oy = np.sin(t) * u[:, 0] + np.cos(t) * v + R.center[1]
            r = kcase.bilinear(e["x"], e["y"], e["z"], ox, oy)
            return r if np.ndim(x) else float(r[0])

        fl.append(ef)
    fl += [kcase.drift_fn(s, dim) for s in d.get("func") or []]
    func = dict(drift_terms=["functional"], functional_drift=fl)
    # bilinear interpolation is continuous: the back transformation costs rounding only
    b = "loop" if len(c["pts"]) % 2 else "vectorized"
    tol = [2 * want[2] + 1e-9 * (abs(want[2])), 2 * want[3]]
    if d.get("extz"):
        tol = [t * 50 + 1e-9 * np.max(np.abs(w)) for t, w in zip(tol, (c["val"], want[1]))]
    outs = {
        "native": _run(c, native, T_, None, b, c["style"]),
        "specified": _run(c, spec, T_, spec_t, b, c["style"]),
        "functional": _run(c, func, T_, None, b, c["style"]),
    }
    if d.get("func") and c["which"] != "func":
        # the extra functions as specified drift beside the native term
        k = len(d["func"])
        mix = kcase.drift_args(dict(c, drift={q: v for q, v in d.items() if q != "func"}))
        mix["drift_terms"] = mix["drift_terms"] + ["specified"]
        mix["specified_drift"] = [cp[:, j].copy() for j in range(cp.shape[1] - k, cp.shape[1])]
        outs["mixed"] = _run(c, mix, T_, spec_t[len(spec_t) - k:], b, c["style"])
    for nm in outs:
        for i, q in ((0, "estimate"), (1, "variance")):
            close("%s %s drift as %s and as %s, %s: %s" % (c["cls"], c["which"], nm, "specified", b, q),
                  outs[nm][i], outs["specified"][i], tol[i])
    return blup.labels(c, which=c["which"], style=c["style"], backend=b)


# ------------------------------------------------ external drift: same surface
@st.composite
def extcase(draw):
    c = draw(gen.kcase("UK", 7, 13, drifts=["extz"], must_drift=True, exact="any"))
    c["drift"] = {"extz": draw(gen.extgrid(c["frame"], gen.LAT[2], order=False))}
    e = c["drift"]["extz"]
    c["ox"] = draw(st.permutations(range(len(e["x"]))))
    c["oy"] = draw(st.permutations(range(len(e["y"]))))
    c["ins"] = draw(st.sampled_from([0.25, 0.5, 0.75]))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["transpose"] = draw(st.booleans())
    return c


def _exec_ext(c, e, b):
    c2 = dict(c, drift={"extz": e})
    return kcase.points(c2, kcase.build(c2), c["targets"], b)


def check_ext(c):
    e = c["drift"]["extz"]
    R = kcase.Reference(c)
    want = R.krige(c["targets"])
    b = "loop" if len(c["pts"]) % 2 else "vectorized"
    g0 = _exec_ext(c, e, b)
    tol = [2 * want[2], 2 * want[3]]
    z = np.array(e["z"], dtype=float)
    # any order of the axes describes the same surface
    e1 = dict(x=[e["x"][i] for i in c["ox"]], y=[e["y"][i] for i in c["oy"]],
              z=z[np.ix_(c["oy"], c["ox"])].tolist())
    g = _exec_ext(c, e1, b)
    for i in (0, 1):
        close("external drift with reordered axes", g[i], g0[i], tol[i])
    # adding interpolated grid lines changes nothing
    x = sorted(e["x"] + [e["x"][0] + c["ins"] * (e["x"][1] - e["x"][0])])
    y = sorted(e["y"] + [e["y"][-2] + c["ins"] * (e["y"][-1] - e["y"][-2])])
    gx, gy = np.meshgrid(x, y)
    e2 = dict(x=x, y=y, z=kcase.bilinear(e["x"], e["y"], e["z"], gx.ravel(), gy.ravel()).reshape(gx.shape).tolist())
    g = _exec_ext(c, e2, b)
    for i in (0, 1):
        close("external drift on a refined grid", g[i], g0[i], 3 * tol[i])
    # transposed array where the shape tells
    if c["transpose"] and len(e["x"]) != len(e["y"]):
        g = _exec_ext(c, dict(e, z=z.T.tolist()), b)
        for i in (0, 1):
            close("external drift given transposed", g[i], g0[i], tol[i])
    return blup.labels(c, backend=b, reordered=e1["x"] != e["x"] or e1["y"] != e["y"],
                       nontrivial=bool(np.ptp(z) > 0))


# --------------------------------------------------- outside the external grid
@st.composite
def outside(draw):
    c = draw(gen.kcase("UK", 7, 11, drifts=["extz"], must_drift=True))
    c["drift"] = {"extz": draw(gen.extgrid(c["frame"], gen.LAT[2]))}
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["side"] = draw(st.integers(0, 3))
    c["by"] = draw(st.sampled_from([1e-3, 0.5, 30.0]))
    c["where"] = draw(st.sampled_from(["points", "grid", "masked", "data"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop"]))
    c["slot"] = draw(st.integers(0, 40))
    return c


def check_outside(c):
    e = c["drift"]["extz"]
    fr = c["frame"]
    ax = "xy"[c["side"] % 2]
    v = min(e[ax]) - c["by"] * fr[1] if c["side"] < 2 else max(e[ax]) + c["by"] * fr[1]
    b = c["backend"]
    if c["where"] == "data":
        j = c["slot"] % len(c["pts"])
        bad = copy.deepcopy(c)
        bad["pts"][j][c["side"] % 2] = v
        args, kw = kcase.ctor_args(bad)
        must_raise("data outside the external drift grid", kcase.classes()["UK"], *args, **kw)
        return dict(where="data", side=c["side"])
    R = kcase.Reference(c)
    R.krige(c["targets"])  # rejects singular systems
    obj = kcase.build(c)
    t = [list(p) for p in c["targets"]]
    j = c["slot"] % len(t)
    if c["where"] == "points":
        t[j][c["side"] % 2] = v
        a = np.array(t).T
        must_raise("point outside the external drift grid (%s)" % b, obj.execute, "points",
                   a[0], a[1], backend=b)
    else:
        axes = [[p[0] for p in t], [p[1] for p in t]]
        axes[c["side"] % 2][j] = v
        kw = {}
        if c["where"] == "masked":
            kw["mask"] = np.zeros((len(t), len(t)), bool)
        must_raise("grid outside the external drift grid (%s)" % b, obj.execute, c["where"],
                   axes[0], axes[1], backend=b, **kw)
        if c["where"] == "masked":
            # masking the row or column outside makes the request valid
            m = np.zeros((len(t), len(t)), bool)
            if c["side"] % 2 == 0:
                m[:, j] = True
            else:
                m[j, :] = True
            if not m.all():
                from common import call

                z, s = call("masked execution", obj.execute, "masked", axes[0], axes[1],
                            backend=b, mask=m)
                check(np.array_equal(np.ma.getmaskarray(z), m), "wrong mask")
                T_ = kcase.grid_targets(axes)[~m.ravel()]
                want = R.krige(T_)
                kcase.compare("masked execution", (z[~m].data, s[~m].data), want)
    # on the edge is inside
    t[j][c["side"] % 2] = min(e[ax]) if c["side"] < 2 else max(e[ax])
    want = R.krige(t)
    kcase.compare("points on the edge", kcase.points(c, obj, t, b), want)
    return dict(where=c["where"], side=c["side"], backend=b)


TESTS = [
    T("forms-2D", forms("UK"), check_forms, 1200),
    T("forms-3D", forms("UK3D"), check_forms, 600),
    T("external", extcase(), check_ext, 700),
    T("outside", outside(), check_outside, 500),
    T("forms-grown-UK", gen.grown(forms("UK")), gen.larger(check_forms), 64),
    T("forms-grown-UK3D", gen.grown(forms("UK3D")), gen.larger(check_forms), 64),
    T("external-grown", gen.grown(extcase()), gen.larger(check_ext), 64),
]
