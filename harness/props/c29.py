"""C29: arguments by name, by position and left out."""
import os
import random

import numpy as np
from hypothesis import strategies as st

import gen
import gridio
import kcase
from common import Reject, Violation, call, check, close
from proptest import T
from props import blup, c27, wrap

# The documented interface: order and defaults.
COMMON = [("variogram_model", "linear"), ("variogram_parameters", None), ("variogram_function", None), ("nlags", 6), ("weight", False)]
ANISO = {2: [("anisotropy_scaling", 1.0), ("anisotropy_angle", 0.0)],
         3: [("anisotropy_scaling_y", 1.0), ("anisotropy_scaling_z", 1.0), ("anisotropy_angle_x", 0.0),
             ("anisotropy_angle_y", 0.0), ("anisotropy_angle_z", 0.0)]}
SHOW = [("verbose", False), ("enable_plotting", False)]
EXACT = [("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv")]
CTOR = {
    "OK": COMMON + ANISO[2] + SHOW + [("enable_statistics", False), ("coordinates_type", "euclidean")] + EXACT,
    "OK3D": COMMON + ANISO[3] + SHOW + EXACT,
    "UK": COMMON + ANISO[2] + [(k, None) for k in ("drift_terms", "point_drift", "external_drift", "external_drift_x", "external_drift_y",
                                                   "specified_drift", "functional_drift")] + SHOW + EXACT,
    "UK3D": COMMON + ANISO[3] + [(k, None) for k in ("drift_terms", "specified_drift", "functional_drift")] + SHOW + EXACT,
}
UPDATE = {k: COMMON + ANISO[3 if k.endswith("3D") else 2] for k in CTOR}
EXEC = {k: [("mask", None), ("backend", "vectorized"), ("n_closest_points" if k.startswith("OK") else "specified_drift_arrays", None)]
        for k in CTOR}
KRIGE = [("method", "ordinary"), ("variogram_model", "linear"), ("nlags", 6), ("weight", False), ("n_closest_points", 10),
         ("verbose", False), ("exact_values", True), ("pseudo_inv", False), ("pseudo_inv_type", "pinv"),
         ("variogram_parameters", None), ("variogram_function", None), ("anisotropy_scaling", (1.0, 1.0)),
         ("anisotropy_angle", (0.0, 0.0, 0.0)), ("enable_statistics", False), ("coordinates_type", "euclidean"),
         ("drift_terms", None), ("point_drift", None), ("ext_drift_grid", (None, None, None)), ("functional_drift", None)]
SKL = [KRIGE[0], KRIGE[1], KRIGE[4]] + KRIGE[2:4] + KRIGE[5:]
ASC = [("filename", "output.asc"), ("no_data", -999.0), ("style", 1)]
ZMAP = [("filename", "output.zmap"), ("no_data", -999.0), ("coord_sys", "<null>")]


def forms(order, given, k):
    """The same arguments: all of them by name, only the given ones by name,
    the first k by position."""
    default = dict(order)
    assert set(given) <= set(default), set(given) - set(default)
    full = {n: given.get(n, d) for n, d in order}
    names = [n for n, _ in order]
    k = min(k, len(names))
    return [("all by name", (), full),
            ("the others left out", (), dict(given)),
            ("%d by position" % k, tuple(full[n] for n in names[:k]), {n: v for n, v in given.items() if n not in names[:k]})]


# ------------------------------------------------------------- kriging classes
@st.composite
def case(draw, cls, geo=False):
    c = draw(gen.kcase(cls, {"UK": 8, "UK3D": 9}.get(cls, 4), 13, geo=geo, exact="any", pinv=True, big=False,
                       drifts=["regional", "wells", "extz", "func", "spec"] if cls == "UK" else ["regional", "func", "spec"]))
    c["auto"] = draw(st.integers(0, 3)) == 0
    if c["auto"]:
        c["model"] = {"name": draw(st.sampled_from(gen.MODELS))}
    c["nlags"] = draw(st.sampled_from([6, 6, 3, 11]))
    c["weight"] = draw(st.booleans())
    # options that are brought back to their defaults
    reset = draw(st.lists(st.sampled_from(["model", "aniso", "exact", "pinv", "nlags", "weight", "drift"]), max_size=5))
    if "model" in reset and not geo:
        c["model"] = {"name": "linear"}
    if "aniso" in reset:
        c["scale"], c["angle"] = [1.0] * len(c["scale"]), [0.0] * len(c["angle"])
    if "exact" in reset:
        c["exact"] = True
    if "pinv" in reset:
        c["pinv"] = None
    if "nlags" in reset:
        c["nlags"] = 6
    if "weight" in reset:
        c["weight"] = False
    if "drift" in reset:
        c["drift"] = {}
    c["stat"] = draw(st.booleans())
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    if draw(st.booleans()):
        c["targets"].append(list(c["pts"][draw(st.integers(0, len(c["pts"]) - 1))]))
    c["axes"] = [[12.25, 40.5], [3.75, -20.5, 33.0]] if geo else draw(gen.axes_for(c, 1, 4))
    c["mask"] = draw(gen.mask_for(c["axes"]))
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "vectorized", "loop", "C"]))
    c["near"] = draw(st.sampled_from([None, None, 2, 4, 20]))
    c["how"] = draw(st.sampled_from(["ctor", "ctor", "update"]))
    c["k"] = [draw(st.integers(0, 25)), draw(st.integers(0, 11)), draw(st.integers(0, 3))]
    return c


def given(c):
    """The options that differ from their defaults."""
    args, kw = kcase.ctor_args(c)
    if not c["nlags"] != 6:
        kw.pop("nlags", None)
    if c["cls"] == "OK" and c["stat"]:
        kw["enable_statistics"] = True
    if kw.get("drift_terms") == []:
        kw.pop("drift_terms")
    default = dict(CTOR[c["cls"]])
    out = {}
    for n, v in kw.items():
        d = default[n]
        if v is None or (isinstance(d, (bool, int, float, str)) and isinstance(v, (bool, int, float, str)) and v == d):
            continue
        out[n] = v
    return args, out


def near(what, a, b, tol):
    if a is None or b is None:
        check(a is None and b is None, "%s: %s and %s", what, a, b)
        return
    a, b = np.asarray(a, float), np.asarray(b, float)
    check(a.shape == b.shape, "%s: shapes %s and %s", what, a.shape, b.shape)
    ok = (a == b) | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        s = np.max(np.abs(b[np.isfinite(b)]), initial=0)
        check(np.all(ok | (np.abs(a - b) <= tol * s)), "%s: %s and %s", what, a.tolist(), b.tolist())


def accessors(what, a, b):
    for n in ("lags", "semivariance", "variogram_model_parameters"):
        u, v = getattr(a, n), getattr(b, n)
        if u is None or v is None or np.asarray(u, dtype=object).dtype == object and any(x is None for x in np.ravel(u)):
            check(type(u) is type(v), "%s: %s is %s and %s", what, n, u, v)
        else:
            near("%s: %s" % (what, n), u, v, 1e-7)
    u, v = a.get_epsilon_residuals(), b.get_epsilon_residuals()
    if u is None or v is None or np.all(np.abs(np.asarray(v)) < 1e5):
        near(what + ": residuals", u, v, 1e-6)


def check_class(c):
    cls, d = c["cls"], kcase.dim(c)
    args, opts = given(c)
    K = kcase.classes()[cls]
    objs = []
    up = {}
    if c["how"] == "update" and c.get("coord") != "geographic":
        up = {n: opts.pop(n) for n, _ in UPDATE[cls] if n in opts}
    name = up.pop("variogram_model", "linear")
    for what, a, k in forms(CTOR[cls], opts, c["k"][0]):
        a = [np.copy(v) for v in args] + list(a)
        try:
            o, text, _, nfig = c27.watch(call, "%s(), %s" % (cls, what), K, *a, **k)
        except Violation as v:
            if not objs and "variogram_parameters" not in opts:
                raise Reject(str(v))  # the fit fails for these data
            raise
        check(text.strip() == "" and nfig == 0, "%s(), %s: prints or plots without being asked to: %r", cls, what, text[:80])
        objs.append((what, o))
    if c["how"] == "update" and c.get("coord") != "geographic":
        new = []
        for (w, o), (what, a, k) in zip(objs, forms(UPDATE[cls][1:], up, c["k"][1])):
            try:
                _, text, _, nfig = c27.watch(call, "update_variogram_model, %s" % what, o.update_variogram_model, name, *a, **k)
            except Violation as v:
                if not new and "variogram_parameters" not in up:
                    raise Reject(str(v))
                raise
            check(text.strip() == "" and nfig == 0, "update_variogram_model, %s: prints or plots: %r", what, text[:80])
            new.append(("constructor with %s, update with %s" % (w, what), o))
        objs = new
    first = objs[0]
    for what, o in objs[1:]:
        accessors("%s: %s and %s" % (cls, what, first[0]), o, first[1])
    # executions
    m = c["model"]
    if m.get("params") is None:
        m = dict(m, params=[float(v) for v in first[1].variogram_model_parameters])
    R = kcase.Reference(dict(c, model=m))
    win = c["near"] if cls in ("OK", "OK3D") else None
    if c["style"] == "points":
        t = np.array(c["targets"], float)
        if win is not None and win < len(c["pts"]):
            t = np.array(R.untied(t, win), float)
        axes, shape = [np.array(v) for v in t.T], (len(t),)
    else:
        axes = [np.array(v, float) for v in c["axes"]]
        t = kcase.grid_targets(c["axes"])
        shape = tuple(len(v) for v in reversed(c["axes"]))
    if c.get("coord") == "geographic" and win is not None and R.d0(t).max() > 179.5:
        raise Reject("nearly antipodal")
    w = R.krige(t) if win is None or win >= len(c["pts"]) else R.krige_window(t, win)
    ex = {}
    if c["style"] == "masked":
        ex["mask"] = np.array(c["mask"], bool).reshape(shape)
    b = c["backend"] if c["backend"] in kcase.backends(c, win) else kcase.backends(c, win)[0]
    if b != "vectorized":
        ex["backend"] = b
    if win is not None:
        ex["n_closest_points"] = win
    spec = kcase.spec_arrays(c, t, shape)
    if spec is not None:
        ex["specified_drift_arrays"] = spec
    mask = ex.get("mask", np.zeros(shape, bool))
    want = None
    for fw, a, k in forms(EXEC[cls], ex, c["k"][2]):
        for what, o in objs:
            what = "%s with %s, execute with %s" % (cls, what, fw)
            (r, text, _, nfig) = c27.watch(call, what, o.execute, c["style"], *[np.copy(v) for v in axes], *a, **k)
            check(text.strip() == "" and nfig == 0, "%s prints or plots: %r", what, text[:80])
            for i, q in enumerate(("estimates", "variances")):
                check(np.shape(r[i]) == shape, "%s: %s of shape %s", what, q, np.shape(r[i]))
                check(np.array_equal(np.ma.getmaskarray(r[i]), mask), "%s: mask", what)
            got = [np.ma.getdata(v)[~mask] for v in r]
            if want is None:
                want = got
            for i, q in enumerate(("estimates", "variances")):
                close("%s: %s vs %s" % (what, q, first[0]), got[i], want[i], 2 * w[i + 2].reshape(shape)[~mask])
    return blup.labels(c, style=c["style"], how=c["how"], by_position=c["k"][0] > 3, given=len(opts) > 3,
                       nontrivial=len(t) > 0)


# ------------------------------------------------------------------- wrappers
@st.composite
def wcase(draw):
    cls, geo = draw(st.sampled_from([("OK", False)] * 3 + [("OK", True), ("UK", False), ("OK3D", False), ("UK3D", False)]))
    c = draw(wrap.setting(cls, geo, nmin=13, nmax=17))
    if cls == "OK" and draw(st.booleans()):
        c["near"] = 10
    if c["model"]["name"] == "gstools":
        raise_gs = dict(name="linear", params=[1.0, 0.25], form="list")
        c["model"] = raise_gs
    c["wrapper"] = draw(st.sampled_from(["krige", "rk", "ck"]))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["k"] = draw(st.integers(0, 20))
    c["default"] = draw(st.integers(0, 3)) == 0
    c["seed"] = draw(st.integers(0, 10**6))
    return c


def check_wrapper(c):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.linear_model import LinearRegression
    from sklearn.naive_bayes import GaussianNB

    opts = wrap.krige_args(c)
    default = dict(KRIGE)
    for n in [n for n, v in opts.items() if v is None or isinstance(v, (str, bool, int)) and v == default[n]]:
        if not (n == "n_closest_points" and opts[n] is None):
            del opts[n]
    if c["model"].get("params") is not None and kcase.Reference(c).system().cond > 1e8:
        raise Reject("ill-conditioned")
    K = dict(krige=Krige, rk=RegressionKriging, ck=ClassificationKriging)[c["wrapper"]]
    X, y = np.array(c["pts"], float), np.array(c["val"], float)
    t = np.array(c["targets"], float)
    if wrap.window(c):
        t = np.array(wrap.Direct(c).keep(t), float)
        if not len(t):
            raise Reject("ties")
    rng = np.random.RandomState(c["seed"])
    P, pt = rng.randint(-8, 9, (len(X), 2)) / 4.0, rng.randint(-8, 9, (len(t), 2)) / 4.0
    lab = rng.permutation(np.arange(len(X)) % 3)
    lead = []
    order = KRIGE if K is Krige else SKL
    dropped = K is RegressionKriging and c["default"]
    if K is not Krige and not dropped:
        lead = [LinearRegression() if K is RegressionKriging else GaussianNB(var_smoothing=0.1)]
    res = []
    for what, a, k in forms(order, opts, 0 if dropped else c["k"]):
        what = "%s(), %s" % (K.__name__, what)

        def run():
            o = K(*lead, *a, **k)
            if K is Krige:
                g = o.get_params()
                for n, d in order:
                    w = opts.get(n, d)
                    check(n in g and (g[n] is w or np.array_equal(np.asarray(g[n], object), np.asarray(w, object))),
                          "%s: get_params()[%s] is %s", what, n, g.get(n))
                return o.fit(X.copy(), y.copy()).predict(t.copy())
            if K is RegressionKriging:
                o.fit(P.copy(), X.copy(), y.copy())
                return o.predict(pt.copy(), t.copy())
            o.fit(P.copy(), X.copy(), lab.copy())
            return o.predict(pt.copy(), t.copy())

        try:
            r, text, _, nfig = c27.watch(call, what, run)
        except Violation as v:
            if not res:
                raise Reject(str(v))
            raise
        res.append((what, np.asarray(r), text))
    for what, r, text in res[1:]:
        if c["wrapper"] == "ck":
            check(np.array_equal(r, res[0][1]), "%s predicts %s, %s %s", what, r, res[0][0], res[0][1])
        else:
            near("%s and %s" % (what, res[0][0]), r, res[0][1], 1e-6)
        check((text.strip() == "") == (res[0][2].strip() == ""), "%s prints %r, %s %r", what, text[:200], res[0][0], res[0][2][:200])
    return blup.labels(c, wrapper=c["wrapper"], default_model=dropped, given=len(opts) > 3, nontrivial=True)


# ----------------------------------------------------------------- grid files
@st.composite
def fcase(draw):
    g = draw(gridio.grid(big=False))
    g["kind"] = draw(st.sampled_from(["asc", "zmap"]))
    g["y"] = [g["y"][0], g["x"][1], g["y"][2]]  # square cells, for both styles
    g["give"] = draw(st.lists(st.sampled_from(["filename", "no_data", "style", "coord_sys"]), max_size=3, unique=True))
    g["k"] = draw(st.integers(0, 3))
    g["form"] = "float"
    return g


def check_files(c):
    import shutil
    from pykrige import kriging_tools as kt

    asc = c["kind"] == "asc"
    order = ASC if asc else ZMAP
    vals = dict(filename="other.grd", no_data=c["no_data"], style=2, coord_sys="<xy>")
    opts = {n: vals[n] for n in c["give"] if n in dict(order)}
    write, read = (kt.write_asc_grid, kt.read_asc_grid) if asc else (kt.write_zmap_grid, kt.read_zmap_grid)
    home = os.getcwd()
    out = []
    for j, (what, a, k) in enumerate(forms(order, opts, c["k"])):
        d = gridio.path("forms%d" % j)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        try:
            what = "%s, %s" % (write.__name__, what)
            call(what, write, *gridio.arguments(c), *a, **k)
            have = os.listdir(".")
            check(have == [opts.get("filename", order[0][1])], "%s wrote the files %s", what, have)
            text = [ln for ln in open(have[0]).read().split("\n") if not ln.startswith("!")]
            got = [call("%s(%s)" % (read.__name__, have[0]), read, *q, **w) for q, w in
                   [((have[0],), {}), ((), dict(filename=have[0]))] + ([((have[0], 0), {}), ((have[0],), dict(footer=0))] if asc else [])]
        finally:
            os.chdir(home)
            shutil.rmtree(d, ignore_errors=True)
        for g in got[1:]:
            for u, v in zip(g, got[0]):
                check((np.ma.allequal(u, v) and np.array_equal(np.ma.getmaskarray(u), np.ma.getmaskarray(v))) if isinstance(u, np.ndarray) else u == v,
                      "%s: %s and %s", read.__name__, u, v)
        out.append((what, [ln.split() for ln in text]))
    for what, text in out[1:]:
        # the header of a zmap file names the file
        check(len(text) == len(out[0][1]) and all(p == q or p[:1] == ["@"] for p, q in zip(text, out[0][1])),
              "%s and %s write %s and %s", what, out[0][0], text, out[0][1])
    return dict(kind=c["kind"], given=len(opts), nontrivial=True)


TESTS = [
    T("OK", case("OK"), check_class, 700),
    T("geographic", case("OK", geo=True), check_class, 300),
    T("OK3D", case("OK3D"), check_class, 500),
    T("UK", case("UK"), check_class, 600),
    T("UK3D", case("UK3D"), check_class, 500),
    T("wrappers", wcase(), check_wrapper, 400),
    T("files", fcase(), check_files, 300),
]
