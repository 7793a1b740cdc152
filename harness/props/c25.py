"""C25: single defects in otherwise valid requests are refused."""
import itertools

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, Violation, call, check, must_raise
from proptest import T
from props import wrap

# a defect: (name, classes it applies to); the details come from c["k"], c["txt"]
BOTH = ["OK", "UK", "OK3D", "UK3D"]
UKS = ["UK", "UK3D"]
MODEL = ["m-unknown", "m-length", "m-kind", "m-missing", "m-misspelt", "m-nosill", "m-nofunction",
         "m-notcallable", "m-noparams", "m-customdict", "m-gsdim", "m-gslatlon"]
CTOR = ["exact", "pinvtype", "coordtype", "datasize"]
DRIFT = {"UK": ["wells-none", "wells-cols", "ext-none", "ext-nox", "ext-noy", "ext-shape", "ext-flat", "ext-outside",
                "spec-none", "spec-kind", "spec-empty", "spec-size", "func-none", "func-kind", "func-empty", "func-notcallable"],
         "UK3D": ["spec-none", "spec-kind", "spec-empty", "spec-size", "func-none", "func-kind", "func-empty", "func-notcallable"]}
EXEC = ["style", "backend", "backend-c", "points-size", "mask-none", "mask-shape", "mask-dim"]
WIN = ["window-small", "window-vector"]
SPEC = ["xspec-none", "xspec-kind", "xspec-few", "xspec-many", "xspec-size", "xspec-dim"]


def defects(cls):
    d = MODEL + ["u" + m for m in MODEL] + [x for x in CTOR if x != "coordtype" or cls == "OK"] + EXEC
    if cls in ("OK", "OK3D"):
        d = d + WIN
    if cls == "OK":
        d = d + ["c-model"]
    if cls in UKS:
        d = d + DRIFT[cls] + SPEC
    if cls == "UK":
        d = d + ["ext-target"]
    if cls in ("OK3D", "UK3D"):
        d = d + ["mask-perm"] * 2
    if cls == "UK3D":
        d = d + ["xspec-perm"] * 2
    return d


NAMES = ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect", "custom",
         "euclidean", "geographic", "grid", "points", "masked", "vectorized", "loop", "C", "pinv", "pinvh", "pinv2",
         "ordinary", "universal", "ordinary3d", "universal3d"]


@st.composite
def wrongname(draw, valid):
    """A name that is not valid: a near miss, a name of another kind, or any text."""
    how = draw(st.integers(0, 4))
    if how == 0:
        s = draw(st.text(max_size=8))
    elif how == 1:
        s = draw(st.sampled_from(NAMES))
    elif how == 2:
        v = draw(st.sampled_from(valid))
        s = draw(st.sampled_from([v.upper(), v.title(), v + " ", " " + v, v[:-1], v + "s", v.replace("-", "_"), v * 2, v[0].lower() + v[1:]]))
    elif how == 3:
        v = draw(st.sampled_from(valid))
        i = draw(st.integers(0, len(v) - 1))
        s = v[:i] + draw(st.sampled_from("abxyzXC-_0")) + v[i + 1:]
    else:
        s = None
    return s if s not in valid else "un" + s


VALID = {"m-unknown": ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect", "custom"],
         "pinvtype": ["pinv", "pinvh"], "coordtype": ["euclidean", "geographic"],
         "style": ["grid", "points", "masked"], "backend": ["vectorized", "loop", "C"],
         "method": ["ordinary", "universal", "ordinary3d", "universal3d"]}
VALID["um-unknown"] = VALID["m-unknown"]
NEEDS = {"wells": "wells", "ext": "extz", "spec": "spec", "xspec": "spec", "func": "func"}


@st.composite
def case(draw, cls):
    d = draw(st.sampled_from(defects(cls)))
    c = draw(gen.kcase(cls, 9 if cls in UKS else 4, 12, exact="any", pinv=True, big=False))
    c["defect"] = d
    c["style"] = draw(st.sampled_from(["grid", "masked", "points"]))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    c["near"] = draw(st.sampled_from([None, None, 2, 5]))
    need = NEEDS.get(d.split("-")[0])
    if need and not (c["drift"] or {}).get(need):
        dim = kcase.dim(c)
        c["drift"] = draw(gen.drift(dim, c["frame"], c["pts"], True, [need, "regional"] if need in ("spec", "func") else [need]))
        if not c["drift"].get(need):
            fns = [["sin", [c["frame"][0]] * dim, c["frame"][1] * 4.0]]
            c["drift"][need] = fns
    if d.startswith("mask"):
        c["style"] = "masked"
    if d == "points-size":
        c["style"] = "points"
    if d == "xspec-perm":
        c["style"] = draw(st.sampled_from(["grid", "masked"]))
    if d in ("xspec-dim",):
        c["style"] = draw(st.sampled_from(["grid", "masked", "points"]))
    c["targets"] = draw(gen.targets_for(c, 2, 4))
    c["axes"] = draw(gen.axes_for(c, 2, 3))
    if d.endswith("-perm"):  # three axes of different lengths
        n = draw(st.permutations([1, 2, 3]))
        c["axes"] = [a[:m] for a, m in zip(draw(gen.axes_for(c, 3, 3)), n)]
    c["mask"] = draw(gen.mask_for(c["axes"]))
    # the request may contain an update to this model
    c["upd"] = draw(gen.model(c["frame"])) if d[:2] == "um" or draw(st.integers(0, 2)) == 0 else None
    c["k"] = draw(st.integers(0, 7))
    c["j"] = draw(st.integers(0, 3))
    if d in VALID:
        c["txt"] = draw(wrongname(VALID[d]))
    return c


class Request:
    def __init__(self, c):
        self.c = c
        self.cls = kcase.classes()[c["cls"]]
        self.args, self.kw = kcase.ctor_args(c)
        self.upd = None
        if c.get("upd"):
            self.upd = dict(kcase.variogram_args(c["upd"]), **kcase.aniso_args(c))
        self.style = c["style"]
        self.ex = dict(backend=c["backend"])
        now = c["upd"] or c["model"]
        if c["backend"] not in kcase.backends(dict(c, model=now)):
            self.ex["backend"] = "loop"
        if c["near"] is not None and c["cls"] in ("OK", "OK3D"):
            self.ex["n_closest_points"] = c["near"]
            if self.ex["backend"] == "vectorized":
                self.ex["backend"] = "loop"
        if self.style == "points":
            t = np.array(c["targets"], float)
            self.axes = list(t.T)
            self.shape = (len(t),)
            sp = kcase.spec_arrays(c, t)
        else:
            self.axes = [np.array(a, float) for a in c["axes"]]
            self.shape = tuple(len(a) for a in reversed(self.axes))
            sp = kcase.spec_arrays(c, kcase.grid_targets(c["axes"]), self.shape)
        if self.style == "masked":
            self.ex["mask"] = np.array(c["mask"], bool).reshape(self.shape)
        if sp is not None:
            self.ex["specified_drift_arrays"] = sp

    def run(self):
        o = self.cls(*self.args, **self.kw)
        if self.upd is not None:
            o.update_variogram_model(**self.upd)
        return o.execute(self.style, *self.axes, **self.ex)


def spoil_model(c, kw, d, dim):
    """Puts the defect into the variogram arguments."""
    k, j = c["k"], c["j"]
    name = ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect"][k % 6]
    full = {"linear": {"slope": 1.0, "nugget": 0.5}, "power": {"scale": 1.0, "exponent": 1.25, "nugget": 0.5}}.get(
        name, {["sill", "psill"][j % 2]: 2.0, "range": 3.0, "nugget": 0.5})
    fn = ref.CUSTOM["stable"]
    for x in ("variogram_model", "variogram_parameters", "variogram_function"):
        kw.pop(x, None)
    if d == "unknown":
        kw.update(variogram_model=c["txt"], variogram_parameters=[2.0, 3.0, 0.5])
        if j % 2:
            kw["variogram_function"] = fn
        if j == 3:
            del kw["variogram_parameters"]
    elif d == "length":
        n = [0, 1, 2, 3, 4, 5][(k + j) % 6]
        if n == len(full):
            n += 1
        kw.update(variogram_model=name, variogram_parameters=[2.0, 1.5, 0.5, 1.0, 1.0, 1.0][:n])
    elif d == "kind":
        v = list(full.values())
        kw.update(variogram_model=name,
                  variogram_parameters=[3.0, "1.0, 0.0", tuple(v), set(v), np.array(v), iter(v), (q for q in v), True][j + 4 * (k % 2)])
    elif d == "missing":
        full.pop(sorted(full)[j % len(full)])
        kw.update(variogram_model=name, variogram_parameters=full)
    elif d == "misspelt":
        x = sorted(full)[j % len(full)]
        full[[x.upper(), x + "s", "p" + x if x != "sill" else "Sill", x[:-1]][k % 4]] = full.pop(x)
        kw.update(variogram_model=name, variogram_parameters=full)
    elif d == "nosill":
        kw.update(variogram_model=["gaussian", "spherical", "exponential", "hole-effect"][k % 4],
                  variogram_parameters={"range": 3.0, "nugget": 0.5, **({"scale": 2.0} if j % 2 else {})})
    elif d == "nofunction":
        kw.update(variogram_model="custom", variogram_parameters=[2.0, 3.0, 0.5])
        if j % 2:
            kw["variogram_function"] = None
    elif d == "notcallable":
        kw.update(variogram_model="custom", variogram_parameters=[2.0, 3.0, 0.5],
                  variogram_function=["linear", 3.0, [fn], {"f": fn}][j])
    elif d == "noparams":
        kw.update(variogram_model="custom", variogram_function=fn)
        if j % 2:
            kw["variogram_parameters"] = None
    elif d == "customdict":
        kw.update(variogram_model="custom", variogram_function=fn,
                  variogram_parameters=[{"psill": 2.0, "range": 3.0, "nugget": 0.5}, full, {}, 3.0][j])
    elif d == "gsdim":
        import gstools as gs

        wrong = (3 if dim == 2 else 2) if j % 2 else [4, 1][0 if dim == 2 else j // 2]
        kw["variogram_model"] = gs.Exponential(dim=wrong, var=2.0, len_scale=3.0)
    elif d == "gslatlon":
        import gstools as gs

        kw["variogram_model"] = gs.Exponential(latlon=True, var=2.0, len_scale=3.0)


def same_size(shape):
    """Other shapes with as many entries and axes."""
    one = (1,) * (len(shape) - 1)
    n = int(np.prod(shape))
    o = set(itertools.permutations(shape)) | {one + (n,), (n,) + one}
    return sorted(o - {tuple(shape), tuple(shape[::-1])})


def spoil(c, r):
    d, k, j = c["defect"], c["k"], c["j"]
    kw, ex, n = r.kw, r.ex, len(c["pts"])
    dim = kcase.dim(c)
    if d.startswith("m-"):
        spoil_model(c, kw, d[2:], dim)
        r.upd = None
    elif d.startswith("um-"):
        spoil_model(c, r.upd, d[3:], dim)
    elif d == "exact":
        kw["exact_values"] = [0, 1, "True", None, 1.0, "no", [True], 2][k]
    elif d == "pinvtype":
        kw["pseudo_inv_type"] = c["txt"]
    elif d == "coordtype":
        kw["coordinates_type"] = c["txt"]
    elif d == "datasize":
        i = j % (dim + 1)
        a = r.args[i]
        r.args[i] = [a[:-1], np.append(a, a[0] + 0.25), a[1:], np.append(a, a)][k % 4]
    elif d == "wells-none":
        kw["point_drift"] = None
    elif d == "wells-cols":
        w = np.array(c["drift"]["wells"], float)
        kw["point_drift"] = [w[:, :2], np.hstack([w, w[:, :1]]), w[:, [0, 1, 2, 2, 0]], np.hstack([w, w])][j]
    elif d == "ext-none":
        kw["external_drift"] = None
    elif d == "ext-nox":
        kw["external_drift_x"] = None
    elif d == "ext-noy":
        kw["external_drift_y"] = None
    elif d == "ext-shape":
        z, x, y = kw["external_drift"], kw["external_drift_x"], kw["external_drift_y"]
        new = [z[:, :-1], z[:-1], np.vstack([z, z[:1]]), np.hstack([z, z[:, :1]])][j]
        if new.shape in ((len(y), len(x)), (len(x), len(y))):
            new = np.vstack([z] * 5)
        kw["external_drift"] = new
    elif d == "ext-flat":
        kw["external_drift"] = kw["external_drift"].ravel()
    elif d == "ext-outside":
        i = j % 2
        ax = "external_drift_xy"[:-2] + "xy"[i]
        far = np.array(c["pts"])[:, i].max() + 1.0 if k % 2 else np.array(c["pts"])[:, i].min() - 40 * c["frame"][1]
        g = kw[ax]
        # move the grid so that it misses some data
        kw[ax] = g - g.min() + far if k % 2 else g - g.max() + np.array(c["pts"])[:, i].min() - c["frame"][1] / 4
    elif d == "ext-target":
        e = c["drift"]["extz"]
        i = j % 2
        v = max(e["xy"[i]]) + c["frame"][1] if k % 2 else min(e["xy"[i]]) - c["frame"][1]
        r.axes[i] = np.append(r.axes[i][:-1], v)
        if r.style == "masked":
            ex["mask"] = np.zeros(r.shape, bool)
    elif d == "spec-none":
        kw.pop("specified_drift")
    elif d == "spec-kind":
        s = kw["specified_drift"]
        kw["specified_drift"] = [tuple(s), np.array(s), s[0], {0: s[0]}][j]
    elif d == "spec-empty":
        kw["specified_drift"] = []
    elif d == "spec-size":
        s = list(kw["specified_drift"])
        s[-1] = [s[-1][:-1], np.append(s[-1], 1.0), s[-1][:1], np.append(s[-1], s[-1])][j]
        kw["specified_drift"] = s
    elif d == "func-none":
        kw.pop("functional_drift")
    elif d == "func-kind":
        s = kw["functional_drift"]
        kw["functional_drift"] = [tuple(s), s[0], {0: s[0]}, "x"][j]
    elif d == "func-empty":
        kw["functional_drift"] = []
    elif d == "func-notcallable":
        s = list(kw["functional_drift"])
        s[k % len(s)] = [3.0, "x", np.array(c["pts"])[:, 0], None][j]
        kw["functional_drift"] = s
    elif d == "style":
        r.style = c["txt"]
    elif d == "backend":
        ex["backend"] = c["txt"]
    elif d == "backend-c":
        if c["cls"] == "OK":
            raise Reject("supported")
        ex["backend"] = "C"
    elif d == "points-size":
        i = j % dim
        a = r.axes[i]
        r.axes[i] = [a[:-1], np.append(a, a[0]), a[:0], np.append(a, a)][k % 4]
    elif d == "mask-none":
        if j % 2:
            ex["mask"] = None
        else:
            ex.pop("mask")
    elif d == "mask-shape":
        s = list(r.shape)
        s[j % dim] += [1, 2, -1, len(s) + 3][k % 4]
        s = tuple(s)
        if s in (r.shape, r.shape[::-1]):
            s = tuple(v + 1 for v in r.shape)
        if c["k"] % 3 == 0:  # as many entries in another shape
            o = same_size(r.shape)
            s = o[j % len(o)] if o else s
        ex["mask"] = np.full(s, bool(k // 4))
    elif d == "mask-perm":
        o = [s for s in itertools.permutations(r.shape) if s not in (r.shape, r.shape[::-1])]
        if not o:
            raise Reject("axes too short")
        ex["mask"] = np.resize(ex["mask"], o[(j + k) % len(o)])
    elif d == "xspec-perm":
        s = list(ex["specified_drift_arrays"])
        o = [q for q in itertools.permutations(r.shape) if q not in (r.shape, r.shape[::-1])]
        if not o:
            raise Reject("axes too short")
        s[k % len(s)] = np.resize(s[k % len(s)], o[j % len(o)])
        ex["specified_drift_arrays"] = s
    elif d == "mask-dim":
        m = ex["mask"]
        ex["mask"] = [m.ravel(), np.stack([m, m], axis=-1), m[0], np.stack([m, m])][j]
        if ex["mask"].shape in (r.shape, r.shape[::-1]):
            raise Reject("valid")
    elif d == "window-small":
        ex["n_closest_points"] = [1, 0, -1, -5][j]
        if k % 2 and ex["backend"] == "vectorized":
            ex["backend"] = "loop"
    elif d == "window-vector":
        ex["n_closest_points"] = [2, 3, n, n + 5][j]
        ex["backend"] = "vectorized"
    elif d == "c-model":
        ex["backend"] = "C"
        r.upd = None
        if k % 2:
            kw.update(variogram_model="custom", variogram_function=ref.CUSTOM["stable"], variogram_parameters=[1.0, 2.0, 0.0])
        else:
            kw.update(variogram_model="hole-effect", variogram_parameters=[2.0, 3.0, 0.5])
    elif d == "xspec-none":
        if j % 2:
            ex["specified_drift_arrays"] = [None, []][k % 2]
        else:
            ex.pop("specified_drift_arrays")
    elif d == "xspec-kind":
        s = ex["specified_drift_arrays"]
        ex["specified_drift_arrays"] = [tuple(s), np.array(s), s[0], {q: v for q, v in enumerate(s)}][j]
    elif d == "xspec-few":
        s = ex["specified_drift_arrays"]
        ex["specified_drift_arrays"] = s[:-1]
    elif d == "xspec-many":
        s = ex["specified_drift_arrays"]
        ex["specified_drift_arrays"] = s + [s[0] * 2.0 + 1.0]
    elif d == "xspec-size":
        s = list(ex["specified_drift_arrays"])
        i = j % s[-1].ndim
        sh = list(s[-1].shape)
        sh[i] += [1, -1, 3, 2][k % 4]
        if tuple(sh) in (r.shape, r.shape[::-1]):
            sh = [v + 1 for v in r.shape]
        if c["k"] % 3 == 0 and r.style != "points":
            o = same_size(r.shape)
            sh = o[j % len(o)] if o else sh
        s[k % len(s)] = np.resize(s[-1], sh)
        ex["specified_drift_arrays"] = s
    elif d == "xspec-dim":
        s = list(ex["specified_drift_arrays"])
        i = k % len(s)
        a = s[i]
        if r.style == "points":
            s[i] = np.stack([a, a])
        else:
            s[i] = a.ravel() if j % 2 else a[0] if min(a.shape) > 1 else a.ravel()
            if s[i].shape in (r.shape, r.shape[::-1]):
                raise Reject("valid")
        ex["specified_drift_arrays"] = s
    else:
        raise KeyError(d)


def check_request(c):
    try:
        kcase.Reference(dict(c, model=c["upd"] or c["model"])).system()
        kcase.Reference(c).system()
    except Reject:
        raise
    good = Request(c)
    z = wrap.quiet(call, "%s: the valid request" % c["cls"], good.run)
    check(isinstance(z, tuple) and np.shape(z[0]) == good.shape and np.shape(z[1]) == good.shape,
          "the valid request returned shapes %s", [np.shape(q) for q in z])
    bad = Request(c)
    spoil(c, bad)
    wrap.quiet(must_raise, "%s request with defect %s (%s)" % (c["cls"], c["defect"], describe(c, bad)), bad.run)
    return dict(defect=c["defect"], style=c["style"], backend=c["backend"])


def describe(c, r):
    d = c["defect"]
    if d.startswith("m-"):
        return {k: v for k, v in r.kw.items() if k.startswith("variogram")}
    if d.startswith("um-"):
        return {k: v for k, v in r.upd.items() if k.startswith("variogram")}
    return {"style": r.style, **{k: str(np.shape(v) if isinstance(v, np.ndarray) else v)[:60] for k, v in {**r.kw, **r.ex}.items()
            if k.split("_")[0] in ("exact", "pseudo", "coordinates", "point", "external", "mask", "backend", "n")}}


# -------------------------------------------------------------------- wrappers
@st.composite
def wcase(draw):
    c = draw(wrap.setting(draw(st.sampled_from(BOTH)), auto=False, exact=True))
    c["defect"] = draw(st.sampled_from(["method", "method-rk", "method-ck", "method-set", "unfitted", "dim-fit", "dim-predict",
                                        "rk-model", "ck-model", "exact", "pinvtype", "backend"]))
    c["targets"] = draw(gen.targets_for(c, 1, 3))
    v = {"method": "method", "pinvtype": "pinvtype", "backend": "backend"}.get(c["defect"].split("-")[0])
    if v:
        c["txt"] = draw(wrongname(VALID[v]))
    c["k"] = draw(st.integers(0, 9))
    return c


def check_wrapper(c):
    from pykrige.ck import ClassificationKriging
    from pykrige.compat import Krige
    from pykrige.rk import RegressionKriging
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
    from sklearn.dummy import DummyClassifier, DummyRegressor

    kw = wrap.krige_args(c)
    X, y, t = np.array(c["pts"], float), np.array(c["val"], float), np.array(c["targets"], float)
    try:
        wrap.Direct(c).R.system()
    except Reject:
        raise
    d, k, dim = c["defect"], c["k"], kcase.dim(c)
    other = [q for q in (1, 2, 3, 4) if q != dim][k % 3]
    lab = (np.arange(len(y)) % 2)

    def go(make, fit=None, predict=None):
        e = make()
        e.fit(*(fit or (X, y)))
        return e.predict(*(predict or (t,)))

    def twin(make, fit=None, predict=None):
        r = wrap.quiet(call, "the valid request", go, make, fit, predict)
        check(len(r) == len(t), "the valid request returned %s", r)

    def refuse(what, make, fit=None, predict=None):
        wrap.quiet(must_raise, what, go, make, fit, predict)

    mk = lambda **o: (lambda: Krige(**dict(kw, **o)))
    if d.startswith("method"):
        o = dict(method=c["txt"])
        if d == "method":
            twin(mk())
            refuse("Krige(method=%r)" % c["txt"], mk(**o))
            must_raise("Krige(method=%r)" % c["txt"], mk(**o))
        elif d == "method-rk":
            f, p = (X, X, y), (t, t)
            twin(lambda: RegressionKriging(DummyRegressor(), **kw), f, p)
            refuse("RegressionKriging(method=%r)" % c["txt"], lambda: RegressionKriging(DummyRegressor(), **dict(kw, **o)), f, p)
        elif d == "method-ck":
            f, p = (X, X, lab), (t, t)
            if c["model"]["name"] != "auto":
                twin(lambda: ClassificationKriging(DummyClassifier(strategy="prior"), **kw), f, p)
            refuse("ClassificationKriging(method=%r)" % c["txt"],
                   lambda: ClassificationKriging(DummyClassifier(strategy="prior"), **dict(kw, **o)), f, p)
        else:
            twin(lambda: Krige(**kw).set_params(method=wrap.METHODS[c["cls"]]))
            refuse("set_params(method=%r)" % c["txt"], lambda: Krige(**kw).set_params(**o))
    elif d == "unfitted":
        twin(mk())
        wrap.quiet(must_raise, "prediction without a fit", mk()().predict, t)
    elif d == "dim-fit":
        twin(mk())
        bad = np.hstack([X, X])[:, :other]
        refuse("fit with %d-dimensional points" % other, mk(), (bad, y))
    elif d == "dim-predict":
        twin(mk())
        bad = np.hstack([t, t])[:, :other]
        refuse("prediction at %d-dimensional points" % other, mk(), None, (bad,))
    elif d == "rk-model":
        f, p = (X, X, y), (t, t)
        twin(lambda: RegressionKriging(DummyRegressor(), **kw), f, p)
        bad = [DummyClassifier(), DummyRegressor, "linear", None, 3.0, DummyClassifier(strategy="prior"), np.mean, Duck(), mixed(BaseEstimator),
               mixed(RegressorMixin)][k]
        refuse("RegressionKriging(%r)" % bad, lambda: RegressionKriging(bad, **kw), f, p)
    elif d == "ck-model":
        f, p = (X, X, lab), (t, t)
        twin(lambda: ClassificationKriging(DummyClassifier(strategy="prior"), **kw), f, p)
        bad = [DummyRegressor(), DummyClassifier, "svc", None, 3.0, DummyRegressor(strategy="median"), np.mean, Duck(), mixed(BaseEstimator),
               mixed(ClassifierMixin)][k]
        refuse("ClassificationKriging(%r)" % bad, lambda: ClassificationKriging(bad, **kw), f, p)
    elif d == "exact":
        twin(mk())
        refuse("exact_values=%r" % k, mk(exact_values=[0, 1, "True", None, 1.0, "no", [True], 2, 3, -1][k]))
    elif d == "pinvtype":
        twin(mk())
        refuse("pseudo_inv_type=%r" % c["txt"], mk(pseudo_inv_type=c["txt"]))
    elif d == "backend":
        twin(mk())
        e = mk()()
        wrap.quiet(call, "fit", e.fit, X, y)
        wrap.quiet(must_raise, "predict(backend=%r)" % c["txt"], e.predict, t, backend=c["txt"])
    return dict(defect=d, method=wrap.METHODS[c["cls"]])


def mixed(base):
    """A model that has only one of the required base classes."""
    return type("Mixed", (base, Duck), {})()


class Duck:
    """Not a scikit-learn model."""

    def fit(self, p, y):
        self.classes_ = np.unique(y)
        return self

    def predict(self, p):
        return np.zeros(len(p))

    def predict_proba(self, p):
        return np.full((len(p), 2), 0.5)


TESTS = [
    T("OK", case("OK"), check_request, 1600),
    T("OK3D", case("OK3D"), check_request, 1200),
    T("UK", case("UK"), check_request, 1600),
    T("UK3D", case("UK3D"), check_request, 1400),
    T("wrappers", wcase(), check_wrapper, 500),
]
