"""C16: histories of model updates, executions and accessor calls."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, Violation, call, check, close, must_raise
from proptest import T
from props import blup
from props.c18 import gsmodel

STYLES = ["points", "grid", "masked"]


@st.composite
def settings(draw, c):
    """A complete variogram setting: model, anisotropy, nlags, weight."""
    d = kcase.dim(c)
    geo = c.get("coord") == "geographic"
    kind = draw(st.sampled_from(["given", "given", "auto", "gstools"]))
    if kind == "gstools":
        s = draw(gsmodel(d, c["frame"], geo))
    elif kind == "auto":
        s = {"model": {"name": draw(st.sampled_from(gen.MODELS))}}
    else:
        s = {"model": draw(gen.geo_model() if geo else gen.model(c["frame"]))}
    if "scale" not in s:
        if geo or draw(st.integers(0, 2)) == 0:
            s["scale"], s["angle"] = [1.0] * (d - 1), [0.0] * (1 if d == 2 else 3)
            s["default"] = draw(st.booleans())
        else:
            s["scale"], s["angle"] = draw(gen.anisotropy(d, 5))
    s["nlags"] = draw(st.sampled_from([6, 6, 3, 4, 9]))
    s["weight"] = draw(st.booleans())
    return s


@st.composite
def tweak(draw, s):
    """The settings s with one change."""
    s = dict(s)
    if s["model"]["name"] == "gstools":
        s[draw(st.sampled_from(["nlags", "weight"]))] = draw(st.sampled_from([3, 6]))
        return s
    s.pop("default", None)
    what = draw(st.sampled_from(["scale", "angle", "angle", "model", "same"]))
    if what == "scale":
        i = draw(st.integers(0, len(s["scale"]) - 1))
        s["scale"] = s["scale"][:i] + [draw(st.sampled_from([2.5, 0.3, 1.0]))] + s["scale"][i + 1:]
    elif what == "angle":
        i = draw(st.integers(0, len(s["angle"]) - 1))
        s["angle"] = s["angle"][:i] + [draw(st.sampled_from([20.0, 77.0, -35.0, 0.0]))] + s["angle"][i + 1:]
    elif what == "model" and s["model"].get("params") is not None and s["model"]["name"] != "custom":
        m = dict(s["model"])
        i = draw(st.integers(0, len(m["params"]) - 1))
        m["params"] = [v * (1.25 if j == i else 1.0) for j, v in enumerate(m["params"])]
        s["model"] = m
    return s


BAD = ["unknown", "length", "key", "nofunction", "noparams", "gsdim", "scalar", "raising"]
BADEXEC = ["style", "backend", "size", "mask", "window"]


@st.composite
def case(draw, cls, geo=False):
    c = draw(gen.kcase(cls, 6 if not cls.startswith("UK") else 9, 12, geo=geo, exact="any",
                       drifts=["regional", "wells", "extz", "spec", "func"] if cls == "UK" else ["regional", "spec", "func"]))
    first = {k: c[k] for k in ("model", "scale", "angle")}
    c["start"] = dict(first, nlags=6, weight=False)
    if draw(st.booleans()):
        c["start"] = draw(settings(c))
    if cls == "OK":
        c["stat0"] = draw(st.booleans())
    c["targets"] = draw(gen.targets_for(c, 1, 3))
    if geo:
        c["axes"] = [[12.25, 40.5], [3.75, -20.5, 33.0]]
    else:
        c["axes"] = draw(gen.axes_for(c, 1, 3))
    c["mask"] = draw(gen.mask_for(c["axes"]))
    # other targets and axes of the same size
    n = len(c["targets"])
    c["targets2"] = draw(gen.targets_for(c, n, n))
    q = 0.25 * c["frame"][1]
    c["axes2"] = [[v + q for v in a] for a in c["axes"]]
    if (c.get("drift") or {}).get("extz"):
        c["axes2"] = [list(a[::-1]) for a in c["axes"]]
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["update", "update", "update", "exec", "exec", "bad", "badexec", "acc", "switch"]))
        if k == "update":
            ops.append([k, draw(settings(c))])
            if not geo and draw(st.booleans()):
                # the same again, but for one item
                ops.append([k, draw(tweak(ops[-1][1]))])
        elif k == "exec":
            ops.append([k, draw(st.sampled_from(STYLES)), draw(st.sampled_from(["vectorized", "loop", "C"])),
                        draw(st.sampled_from([None, None, 2, 3, 20])), draw(st.integers(0, 3))])
        elif k == "bad":
            ops.append([k, draw(st.sampled_from(BAD)), draw(st.sampled_from([1.0, 2.5])), draw(st.sampled_from([0.0, 40.0]))])
        elif k == "badexec":
            ops.append([k, draw(st.sampled_from(BADEXEC))])
        elif k == "acc":
            ops.append([k, draw(st.sampled_from(["points", "stats", "print", "display", "eps", "ploteps"]))])
        else:
            ops.append([k, draw(st.sampled_from(["verbose", "plotting"]))])
    c["ops"] = ops
    return c


def _quiet(fn, *a, **k):
    import matplotlib.pyplot as plt

    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)
    finally:
        plt.close("all")


class Run:
    def __init__(self, c):
        self.c = c
        self.cur = c["start"]
        self.stats = c["cls"] != "OK" or c["stat0"]
        self.judged = 0
        self.buf = {}
        self.obj = self.fresh()
        self.new = self.obj

    def conf(self):
        s = self.cur
        return dict(self.c, model=s["model"], scale=s["scale"], angle=s["angle"], nlags=s["nlags"], weight=s["weight"])

    def fresh(self):
        """A new object with the latest settings (Reject if they do not fit)."""
        kw = {"enable_statistics": True} if self.c["cls"] == "OK" and self.stats else {}
        try:
            return _quiet(kcase.build, self.conf(), **kw)
        except Violation as v:
            raise Reject(str(v))

    def reference(self):
        c = self.conf()
        if c["model"].get("params") is None and c["model"]["name"] != "gstools":
            p = [float(v) for v in self.new.variogram_model_parameters]
            c["model"] = dict(c["model"], params=p)
        return kcase.Reference(c)

    # --------------------------------------------------------------- compare
    def same(self, when):
        a, b = self.obj, self.new
        for nm in ("lags", "semivariance"):
            u, v = np.asarray(getattr(a, nm), float), np.asarray(getattr(b, nm), float)
            check(u.shape == v.shape, "%s: %d %s, a fresh object has %d", when, u.size, nm, v.size)
            close("%s: %s vs fresh object" % (when, nm), u, v, 1e-9 * np.max(np.abs(v)) + 1e-300)
        u, v = [np.asarray(o.variogram_model_parameters, float) for o in (a, b)]
        check(u.shape == v.shape, "%s: %d parameters, fresh object %d", when, u.size, v.size)
        if u.size:
            close("%s: variogram parameters vs fresh object" % when, u, v, 1e-7 * np.max(np.abs(v)) + 1e-300)
        u, v = [_quiet(call, "get_epsilon_residuals", o.get_epsilon_residuals) for o in (a, b)]
        su, sv = [_quiet(call, "get_statistics", o.get_statistics) for o in (a, b)]
        check((u is None) == (v is None), "%s: residuals %s, fresh object %s", when, u, v)
        if v is not None and np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e5):
            check(np.shape(u) == np.shape(v), "%s: %s residuals, fresh object %s", when, np.shape(u), np.shape(v))
            close("%s: residuals vs fresh object" % when, u, v, 1e-6 * (1 + np.max(np.abs(v), initial=0)))
            if len(v) >= 2:
                close("%s: statistics vs fresh object" % when, su, sv, 1e-5 * (np.abs(sv) + 1e-12))
        elif v is None:
            check(tuple(su) == tuple(sv), "%s: statistics %s, fresh object %s", when, su, sv)
        if self.c["cls"] in ("OK", "UK"):
            p = _quiet(call, "get_variogram_points", a.get_variogram_points)
            q = _quiet(call, "get_variogram_points", b.get_variogram_points)
            for i in (0, 1):
                close("%s: get_variogram_points" % when, p[i], np.asarray(q[i], float), 1e-7 * np.max(np.abs(q[i])) + 1e-300)
        self.predict(when, "points", "vectorized", None)

    def predict(self, when, style, backend, window, alt=0):
        """alt: bit 0 for other places, bit 1 for the other mask."""
        c = self.conf()
        if alt & 1:
            c = dict(c, targets=c["targets2"], axes=c["axes2"])
        if alt & 2:
            c["mask"] = [not m for m in c["mask"]]
        if c["cls"] not in ("OK", "OK3D"):
            window = None
        if window is not None and backend == "vectorized":
            backend = "loop"
        if backend == "C" and "C" not in kcase.backends(c):
            backend = "loop"
        if style == "points":
            t = np.array(c["targets"], float)
            shape = (len(t),)
            axes = list(t.T)
        else:
            axes = c["axes"]
            t = kcase.grid_targets(axes)
            shape = tuple(len(a) for a in reversed(axes))
        try:
            R = self.reference()
            if window is not None:
                want = R.krige_window(t, window)
            else:
                want = R.krige(t)
        except Reject:
            try:  # not judged (perhaps singular), but part of the history
                _quiet(kcase.execute, c, self.obj, style, axes, backend, window,
                       mask=np.array(c["mask"], bool).reshape(shape) if style == "masked" else None, buf=self.buf)
            except Violation:
                pass
            return
        self.judged += 1
        m = np.array(c["mask"], bool).reshape(shape) if style == "masked" else np.zeros(shape, bool)
        for k in range(2):
            r = _quiet(kcase.execute, c, self.obj, style, axes, backend, window, mask=m if style == "masked" else None, buf=self.buf)
            w = "%s, %s/%s/%s%s" % (when, style, backend, window, " repeated" if k else "")
            for i, nm in ((0, "estimates"), (1, "variances")):
                check(np.shape(r[i]) == shape, "%s: shape %s", w, np.shape(r[i]))
                close("%s: %s" % (w, nm), np.ma.getdata(r[i])[~m], want[i].reshape(shape)[~m], want[i + 2].reshape(shape)[~m])

    # ------------------------------------------------------------- operations
    def update(self, s):
        c = self.c
        old, oldstats = self.cur, self.stats
        self.cur, self.stats = s, True
        try:
            new = self.fresh()
        except Reject:
            self.cur, self.stats = old, oldstats
            return
        conf = self.conf()
        kw = kcase.variogram_args(s["model"])
        if c.get("coord") != "geographic" and not s.get("default"):
            kw.update(kcase.aniso_args(conf))
        kw.update(nlags=s["nlags"], weight=s["weight"])
        if s["nlags"] == 6 and not s["weight"]:
            del kw["nlags"], kw["weight"]
        _quiet(call, "update_variogram_model(%s)" % s["model"]["name"], self.obj.update_variogram_model, **kw)
        self.new = new
        self.same("after update to %s" % s["model"]["name"])

    def bad(self, kind, scale, angle):
        d = kcase.dim(self.c)
        if self.c.get("coord") == "geographic":
            kw = {}
        elif d == 2:
            kw = dict(anisotropy_scaling=scale, anisotropy_angle=angle)
        else:
            kw = dict(anisotropy_scaling_y=scale, anisotropy_scaling_z=2 * scale, anisotropy_angle_y=angle)
        kw["nlags"] = 5
        f = ref.CUSTOM["stable"]

        def boom(p, x):
            raise ArithmeticError("user function fails")

        a = {
            "unknown": ("cubic", None, None),
            "length": ("spherical", [1.0, 2.0], None),
            "key": ("exponential", {"sill": 1.0, "nugget": 0.1}, None),
            "nofunction": ("custom", [1.0, 2.0], None),
            "noparams": ("custom", None, f),
            "scalar": ("linear", 3.0, None),
            "raising": ("custom", [1.0], boom),
            "gsdim": (None, None, None),
        }[kind]
        if kind == "gsdim":
            import gstools as gs

            a = (gs.Gaussian(dim=3 if d == 2 else 2, var=1.0, len_scale=3.0), None, None)
        _quiet(must_raise, "update_variogram_model with %s defect" % kind, self.obj.update_variogram_model,
               a[0], a[1], a[2], **kw)
        self.same("after refused update (%s)" % kind)

    def badexec(self, kind):
        c = self.conf()
        t = np.array(c["targets"], float)
        ax = list(t.T)
        kw = {}
        sp = kcase.spec_arrays(c, t)
        if sp is not None:
            kw["specified_drift_arrays"] = sp
        ex = self.obj.execute
        if kind == "style":
            r = must_raise("execute with unknown style", _quiet, ex, "cloud", *ax, **kw)
        elif kind == "backend":
            r = must_raise("execute with unknown backend", _quiet, ex, "points", *ax, backend="gpu", **kw)
        elif kind == "size":
            r = must_raise("points of different lengths", _quiet, ex, "points", np.append(ax[0], 1.0), *ax[1:], **kw)
        elif kind == "mask":
            kw.pop("specified_drift_arrays", None)
            g = [np.array(a) for a in c["axes"]]
            if sp is not None:
                shape = tuple(len(a) for a in reversed(g))
                kw["specified_drift_arrays"] = kcase.spec_arrays(c, kcase.grid_targets(g), shape)
            r = must_raise("mask of a wrong size", _quiet, ex, "masked", *g, mask=np.zeros([len(a) + 2 for a in reversed(g)], bool), **kw)
        elif c["cls"] in ("OK", "OK3D"):
            r = must_raise("window of one point", _quiet, ex, "points", *ax, backend="loop", n_closest_points=1, **kw)
        self.same("after refused execute (%s)" % kind)

    def acc(self, kind):
        o = self.obj
        f = {"stats": "get_statistics", "print": "print_statistics", "display": "display_variogram_model",
             "eps": "get_epsilon_residuals", "ploteps": "plot_epsilon_residuals", "points": "get_variogram_points"}[kind]
        if kind == "points" and self.c["cls"].endswith("3D"):
            return
        if kind == "ploteps" and not self.stats:
            return
        _quiet(call, f, getattr(o, f))
        self.same("after %s" % f)

    def switch(self, kind):
        _quiet(call, "switch_" + kind, getattr(self.obj, "switch_" + kind))
        self.same("after switch_" + kind)


def check_history(c):
    r = Run(c)
    r.same("after construction")
    done = {}
    for op in c["ops"]:
        k = op[0]
        if k == "exec":
            r.predict("executing", *op[1:])
        else:
            getattr(r, k)(*op[1:])
        done[k] = done.get(k, 0) + 1
    r.same("at the end")
    if not r.judged:
        raise Reject("no prediction could be judged")
    return dict(ops=len(c["ops"]), updates=min(done.get("update", 0), 4), bad=bool(done.get("bad")),
                switched=bool(done.get("switch")), drift=blup.labels(c).get("drift"),
                nontrivial=done.get("update", 0) >= 2 or (done.get("update", 0) >= 1 and done.get("bad", 0) >= 1))


TESTS = [
    T("OK", case("OK"), check_history, 500),
    T("geographic", case("OK", geo=True), check_history, 250),
    T("OK3D", case("OK3D"), check_history, 250),
    T("UK", case("UK"), check_history, 400),
    T("UK3D", case("UK3D"), check_history, 250),
    T("grown-OK", gen.grown(case("OK")), gen.larger(check_history), 40),
    T("grown-geographic", gen.grown(case("OK", geo=True)), gen.larger(check_history), 40),
    T("grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_history), 40),
    T("grown-UK", gen.grown(case("UK")), gen.larger(check_history), 40),
    T("grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_history), 40),
]
