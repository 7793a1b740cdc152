"""C27: verbose output, plots, switches and accessors."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, Violation, call, check, close
from proptest import T
from props import c16

NUM = r"\s*[:=]?\s*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf|None))"


@st.composite
def case(draw, cls, geo=False):
    c = draw(gen.kcase(cls, 9 if cls.startswith("UK") else 5, 12, geo=geo, exact="any",
                       drifts=["regional", "wells", "extz", "func", "spec"] if cls == "UK" else ["regional", "func", "spec"]))
    c["start"] = {k: c[k] for k in ("model", "scale", "angle")}
    c["start"].update(nlags=6, weight=False)
    if draw(st.integers(0, 2)) == 0:
        c["start"] = draw(c16.settings(c))
    c["targets"] = draw(gen.targets_for(c, 1, 3))
    c["verbose"], c["plotting"], c["stat"] = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["verbose", "plotting", "update", "update", "exec", "points", "stats", "print", "display", "eps", "ploteps"]))
        ops.append([k, draw(c16.settings(c))] if k == "update" else [k])
    c["ops"] = ops
    return c


def watch(fn, *a, **k):
    """(result, printed text, plotted series of all figures, number of figures)."""
    import matplotlib.pyplot as plt

    plt.close("all")
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            r = fn(*a, **k)
        series, nfig = [], len(plt.get_fignums())
        for f in plt.get_fignums():
            for ax in plt.figure(f).get_axes():
                for ln in ax.get_lines():
                    series.append(np.array([ln.get_xdata(), ln.get_ydata()], float))
                for co in ax.collections:
                    o = np.ma.getdata(co.get_offsets())
                    series.append(np.array(o, float).T)
        return r, out.getvalue(), series, nfig
    finally:
        plt.close("all")


def number(text, label):
    """The numbers printed after a label."""
    out = []
    for m in re.finditer(re.escape(label) + NUM, text, re.I):
        out.append(None if m.group(1) == "None" else float(m.group(1)))
    return out


class Run:
    def __init__(self, c):
        self.c = c
        self.verbose, self.plotting = c["verbose"], c["plotting"]
        self.cur = c["start"]
        self.stats = c["cls"] != "OK" or c["stat"]
        kw = dict(verbose=self.verbose, enable_plotting=self.plotting)
        if c["cls"] == "OK":
            kw["enable_statistics"] = c["stat"]
        try:
            r = watch(kcase.build, self.conf(), **kw)
        except Violation as v:
            # without the options it must fail as well
            try:
                watch(kcase.build, self.conf())
            except Violation:
                raise Reject(str(v))
            raise
        self.obj = r[0]
        over = {"enable_statistics": True} if c["cls"] == "OK" and c["stat"] else {}
        self.plain = watch(kcase.build, self.conf(), **over)[0]
        self.said("construction", r, True)
        self.same("construction")

    def conf(self):
        s = self.cur
        return dict(self.c, model=s["model"], scale=s["scale"], angle=s["angle"], nlags=s["nlags"], weight=s["weight"])

    def model(self):
        m = self.cur["model"]
        if m.get("params") is None and m["name"] != "gstools":
            m = dict(m, params=[float(v) for v in self.plain.variogram_model_parameters])
        return m

    # ------------------------------------------------------------------ checks
    def said(self, what, r, model):
        """What was printed and plotted by a construction or update."""
        _, text, series, nfig = r
        if not self.verbose:
            check(text.strip() == "", "%s prints although verbose is off: %r", what, text[:100])
        else:
            check(text.strip() != "", "%s prints nothing although verbose is on", what)
            if model:
                self.announced(what, text)
            for label, v in zip(("Q1", "Q2", "cR"), self.obj.get_statistics()):
                got = number(text, label)
                if self.stats:
                    check(len(got) > 0, "%s: output does not show %s: %r", what, label, text)
                for g in got:
                    check(g is not None and v is not None and (g == v or abs(g - v) <= 1e-3 * abs(v) or (g != g and v != v)),
                          "%s: output shows %s = %s, in use is %s", what, label, g, v)
        if not self.plotting:
            check(nfig == 0, "%s plots although plotting is off", what)
        elif model:
            check(nfig >= 1, "%s does not plot although plotting is on", what)
            self.plotted(what, series)

    def announced(self, what, text):
        p = [float(v) for v in self.obj.variogram_model_parameters]
        name = self.cur["model"]["name"]
        if name in ("custom", "gstools"):
            check("custom" in text.lower(), "%s: output does not name the custom model: %r", what, text)
            return
        check(re.search(r"['\" ]%s['\" \n]" % re.escape(name), text, re.I), "%s: output does not name the model %s: %r", what, name, text)
        given = self.cur["model"].get("params")
        if given is not None:
            close("%s: variogram_model_parameters" % what, p, list(given), 1e-9 * np.max(np.abs(given)))
        want = {"linear": [("Slope", 0), ("Nugget", 1)], "power": [("Scale", 0), ("Exponent", 1), ("Nugget", 2)]}.get(
            name, [("Partial Sill", 0), ("Range", 1), ("Nugget", 2), ("Full Sill", None)])
        for label, i in want:
            v = p[i] if i is not None else p[0] + p[2]
            got = number(text, label)
            check(len(got) > 0, "%s: output does not show %s: %r", what, label, text)
            for g in got:
                check(g is not None and abs(g - v) <= 1e-3 * abs(v) + 1e-9 * max(map(abs, p)),
                      "%s: output shows %s %s, in use is %s", what, label, g, v)

    def plotted(self, what, series):
        o = self.obj
        lags, sv = np.asarray(o.lags, float), np.asarray(o.semivariance, float)
        scale = max(np.max(np.abs(sv)), 1e-300)
        hit = [k for k, s in enumerate(series) if s.shape[1] == lags.size
               and np.allclose(s[0], lags, rtol=1e-6, atol=0) and np.allclose(s[1], sv, rtol=1e-6, atol=1e-9 * scale)]
        check(hit, "%s: the experimental variogram %s, %s is not among the plotted series %s", what, lags, sv, [s.tolist() for s in series])
        g = ref.model_fn(self.model())

        def is_model(s):
            y = g(np.maximum(s[0], 0.0))
            ok = np.abs(s[1] - y) <= 1e-6 * np.max(np.abs(y)) + 1e-300
            # at the origin either the nugget or zero
            return np.all(ok | (s[0] <= 0)) and s[0].min() <= lags.min() * (1 + 1e-6) and s[0].max() >= lags.max() * (1 - 1e-6)

        left = [s for k, s in enumerate(series) if k != hit[0] and s.shape[1] >= 1]
        check(any(is_model(s) for s in left), "%s: the model %s is not among the plotted series %s", what, self.model(), [s.tolist() for s in series])

    def same(self, when):
        """The options have no influence on the results."""
        a, b = self.obj, self.plain
        for nm in ("lags", "semivariance", "variogram_model_parameters"):
            u, v = np.asarray(getattr(a, nm), float), np.asarray(getattr(b, nm), float)
            check(u.shape == v.shape, "after %s: %s of %d entries, without the options %d", when, nm, u.size, v.size)
            if v.size:
                close("after %s: %s vs without the options" % (when, nm), u, v, 1e-7 * np.max(np.abs(v)) + 1e-300)
        u, v = a.get_epsilon_residuals(), b.get_epsilon_residuals()
        check((u is None) == (v is None), "after %s: residuals %s, without the options %s", when, u, v)
        if v is not None and np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e5):
            check(np.shape(u) == np.shape(v), "after %s: residuals %s vs %s", when, u, v)
            close("after %s: residuals vs without the options" % when, u, v, 1e-6 * (1 + np.max(np.abs(v), initial=0)))

    # -------------------------------------------------------------- operations
    def do_verbose(self):
        watch(call, "switch_verbose", self.obj.switch_verbose)
        self.verbose = not self.verbose

    def do_plotting(self):
        watch(call, "switch_plotting", self.obj.switch_plotting)
        self.plotting = not self.plotting

    def do_update(self, s):
        old = self.cur, self.stats
        self.cur, self.stats = s, True
        conf = self.conf()
        over = {"enable_statistics": True} if self.c["cls"] == "OK" else {}
        try:
            plain = watch(kcase.build, conf, **over)[0]
        except Violation:
            self.cur, self.stats = old
            return
        kw = kcase.variogram_args(s["model"])
        if self.c.get("coord") != "geographic":
            kw.update(kcase.aniso_args(conf))
        kw.update(nlags=s["nlags"], weight=s["weight"])
        r = watch(call, "update_variogram_model(%s)" % s["model"]["name"], self.obj.update_variogram_model, **kw)
        self.plain = plain
        self.said("update to %s" % s["model"]["name"], r, True)

    def do_exec(self):
        c = self.conf()
        try:
            w = kcase.Reference(dict(c, model=self.model())).krige(c["targets"])
        except Reject:
            return
        want = watch(kcase.points, c, self.plain, c["targets"])[0]
        for b in ("vectorized", "loop"):
            (z, s), text, series, nfig = watch(kcase.points, c, self.obj, c["targets"], b)
            check(self.verbose or text.strip() == "", "execute prints although verbose is off: %r", text[:100])
            check(not self.verbose or text.strip() != "", "execute prints nothing although verbose is on")
            check(nfig == 0, "execute plots")
            close("estimates with verbose=%s" % self.verbose, z, want[0], 2 * w[2])
            close("variances with verbose=%s" % self.verbose, s, want[1], 2 * w[3])

    def do_points(self):
        if self.c["cls"].endswith("3D"):
            return
        r = watch(call, "get_variogram_points", self.obj.get_variogram_points)[0]
        check(len(r) == 2, "get_variogram_points returned %s", r)
        lags = np.asarray(self.plain.lags, float)
        close("lags of get_variogram_points", r[0], lags, 1e-7 * np.max(lags))
        g = ref.model_fn(self.model())(lags)
        close("get_variogram_points", r[1], g, 1e-6 * np.max(np.abs(g)) + 1e-300)

    def do_stats(self):
        q = watch(call, "get_statistics", self.obj.get_statistics)[0]
        check(len(q) == 3, "get_statistics returned %s", q)
        eps = self.obj.get_epsilon_residuals()
        if not self.stats:
            check(eps is None and tuple(q) == (None, None, None), "no statistics asked for: %s, %s", eps, q)
            return
        check(eps is not None, "no residuals")
        v = self.plain.get_statistics()
        if all(np.isfinite(v)) and np.all(np.abs(eps) < 1e5):
            close("get_statistics vs without the options", q, v, 1e-5 * np.abs(v) + 1e-12)

    def do_print(self):
        q = watch(call, "get_statistics", self.obj.get_statistics)[0]
        _, text, _, nfig = watch(call, "print_statistics", self.obj.print_statistics)
        check(nfig == 0, "print_statistics plots")
        for label, v in zip(("Q1", "Q2", "cR"), q):
            got = number(text, label)
            check(len(got) == 1, "print_statistics: %s is not shown in %r", label, text)
            g = got[0]
            ok = (g is None) if v is None else g is not None and (g == v or abs(g - v) <= 1e-3 * abs(v) or (g != g and v != v))
            check(ok, "print_statistics shows %s = %s, in use is %s", label, g, v)

    def do_display(self):
        _, text, series, nfig = watch(call, "display_variogram_model", self.obj.display_variogram_model)
        check(nfig == 1, "display_variogram_model made %d figures", nfig)
        self.plotted("display_variogram_model", series)

    def do_eps(self):
        watch(call, "get_epsilon_residuals", self.obj.get_epsilon_residuals)

    def do_ploteps(self):
        if not self.stats:
            return
        eps = np.asarray(self.obj.get_epsilon_residuals(), float)
        _, text, series, nfig = watch(call, "plot_epsilon_residuals", self.obj.plot_epsilon_residuals)
        check(nfig == 1, "plot_epsilon_residuals made %d figures", nfig)
        if eps.size and np.all(np.isfinite(eps)):
            ok = [s for s in series if s.shape[1] == eps.size and np.allclose(s[1], eps, rtol=1e-6, atol=0)
                  and np.all(np.diff(s[0]) > 0)]
            check(ok, "the residuals %s are not among the plotted series %s", eps, [s.tolist() for s in series])


def check_run(c):
    r = Run(c)
    done = set()
    for op in c["ops"]:
        getattr(r, "do_" + op[0])(*op[1:])
        r.same("%s in %s" % (op[0], [o[0] for o in c["ops"]]))
        check(bool(r.obj.verbose) == r.verbose, "verbose is %s after %s", r.obj.verbose, c["ops"])
        check(bool(r.obj.enable_plotting) == r.plotting, "enable_plotting is %s after %s", r.obj.enable_plotting, c["ops"])
        done.add(op[0])
    r.do_exec()
    r.do_points()
    r.do_print()
    r.do_display()
    return dict(verbose=c["verbose"], plotting=c["plotting"], stat=c["stat"], model=c["start"]["model"]["name"],
                updates="update" in done, switched="verbose" in done or "plotting" in done)


TESTS = [
    T("OK", case("OK"), check_run, 300),
    T("geographic", case("OK", geo=True), check_run, 120),
    T("OK3D", case("OK3D"), check_run, 200),
    T("UK", case("UK"), check_run, 250),
    T("UK3D", case("UK3D"), check_run, 200),
    T("grown-OK", gen.grown(case("OK")), gen.larger(check_run), 32),
    T("grown-geographic", gen.grown(case("OK", geo=True)), gen.larger(check_run), 32),
    T("grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_run), 32),
    T("grown-UK", gen.grown(case("UK")), gen.larger(check_run), 32),
    T("grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_run), 32),
]
