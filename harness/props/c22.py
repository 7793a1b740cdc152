"""C22: the Krige estimator against the kriging classes."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close, must_raise
from proptest import T
from props import wrap

CLS = ["OK", "UK", "OK3D", "UK3D"]


@st.composite
def case(draw, cls, geo=False):
    c = draw(wrap.setting(cls, geo, dups=True))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    c["tile"] = draw(wrap.tile())
    return c


@st.composite
def large(draw):
    return draw(wrap.large(*draw(st.sampled_from([(k, False) for k in CLS] + [("OK", True)]))))


def check_large(c):
    return check_one(wrap.grow(c))


@st.composite
def history(draw):
    """Two settings with their own data, and a sequence of operations."""
    kinds = [(k, False) for k in CLS] + [("OK", True)]
    ka = draw(st.sampled_from(kinds))
    a = draw(case(*ka))
    b = draw(case(*draw(st.sampled_from(kinds + [ka] * 3))))
    ops = draw(st.lists(st.sampled_from(
        ["fit", "fit", "fit2", "part", "part", "predict", "predict", "predict", "params", "clone", "clonefit", "refuse", "score"]),
        min_size=3, max_size=8))
    return dict(a=a, b=b, ops=ops)


def X(c):
    return np.array(c["pts"], float)


def y(c):
    return np.array(c["val"], float)


def make(c):
    from pykrige.compat import Krige

    return call("Krige(%s)" % wrap.METHODS[c["cls"]], Krige, **wrap.krige_args(c))


def fit(est, c, what="fit"):
    return wrap.heard(call, "Krige(%s).%s" % (wrap.METHODS[c["cls"]], what), est.fit, X(c), y(c))[1]


def xdict(c, t):
    t = np.asarray(t, float)
    return {k + "points": t[:, i] for i, k in enumerate("xyz"[: t.shape[1]])}


def compare(est, c, D, targets, what, more=False):
    """Predictions of a fitted estimator against those of the class."""
    m = wrap.METHODS[c["cls"]]
    t = D.keep([list(p) for p in targets])
    want = D.at(t)
    ta = np.array(t, float)
    e = wrap.again("%s: Krige(%s).predict" % (what, m), est.predict, ta)
    close("%s: Krige(%s).predict" % (what, m), kcase.plain("prediction", e, (len(t),)), want[0], want[2])
    i = wrap.tiles(c, len(t))
    if i is not None:
        e = wrap.quiet(call, "Krige(%s).predict, many points" % m, est.predict, ta[i])
        close("%s: Krige(%s).predict, %d points" % (what, m, len(i)), kcase.plain("prediction", e, (len(i),)), want[0][i], want[2][i])
        r = wrap.quiet(call, "Krige(%s).execute, many points" % m, est.execute, xdict(c, ta[i]))
        kcase.compare("%s: Krige(%s).execute, %d points" % (what, m, len(i)),
                      [kcase.plain("execute", q, (len(i),)) for q in r], [q[i] for q in want])
    r = wrap.quiet(call, "%s: Krige(%s).execute" % (what, m), est.execute, xdict(c, t))
    check(isinstance(r, tuple) and len(r) == 2, "execute returned %s", type(r).__name__)
    kcase.compare("%s: Krige(%s).execute" % (what, m),
                  [kcase.plain("execute", q, (len(t),)) for q in r], want)
    if not more:
        return want
    styles(est, c, D, ta, m)
    w = wrap.window(c)
    for b in kcase.backends(dict(c), w):
        r = wrap.quiet(call, "Krige(%s).execute(%s)" % (m, b), est.execute, xdict(c, t), backend=b)
        kcase.compare("%s: Krige(%s).execute(%s)" % (what, m, b), [kcase.plain("execute", q, (len(t),)) for q in r], want)
        e = wrap.quiet(call, "Krige(%s).predict(%s)" % (m, b), est.predict, ta, backend=b)
        close("%s: Krige(%s).predict(%s)" % (what, m, b), kcase.plain("prediction", e, (len(t),)), want[0], want[2])
    return want


def styles(est, c, D, ta, m):
    """execute in the other styles of the kriging classes."""
    axes = [np.array(sorted(set(ta[:2, k]))) for k in range(ta.shape[1])]
    shape = tuple(len(a) for a in axes)[::-1]
    nodes = [list(p) for p in np.stack([g.ravel() for g in np.meshgrid(*axes[::-1], indexing="ij")][::-1], axis=1)]
    try:
        if len(D.keep(nodes)) < len(nodes):
            return
        want = D.at(nodes)
    except Reject:
        return
    mask = (np.arange(len(nodes)) % 3 == 1).reshape(shape)
    for style, b in (("grid", "loop"), ("masked", "loop"), ("grid", "vectorized"), ("masked", "vectorized")):
        if b not in kcase.backends(dict(c), wrap.window(c)):
            continue
        kw = dict(style=style, backend=b)
        if style == "masked":
            kw["mask"] = mask
        r = wrap.quiet(call, "Krige(%s).execute(style=%s)" % (m, style), est.execute,
                       {k + "points": a for k, a in zip("xyz", axes)}, **kw)
        for q, w, t, nm in zip(r, want[:2], want[2:], ("estimate", "variance")):
            check(np.shape(q) == shape, "execute(style=%s): %s of shape %s, expected %s", style, nm, np.shape(q), shape)
            keep = ~mask if style == "masked" else np.ones(shape, bool)
            if style == "masked":
                check(np.array_equal(np.ma.getmaskarray(q), mask), "execute(style=masked): another mask")
            close("Krige(%s).execute(style=%s) %s" % (m, style, nm), np.asarray(np.ma.getdata(q))[keep],
                  w.reshape(shape)[keep], t.reshape(shape)[keep])


def check_one(c):
    D = wrap.Direct(c)
    est = make(c)
    same_params(est, c)
    must_raise("prediction without a fit", wrap.quiet, est.predict, np.array(c["targets"], float))
    text = fit(est, c)
    check(bool(text.strip()) == c["verbose"], "verbose=%s, but fit printed %r", c["verbose"], text[:80])
    want = compare(est, c, D, c["targets"], "fitted", True)
    same_params(est, c)
    if c["cls"] == "OK":
        s = call("get_statistics", est.model.get_statistics)
        check((s[0] is not None) == c["stat"], "enable_statistics=%s, but statistics are %s", c["stat"], s)
    u = np.asarray(call("model", lambda: est.model.variogram_model_parameters), float)
    v = np.asarray(D.obj.variogram_model_parameters, float)
    if v.size and np.all(np.isfinite(v)):
        close("variogram parameters of the fitted model", u, v, 1e-6 * np.max(np.abs(v)))
    close("lags of the fitted model", est.model.lags, np.asarray(D.obj.lags, float), 1e-9 * np.max(D.obj.lags))
    # R2 at the targets
    t = D.keep([list(p) for p in c["targets"]])
    if len(t) >= 2:
        obs = np.arange(len(t)) * (1.0 + np.max(np.abs(want[0]))) - want[0]
        ss = np.sum((obs - obs.mean()) ** 2)
        if ss > 1e-6 * np.sum(obs**2):
            r2 = 1.0 - np.sum((obs - want[0]) ** 2) / ss
            tol = 4 * np.sum(np.abs(obs - want[0]) * want[2]) / ss + 1e-9 * (1 + abs(r2))
            close("score", wrap.quiet(call, "score", est.score, np.array(t, float), obs), r2, tol)
    return wrap.labels(c)


def same_params(est, c):
    """get_params returns every setting as given, and the defaults."""
    got = call("get_params", est.get_params)
    given = wrap.krige_args(c)
    check(set(got) == set(wrap.DEFAULTS), "get_params has keys %s", sorted(got))
    for k, v in dict(wrap.DEFAULTS, **given).items():
        g = got[k]
        if k == "ext_drift_grid":
            ok = len(g) == 3 and all(equal(p, q) for p, q in zip(g, v))
        elif k == "functional_drift" and v is not None:
            ok = g is not None and len(g) == len(v)
        elif k == "variogram_model" and not isinstance(v, str):
            ok = g == v
        else:
            ok = equal(g, v)
        check(ok, "get_params()[%r] is %r, given %r", k, g, v)


def equal(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and np.array_equal(a, b)
    return a is b or (type(a) is type(b) and a == b)


def check_history(h):
    from sklearn.base import clone

    A, B = h["a"], h["b"]
    DA, DB = wrap.Direct(A), wrap.Direct(B)
    est, now, fitted, D = make(A), A, None, None
    done = {}
    for op in h["ops"]:
        done[op] = done.get(op, 0) + 1
        if op == "fit":
            fit(est, now)
            fitted, D = now, DA if now is A else DB
        elif op == "fit2":
            # other settings and other data
            now = B if now is A else A
            r = call("set_params", est.set_params, **wrap.krige_args(now, True))
            check(r is est, "set_params returned %r", r)
            fit(est, now, "refit")
            fitted, D = now, DA if now is A else DB
        elif op == "part":
            # the same settings with fewer data
            sub = dict(now, pts=now["pts"][1:], val=now["val"][1:])
            try:
                Ds = wrap.Direct(sub)
                Ds.at(Ds.keep([list(q) for q in sub["targets"]]))
            except Reject:
                continue
            fit(est, sub, "fit with other data")
            fitted, D = sub, Ds
        elif op == "predict":
            if fitted is None:
                must_raise("prediction without a fit", wrap.quiet, est.predict, np.array(now["targets"], float))
            else:
                compare(est, fitted, D, fitted["targets"], "after %s" % h["ops"])
        elif op == "params":
            if fitted is None:
                same_params_full(est, now)
        elif op in ("clone", "clonefit"):
            twin = call("clone", clone, est)
            check(twin is not est, "clone is the same object")
            same_params_full(twin, now)
            must_raise("prediction of an unfitted clone", wrap.quiet, twin.predict, np.array(now["targets"], float))
            if op == "clonefit":
                o = B if now is A else A
                call("set_params", twin.set_params, **wrap.krige_args(o, True))
                fit(twin, o, "fit of a clone")
                compare(twin, o, DA if o is A else DB, o["targets"], "clone")
            if fitted is not None:
                compare(est, fitted, D, fitted["targets"], "after cloning")
        elif op == "refuse":
            dim = kcase.dim(now)
            for d in (1, 2, 3, 4):
                if d != dim:
                    bad = np.arange(4.0 * d).reshape(4, d) ** 1.5
                    must_raise("fit of %s with %d-dimensional points" % (now["cls"], d), wrap.quiet,
                               make(now).fit, bad, np.arange(4.0))
                    if fitted is not None:
                        must_raise("predict of %s with %d-dimensional points" % (now["cls"], d), wrap.quiet, est.predict, bad)
            if fitted is not None:
                compare(est, fitted, D, fitted["targets"], "after refused calls")
        elif op == "score" and fitted is not None and fitted["exact"] and D.slack == 2:
            try:
                D.keep(fitted["pts"])
                D.at(fitted["pts"])
            except Reject:
                continue
            if max(fitted["val"]) > min(fitted["val"]):
                s = wrap.quiet(call, "score", est.score, X(fitted), y(fitted))
                close("score at the data", s, 1.0, 1e-6)
    return wrap.labels(A, methods="one" if A["cls"] == B["cls"] else "two", refits=done.get("fit2", 0),
                       nontrivial=fitted is not None and len(h["ops"]) > 1)


def same_params_full(est, c):
    got = call("get_params", est.get_params)
    for k, v in dict(wrap.DEFAULTS, **wrap.krige_args(c)).items():
        if k in ("functional_drift", "ext_drift_grid", "anisotropy_scaling", "anisotropy_angle"):
            continue
        g = got[k]
        check(equal(g, v) or (not isinstance(v, (str, np.ndarray)) and g == v), "%r is %r, given %r", k, g, v)


@st.composite
def folds(draw):
    c = draw(wrap.setting(draw(st.sampled_from(CLS)), nmin=10, nmax=16, auto=False))
    c["folds"] = draw(st.integers(2, 4))
    return c


def check_folds(c):
    """Cross-validated prediction: every fold is kriged from the other folds."""
    from sklearn.model_selection import KFold, cross_val_predict

    p, v = X(c), y(c)
    cv = KFold(c["folds"])
    want, tol = np.zeros(len(v)), np.zeros(len(v))
    for tr, te in cv.split(p):
        s = dict(c, pts=[c["pts"][i] for i in tr], val=[c["val"][i] for i in tr])
        D = wrap.Direct(s)
        t = [c["pts"][i] for i in te]
        if len(D.keep(t)) < len(t):
            raise Reject("tie")
        e = D.at(t)
        want[te], tol[te] = e[0], e[2]
    got = wrap.quiet(call, "cross_val_predict", cross_val_predict, make(c), p, v, cv=cv)
    close("cross_val_predict", got, want, tol)
    return wrap.labels(c, folds=c["folds"])


TESTS = [
    T("OK", case("OK"), check_one, 500),
    T("geographic", case("OK", geo=True), check_one, 250),
    T("UK", case("UK"), check_one, 450),
    T("OK3D", case("OK3D"), check_one, 350),
    T("UK3D", case("UK3D"), check_one, 300),
    T("large", large(), check_large, 120),
    T("history", history(), check_history, 600),
    T("cross-validation", folds(), check_folds, 250),
]
