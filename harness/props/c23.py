"""C23: regression kriging = regression + kriged residual."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close
from proptest import T
from props import wrap

REG = ["linear", "ridge", "knn", "tree", "mean", "svr", "exact", "default", "pipeline", "forest"]


def truth(p):
    """The function that the 'exact' regressor knows."""
    p = np.asarray(p, float)
    return 3.0 * p[:, 0] - np.sum(p**2, axis=1) / 7.0 + 0.5


def regressor(name):
    from sklearn.base import BaseEstimator, RegressorMixin
    from sklearn.dummy import DummyRegressor
    from sklearn.ensemble import RandomForestRegressor
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.neighbors import KNeighborsRegressor
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVR
    from sklearn.tree import DecisionTreeRegressor

    class Exact(RegressorMixin, BaseEstimator):
        def fit(self, p, y):
            return self

        def predict(self, p):
            return truth(p)

    class Scaled(Ridge):
        """A pipeline-like regressor with its own predict."""

        def fit(self, p, y):
            self.m_ = np.mean(p, axis=0)
            return super().fit(p - self.m_, y)

        def predict(self, p):
            return super().predict(p - self.m_)

    return {
        "linear": LinearRegression,
        "ridge": lambda: Ridge(alpha=2.0),
        "knn": lambda: KNeighborsRegressor(n_neighbors=2),
        "tree": lambda: DecisionTreeRegressor(max_depth=2, random_state=0),
        "mean": DummyRegressor,
        "svr": lambda: SVR(C=10.0),
        "default": lambda: SVR(),
        "exact": Exact,
        "pipeline": Scaled,
        "forest": lambda: RandomForestRegressor(n_estimators=3, random_state=1),
    }[name]()


@st.composite
def rows(draw, n, d):
    v = draw(st.lists(st.lists(st.integers(-12, 12), min_size=d, max_size=d), min_size=n, max_size=n))
    return [[k / 4.0 for k in r] for r in v]


def noise(n):
    return st.lists(st.integers(-64, 64), min_size=n, max_size=n)


@st.composite
def case(draw, cls, geo=False):
    c = draw(wrap.setting(cls, geo, dups=True))
    c["targets"] = draw(gen.targets_for(c, 1, 5))
    d = draw(st.integers(1, 3))
    c["reg"] = draw(st.sampled_from(REG))
    c["p"] = draw(rows(len(c["pts"]), d))
    c["pt"] = draw(rows(len(c["targets"]), d))
    c["tile"] = draw(wrap.tile())
    if c["reg"] == "exact":
        c["val"] = [float(v) for v in truth(c["p"])]
    elif c["reg"] in ("mean", "linear", "ridge", "pipeline") and draw(st.integers(0, 4)) == 0:
        # residuals that are small against the targets
        c["val"] = [2.0**18 + v + k / 64.0 for v, k in zip(truth(c["p"]), draw(noise(len(c["pts"]))))]
    if c["reg"] == "exact" and draw(st.integers(0, 2)) == 0:
        c["val"] = [v + k * 2.0**-22 for v, k in zip(c["val"], draw(noise(len(c["pts"]))))]
    c["refit"] = draw(st.integers(0, 3)) == 0
    if c["refit"]:
        c["val0"] = draw(gen.values(len(c["pts"])))
    return c


@st.composite
def large(draw):
    kinds = [(k, False) for k in ("OK", "UK", "OK3D", "UK3D")] + [("OK", True)]
    c = draw(wrap.large(*draw(st.sampled_from(kinds))))
    c["reg"] = draw(st.sampled_from(REG))
    c["tile"] = c["refit"] = None
    return c


def check_large(c):
    e = wrap.grow(c)
    rng = np.random.RandomState(c["seed"])
    e["p"] = (rng.randint(-12, 13, (len(e["pts"]), 2)) / 4.0).tolist()
    e["pt"] = (rng.randint(-12, 13, (len(e["targets"]), 2)) / 4.0).tolist()
    if c["reg"] == "exact":
        e["val"] = [float(v) for v in truth(e["p"])]
    return check_rk(e)


def check_rk(c):
    from pykrige.rk import RegressionKriging

    P, X, y = np.array(c["p"], float), np.array(c["pts"], float), np.array(c["val"], float)
    own = regressor(c["reg"])
    own.fit(P, y)
    resid = y - own.predict(P)
    auto = c["model"].get("params") is None and c["model"]["name"] != "gstools"
    if auto and np.max(np.abs(resid)) < 1e-5 * np.max(np.abs(y)):
        raise Reject("a fit to rounding errors")
    D = wrap.Direct(dict(c, val=[float(v) for v in resid]))
    t = D.keep([list(q) for q in c["targets"]])
    keep = [i for i, q in enumerate(c["targets"]) if q in t]
    pt = np.array(c["pt"], float)[keep]
    t = np.array([c["targets"][i] for i in keep], float)
    want = D.at(t)

    kw = wrap.krige_args(c)
    args = () if c["reg"] == "default" else (regressor(c["reg"]),)
    rk = call("RegressionKriging", RegressionKriging, *args, **kw)
    if c["refit"]:
        y0 = np.array(c["val0"], float)
        try:
            wrap.quiet(rk.fit, P[::-1].copy(), X, y0)
            for b in [None] + kcase.backends(c, wrap.window(c)):
                wrap.quiet(rk.predict, pt, t, **({} if b is None else dict(backend=b)))
        except Exception:
            pass  # perhaps no fit exists; judged in the cases without a refit
    wrap.quiet(call, "RegressionKriging.fit", rk.fit, P, X, y)
    scale = 1e-9 * np.max(np.abs(y))
    reg = own.predict(pt)
    w = wrap.window(c)
    for b in [None] + kcase.backends(c, w):
        k = {} if b is None else dict(backend=b)
        r = wrap.again("krige_residual(%s)" % k, rk.krige_residual, t, **k)
        close("krige_residual(%s)" % k, kcase.plain("residual", r, (len(t),)), want[0], want[2] + scale)
        z = wrap.again("predict(%s)" % k, rk.predict, pt, t, **k)
        z = kcase.plain("prediction", z, (len(t),))
        close("predict(%s)" % k, z, reg + want[0], want[2] + scale + 1e-9 * np.abs(reg))
        i = wrap.tiles(c, len(t))
        if i is not None:
            z = wrap.quiet(call, "predict, many points", rk.predict, pt[i], t[i], **k)
            z = kcase.plain("prediction", z, (len(i),))
            close("predict(%s), %d points" % (k, len(i)), z, (reg + want[0])[i], (want[2] + scale + 1e-9 * np.abs(reg))[i])
            z = kcase.plain("prediction", wrap.quiet(call, "predict", rk.predict, pt, t, **k), (len(t),))
        if c["reg"] == "exact" and np.all(np.abs(resid) == 0):
            close("prediction of a regressor without residuals", z, truth(pt), 1e-12 * np.max(np.abs(z)) + 1e-300)
    # score
    if len(t) >= 2:
        obs = want[0] + reg + np.arange(len(t)) * (1.0 + np.max(np.abs(want[0] + reg)))
        obs[-1] *= 0.5
        for sw in (None, 1.0 + np.arange(len(t))[::-1]):
            q = np.ones(len(t)) if sw is None else sw
            mean = np.sum(q * obs) / np.sum(q)
            ss = np.sum(q * (obs - mean) ** 2)
            e = obs - want[0] - reg
            r2 = 1.0 - np.sum(q * e * e) / ss
            tol = 4 * np.sum(q * np.abs(e) * (want[2] + scale)) / ss + 1e-8 * (1 + abs(r2))
            s = wrap.quiet(call, "score", rk.score, pt, t, obs, **({} if sw is None else dict(sample_weight=sw)))
            close("score (weights %s)" % sw, s, r2, tol)
    # training targets
    train = False
    if c["exact"] and D.slack == 2:
        try:
            if len(D.keep(c["pts"])) == len(c["pts"]):
                at = D.at(c["pts"])
                train = True
        except Reject:
            pass
        if train:
            z = wrap.quiet(call, "predict at the training locations", rk.predict, P, X)
            close("prediction at the training locations", z, y, at[2] + scale)
    return wrap.labels(c, reg=c["reg"], refit=c["refit"], train=train, nontrivial=bool(np.max(np.abs(resid)) > 0))


TESTS = [
    T("OK", case("OK"), check_rk, 500),
    T("geographic", case("OK", geo=True), check_rk, 250),
    T("UK", case("UK"), check_rk, 400),
    T("OK3D", case("OK3D"), check_rk, 350),
    T("UK3D", case("UK3D"), check_rk, 350),
    T("large", large(), check_large, 120),
]
