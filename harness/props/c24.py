"""C24: classification kriging and the log-ratio transformations."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close
from proptest import T
from props import wrap
from props.c23 import rows

LABELS = [
    [0, 1, 2, 3, 4], [1, 2, 3, 4, 5], [-3, 10, 7, 0, 2], [100, -100, 5, 6, 9],
    ["b", "a", "c", "aa", ""], ["red", "Green", "blue", "x", "y"], [False, True],
    [2.0, 1.0, 5.0, -4.0, 0.0],
]
CLF = ["bayes", "knn", "tree", "prior", "logistic", "fixed"]


def classifier(name):
    from sklearn.base import BaseEstimator, ClassifierMixin
    from sklearn.dummy import DummyClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier

    class Fixed(ClassifierMixin, BaseEstimator):
        """Probabilities that depend on the predictors only."""

        def fit(self, p, y):
            self.classes_ = np.unique(y)
            return self

        def predict_proba(self, p):
            k = np.arange(1.0, len(self.classes_) + 1)
            q = 1.0 + np.cos(np.asarray(p, float)[:, :1] * k)
            return q / q.sum(axis=1)[:, None]

        def predict(self, p):
            return self.classes_[np.argmax(self.predict_proba(p), axis=1)]

    return {
        "bayes": lambda: GaussianNB(var_smoothing=0.1),
        "knn": lambda: KNeighborsClassifier(n_neighbors=2),
        "tree": lambda: DecisionTreeClassifier(max_depth=1, random_state=0),
        "prior": lambda: DummyClassifier(strategy="prior"),
        "logistic": lambda: LogisticRegression(),
        "fixed": Fixed,
    }[name]()


@st.composite
def case(draw, cls, geo=False):
    c = draw(wrap.setting(cls, geo, dups=True))
    n = len(c["pts"])
    c["targets"] = draw(gen.targets_for(c, 1, 6))
    names = draw(st.sampled_from(LABELS))
    k = draw(st.integers(2, min(len(names), n, 5)))
    names = names[:k]
    idx = draw(st.lists(st.integers(0, k - 1), min_size=n, max_size=n))
    for i in range(k):  # every class occurs
        idx[i] = i
    c["label"] = [names[i] for i in draw(st.permutations(idx))]
    d = draw(st.integers(1, 2))
    c["clf"] = draw(st.sampled_from(CLF))
    c["p"] = draw(rows(n, d))
    c["pt"] = draw(rows(len(c["targets"]), d))
    c["tile"] = draw(wrap.tile())
    # an earlier fit, perhaps with other labels and another number of classes
    c["refit"] = draw(st.sampled_from([None, None, None, "rolled", "two", "other", "more"]))
    return c


def earlier(c, y):
    """Labels of the earlier fit."""
    n, how = len(y), c["refit"]
    if how == "rolled":
        return np.roll(y, 1)
    if how == "two":  # fewer classes
        return np.where(y == y[0], y[0], [v for v in y if v != y[0]][0])
    if how == "other":  # the same number of classes, other names
        return np.array(["n%d" % (9 - sorted(set(y)).index(v)) for v in y])
    return np.arange(n) % min(n, 6) + 100  # more classes


@st.composite
def large(draw):
    kinds = [(k, False) for k in ("OK", "UK", "OK3D", "UK3D")] + [("OK", True)]
    c = draw(wrap.large(*draw(st.sampled_from(kinds))))
    c["names"] = draw(st.sampled_from(LABELS + [[7 * i % 13 for i in range(13)]]))
    c["names"] = c["names"][: draw(st.integers(2, min(13, 2 + len(c["names"]))))]
    c["clf"] = draw(st.sampled_from(CLF))
    c["tile"] = c["refit"] = None
    return c


def check_large(c):
    e = wrap.grow(c)
    rng = np.random.RandomState(c["seed"])
    n, k = len(e["pts"]), len(c["names"])
    e["label"] = [c["names"][i] for i in rng.permutation(np.r_[np.arange(k), rng.randint(0, k, n - k)])]
    e["p"] = (rng.randint(-12, 13, (n, 2)) / 4.0).tolist()
    e["pt"] = (rng.randint(-12, 13, (len(e["targets"]), 2)) / 4.0).tolist()
    return check_ck(e)


def check_ck(c):
    from pykrige.ck import ClassificationKriging, ilr_transformation

    P, X, y = np.array(c["p"], float), np.array(c["pts"], float), np.array(c["label"])
    names = np.array(sorted(set(c["label"])))
    k = len(names)
    own = classifier(c["clf"])
    own.fit(P, y)
    check(list(own.classes_) == list(names), "classes")
    hot = np.array([[1.0 if v == u else 0.0 for u in names] for v in c["label"]])
    ilr = lambda q: np.asarray(call("ilr_transformation", ilr_transformation, q), float)
    V = ilr(np.exp(np.eye(k)))  # coordinates of the parts: a basis of the simplex
    resid = ilr(hot) - ilr(own.predict_proba(P))
    if not np.all(np.isfinite(own.predict_proba(np.vstack([P, np.array(c["pt"], float)])))):
        raise Reject("the classifier gives no probabilities")
    keep = [list(q) for q in c["targets"]]
    D = []
    for j in range(k - 1):
        auto = c["model"].get("params") is None and c["model"]["name"] != "gstools"
        if auto and np.max(np.abs(resid[:, j])) < 1e-6:
            raise Reject("a fit to rounding errors")
        D.append(wrap.Direct(dict(c, val=[float(v) for v in resid[:, j]])))
        if j == 0:
            keep = D[0].keep(keep)
    use = [i for i, q in enumerate(c["targets"]) if list(q) in keep]
    t = np.array([c["targets"][i] for i in use], float)
    pt = np.array(c["pt"], float)[use]

    def expect(t, pt):
        cols = [q.at(t) for q in D]
        res = np.array([q[0] for q in cols]).T
        tol = np.array([q[2] for q in cols]).T + 1e-9
        clr = (res + ilr(own.predict_proba(pt))) @ V.T
        s = np.sort(clr, axis=1)
        sure = s[:, -1] - s[:, -2] > 4 * np.max(tol, axis=1) + 1e-6
        return res, tol, names[np.argmax(clr, axis=1)], sure

    res, tol, lab, sure = expect(t, pt)
    ck = call("ClassificationKriging", ClassificationKriging, classifier(c["clf"]), **wrap.krige_args(c))
    if c["refit"]:
        try:  # with other data, which need not have a fit
            wrap.quiet(ck.fit, P[::-1].copy(), X, earlier(c, y))
            for b in [None] + kcase.backends(c, wrap.window(c)):
                wrap.quiet(ck.predict, pt, t, **({} if b is None else dict(backend=b)))
        except Exception:
            pass
    wrap.quiet(call, "ClassificationKriging.fit", ck.fit, P, X, y)
    check(list(ck.classes_) == list(names), "classes_ is %s, labels are %s", ck.classes_, names)
    w = wrap.window(c)
    for b in [None] + kcase.backends(c, w):
        kw = {} if b is None else dict(backend=b)
        r = wrap.again("krige_residual(%s)" % kw, ck.krige_residual, t, **kw)
        close("krige_residual(%s)" % kw, r, res, tol)
        z = np.asarray(wrap.again("predict(%s)" % kw, ck.predict, pt, t, **kw))
        check(z.shape == (len(t),), "predict returns shape %s", z.shape)
        for i in range(len(t)):
            check(not sure[i] or z[i] == lab[i], "predict(%s) at %s is %r, expected %r (residual %s)",
                  kw, t[i], z[i], lab[i], res[i])
        i = wrap.tiles(c, len(t))
        if i is not None:
            r = wrap.quiet(call, "krige_residual, many points", ck.krige_residual, t[i], **kw)
            close("krige_residual(%s), %d points" % (kw, len(i)), r, res[i], tol[i])
            z = np.asarray(wrap.quiet(call, "predict, many points", ck.predict, pt[i], t[i], **kw))
            check(z.shape == (len(i),), "predict returns shape %s for %d points", z.shape, len(i))
            bad = np.flatnonzero(sure[i] & (z != lab[i]))
            check(bad.size == 0, "predict(%s) of %d points is wrong for %d", kw, len(i), bad.size)
    if np.all(sure):
        obs = np.array([names[i % k] for i in range(len(t))])
        for sw in (None, 1.0 + np.arange(len(t))):
            q = np.ones(len(t)) if sw is None else sw
            s = wrap.quiet(call, "score", ck.score, pt, t, obs, **({} if sw is None else dict(sample_weight=sw)))
            close("score", s, np.sum(q * (obs == lab)) / np.sum(q), 1e-9)
    train = False
    if c["exact"] and D[0].slack == 2:
        try:
            if len(D[0].keep(c["pts"])) == len(c["pts"]):
                e = expect(X, P)
                train = bool(np.all(e[3]))
        except Reject:
            pass
        if train:
            z = wrap.quiet(call, "predict at the training locations", ck.predict, P, X)
            check(list(z) == list(y), "training labels %s, predicted %s", list(y), list(z))
            s = wrap.quiet(call, "score", ck.score, P, X, y)
            check(s == 1.0, "score at the training data is %s", s)
    return wrap.labels(c, clf=c["clf"], classes=k, kind=type(c["label"][0]).__name__, train=train, refit=str(c["refit"]),
                       sure=bool(np.all(sure)), nontrivial=bool(np.any(sure)))


# ------------------------------------------------------------ transformations
@st.composite
def compositions(draw):
    k = draw(st.integers(2, 7))
    n = draw(st.integers(1, 5))
    log = st.lists(st.integers(-24, 24).map(lambda v: v / 8.0), min_size=k, max_size=k)
    c = dict(a=draw(st.lists(log, min_size=n, max_size=n)), b=draw(st.lists(log, min_size=n, max_size=n)))
    c["k"] = draw(st.sampled_from([1.0, 100.0, 0.25, 7, 1e6]))
    c["f"] = draw(st.sampled_from([0.5, -1.0, 2.0, 0.0]))
    c["u"] = draw(st.lists(st.lists(st.integers(-40, 40).map(lambda v: v / 4.0), min_size=k - 1, max_size=k - 1),
                           min_size=n, max_size=n))
    c["big"] = draw(st.sampled_from([1.0, 10.0, 100.0]))
    c["zero"] = draw(st.lists(st.booleans(), min_size=k, max_size=k))
    return c


@st.composite
def many_parts(draw):
    return dict(parts=draw(st.integers(2, 60)), rows=draw(st.sampled_from([1, 3, 30, 200, 1500])),
                seed=draw(st.integers(0, 2**31 - 1)), k=draw(st.sampled_from([1.0, 100.0, 0.25, 7, 1e6])),
                f=draw(st.sampled_from([0.5, -1.0, 2.0, 0.0])), big=draw(st.sampled_from([1.0, 10.0, 100.0])),
                spread=draw(st.sampled_from([0.0, 0.5, 3.0])))


def check_many_parts(c):
    """The same for compositions of many parts and for many of them."""
    rng = np.random.RandomState(c["seed"])
    n, k = c["rows"], c["parts"]
    e = {q: c[q] for q in ("k", "f", "big")}
    e["a"], e["b"] = c["spread"] * rng.uniform(-1, 1, (2, n, k))
    e["u"] = rng.uniform(-10, 10, (n, k - 1)) / max(1.0, (k / 8.0) ** 0.5)
    e["zero"] = rng.uniform(size=k) < 0.3
    return check_laws(e)


def check_laws(c):
    from pykrige.ck import closure, ilr_transformation, inverse_ilr_transformation

    A, B = np.exp(np.array(c["a"])), np.exp(np.array(c["b"]))
    n, k = A.shape
    a, b = A / A.sum(axis=1)[:, None], B / B.sum(axis=1)[:, None]

    def f(fn, x, *r, **kw):
        y = x.copy()
        out = call(fn.__name__, fn, y, *r, **kw)
        check(np.array_equal(x, y), "%s modifies its argument", fn.__name__)
        return np.asarray(out, float)

    # closure
    close("closure", f(closure, A), a, 1e-12)
    for how in ("positional", "keyword"):
        q = f(closure, A, c["k"]) if how == "positional" else f(closure, A, k=c["k"])
        close("row sums after closure", q.sum(axis=1), np.full(n, float(c["k"])), 1e-12 * c["k"])
        close("ratios after closure", q * A[:, :1], q[:, :1] * A, 1e-12 * c["k"] * np.max(A) )
    Z = np.where(np.array(c["zero"])[None, :], 0.0, A)
    if np.all(Z.sum(axis=1) > 0):
        close("closure with zeros", f(closure, Z), Z / Z.sum(axis=1)[:, None], 1e-12)
        ints = np.round(Z * 8).astype(int)
        if np.all(ints.sum(axis=1) > 0):
            close("closure of integers", f(closure, ints), ints / ints.sum(axis=1)[:, None], 1e-12)
    # isometry
    ia, ib = f(ilr_transformation, a), f(ilr_transformation, b)
    check(ia.shape == (n, k - 1), "ilr of %s has shape %s", (n, k), ia.shape)
    clr = lambda v: np.log(v) - np.log(v).mean(axis=1)[:, None]
    close("Aitchison distance", np.linalg.norm(ia - ib, axis=1), np.linalg.norm(clr(a) - clr(b), axis=1), 1e-10)
    close("Aitchison norm", np.linalg.norm(ia, axis=1), np.linalg.norm(clr(a), axis=1), 1e-10)
    close("Aitchison inner product", np.sum(ia * ib, axis=1), np.sum(clr(a) * clr(b), axis=1), 1e-9)
    # linear over the simplex
    ab = a * b
    close("ilr of a perturbation", f(ilr_transformation, ab / ab.sum(axis=1)[:, None]), ia + ib, 1e-10)
    af = a ** c["f"]
    close("ilr of a power", f(ilr_transformation, af / af.sum(axis=1)[:, None]), c["f"] * ia, 1e-10)
    close("ilr of scaled rows", f(ilr_transformation, 3.0 * a), ia, 1e-10)
    # rows are transformed independently
    for i in range(n):
        close("ilr of a row", f(ilr_transformation, a[i : i + 1])[0], ia[i], 1e-11)
    # inverse
    close("inverse of ilr", f(inverse_ilr_transformation, ia), a, 1e-11)
    U = np.array(c["u"], float).reshape(n, k - 1)
    x = f(inverse_ilr_transformation, U)
    check(x.shape == (n, k), "inverse ilr of %s has shape %s", U.shape, x.shape)
    close("row sums of the inverse", x.sum(axis=1), np.ones(n), 1e-12)
    if np.min(x) > 1e-14:
        close("ilr of the inverse", f(ilr_transformation, x), U, 1e-9)
    U = U * c["big"]
    x = f(inverse_ilr_transformation, U)
    close("row sums of the inverse far from the centre", x.sum(axis=1), np.ones(n), 1e-12)
    check(np.min(x) >= 0, "negative part %s", np.min(x))
    V = f(ilr_transformation, np.exp(np.eye(k)))
    g = U @ V.T
    close("log ratios of the inverse far from the centre", x, np.exp(g - g.max(axis=1)[:, None]) /
          np.exp(g - g.max(axis=1)[:, None]).sum(axis=1)[:, None], 1e-9)
    # zero parts
    if np.all(Z.sum(axis=1) > 0):
        z = Z / Z.sum(axis=1)[:, None]
        q = f(ilr_transformation, z)
        check(np.all(np.isfinite(q)), "ilr of a composition with zeros is %s", q)
        close("inverse of ilr with zeros", f(inverse_ilr_transformation, q), z, 1e-9)
    return dict(parts=k, rows=n, zeros=any(c["zero"]), big=c["big"], nontrivial=bool(np.ptp(ia) > 0))


TESTS = [
    T("laws", compositions(), check_laws, 3000),
    T("many-parts", many_parts(), check_many_parts, 200),
    T("OK", case("OK"), check_ck, 400),
    T("geographic", case("OK", geo=True), check_ck, 200),
    T("UK", case("UK"), check_ck, 350),
    T("OK3D", case("OK3D"), check_ck, 300),
    T("UK3D", case("UK3D"), check_ck, 250),
    T("large", large(), check_large, 120),
]
