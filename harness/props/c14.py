"""C14: statistics of the variogram fit."""
import contextlib
import io
import random

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, call, check, close
from proptest import T
from props import blup

CUT = 1e-10  # prediction variances (and errors) up to this count as zero


@st.composite
def case(draw, cls, geo=False, nmin=3, nmax=13):
    c = draw(gen.kcase(cls, nmin, nmax, geo=geo, drifts=["regional", "func"], big=True))
    if cls.startswith("UK"):
        # statistics use ordinary kriging whatever the drift
        c["drift"] = {"regional": True} if draw(st.booleans()) else {}
        if len(c["pts"]) < 6:
            c["drift"] = {}
    dup = draw(st.sampled_from(["none", "none", "last", "pinv", "pinv"]))
    n = len(c["pts"])
    if dup == "last":
        c["pts"].append(list(c["pts"][draw(st.integers(0, n - 1))]))
        c["val"].append(c["val"][0] + 1.0)
    elif dup == "pinv":
        c["pinv"] = draw(st.sampled_from(["pinv", "pinvh"]))
        if not nugget(c):
            for _ in range(draw(st.integers(1, 3))):
                i = draw(st.integers(0, len(c["pts"]) - 1))
                j = draw(st.integers(i + 1, len(c["pts"])))
                c["pts"].insert(j, list(c["pts"][i]))
                c["val"].insert(j, draw(st.integers(-40, 40)) / 4.0)
    c["how"] = draw(st.sampled_from(["ctor", "update", "update2"]))
    c["first"] = draw(gen.geo_model() if geo else gen.model(c["frame"]))
    return c


def nugget(c):
    return blup._nugget(c)


def expected(c):
    """epsilon residuals, their tolerances, prediction standard errors."""
    R = kcase.Reference(c)
    pts, v = R.pts, R.val
    eps, teps, sig, tsig = [], [], [], []
    for i in range(1, len(pts)):
        # merge coincident earlier points (their mean)
        keys, groups = [], []
        for j in range(i):
            same = [q for q, k in enumerate(keys) if R.coincide(pts[j][None, :])[0][k]]
            if same:
                groups[same[0]].append(j)
            else:
                keys.append(j)
                groups.append([j])
        if len(keys) < i and not (c.get("pinv") and not nugget(c)):
            raise Reject("duplicates without pseudo-inverse")
        a = R.apts[keys]
        z = np.array([np.mean(v[g]) for g in groups])
        D = ref.dist(a, a, R.coord)
        try:
            s = ref.System(R.g, D, np.ones((len(keys), 1)), R.dd)
            if len(keys) < i and s.cond > 1e8:
                raise Reject("ill-conditioned for a pseudo-inverse")
            same = R.coincide(pts[i][None, :])[:, keys]
            d = np.where(same, 0.0, ref.dist(R.apts[i][None, :], a, R.coord))
            est, var, te, tv = s.krige(d, same, np.ones((1, 1)), z)
        except ref.IllConditioned as e:
            raise Reject(str(e))
        est, var, te, tv = (float(q[0]) for q in (est, var, te, tv))
        if len(keys) < i:
            te, tv = 30 * te, 30 * tv
        if bool(same.any()):
            if tv >= CUT:
                raise Reject("zero variance not resolved")
            continue  # exact: no information
        # the residual is kept when variance and standard error exceed CUT
        if var - tv <= 2 * CUT or np.sqrt(max(var - tv, 0)) <= 2 * CUT or tv > 1e-3 * var:
            raise Reject("variance too small to be classified")
        sd = np.sqrt(var)
        ts = tv / (2 * np.sqrt(var - tv)) + 1e-15 * sd
        e = (v[i] - est) / sd
        sig.append(sd)
        tsig.append(ts)
        eps.append(e)
        teps.append((te + abs(e) * ts) / (sd - ts) + 1e-13 * abs(v[i]) / sd)
    return [np.array(q) for q in (eps, teps, sig, tsig)]


def make(c):
    full = dict(kcase.variogram_args(c["model"]))
    if c.get("coord") != "geographic":
        full.update(kcase.aniso_args(c))
    if c["how"] == "ctor":
        return kcase.build(c, **({"enable_statistics": True} if c["cls"] == "OK" else {}))
    start = dict(c, model=c["first"])
    if c.get("coord") != "geographic":
        start["scale"], start["angle"] = [1.5] * len(c["scale"]), [33.0] * len(c["angle"])
    kw = {"enable_statistics": True} if c["cls"] == "OK" and c["how"] == "update2" else {}
    obj = kcase.build(start, **kw)
    call("update_variogram_model", obj.update_variogram_model, **full)
    return obj


def check_stats(c):
    eps, teps, sig, tsig = expected(c)
    n = len(eps)
    obj = make(c)
    got = call("get_epsilon_residuals", obj.get_epsilon_residuals)
    check(np.shape(got) == (n,), "%s residuals, expected %d", np.shape(got), n)
    close("epsilon residuals", got, eps, teps)
    q = call("get_statistics", obj.get_statistics)
    check(len(q) == 3, "get_statistics returned %d values", len(q))
    if n >= 2:
        q1 = abs(eps.sum()) / (n - 1)
        q2 = (eps**2).sum() / (n - 1)
        t1 = teps.sum() / (n - 1) + 1e-13 * np.abs(eps).sum()
        t2 = (2 * np.abs(eps) * teps + teps**2).sum() / (n - 1) + 1e-13 * q2
        close("Q1", q[0], q1, t1)
        close("Q2", q[1], q2, t2)
        gm = np.exp(np.mean(np.log(sig**2)))
        rel = float(np.exp(np.mean(2 * tsig / (sig - tsig))) - 1) + 1e-12
        close("cR", q[2], q2 * gm, gm * (t2 + q2 * rel) * 1.01)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        call("print_statistics", obj.print_statistics)
    for nm, v in zip(("Q1", "Q2", "cR"), q):
        check(any(nm in ln and str(v) in ln for ln in out.getvalue().splitlines()),
              "print_statistics does not show %s = %s", nm, v)
    return blup.labels(c, how=c["how"], pinv=str(c.get("pinv")), coord=c.get("coord", "euclidean"),
                       skipped=n < len(c["pts"]) - 1, nontrivial=n >= 3)


@st.composite
def many(draw, cls, geo=False):
    c = draw(gen.many(cls, geo=geo, nmax=90, nodes=1))
    c["n"] = draw(st.integers(40, 100))
    if cls.startswith("UK"):
        c["drift"] = {"regional": True}
    c["exact"] = True
    c["how"] = draw(st.sampled_from(["ctor", "update", "update2"]))
    c["first"] = draw(gen.geo_model() if geo else gen.model(c["frame"]))
    return c


def check_many(small):
    c = gen.expand(small)
    lab = check_stats(c)
    lab["magnitude"] = int(np.log10(max(c["model"]["params"][0], 1e-12)))
    return lab


@st.composite
def long(draw, cls, geo=False):
    c = draw(many(cls, geo))
    # spread by the seed, as few cases are run
    r = random.Random(c["seed"])
    c["n"] = r.randint(110, 420)
    c["at"] = sorted({r.randint(1, c["n"] - 1) for _ in range(8)} | {c["n"] - 1, c["n"] - 2})
    return c


def check_long(small):
    """Some of the residuals of a long data set, the statistics from all of them."""
    c = gen.expand(small)
    R = kcase.Reference(dict(c, drift={}))  # ordinary kriging whatever the drift
    obj = make(c)
    got = call("get_epsilon_residuals", obj.get_epsilon_residuals)
    n = len(c["pts"])
    judged = 0
    for i in c["at"]:
        if i >= n:
            continue
        try:
            est, var, te, tv = (float(q[0]) for q in R.krige(R.pts[i], idx=range(i), exact=True))
        except Reject:
            continue
        R._sys.clear()
        if var - tv <= 2 * CUT or np.sqrt(max(var - tv, 0)) <= 2 * CUT or tv > 1e-3 * var:
            raise Reject("variance too small to be classified")
        if np.shape(got) != (n - 1,):
            # are there others that may have been left out?
            for j in range(1, n):
                est, var, te, tv = (float(q[0]) for q in R.krige(R.pts[j], idx=range(j), exact=True))
                R._sys.clear()
                if var - tv <= 2 * CUT or tv > 1e-3 * var:
                    raise Reject("variance too small to be classified")
            check(False, "%s residuals, expected %d", np.shape(got), n - 1)
        sd = np.sqrt(var)
        e, ts = (R.val[i] - est) / sd, tv / (2 * np.sqrt(var - tv)) + 1e-15 * sd
        close("epsilon residual of datum %d" % i, got[i - 1], e, (te + abs(e) * ts) / (sd - ts) + 1e-13 * abs(R.val[i]) / sd)
        judged += 1
    if not judged:
        raise Reject("ill-conditioned")
    q = call("get_statistics", obj.get_statistics)
    m = len(got)
    close("Q1", q[0], abs(np.sum(got)) / (m - 1), 1e-12 * np.sum(np.abs(got)))
    close("Q2", q[1], np.sum(np.square(got)) / (m - 1), 1e-12 * np.sum(np.square(got)))
    return blup.labels(c, how=c["how"], coord=c.get("coord", "euclidean"), data="<=200" if n <= 200 else ">200", nontrivial=judged > 2)


def check_none(c):
    c = dict(c, pts=c["pts"][:3], val=c["val"][:3], pinv=None)
    if c["pts"][2] in c["pts"][:2] or c["pts"][0] == c["pts"][1]:
        raise Reject("duplicates")
    for kw in ({}, {"enable_statistics": False}):
        obj = kcase.build(c, **kw)
        check(obj.get_epsilon_residuals() is None, "residuals without enabled statistics")
        check(all(v is None for v in obj.get_statistics()), "statistics without being enabled")
        call("print_statistics", obj.print_statistics)
    return dict(nontrivial=True)


TESTS = [
    T("OK", case("OK"), check_stats, 800),
    T("geographic", case("OK", geo=True), check_stats, 400),
    T("OK3D", case("OK3D"), check_stats, 400),
    T("UK", case("UK"), check_stats, 350),
    T("UK3D", case("UK3D"), check_stats, 350),
    T("none", case("OK"), check_none, 60),
    T("larger-OK", case("OK", nmin=14, nmax=36), check_stats, 80),
    T("larger-OK3D", case("OK3D", nmin=14, nmax=40), check_stats, 80),
    T("larger-UK", case("UK", nmin=14, nmax=36), check_stats, 80),
    T("larger-UK3D", case("UK3D", nmin=14, nmax=40), check_stats, 80),
    T("many-OK", many("OK"), check_many, 48),
    T("many-geographic", many("OK", True), check_many, 24),
    T("many-OK3D", many("OK3D"), check_many, 24),
    T("many-UK", many("UK"), check_many, 24),
    T("many-UK3D", many("UK3D"), check_many, 24),
    T("long-OK", long("OK"), check_long, 32),
    T("long-geographic", long("OK", True), check_long, 16),
    T("long-OK3D", long("OK3D"), check_long, 24),
    T("long-UK", long("UK"), check_long, 16),
    T("long-UK3D", long("UK3D"), check_long, 16),
]
