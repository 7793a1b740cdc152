"""C28: copies, other objects and concurrent calls."""
import copy
import pickle
import sys
import threading

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import Reject, Violation, call, check, close
from proptest import T
from props import blup, wrap
from props.c18 import gsmodel

CLS = ["OK", "OK3D", "UK", "UK3D"]


# ------------------------------------------------------------- problem variants
@st.composite
def base(draw, cls, geo=False, gs=True):
    nmin = {"UK": 8, "UK3D": 9}.get(cls, 3)
    c = draw(gen.kcase(cls, nmin, nmin + 6, geo=geo, exact="any", pinv=True))
    if gs and draw(st.integers(0, 6)) == 0:
        c.update(draw(gsmodel(kcase.dim(c), c["frame"], geo)))
    return c


@st.composite
def variant(draw, c):
    """A problem that shares most of its ingredients with c."""
    v = dict(c)
    geo = c.get("coord") == "geographic"
    what = draw(st.sampled_from(["val", "model", "model", "pts", "exact", "aniso"]))
    if what == "aniso" and (geo or c["model"]["name"] == "gstools"):
        what = "model"
    if what == "val":
        v["val"] = [2.0 * a + 1.0 + i for i, a in enumerate(c["val"])]
    elif what == "model":
        v["model"] = draw(gen.geo_model() if geo else gen.model(c["frame"]))
        if c["model"]["name"] == "gstools":
            d = kcase.dim(c)
            v["scale"], v["angle"] = ([1.0], [0.0]) if d == 2 else ([1.0] * 2, [0.0] * 3)
    elif what == "pts":
        q = 0.125 * c["frame"][1] * (1.0 if not geo else 8.0)
        v["pts"] = [[p[0] + q * (1 + i % 3)] + list(p[1:]) for i, p in enumerate(c["pts"])]
    elif what == "exact":
        v["exact"] = not c["exact"]
    else:
        v["scale"], v["angle"] = draw(gen.anisotropy(kcase.dim(c), 9))
    return v


def params(c):
    kw = dict(kcase.variogram_args(c["model"]))
    if c.get("coord") != "geographic":
        kw.update(kcase.aniso_args(c))
    return kw


def run(c, obj, t, style, backend, window):
    """Results of one execution as plain arrays, points first."""
    bs = [b for b in kcase.backends(c, window) if c["cls"] == "OK" or b != "C"]
    b = backend if backend in bs else bs[0]
    t = np.array(t, float)
    if style == "points":
        return [np.array(a) for a in kcase.points(c, obj, t, b, window)]
    axes = list(t[:2].T)
    shape = tuple(len(a) for a in reversed(axes))
    m = np.zeros(shape, bool)
    if style == "masked":
        m.ravel()[:: 2] = True
        z = kcase.execute(c, obj, "masked", axes, b, window, mask=m)
    else:
        z = kcase.execute(c, obj, "grid", axes, b, window)
    for a in z:
        check(np.shape(a) == shape, "%s result of shape %s", style, np.shape(a))
    return [np.where(m, 0.0, np.ma.getdata(a)).ravel() for a in z]


def tolerance(c, t, style, window):
    R = kcase.Reference(c)
    t = np.array(t, float)
    if style != "points":
        t = kcase.grid_targets(list(t[:2].T))
    if window:
        R.nearest(t, window)
        w = R.krige_window(t, window)
    else:
        w = R.krige(t)
    return [2 * w[2], 2 * w[3]]


def same(what, got, want, tol):
    close(what + ": estimates", got[0], want[0], tol[0])
    close(what + ": variances", got[1], want[1], tol[1])


# --------------------------------------------------------------------- copies
@st.composite
def copies(draw, cls, geo=False):
    c = draw(base(cls, geo))
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["other"] = draw(variant(c))["model"]
    c["aniso2"] = None
    if not geo and c["other"]["name"] != "gstools" and draw(st.booleans()):
        c["aniso2"] = list(draw(gen.anisotropy(kcase.dim(c), 9)))
    c["how"] = draw(st.sampled_from(["deepcopy", "pickle0", "pickle2", "pickle5", "copy"]))
    c["before"] = draw(st.booleans())
    c["which"] = draw(st.booleans())
    c["stat"] = draw(st.booleans())
    if cls in ("OK", "OK3D"):
        c["window"] = draw(st.one_of(st.none(), st.integers(2, len(c["pts"]))))
    return c


def duplicate(how, obj):
    if how == "deepcopy":
        return call("deepcopy", copy.deepcopy, obj)
    if how == "copy":
        return call("copy", copy.copy, obj)
    return call("unpickling", pickle.loads, call("pickling", pickle.dumps, obj, int(how[-1])))


def state(obj):
    """Everything the accessors tell."""
    out = [obj.lags, obj.semivariance, obj.variogram_model_parameters]
    q = call("get_statistics", obj.get_statistics)
    out += [np.nan if v is None else v for v in q]
    e = call("get_epsilon_residuals", obj.get_epsilon_residuals)
    out.append(np.zeros(0) if e is None else e)
    return [np.array(v, float) for v in out]


def same_state(what, a, b):
    for u, v in zip(a, b):
        ok = u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=1e-300, equal_nan=True)
        check(ok, "%s: lags, semivariances, parameters or statistics are %s, expected %s", what, u, v)


def check_copies(c):
    t = c["targets"]
    k = c.get("window")
    R = kcase.Reference(c)
    if k:
        t = R.untied(t, k)
    if c.get("coord") == "geographic" and R.d0(t).max() > 179.5:
        raise Reject("nearly antipodal")
    tol = tolerance(c, t, "points", k)
    n = dict(c, model=c["other"])
    if c["other"]["name"] != "gstools" and c["model"]["name"] == "gstools":
        d = kcase.dim(c)
        n["scale"], n["angle"] = ([1.0], [0.0]) if d == 2 else ([1.0] * 2, [0.0] * 3)
    if c["aniso2"]:
        n["scale"], n["angle"] = c["aniso2"]
    if k:
        kcase.Reference(n).nearest(np.array(t), k)
    tol2 = tolerance(n, t, "points", k)
    over = {"enable_statistics": c["stat"]} if c["cls"] == "OK" else {}
    obj = kcase.build(c, **over)
    b = "loop" if k else "vectorized"
    want = run(c, obj, t, "points", b, k)
    s0 = state(obj)
    if not c["before"]:
        obj = kcase.build(c, **over)
    twin = duplicate(c["how"], obj)
    check(type(twin) is type(obj) and twin is not obj, "the copy is a %s", type(twin).__name__)
    for nm, o in (("copy", twin), ("original", obj)):
        same(nm, run(c, o, t, "points", b, k), want, tol)
        same_state(nm, state(o), s0)
    a, o = (obj, twin) if c["which"] else (twin, obj)
    call("update_variogram_model", a.update_variogram_model, **params(n))
    fresh = kcase.build(n)
    want2 = run(n, fresh, t, "points", b, k)
    same("updated " + ("original" if c["which"] else "copy"), run(n, a, t, "points", b, k), want2, tol2)
    same("the other one after an update", run(c, o, t, "points", b, k), want, tol)
    same_state("the other one after an update", state(o), s0)
    third = duplicate(c["how"], a)
    same("copy of the updated one", run(n, third, t, "points", b, k), want2, tol2)
    same_state("copy of the updated one", state(third), state(a))
    return blup.labels(c, how=c["how"], window=bool(k), nontrivial=True)


# ------------------------------------------------------- estimators as copies
@st.composite
def estimators(draw):
    c = draw(wrap.setting(draw(st.sampled_from(CLS)), auto=False))
    c["targets"] = draw(gen.targets_for(c, 1, 4))
    c["how"] = draw(st.sampled_from(["deepcopy", "pickle2", "pickle5"]))
    c["fitted"] = draw(st.booleans())
    return c


def check_estimators(c):
    from pykrige.compat import Krige

    D = wrap.Direct(c)
    t = D.keep([list(p) for p in c["targets"]])
    e, v, te, tv = D.at(t)
    est = call("Krige", Krige, **wrap.krige_args(c))
    X, y = np.array(c["pts"], float), np.array(c["val"], float)
    if c["fitted"]:
        wrap.quiet(call, "fit", est.fit, X, y)
    twin = duplicate(c["how"], est)
    if not c["fitted"]:
        wrap.quiet(call, "fit of a copy", twin.fit, X, y)
    got = wrap.quiet(call, "predict of a copy", twin.predict, np.array(t, float))
    close("prediction of a copied estimator", kcase.plain("prediction", got, (len(t),)), e, te)
    # fitting the copy with other data leaves the original alone
    if c["fitted"]:
        wrap.quiet(call, "fit of a copy", twin.fit, X, 3.0 * y + 1.0)
        got = wrap.quiet(call, "predict of the original", est.predict, np.array(t, float))
        close("prediction of the original after fitting its copy", kcase.plain("prediction", got, (len(t),)), e, te)
    return wrap.labels(c, how=c["how"], fitted=c["fitted"])


# ----------------------------------------------------------- concurrent threads
WAIT = 3.0  # seconds; then the thread whose turn it is must be waiting for another one


class Baton:
    """Runs threads one at a time; who runs for how many source lines of
    pykrige is given by a schedule, so that an interleaving can be replayed."""

    def __init__(self, n, runs):
        self.cv = threading.Condition()
        self.alive = list(range(n))
        self.runs = list(runs)
        self.turn, self.left, self.free, self.switches = 0, self.run(), False, 0
        self.lines = [0] * n

    def run(self):
        return self.runs.pop(0) if self.runs else 10**9

    def pass_on(self):
        later = [i for i in self.alive if i > self.turn] or self.alive
        if later:
            if later[0] != self.turn:
                self.switches += 1
            self.turn = later[0]
        self.left = self.run()
        self.cv.notify_all()

    def step(self, me):
        with self.cv:
            self.lines[me] += 1
            if self.turn == me and not self.free:
                self.left -= 1
                if self.left < 0:
                    self.pass_on()
            while self.turn != me and not self.free:
                if not self.cv.wait(WAIT):
                    self.free = True
                    self.cv.notify_all()

    def done(self, me):
        with self.cv:
            self.alive.remove(me)
            if self.turn == me:
                self.pass_on()


def together(jobs, runs):
    """Runs the jobs (callables) in interleaved threads."""
    import pykrige

    root = pykrige.__file__.rsplit("/", 1)[0]
    baton = Baton(len(jobs), runs)
    out = [None] * len(jobs)

    def work(me):
        def line(frame, event, arg):
            if event == "line":
                baton.step(me)
            return line

        def tracer(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(root) else None

        try:
            baton.step(me)
            sys.settrace(tracer)
            out[me] = (jobs[me](), None)
        except BaseException as e:  # noqa: BLE001
            out[me] = (None, e)
        finally:
            sys.settrace(None)
            baton.done(me)

    th = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    for _, e in out:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise e
    return out, baton


@st.composite
def one_job(draw, cls, c, i, like=None):
    j = dict(obj=i, do=draw(st.sampled_from(["execute", "execute", "execute", "build", "update"])))
    if like is not None and draw(st.integers(0, 3)):
        j.update({k: like[k] for k in ("do", "style", "backend", "window") if k in like})
        n = len(like["targets"]) if draw(st.booleans()) else draw(st.integers(2, 4))
        j["targets"] = draw(gen.targets_for(c, n, n))
        return j
    j["style"] = draw(st.sampled_from(["points", "points", "grid", "masked"]))
    j["backend"] = draw(st.sampled_from(["loop", "vectorized", "loop", "C"]))
    j["targets"] = draw(gen.targets_for(c, 2, 4))
    if cls in ("OK", "OK3D"):
        j["window"] = draw(st.one_of(st.none(), st.none(), st.integers(2, len(c["pts"]))))
    if cls in ("OK3D", "UK3D"):
        j["style"] = "points"
    return j


@st.composite
def threads(draw, cls, geo=False):
    probs = [draw(base(cls, geo))]
    for _ in range(draw(st.integers(0, 2))):
        probs.append(draw(variant(probs[0])))
    jobs = []
    for _ in range(draw(st.integers(2, 3))):
        i = draw(st.integers(0, len(probs) - 1))
        jobs.append(draw(one_job(cls, probs[i], i, jobs[0] if jobs else None)))
    # a schedule: how many lines the threads run in turn
    runs = [draw(st.integers(0, 150))] + draw(st.lists(st.integers(1, 60), max_size=10))
    return dict(probs=probs, jobs=jobs, runs=runs, step=draw(st.integers(1, 13)), seed=draw(st.integers(0, 9999)))


def schedule(h):
    r = np.random.RandomState(h["seed"])
    return h["runs"] + r.randint(1, h["step"] + 1, 400).tolist()


def prepare(h):
    """The jobs with their expected results, each from objects of its own."""
    probs, jobs = h["probs"], []
    for j in h["jobs"]:
        c = probs[j["obj"]]
        j = dict(j)
        k = j.get("window")
        R = kcase.Reference(c)
        t = np.array(j["targets"], float)
        if c.get("coord") == "geographic" and R.d0(kcase.grid_targets(list(t.T))).max() > 179.5:
            raise Reject("nearly antipodal")
        if c.get("drift", {}).get("extz"):
            t = np.array(gen.clip_ext(c, t.tolist()))
        j["targets"] = t.tolist()
        if k:
            R.nearest(t if j["style"] == "points" else kcase.grid_targets(list(t[:2].T)), k)
        j["tol"] = tolerance(c, t, j["style"], k)
        jobs.append(j)
    for j in jobs:
        c = probs[j["obj"]]
        j["want"] = run(c, kcase.build(c), j["targets"], j["style"], j["backend"], j.get("window"))
    return jobs


def task(probs, shared, j):
    c = probs[j["obj"]]

    def go():
        if j["do"] == "execute":
            o = shared[j["obj"]]
        elif j["do"] == "build":
            o = kcase.build(c)
        else:  # an object of its own with another model, updated
            o = kcase.build(dict(c, model=dict(name="linear", params=[1.0 / c["frame"][1], 0.5], form="list")))
            call("update_variogram_model", o.update_variogram_model, **params(c))
        return run(c, o, j["targets"], j["style"], j["backend"], j.get("window"))

    return go


def judge(probs, jobs, out):
    for i, (j, (got, err)) in enumerate(zip(jobs, out)):
        what = "thread %d of %d (%s %s, %s)" % (i, len(jobs), probs[0]["cls"], j["do"], j["style"])
        if err is not None:
            if isinstance(err, (Violation, Reject)):
                raise type(err)("%s: %s" % (what, err))
            raise Violation("%s raised %r" % (what, err))
        same(what, got, j["want"], j["tol"])


def settle(probs, jobs, shared):
    """Afterwards the shared objects are as before."""
    for i, (c, o) in enumerate(zip(probs, shared)):
        for j in jobs:
            if j["obj"] == i:
                same("after the threads", run(c, o, j["targets"], j["style"], j["backend"], j.get("window")), j["want"], j["tol"])


def check_threads(h):
    probs = h["probs"]
    jobs = prepare(h)
    shared = [kcase.build(c) for c in probs]
    out, baton = together([task(probs, shared, j) for j in jobs], schedule(h))
    judge(probs, jobs, out)
    settle(probs, jobs, shared)
    switches = baton.switches
    return blup.labels(probs[0], threads=len(jobs), objects=len(probs), shared=len({j["obj"] for j in jobs}) < len(jobs),
                       switches="0" if not switches else "<=5" if switches <= 5 else ">5", nontrivial=switches > 0)


# every single interruption of one call by another whole call
@st.composite
def interrupted(draw, cls, geo=False):
    c = draw(base(cls, geo))
    probs = [c]
    i = draw(st.integers(0, 2))
    if i:
        probs.append(draw(variant(c)))
        i = 1
    a = draw(one_job(cls, c, 0))
    a["do"] = draw(st.sampled_from(["execute", "execute", "execute", "build"]))
    b = draw(one_job(cls, probs[i], i, a))
    return dict(probs=probs, jobs=[a, b])


def check_interrupted(h):
    probs = h["probs"]
    jobs = prepare(h)
    shared = [kcase.build(c) for c in probs]
    todo = [task(probs, shared, j) for j in jobs]
    out, baton = together(todo, [10**9])
    judge(probs, jobs, out)
    n = baton.lines[0]
    points = range(n) if n <= 160 else sorted(set(np.linspace(0, n - 1, 160).astype(int).tolist()))
    free = False
    for k in points:
        out, baton = together(todo, [k, 10**9])
        judge(probs, jobs, out)
        if baton.free:  # the code keeps other threads out
            free = True
            break
    settle(probs, jobs, shared)
    return blup.labels(probs[0], lines=50 * (n // 50), do="%s/%s" % (jobs[0]["do"], jobs[1]["do"]), locked=free,
                       same=jobs[0]["obj"] == jobs[1]["obj"], nontrivial=n > 1)


TESTS = [
    T("threads-OK", threads("OK"), check_threads, 320),
    T("threads-geographic", threads("OK", geo=True), check_threads, 120),
    T("threads-OK3D", threads("OK3D"), check_threads, 200),
    T("threads-UK", threads("UK"), check_threads, 240),
    T("threads-UK3D", threads("UK3D"), check_threads, 200),
    T("interrupted-OK", interrupted("OK"), check_interrupted, 160),
    T("interrupted-geographic", interrupted("OK", geo=True), check_interrupted, 48),
    T("interrupted-OK3D", interrupted("OK3D"), check_interrupted, 80),
    T("interrupted-UK", interrupted("UK"), check_interrupted, 120),
    T("interrupted-UK3D", interrupted("UK3D"), check_interrupted, 80),
    T("copies-OK", copies("OK"), check_copies, 300),
    T("copies-geographic", copies("OK", geo=True), check_copies, 120),
    T("copies-OK3D", copies("OK3D"), check_copies, 160),
    T("copies-UK", copies("UK"), check_copies, 240),
    T("copies-UK3D", copies("UK3D"), check_copies, 160),
    T("estimators", estimators(), check_estimators, 240),
    T("copies-grown-OK", gen.grown(copies("OK")), gen.larger(check_copies), 32),
    T("copies-grown-geographic", gen.grown(copies("OK", geo=True)), gen.larger(check_copies), 32),
    T("copies-grown-OK3D", gen.grown(copies("OK3D")), gen.larger(check_copies), 32),
    T("copies-grown-UK", gen.grown(copies("UK")), gen.larger(check_copies), 32),
    T("copies-grown-UK3D", gen.grown(copies("UK3D")), gen.larger(check_copies), 32),
]
