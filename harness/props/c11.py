"""C11: symmetries of kriging."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

import gen
import kcase
from common import close
from proptest import T
from props import blup

OPS = ["affine", "order", "translate", "rotate", "reflect", "vscale", "premap", "swap"]


@st.composite
def case(draw, cls, ops=OPS, must=False):
    nmin = {"UK": 7, "UK3D": 9}.get(cls, 3)
    dim = 3 if cls.endswith("3D") else 2
    op = draw(st.sampled_from(ops))
    kinds = ["regional", "wells", "spec"] if dim == 2 else ["regional", "spec"]
    if op in ("affine", "order", "vscale"):
        kinds = None
    c = draw(gen.kcase(cls, nmin, nmin + 8, drifts=["regional", "func"] if must else kinds, must_drift=must, exact="any", pinv=True,
                       aniso=op not in ("rotate", "reflect", "swap"), big=op != "translate"))
    if op in ("rotate", "reflect", "swap"):
        c["scale"] = [1.0] * len(c["scale"])
    c["op"] = op
    c["targets"] = draw(gen.targets_for(c, 1, 6))
    n = len(c["pts"])
    if op == "affine":
        c["ab"] = [draw(st.sampled_from([2.0, -1.0, 0.5, -3.25, 0.0])),
                   draw(st.sampled_from([0.0, 1.0, -17.5, 1000.0]))]
        c["other"] = draw(gen.values(n))
    elif op == "order":
        c["perm"] = draw(st.permutations(range(n)))
        c["tperm"] = draw(st.permutations(range(len(c["targets"]))))
    elif op == "translate":
        c["by"] = [c["frame"][1] * draw(st.sampled_from([0.5, -3.0, 64.0, -517.0, 2.0**17, -(2.0**21)][: None if cls.startswith("OK") else 4])) for _ in range(dim)]
    elif op == "rotate":
        c["rot"] = [draw(st.sampled_from([17.0, 45.0, 90.0, 123.0, -60.0])) for _ in range(1 if dim == 2 else 3)]
    elif op == "reflect":
        c["axis"] = draw(st.integers(0, dim - 1))
    elif op == "swap":
        c["axis"] = draw(st.integers(0, dim - 2))
    elif op == "vscale":
        c["c"] = draw(st.sampled_from([0.01, 0.5, 3.0, 40.0, 1e-9, 1e-6, 1e7]))
    if cls in ("OK", "OK3D"):
        c["window"] = draw(st.one_of(st.none(), st.none(), st.integers(2, n)))
    c["backend"] = draw(st.sampled_from(["vectorized", "loop", "C"]))
    return c


def _scaled_model(m, f):
    m = copy.deepcopy(m)
    p = m["params"]
    if m["name"] == "linear":
        p = [p[0] * f, p[1] * f]
    elif m["name"] == "custom":
        k = {"stable": (0, 2), "cauchy": (0, 1), "log": (0,), "sneaky": (0, 2)}[m["fn"]]
        p = [v * f if i in k else v for i, v in enumerate(p)]
    else:
        p = [p[0] * f, p[1], p[2] * f]
    m["params"] = p
    return m


def _run(c, spec_of=None):
    """Estimates and variances; spec_of overrides the coordinates at which the
    specified drift functions are evaluated (data, targets)."""
    dim = kcase.dim(c)
    k = c.get("window")
    bs = [b for b in kcase.backends(c, k) if c["cls"] == "OK" or b != "C"]
    b = c["backend"] if c["backend"] in bs else bs[-1]
    dr = c.get("drift") or {}
    kw, ex = {}, {}
    if dr.get("spec"):
        p, t = spec_of or (c["pts"], c["targets"])
        p, t = np.array(p, float), np.array(t, float)
        kw["specified_drift"] = [kcase.drift_fn(s, dim)(*p.T) for s in dr["spec"]]
        ex["spec"] = [kcase.drift_fn(s, dim)(*t.T) for s in dr["spec"]]
    obj = kcase.build(c, **kw)
    t = np.array(c["targets"], float)
    z, s = kcase.execute(c, obj, "points", list(t.T), b, k, **ex)
    return (kcase.plain("estimates", z, (len(t),)), kcase.plain("variances", s, (len(t),))), b


class MapRef(kcase.Reference):
    """Reference whose specified drifts are those of other coordinates."""

    def __init__(self, c, table):
        self.table = table
        super().__init__(c)

    def drift(self, xyz):
        xyz = np.asarray(xyz, dtype=float).reshape(-1, kcase.dim(self.c))
        dr = self.c.get("drift") or {}
        if not dr.get("spec"):
            return super().drift(xyz)
        base = self.c
        self.c = dict(base, drift={k: v for k, v in dr.items() if k != "spec"})
        a = super().drift(xyz)
        self.c = base
        o = np.array([self.table[tuple(p)] for p in xyz])
        cols = np.array([kcase.drift_fn(s, xyz.shape[1])(*o.T) for s in dr["spec"]]).T
        return np.hstack([a, cols])


def _tol(c, R):
    k = c.get("window")
    w = R.krige_window(c["targets"], k) if k else R.krige(c["targets"])
    return w


def check_sym(c):
    op = c["op"]
    R = kcase.Reference(c)
    if c.get("window"):
        c = dict(c, targets=R.untied(c["targets"], c["window"]))
        if op == "order":
            c["tperm"] = sorted(range(len(c["targets"])), reverse=True)
    w1 = _tol(c, R)
    (z1, s1), b = _run(c)
    gs = w1[3]
    # no negative variance beyond rounding, for models that are valid
    if c["model"]["name"] not in ("hole-effect",) and np.all(w1[1] >= 0):
        close("variance not negative", np.minimum(s1, 0.0), np.zeros(len(s1)), gs)
    wantz, wants, ez, es = z1, s1, w1[2], w1[3]
    if op == "affine":
        a, k = c["ab"]
        c2 = dict(c, val=[a * v + k for v in c["val"]])
        c3 = dict(c, val=[v + u for v, u in zip(c["val"], c["other"])])
        c4 = dict(c, val=c["other"])
        w2, w3, w4 = (_tol(q, kcase.Reference(q)) for q in (c2, c3, c4))
        (z2, s2), _ = _run(c2)
        (z3, s3), _ = _run(c3)
        (z4, s4), _ = _run(c4)
        close("estimate of a*z+b", z2, a * z1 + k, w2[2] + abs(a) * w1[2] + 1e-13 * abs(k))
        close("variance of a*z+b", s2, s1, w1[3] + w2[3])
        close("estimate of z+u", z3, z1 + z4, w1[2] + w3[2] + w4[2])
        close("variance of other data", s4, s1, w1[3] + w4[3])
        return _lab(c, b)
    if op == "vscale":
        f = c["c"]
        c2 = dict(c, model=_scaled_model(c["model"], f))
        w2 = _tol(c2, kcase.Reference(c2))
        (z2, s2), _ = _run(c2)
        close("estimate with scaled variogram", z2, z1, w1[2] + w2[2])
        close("variance with scaled variogram", s2, f * s1, f * w1[3] + w2[3])
        return _lab(c, b)
    if op == "order":
        c2 = dict(c, pts=[c["pts"][i] for i in c["perm"]], val=[c["val"][i] for i in c["perm"]],
                  targets=[c["targets"][i] for i in c["tperm"]])
        w2 = _tol(c2, kcase.Reference(c2))
        (z2, s2), _ = _run(c2)
        tp = c["tperm"]
        close("estimate after reordering", z2, z1[tp], (w1[2][tp] + w2[2]))
        close("variance after reordering", s2, s1[tp], (w1[3][tp] + w2[3]))
        return _lab(c, b)
    # operations on the coordinates
    P, Q = np.array(c["pts"], float), np.array(c["targets"], float)
    W = None
    wl = (c.get("drift") or {}).get("wells")
    f = _map(c, P)
    c2 = dict(c, pts=f(P).tolist(), targets=f(Q).tolist())
    if op == "premap":
        c2["scale"] = [1.0] * len(c["scale"])
        c2["angle"] = [0.0] * len(c["angle"])
    if wl:
        W = f(np.array([w[:2] for w in wl], float))
        c2["drift"] = dict(c["drift"], wells=[[float(u), float(v), w[2]] for (u, v), w in zip(W, wl)])
    table = {}
    for p, q in list(zip(c2["pts"], c["pts"])) + list(zip(c2["targets"], c["targets"])):
        table[tuple(p)] = q
    R2 = MapRef(c2, table)
    w2 = _tol(c2, R2)
    (z2, s2), _ = _run(c2, (c["pts"], c["targets"]))
    close("estimate after %s" % op, z2, z1, w1[2] + w2[2])
    close("variance after %s" % op, s2, s1, w1[3] + w2[3])
    return _lab(c, b)


def _map(c, P):
    op = c["op"]
    if op == "translate":
        return lambda X: X + np.array(c["by"][: X.shape[1]])
    ctr = (P.min(axis=0) + P.max(axis=0)) / 2.0
    if op == "reflect":
        def f(X):
            X = np.array(X)
            X[:, c["axis"]] = 2 * ctr[c["axis"]] - X[:, c["axis"]]
            return X
        return f
    if op == "swap":
        def f(X):
            X = np.array(X)
            k = c["axis"]
            X[:, [k, k + 1]] = X[:, [k + 1, k]]
            return X
        return f
    if op == "rotate":
        if P.shape[1] == 2:
            t = math.radians(c["rot"][0])
            M = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
        else:
            M = np.eye(3)
            for k, a in enumerate(c["rot"]):
                t = math.radians(a)
                i, j = [(1, 2), (0, 2), (0, 1)][k]
                G = np.eye(3)
                G[i, i] = G[j, j] = math.cos(t)
                G[i, j], G[j, i] = -math.sin(t), math.sin(t)
                M = G @ M
        # (equal points have to remain equal: no matrix product)
        return lambda X: np.array([sum((X[:, j] - ctr[j]) * r[j] for j in range(len(r))) for r in M]).T + ctr
    if op == "premap":
        import ref

        return lambda X: ref.adjust(X, ctr, c["scale"], c["angle"])
    raise KeyError(op)


def _lab(c, b):
    return blup.labels(c, op=c["op"], backend=b, window=c.get("window") is not None,
                       nontrivial=len(set(c["val"])) > 1)


TESTS = [
    T("OK", case("OK"), check_sym, 1400),
    T("OK3D", case("OK3D"), check_sym, 900),
    T("UK", case("UK"), check_sym, 700),
    T("UK3D", case("UK3D"), check_sym, 600),
    T("order-UK", case("UK", ["order"], True), check_sym, 160),
    T("order-UK3D", case("UK3D", ["order"], True), check_sym, 160),
    T("grown-OK", gen.grown(case("OK")), gen.larger(check_sym), 96),
    T("grown-OK3D", gen.grown(case("OK3D")), gen.larger(check_sym), 96),
    T("grown-UK", gen.grown(case("UK")), gen.larger(check_sym), 96),
    T("grown-UK3D", gen.grown(case("UK3D")), gen.larger(check_sym), 96),
]
