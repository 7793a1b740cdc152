"""C15: geographic distances."""
import numpy as np
from hypothesis import strategies as st

import gen
import kcase
import ref
from common import Reject, call, call_warn, check, close
from proptest import T
from props import blup

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")


def true_angle(lon1, lat1, lon2, lat2):
    """Angle in degrees between two points, extended precision, chord formula
    with the longitude difference reduced exactly first."""
    lon1, lat1, lon2, lat2 = (np.asarray(v, dtype=LD) for v in (lon1, lat1, lon2, lat2))
    r = PI / 180
    dl = np.fmod(lon1 - lon2, LD(360)) * r
    p1, p2 = lat1 * r, lat2 * r
    # haversine of the angle and of its supplement
    h = np.sin((p1 - p2) / 2) ** 2 + np.cos(p1) * np.cos(p2) * np.sin(dl / 2) ** 2
    g = np.sin((p1 + p2) / 2) ** 2 + np.cos(p1) * np.cos(p2) * np.cos(dl / 2) ** 2
    return np.asarray(2 * np.arctan2(np.sqrt(h), np.sqrt(g)) / r, dtype=float)


@st.composite
def lonlat(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return [draw(st.sampled_from([0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 270.0])),
                draw(st.sampled_from([0.0, 90.0, -90.0, 45.0, -45.0]))]
    if k == 1:
        return [float(draw(st.integers(-180, 360))), draw(st.sampled_from([90.0, -90.0, 89.999999, -89.999]))]
    return [draw(st.integers(-18000, 36000)) / 100.0 + draw(st.sampled_from([0.0, 1e-7, 0.3])),
            draw(st.integers(-8999, 8999)) / 100.0]


@st.composite
def pair(draw):
    """[lon1, lat1, lon2, lat2, kind]"""
    a = draw(lonlat())
    kind = draw(st.sampled_from(["random", "random", "near", "antipodal", "same", "meridian", "wrap"]))
    if kind == "random":
        b = draw(lonlat())
    else:
        e = [draw(st.sampled_from([0.0, 1.0, -1.0])) * 10.0 ** draw(st.integers(-12, -1)) for _ in range(2)]
        if kind == "near":
            b = [a[0] + e[0], max(-90.0, min(90.0, a[1] + e[1]))]
        elif kind == "antipodal":
            b = [a[0] + draw(st.sampled_from([180.0, -180.0])) + e[0], max(-90.0, min(90.0, -a[1] + e[1]))]
        elif kind == "same":
            b = list(a)
        elif kind == "wrap":
            b = [a[0] + draw(st.sampled_from([360.0, -360.0, 720.0])), a[1]]
        else:
            b = [a[0], draw(st.integers(-900, 900)) / 10.0]
    return a + b + [kind]


def batch():
    return st.lists(pair(), min_size=1, max_size=6)


@st.composite
def many(draw):
    return dict(some=draw(batch()), n=draw(st.sampled_from([40, 400, 5000, 40000, 150000])),
                left=draw(st.sampled_from([1, 5, 60, 300])), seed=draw(st.integers(0, 2**31 - 1)))


def check_many(c):
    """The same for arrays as large as those of a kriging matrix."""
    from pykrige import core

    rng = np.random.RandomState(c["seed"])
    some = np.array([r[:4] for r in c["some"]], dtype=float)
    n = c["n"]
    q = np.c_[rng.uniform(-180, 360, n), rng.uniform(-90, 90, n), rng.uniform(-180, 360, n), rng.uniform(-90, 90, n)]
    if rng.randint(2):
        q = np.round(q)
    kind = rng.randint(0, 6, n)
    e = 10.0 ** rng.uniform(-12, -1, (n, 2))
    k = kind == 1
    q[k, 2:] = q[k, :2] + e[k]
    k = kind == 2
    q[k, 2:] = np.c_[q[k, 0] + 180.0 + e[k, 0], -q[k, 1] + e[k, 1]]
    q[:, 3] = np.clip(q[:, 3], -90, 90)
    k = kind == 3
    q[k] = some[rng.randint(0, len(some), int(k.sum()))]
    want = true_angle(*q.T)
    args = [a.copy() for a in q.T]
    f = core.great_circle_distance
    close("great-circle distances of %d pairs" % n, call("great_circle_distance", f, *args), want, 1e-12)
    check(all(np.array_equal(a, b) for a, b in zip(args, q.T)), "an argument was modified")
    a, b = q[: c["left"]], q[: min(n, 100000 // c["left"])]
    full = true_angle(a[:, None, 0], a[:, None, 1], b[None, :, 2], b[None, :, 3])
    close("broadcast to %s" % (full.shape,), call("great_circle_distance", f, a[:, None, 0], a[:, None, 1],
                                                  b[None, :, 2], b[None, :, 3]), full, 1e-12)
    ch = np.where(rng.randint(0, 4, n) > 0, rng.uniform(0, 2, n),
                  np.where(rng.randint(0, 2, n), 10.0 ** rng.uniform(-15, 0, n), 2 - 10.0 ** rng.uniform(-15, 0, n)))
    want = np.asarray(2 * np.arctan2((ch.astype(LD) / 2), np.sqrt((1 - ch.astype(LD) / 2) * (1 + ch.astype(LD) / 2))) * 180 / PI, dtype=float)
    close("angles of %d chords" % n, call("euclid3_to_great_circle", core.euclid3_to_great_circle, ch.copy()), want, 1e-12)
    return dict(n=n, left=c["left"], nontrivial=True)


def check_distance(c):
    from pykrige import core

    f = core.great_circle_distance
    q = np.array([r[:4] for r in c], dtype=float)
    want = true_angle(*q.T)
    tol = 1e-12
    got = call("great_circle_distance", f, *[a.copy() for a in q.T])
    close("great-circle distance", got, want, tol)
    check(np.all(np.asarray(got) >= 0) and np.all(np.asarray(got) <= 180 + 1e-12), "distance outside [0, 180]: %s", got)
    close("swapped", call("great_circle_distance", f, q[:, 2], q[:, 3], q[:, 0], q[:, 1]), want, tol)
    for sh in ((360.0, 0.0), (0.0, -360.0), (720.0, 0.0), (73.0, 73.0)):
        close("shifted longitudes", call("great_circle_distance", f, q[:, 0] + sh[0], q[:, 1], q[:, 2] + sh[1], q[:, 3]),
              want, tol * 3)
    close("reflected latitudes", call("great_circle_distance", f, q[:, 0], -q[:, 1], q[:, 2], -q[:, 3]), want, tol)
    # scalars, python floats and broadcasting
    for r, w in zip(q, want):
        s = call("great_circle_distance(scalars)", f, *[float(v) for v in r])
        check(np.ndim(s) == 0, "scalar arguments give an array of shape %s", np.shape(s))
        close("scalars", s, w, tol)
    full = true_angle(q[:, None, 0], q[:, None, 1], q[None, :, 2], q[None, :, 3])
    close("broadcast", call("great_circle_distance", f, q[:, None, 0], q[:, None, 1], q[None, :, 2], q[None, :, 3]), full, tol)
    close("scalar to array", call("great_circle_distance", f, float(q[0, 0]), float(q[0, 1]), q[:, 2], q[:, 3]), full[0], tol)
    return dict(kind=c[0][4], n=len(c), nontrivial=bool(np.any(want > 1e-9)))


def check_chord(c):
    from pykrige import core

    f = core.euclid3_to_great_circle
    ch = np.array(c, dtype=float)
    want = np.asarray(2 * np.arctan2((ch.astype(LD) / 2), np.sqrt((1 - ch.astype(LD) / 2) * (1 + ch.astype(LD) / 2))) * 180 / PI, dtype=float)
    arg = ch.copy()
    got = call("euclid3_to_great_circle", f, arg)
    # the argument itself is only known to one rounding error
    tol = 1e-12
    close("angle of a chord", got, want, tol)
    check(np.array_equal(arg, ch), "the argument was modified")
    for v, w in zip(ch, want):
        close("scalar chord", call("euclid3_to_great_circle", f, float(v)), w, tol)
    over = np.array([2.0 + 4e-16, 2.0 + 1e-12])
    close("rounded-up chord", call("euclid3_to_great_circle", f, over.copy()), np.full(2, 180.0), 1e-12)
    close("matrix", call("euclid3_to_great_circle", f, np.stack([ch, ch])), np.stack([want, want]), tol)
    return dict(nontrivial=bool(np.any((ch > 0) & (ch < 2))))


@st.composite
def chords(draw):
    one = st.one_of(st.integers(0, 2000).map(lambda k: k / 1000.0),
                    st.integers(1, 15).map(lambda k: 10.0**-k),
                    st.integers(1, 15).map(lambda k: 2.0 - 10.0**-k))
    return draw(st.lists(one, min_size=1, max_size=6))


def check_agree(c):
    """Chord of the unit vectors and great-circle formula agree."""
    from pykrige import core

    q = np.array([r[:4] for r in c], dtype=float)
    ch = np.linalg.norm(ref.unit(q[:, 0], q[:, 1]) - ref.unit(q[:, 2], q[:, 3]), axis=1)
    a = call("euclid3_to_great_circle", core.euclid3_to_great_circle, ch)
    b = call("great_circle_distance", core.great_circle_distance, *q.T)
    # rounding of the chord is amplified near the antipode
    rest = np.radians(180.0 - np.minimum(b, 180.0))
    tol = 1e-12 + np.degrees(np.minimum(4e-15 / np.maximum(rest, 1e-300), 4 * np.sqrt(4e-15)))
    close("chord and great-circle distance", a, b, tol)
    return dict(nontrivial=bool(np.any(b > 1e-9)))


@st.composite
def geo_case(draw):
    c = draw(gen.kcase("OK", 3, 11, geo=True, exact="any", pinv=True))
    for p in c["pts"]:
        if draw(st.integers(0, 5)) == 0:
            p[1] = draw(st.sampled_from([1, -1])) * (89.0 + draw(st.integers(0, 3)) / 4.0)
    c["targets"] = draw(gen.geo_targets(c["pts"], 1, 6))
    c["shift"] = draw(st.one_of(st.sampled_from([360.0, -360.0, 180.0, -90.0]), st.integers(-360, 360).map(float)))
    c["wraps"] = [draw(st.sampled_from([0.0, 0.0, 360.0, -360.0])) for _ in c["pts"]]
    c["twraps"] = [draw(st.sampled_from([0.0, 0.0, 360.0, -360.0])) for _ in c["targets"]]
    c["window"] = draw(st.integers(2, len(c["pts"]) + 1))
    c["how"] = draw(st.sampled_from(["shift", "wrap", "both", "mirror", "anisotropy"]))
    pair = st.tuples(st.sampled_from([1.0, 1.0, 0.5, 3.0]), st.sampled_from([0.0, 40.0, -120.0]))
    c["aniso"] = [list(a) for a in draw(st.lists(pair, min_size=1, max_size=4))]
    return c


def other(c, m):
    """The object of the transformed problem; with anisotropies, which do not
    apply to geographic coordinates."""
    if c["how"] != "anisotropy":
        return kcase.build(m)
    kw = [dict(anisotropy_scaling=s, anisotropy_angle=a) for s, a in c["aniso"]]
    args, base = kcase.ctor_args(c)
    o, w = call_warn("OrdinaryKriging", kcase.classes()["OK"], *args, **dict(base, **kw[0]))
    if kw[0]["anisotropy_scaling"] != 1.0:
        check(any(issubclass(q.category, UserWarning) for q in w), "no warning about an anisotropy that is not used")
    for k in kw[1:]:
        call("update_variogram_model", o.update_variogram_model, **dict(kcase.variogram_args(c["model"]), **k))
    return o


def moved(c):
    p, t = np.array(c["pts"]), np.array(c["targets"])
    if c["how"] in ("shift", "both"):
        p[:, 0] += c["shift"]
        t[:, 0] += c["shift"]
    if c["how"] in ("wrap", "both"):
        p[:, 0] += c["wraps"]
        t[:, 0] += c["twraps"]
    if c["how"] == "mirror":
        p[:, 1] *= -1
        t[:, 1] *= -1
    return dict(c, pts=p.tolist(), targets=t.tolist())


def check_invariant(c):
    R = kcase.Reference(c)
    d = ref.dist(R.pts, R.pts, "geographic")
    np.fill_diagonal(d, 1.0)
    if d.min() < 1e-6:
        raise Reject("coincident data")
    want = R.krige(c["targets"])
    m = moved(c)
    a, b = kcase.build(c), other(c, m)
    for be in kcase.backends(c):
        kcase.compare("original %s" % be, kcase.points(c, a, c["targets"], be), want)
        kcase.compare("%s %s" % (c["how"], be), kcase.points(m, b, m["targets"], be), want)
    win = False
    if R.d0(c["targets"]).max() < 179.5:
        k = c["window"]
        try:
            keep = [i for i, t in enumerate(c["targets"]) if _untied(R, t, k)]
            if keep:
                w = R.krige_window(np.array(c["targets"])[keep], k)
                win = True
        except Reject:
            win = False
        if win:
            for be in kcase.backends(c, k):
                for nm, o, cc in (("original", a, c), (c["how"], b, m)):
                    kcase.compare("%s window %s" % (nm, be),
                                  kcase.points(cc, o, np.array(cc["targets"])[keep], be, k), w)
    lon = np.array(c["pts"])[:, 0]
    return blup.labels(c, how=c["how"], window=win, nontrivial=len(c["pts"]) >= 3 and np.ptp(lon) > 0,
                       pole=bool(np.any(np.abs(np.array(c["pts"])[:, 1]) > 88)))


def _untied(R, t, k):
    try:
        R.nearest(np.array([t], float), k)
        return True
    except Reject:
        return False


TESTS = [
    T("distance", batch(), check_distance, 4000),
    T("chord", chords(), check_chord, 1500),
    T("agree", batch(), check_agree, 1500),
    T("many", many(), check_many, 150),
    T("kriging", geo_case(), check_invariant, 2000),
]
