"""Hypothesis strategies producing JSON-able kriging cases."""
import random

from hypothesis import strategies as st

LAT = {2: 6, 3: 4}  # lattice size per axis
MODELS = ["linear", "power", "gaussian", "spherical", "exponential", "hole-effect"]


def sixteenth(lo, hi):
    return st.integers(lo, hi).map(lambda k: k / 16.0)


@st.composite
def frame(draw, big=True):
    """Offset and scale of the coordinates: x = off + s * u."""
    s = [1.0, 1.0, 0.01, 37.5, 1000.0, 1.0 / 3.0] if big else [1.0, 2.5]
    if big is True:
        # of the order of projected coordinates of a country or larger
        s += [250000.0, 1e7]
    s = draw(st.sampled_from(s))
    o = draw(st.sampled_from([0.0, 0.0, -3.25, 117.4375] + ([-4096.5, 2.0**20] if big is True else [])))
    return [o * s, s]


@st.composite
def lattice(draw, dim, nmin, nmax, L=None, jitter=3):
    """Distinct jittered lattice points (unit spacing, separation >= 0.6)."""
    L = L or LAT[dim]
    cells = draw(
        st.lists(
            st.integers(0, L**dim - 1),
            min_size=nmin,
            max_size=min(nmax, L**dim),
            unique=True,
        )
    )
    jit = draw(
        st.lists(
            st.integers(0, (2 * jitter + 1) ** dim - 1),
            min_size=len(cells),
            max_size=len(cells),
        )
    )
    out = []
    for c, j in zip(cells, jit):
        p = []
        for _ in range(dim):
            p.append(c % L + (j % (2 * jitter + 1) - jitter) / 16.0)
            c //= L
            j //= 2 * jitter + 1
        out.append(p)
    return out


def place(u, fr):
    o, s = fr
    return [o + s * v for v in u]


@st.composite
def values(draw, n):
    """n data values: varied magnitudes, a few ties."""
    s = draw(st.sampled_from([1.0, 0.125, 30.0, 5000.0, 2.0**-20, 2.0**24, 0.3, 7.0 / 3.0]))
    off = draw(st.sampled_from([0.0, 0.0, 10.0, -400.0]))
    v = draw(st.lists(st.integers(-64, 64), min_size=n, max_size=n))
    return [s * (k / 8.0 + off) for k in v]


@st.composite
def model(draw, fr, names=None, nugget=True, custom=True, forms=True):
    """A variogram model; ranges relative to the coordinate scale."""
    names = list(names or MODELS)
    if custom and "custom" not in names:
        names.append("custom")
    name = draw(st.sampled_from(names))
    s = fr[1]
    c = draw(st.sampled_from([1.0, 1.0, 1.0, 0.037, 250.0, 1e-6, 1e-8, 1e6]))
    a = draw(sixteenth(2, 48))  # 0.125 .. 3
    nug = draw(st.sampled_from([0.0, 0.0, 0.25, 1.5])) if nugget else 0.0
    if nugget and draw(st.integers(0, 15)) == 0:
        # (nearly) nothing but nugget
        a, nug = draw(st.sampled_from([0.0, 2.0**-6])), draw(st.sampled_from([1.0, 8.0]))
    m = {"name": name}
    if name == "linear":
        m["params"] = [c * a / s, c * nug]
    elif name == "power":
        e = draw(st.sampled_from([0.25, 0.5, 0.9, 1.0, 1.3, 1.5, 1.75, 0.05, 1.95]))
        m["params"] = [c * a / s**e, e, c * nug]
    elif name == "custom":
        fn = draw(st.sampled_from(["stable", "cauchy", "log", "sneaky"]))
        r = s * draw(st.sampled_from([0.5, 1.0, 2.0, 4.0]))
        m["fn"] = fn
        m["params"] = {
            "stable": [c * a, r, c * nug],
            "cauchy": [c * a, c * nug, r],
            "log": [c * max(a, 2.0**-6), r],
            "sneaky": [c * a, r, c * nug],
        }[fn]
        return m
    else:
        hi = {"gaussian": 4.0, "hole-effect": 4.0}.get(name, 12.0)
        r = draw(st.sampled_from([0.7, 1.0, 1.8, 2.5, 4.0, 6.5, 12.0, 0.2]))
        m["params"] = [c * a, s * min(r, hi), c * nug]
    if forms:
        m["form"] = draw(st.sampled_from(["list", "sill", "psill"]))
    return m


@st.composite
def anisotropy(draw, dim, rate=2):
    """scale, angle lists; isotropic in about 1/rate of the cases."""
    k = 1 if dim == 2 else 2
    q = 1 if dim == 2 else 3
    if draw(st.integers(0, rate)) == 0:
        return [1.0] * k, [0.0] * q
    scale = draw(
        st.lists(st.sampled_from([1.0, 0.4, 0.75, 1.6, 3.0, 0.05, 20.0]), min_size=k, max_size=k)
    )
    angle = draw(
        st.lists(
            st.sampled_from([0.0, 30.0, 90.0, -47.5, 133.0, 180.0, 271.25, 400.0, 270.0, -200.0, 0.5]),
            min_size=q,
            max_size=q,
        )
    )
    return scale, angle


@st.composite
def targets(draw, dim, pts, fr, lo=1, hi=6, at_data=True, L=None):
    """Evaluation points: off-lattice, far away, or exactly at data points."""
    L = L or LAT[dim]
    n = draw(st.integers(lo, hi))
    out = []
    for _ in range(n):
        how = draw(st.integers(0, 10)) if at_data else 9
        if how <= 1:
            out.append(list(pts[draw(st.integers(0, len(pts) - 1))]))
        elif how == 2:
            # close to a data point, but not on it
            p = list(pts[draw(st.integers(0, len(pts) - 1))])
            q = draw(st.sampled_from([2.0**-20, 2.0**-10, -(2.0**-16)]))
            k = draw(st.integers(0, dim - 1))
            p[k] += fr[1] * q
            out.append(p)
        else:
            u = [
                draw(st.integers(-2, L)) + 0.5 + draw(st.integers(-1, 1)) / 16.0
                for _ in range(dim)
            ]
            out.append(place(u, fr))
    return out


def clip_ext(c, targets):
    """Moves targets into the domain of the external drift grid, if any."""
    e = (c.get("drift") or {}).get("extz")
    if not e:
        return targets
    return [
        [min(max(t[0], min(e["x"])), max(e["x"])), min(max(t[1], min(e["y"])), max(e["y"]))]
        + list(t[2:])
        for t in targets
    ]


def clip_axes(c, axes_):
    e = (c.get("drift") or {}).get("extz")
    if not e:
        return axes_
    out = []
    for k, ax in enumerate("xy"):
        a = axes_[k]
        rev = len(a) > 1 and a[0] > a[-1]
        out.append(sorted({min(max(v, min(e[ax])), max(e[ax])) for v in a}, reverse=rev))
    return out + list(axes_[2:])


@st.composite
def targets_for(draw, c, lo=1, hi=6):
    if c.get("coord") == "geographic":
        return draw(geo_targets(c["pts"], lo, hi))
    dim = len(c["pts"][0])
    return clip_ext(c, draw(targets(dim, c["pts"], c["frame"], lo, hi)))


@st.composite
def axes_for(draw, c, lo=1, hi=4):
    return clip_axes(c, draw(axes(len(c["pts"][0]), c["pts"], c["frame"], lo, hi)))


@st.composite
def axis(draw, k, pts, fr, lo=1, hi=4, L=6):
    """Ascending grid coordinates along axis k, partly data coordinates."""
    n = draw(st.integers(lo, hi))
    used = set()
    for _ in range(n):
        if draw(st.integers(0, 2)) == 0:
            used.add(pts[draw(st.integers(0, len(pts) - 1))][k])
        else:
            u = draw(st.integers(-1, L)) + 0.5 + draw(st.integers(-1, 1)) / 16.0
            used.add(fr[0] + fr[1] * u)
    ax = sorted(used)
    return ax


@st.composite
def axes(draw, dim, pts, fr, lo=1, hi=4, order=True):
    out = []
    for k in range(dim):
        a = draw(axis(k, pts, fr, lo, hi if dim == 2 else min(hi, 3), LAT[dim]))
        if order and draw(st.integers(0, 3)) == 0:
            a = a[::-1]
        out.append(a)
    return out


def mask_for(axes_):
    n = 1
    for a in axes_:
        n *= len(a)
    return st.lists(st.booleans(), min_size=n, max_size=n)


@st.composite
def drift(draw, dim, fr, pts, must=False, kinds=None):
    """A combination of drift terms, scaled to be well-conditioned."""
    kinds = kinds or (
        ["regional", "wells", "extz", "spec", "func"]
        if dim == 2
        else ["regional", "spec", "func"]
    )
    L = LAT[dim]
    o = [fr[0] + fr[1] * (L - 1) / 2.0] * dim
    s = fr[1] * L / 2.0
    chosen = draw(
        st.lists(st.sampled_from(kinds), unique=True, min_size=1 if must else 0, max_size=len(kinds))
    )
    d = {}
    fns = ["xy", "x2", "y2", "sin", "bump"] if dim == 2 else ["xyz", "z2", "sin", "bump"]
    if "regional" in chosen:
        d["regional"] = True
    else:
        fns = ["x", "y"] + ([] if dim == 2 else ["z"]) + fns
    if "wells" in chosen:
        n = draw(st.sampled_from([1, 2, 2, 3, 3, 5]))
        wells = []
        for _ in range(n):
            if draw(st.integers(0, 4)) == 0:
                p = list(pts[draw(st.integers(0, len(pts) - 1))][:2])
            else:
                u = [draw(st.integers(-3, L + 1)) + 0.25 + draw(st.integers(0, 1)) / 8.0 for _ in range(2)]
                p = place(u, fr)
            if p not in [w[:2] for w in wells]:
                wells.append(p + [draw(st.sampled_from([1.0, -1.0, 0.5, 2.5, 0.3, -40.0]))])
        d["wells"] = wells
    if "extz" in chosen:
        d["extz"] = draw(extgrid(fr, L))
    if "spec" in chosen or "func" in chosen:
        both = "spec" in chosen and "func" in chosen
        names = draw(
            st.lists(st.sampled_from(fns), unique=True, min_size=2 if both else 1, max_size=3)
        )
        # values of other magnitudes in some of the cases
        gain = draw(st.sampled_from([1.0] * 5 + [1e-3, 30.0, 1e5]))
        fl = [[nm, o, s] + ([gain] if gain != 1.0 else []) for nm in names]
        if both:
            k = draw(st.integers(1, len(fl) - 1))
            d["spec"], d["func"] = fl[:k], fl[k:]
        else:
            d["spec" if "spec" in chosen else "func"] = fl
    if d and draw(st.booleans()):
        d["reverse"] = True
    return d


@st.composite
def extgrid(draw, fr, L=6, order=True):
    """External drift grid covering the lattice with margins."""
    def ax():
        cuts = draw(
            st.lists(st.integers(-3, 4 * (L + 1)), unique=True, min_size=0, max_size=4)
        )
        u = sorted(set([-12, 4 * (L + 1) + 4] + cuts))
        a = [fr[0] + fr[1] * k / 4.0 for k in u]
        if order:
            o = draw(st.integers(0, 3))
            if o == 0:
                a = a[::-1]
            elif o == 1:
                a = draw(st.permutations(a))
        return list(a)

    x, y = ax(), ax()
    z = draw(
        st.lists(
            st.lists(st.integers(-20, 20).map(lambda k: k / 4.0), min_size=len(x), max_size=len(x)),
            min_size=len(y),
            max_size=len(y),
        )
    )
    f = draw(st.sampled_from([1.0, 1.0 / 3.0, 1e-3]))
    g = draw(st.sampled_from([0.0, 0.0, 30.0, -1000.1]))
    z = [[f * (v + g) for v in row] for row in z]
    return {"x": x, "y": y, "z": z}


@st.composite
def geo_points(draw, nmin, nmax):
    """Longitude/latitude data: any wrap of the longitude, poles included."""
    wrap = draw(st.sampled_from([0, 0, -360, 360]))
    base = draw(st.sampled_from([0, 0, -90, 150, 180]))
    wide = draw(st.booleans())
    step = 15 if wide else 4
    cells = draw(
        st.lists(st.integers(0, 63), min_size=nmin, max_size=nmax, unique=True)
    )
    out = []
    for c in cells:
        i, j = c % 8, c // 8
        jx, jy = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
        lon = base + step * (i - 3.5) * (2 if wide else 1) + jx * step / 16.0
        lat = step * (j - 3.5) * (1.4 if wide else 1) + jy * step / 16.0
        lat = max(-89.0, min(89.0, lat))
        if wrap and draw(st.booleans()):
            lon += wrap
        out.append([float(lon), float(lat)])
    if draw(st.integers(0, 5)) == 0:
        out.append([float(draw(st.integers(-180, 180))), draw(st.sampled_from([90.0, -90.0]))])
    return out


@st.composite
def geo_model(draw, custom=True):
    name = draw(
        st.sampled_from(["linear", "power", "spherical", "exponential", "gaussian"] + (["custom"] if custom else []))
    )
    c = draw(st.sampled_from([1.0, 1.0, 0.037, 250.0, 1e-7, 1e5]))
    a = draw(sixteenth(2, 48))
    nug = draw(st.sampled_from([0.0, 0.0, 0.25]))
    if name == "linear":
        p = [c * a / 20.0, c * nug]
    elif name == "power":
        e = draw(st.sampled_from([0.5, 0.8, 1.0]))
        p = [c * a / 20.0**e, e, c * nug]
    elif name == "custom":
        return {"name": "custom", "fn": "stable", "params": [c * a, 30.0, c * nug]}
    elif name == "gaussian":
        p = [c * a, draw(st.sampled_from([5.0, 15.0])), c * nug]
    else:
        p = [c * a, draw(st.sampled_from([3.0, 20.0, 60.0])), c * nug]
    return {"name": name, "params": p, "form": draw(st.sampled_from(["list", "sill", "psill"]))}


@st.composite
def kcase(
    draw,
    cls,
    nmin=4,
    nmax=12,
    models=None,
    custom=True,
    geo=False,
    drifts=None,
    must_drift=False,
    exact=True,
    pinv=False,
    nugget=True,
    aniso=True,
    big=True,
    L=None,
    auto=False,
):
    """A data set with a fully specified kriging configuration."""
    dim = 3 if cls.endswith("3D") else 2
    c = {"cls": cls}
    if geo:
        fr = [0.0, 1.0]
        c["pts"] = draw(geo_points(nmin, nmax))
        c["coord"] = "geographic"
        c["model"] = draw(geo_model(custom))
        c["scale"], c["angle"] = [1.0], [0.0]
    else:
        # drifts in the coordinates: no offsets that are huge against the spacing
        fr = draw(frame("moderate" if big and cls.startswith("UK") else big))
        c["pts"] = [place(u, fr) for u in draw(lattice(dim, nmin, nmax, L))]
        c["model"] = draw(model(fr, models, nugget, custom))
        if aniso:
            c["scale"], c["angle"] = draw(anisotropy(dim))
        else:
            c["scale"], c["angle"] = ([1.0], [0.0]) if dim == 2 else ([1.0] * 2, [0.0] * 3)
    c["frame"] = fr
    c["val"] = draw(values(len(c["pts"])))
    c["exact"] = True if exact is True else draw(st.booleans())
    if pinv:
        c["pinv"] = draw(st.sampled_from([None, "pinv", "pinvh"]))
    if cls.startswith("UK"):
        c["drift"] = draw(drift(dim, fr, c["pts"], must_drift, drifts))
    return c


@st.composite
def geo_targets(draw, pts, lo=1, hi=6):
    n = draw(st.integers(lo, hi))
    out = []
    for _ in range(n):
        k = draw(st.integers(0, 5))
        if k == 0:
            p = list(pts[draw(st.integers(0, len(pts) - 1))])
            if draw(st.booleans()):
                p[0] += draw(st.sampled_from([360.0, -360.0]))
            out.append(p)
        elif k == 1:
            out.append([float(draw(st.integers(-180, 180))), draw(st.sampled_from([90.0, -90.0]))])
        else:
            out.append([draw(st.integers(-200, 380)) + 0.21, draw(st.integers(-88, 88)) + 0.37])
    return out


# ------------------------------------------------------------- larger problems
@st.composite
def many(draw, cls, geo=False, window=False, nmax=120, nodes=2600, huge=False):
    """Compact description of a problem with many data and targets; the arrays
    themselves are derived from a seed by expand()."""
    dim = 3 if cls.endswith("3D") else 2
    nmin = {"UK": 8, "UK3D": 9}.get(cls, 4)
    c = draw(kcase(cls, nmin, nmin, geo=geo, exact="any"))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    if huge:
        # few cases are run, so the sizes are spread by the seed alone
        r = random.Random(c["seed"])
        if r.random() < 0.4:
            # the cross-validation that most classes always run costs n**4
            nodes, nmax, c["n"] = 250, 401, r.randint(401, 1800 if cls == "OK" else 560)
        else:
            nodes, c["n"] = r.choice([20000, 40000, 70000, 140000]), r.randint(10, 16)
        c["nodes"] = []
        left = nodes
        for k in range(dim - 1):
            c["nodes"].append(max(1, int(left ** r.uniform(0.2, 0.7))))
            left //= c["nodes"][-1]
        c["nodes"].append(left)
    else:
        size = draw(st.sampled_from(["mid"] * 7 + ["data", "nodes"]))
        if size == "data":
            nodes, nmax, c["n"] = 300, 400, draw(st.integers(nmax, 400))
        elif size == "nodes":
            nodes, nmax, c["n"] = 14000, 30, draw(st.integers(16, 30))
        else:
            c["n"] = draw(st.integers(16, nmax))
        if dim == 2:
            top = 80 if size != "nodes" else 260
            nx = draw(st.integers(1, top))
            c["nodes"] = [nx, draw(st.integers(1, max(1, min(top, nodes // nx))))]
        else:
            top = 22 if size != "nodes" else 40
            nx, ny = draw(st.integers(1, top)), draw(st.integers(1, top))
            c["nodes"] = [nx, ny, draw(st.integers(1, max(1, min(top, nodes // (nx * ny)))))]
    c["style"] = draw(st.sampled_from(["points", "grid", "masked"]))
    c["masked"] = draw(st.sampled_from([0.1, 0.5, 0.95]))
    c["backend"] = draw(st.sampled_from(["vectorized", "vectorized", "loop", "C"]))
    if window:
        c["window"] = draw(st.one_of(st.integers(2, 12), st.integers(2, nmax)))
    return c


def expand(c):
    """The full case: data, axes and mask."""
    import numpy as np

    rng = np.random.RandomState(c["seed"])
    c = dict(c, model=dict(c["model"]))
    dim = len(c["pts"][0])
    n = c["n"]
    if c.get("coord") == "geographic":
        v = rng.standard_normal((2 * n, 3))
        v /= np.sqrt((v * v).sum(axis=1))[:, None]
        keep = []
        for a in v:
            if all(np.dot(a, b) < np.cos(np.radians(1.5)) for b in keep) and len(keep) < n:
                keep.append(a)
        v = np.array(keep)
        lon = np.degrees(np.arctan2(v[:, 1], v[:, 0])) + 360.0 * rng.randint(-1, 2, len(v))
        pts = np.c_[lon, np.degrees(np.arcsin(v[:, 2]))]
        axes_ = [rng.uniform(-180, 360, c["nodes"][0]), rng.uniform(-89, 89, c["nodes"][1])]
        # fields that are smooth over many data points are badly conditioned
        m = c["model"]
        if m["name"] == "gaussian":
            m["params"] = [m["params"][0], 5.0, m["params"][2]]
    else:
        o, s = c["frame"]
        fine = 14 if dim == 2 else 6
        while fine**dim < n:
            fine += 2
        h = LAT[dim] / float(fine)
        cells = rng.permutation(fine**dim)[:n]
        u = np.stack([(cells // fine**k) % fine for k in range(dim)], axis=1) + rng.uniform(-0.2, 0.2, (len(cells), dim))
        pts = o + s * h * u
        m = c["model"]
        p = list(m["params"])
        k = {"cauchy": 2}.get(m.get("fn"), 1) if m["name"] == "custom" else 1
        if m["name"] not in ("linear", "power"):
            p[k] *= h
        m["params"] = p
        axes_ = [o + s * rng.uniform(-0.5, LAT[dim] - 0.5, k) for k in c["nodes"]]
        if rng.randint(2):
            for k, a in enumerate(axes_):
                a[0] = pts[0, k]
    n = len(pts)
    c["pts"] = pts.tolist()
    f = c["val"]
    c["val"] = [float(f[i % len(f)]) * (1.0 + 0.25 * r) for i, r in enumerate(rng.uniform(-1, 1, n))]
    c["axes"] = [sorted(a.tolist()) for a in axes_]
    if rng.randint(4) == 0:
        c["axes"][0] = c["axes"][0][::-1]
    e = (c.get("drift") or {}).get("extz")
    if e and rng.randint(2):
        # a drift grid with many nodes
        g = {}
        for k in "xy":
            o, s = c["frame"]
            a = np.r_[e[k], o + s / 32.0 * rng.randint(-96, 192, rng.randint(1, 120))]
            g[k] = [float(v) for v in np.unique(a)[:: 1 - 2 * rng.randint(2)]]
        z = rng.uniform(-3, 3, (len(g["y"]), len(g["x"])))
        c["drift"] = dict(c["drift"], extz=dict(g, z=z.tolist()))
    c["axes"] = [list(a) for a in clip_axes(c, c["axes"])] if dim == 2 else c["axes"]
    shape = tuple(len(a) for a in reversed(c["axes"]))
    c["mask"] = rng.uniform(size=shape) < c["masked"]
    last = int(np.prod(shape)) - 1
    c["pick"] = rng.permutation(last + 1)[:40].tolist() + [0, last]
    return c


# ------------------------------------------- small cases with many data instead
@st.composite
def grown(draw, strategy, lo=12, hi=120):
    c = draw(strategy)
    c["grow"] = [draw(st.integers(lo, hi)), draw(st.integers(0, 2**31 - 1))]
    return c


def grow(c):
    """A small case with further data around (and more targets and nodes);
    everything else remains as it was."""
    import numpy as np

    c = dict(c)
    more, seed = c.pop("grow")
    rng = np.random.RandomState(seed)
    dim = len(c["pts"][0])
    old = len(c["pts"])
    geo = c.get("coord") == "geographic"
    whole = bool(c.get("whole"))

    def spot(m, data):
        if geo:
            v = rng.standard_normal((m, 3))
            v /= np.sqrt((v * v).sum(axis=1))[:, None]
            return np.c_[np.degrees(np.arctan2(v[:, 1], v[:, 0])), np.degrees(np.arcsin(v[:, 2]))]
        if not data:
            u = rng.uniform(-1.5 - wide, LAT[dim] + 0.5 + wide, (m, dim))
        else:
            cells = np.stack(np.meshgrid(*[np.arange(-2 - wide, LAT[dim] + 2 + wide)] * dim), axis=-1).reshape(-1, dim)
            cells = cells[np.any((cells < -1) | (cells > LAT[dim]), axis=1)]
            u = cells[rng.permutation(len(cells))[:m]] + rng.uniform(-0.2, 0.2, (m, dim))
        p = c["frame"][0] + c["frame"][1] * u
        return np.round(p) if whole else p

    wide = 0
    while not geo and (LAT[dim] + 4 + 2 * wide) ** dim - (LAT[dim] + 2) ** dim < more:
        wide += 1
    if geo:
        def vec(p):
            lo, la = np.radians(p).T
            return np.c_[np.cos(lo) * np.cos(la), np.sin(lo) * np.cos(la), np.sin(la)]

        have, new = vec(np.array(c["pts"])), []
        for p in spot(3 * more, True):
            v = vec(p[None, :])
            d = have @ v[0]
            if np.all(np.abs(d) < np.cos(np.radians(4.0))) and len(new) < more:
                have = np.r_[have, v]
                new.append(p.tolist())
    else:
        new = spot(more, True).tolist()
    e = (c.get("drift") or {}).get("extz")
    if e:
        e = dict(e)
        for k in "xy":
            ends = [-8.0 - wide, LAT[dim] + 9.0 + wide]
            u = []
            for j in rng.permutation(8 * 40)[: rng.choice([0, 0, 6, 30, 120])]:
                v = ends[0] + (ends[1] - ends[0]) * (j + 0.5) / 320.0
                if min(abs(c["frame"][0] + c["frame"][1] * v - w) for w in e[k]) > 0.01 * c["frame"][1]:
                    u.append(v)
            e[k] = list(e[k]) + [c["frame"][0] + c["frame"][1] * v for v in u + ends]
        f = [v for row in e["z"] for v in row]
        z = np.array(f)[rng.randint(0, len(f), (len(e["y"]), len(e["x"])))]
        z[: len(e["z"]), : len(e["z"][0])] = np.array(e["z"])
        if "ox" in c:
            # the axes of these cases are ascending
            ix, iy = np.argsort(e["x"]), np.argsort(e["y"])
            e["x"], e["y"], z = sorted(e["x"]), sorted(e["y"]), z[np.ix_(iy, ix)]
            c["ox"], c["oy"] = rng.permutation(len(ix)).tolist(), rng.permutation(len(iy)).tolist()
        c["drift"] = dict(c["drift"], extz=dict(e, z=z.tolist()))
    c["pts"] = [list(p) for p in c["pts"]] + new
    val = list(c["val"])
    for i in range(len(new)):
        v = val[i % old]
        if len(set(val[:old])) > 1:
            v = v * (1.0 + 0.25 * rng.uniform(-1, 1))
        val.append(float(round(v)) if whole else float(v))
    c["val"] = val
    n = len(val)
    for k in ("targets", "targets2"):
        if k in c:
            t = [list(p) for p in c[k]] + spot(40, False).tolist()
            t += [list(c["pts"][i]) for i in rng.randint(0, n, 8)]
            c[k] = clip_ext(c, t)
    if "axes" in c:
        out = []
        for k, a in enumerate(c["axes"]):
            a = list(a)
            add = spot(7 if dim == 2 else 3, False)[:, k].tolist() + [c["pts"][rng.randint(n)][k]]
            down = len(a) > 1 and a[0] > a[-1]
            out.append(sorted(set(a + add), reverse=down))
        c["axes"] = [list(a) for a in clip_axes(c, out)] if not geo else out
        size = int(np.prod([len(a) for a in c["axes"]]))
        if "mask" in c:
            c["mask"] = (rng.uniform(size=size) < rng.choice([0.1, 0.5, 0.9])).tolist()
        if "axes2" in c:
            if e:
                c["axes2"] = [a[::-1] for a in c["axes"]]
            else:
                c["axes2"] = [[v + 0.25 * c["frame"][1] for v in a] for a in c["axes"]]
    if "at" in c:
        c["at"] = sorted(set(c["at"]) | set(rng.randint(0, n, 20).tolist()))
    if c.get("window"):
        c["window"] = int(rng.choice([c["window"], rng.randint(2, n + 1)]))
    if "near" in c and c["near"]:
        c["near"] = int(rng.choice([c["near"], rng.randint(2, n)]))
    if "other" in c and isinstance(c["other"], list):
        c["other"] = (list(c["other"]) * (n // old + 1))[:n]
    for k, m in (("perm", n), ("tperm", len(c.get("targets", [])))):
        if k in c:
            c[k] = rng.permutation(m).tolist()
    if "groups" in c:
        c["groups"] = [list(g) for g in c["groups"]] + [
            [v + 0.5 * j * (1.0 + abs(v)) for j in range(rng.choice([1, 1, 1, 2, 3, 6]))] for v in val[old:]]
        c["order"] = rng.permutation(sum(len(g) for g in c["groups"])).tolist()
    return c


def larger(check):
    """The check applied to grown cases."""
    return lambda c: check(grow(c))
