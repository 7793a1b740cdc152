"""Generation of grids and grid files for C19-C21."""
import os

import numpy as np
from hypothesis import strategies as st

STEPS = [1.0, 0.5, 0.25, 0.1, 0.01, 0.004, 12.5, 1000.0, 1.0 / 3.0, 0.7]
ORIG = [0.0, 0.0, 1.5, -7.25, 0.123456, -180.0, 12345.678, 431250.05, 4500000.0]


@st.composite
def spacing(draw):
    if draw(st.integers(0, 2)):
        return draw(st.sampled_from(STEPS))
    return draw(st.integers(1, 99999)) * 10.0 ** -draw(st.integers(0, 5))


@st.composite
def axis(draw, d=None, lo=2, hi=9):
    """[origin, spacing, count]"""
    o = draw(st.one_of(st.sampled_from(ORIG), st.integers(-10**6, 10**6).map(lambda k: k / 1000.0)))
    d = d or draw(spacing())
    return [o, d, draw(st.integers(lo, hi))]


def coords(ax):
    return ax[0] + ax[1] * np.arange(ax[2])


def coord_tol(*axes):
    """Rounding of coordinates that are recomputed from origin and spacing
    (of all given axes if they share the spacing)."""
    m = max(abs(a[0]) + abs(a[1]) * a[2] for a in axes)
    return 4e-16 * m * (max(a[2] for a in axes) + 4)


@st.composite
def value(draw, big=True):
    k = draw(st.integers(0, 9))
    if k <= 5:
        return draw(st.integers(-10**6, 10**6)) / 1000.0
    if k == 6:
        return float(draw(st.integers(-10**9, 10**9)))
    if k == 7:
        return draw(st.integers(-(10**7), 10**7)) / 10.0 ** draw(st.integers(0, 9))
    if k == 8:
        return draw(st.sampled_from([0.0, -0.0, 0.005, -0.005, 0.00005, 999999.99996, 999999.9, -999999.99999, 1e6, -1e6,
                                     123456789012.34, 99999.995, 0.3333333]))
    e = draw(st.integers(-8, 30 if big else 9))
    return draw(st.integers(-999, 999)) * 10.0**e


@st.composite
def grid(draw, big=True):
    x, y = draw(axis()), draw(axis())
    n = x[2] * y[2]
    z = draw(st.lists(value(big), min_size=n, max_size=n))
    m = [False] * n
    kind = draw(st.sampled_from(["none", "none", "some", "all", "nomask"]))
    if kind == "some":
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    elif kind == "all":
        m = [True] * n
    nod = draw(st.sampled_from([-999.0, -9999.0, 0.0, 1e10, 1e30, -1.7e38, -999.25, 12345.678, -0.015, 99999, -1]))
    return {"x": x, "y": y, "z": z, "mask": m if kind != "nomask" else None, "no_data": nod,
            "form": draw(st.sampled_from(["float", "float", "list", "column", "fortran", "int", "float32"]))}


def arrays(c):
    """x, y and z (plain values) of the grid."""
    x, y = coords(c["x"]), coords(c["y"])
    z = np.array(c["z"], float).reshape(y.size, x.size)
    if c["form"] == "int":
        z = np.round(np.clip(z, -1e12, 1e12))
    elif c["form"] == "float32":
        z = z.astype(np.float32).astype(float)
    return x, y, z


def arguments(c):
    """What is handed to the writer."""
    x, y, z = arrays(c)
    f = c["form"]
    if f == "int":
        z = z.astype(np.int64)
    elif f == "float32":
        z = z.astype(np.float32)
    elif f == "fortran":
        z = np.asfortranarray(z)
    m = None if c["mask"] is None else np.array(c["mask"]).reshape(z.shape)
    if m is not None:
        z = np.ma.array(z, mask=m)
    if f == "column":
        x, y = x[:, None], y[:, None]
    elif f == "list":
        x, y = x.tolist(), y.tolist()
        if m is None:
            z = z.tolist()
    return x, y, z


def snapshot(a):
    if isinstance(a, np.ma.MaskedArray):
        return np.ma.getdata(a).copy(), np.ma.getmaskarray(a).copy()
    return np.array(a, copy=True)


def unchanged(a, s):
    if isinstance(s, tuple):
        return np.array_equal(np.ma.getdata(a), s[0], equal_nan=True) and np.array_equal(np.ma.getmaskarray(a), s[1])
    return np.array_equal(np.asarray(a), s, equal_nan=True)


def path(name):
    """A file in the shard's scratch directory."""
    d = os.path.join(os.getcwd(), "files")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


@st.composite
def uneven(draw, ax, like=None):
    """Coordinates along ax that are not equally spaced: one or more steps are
    off by at least 1 %.  Needs at least three coordinates."""
    n = max(3, ax[2])
    d = [1.0] * (n - 1)
    how = draw(st.sampled_from(["one", "pair", "grow", "last", "first"]))
    f = draw(st.sampled_from([0.02, -0.02, 0.3, -0.4, 1.0]))
    if how == "one":
        d[draw(st.integers(0, n - 2))] += f
    elif how == "pair" and n >= 4:
        # compensating errors: mean spacing and total extent are right
        i = draw(st.integers(1, n - 2))
        j = draw(st.integers(1, n - 2))
        if i == j:
            j = i + 1 if i < n - 2 else i - 1
        d[i] += f
        if 1 <= j <= n - 2 and j != i:
            d[j] -= f if f < 1 else 0.5
    elif how == "first":
        d[0] += f
    elif how == "last":
        d[-1] += f
    else:
        d = [1.0 + abs(f) * k for k in range(n - 1)]
    return [ax[0] + ax[1] * s for s in np.concatenate([[0.0], np.cumsum(d)])]


# ---------------------------------------------------------------- large grids
@st.composite
def large(draw):
    """A grid of up to 130 x 130 nodes whose content derives from a seed."""
    nx, ny = draw(st.sampled_from([[130, 130], [130, 130], [3000, 3], [3, 3000], [400, 60]]))
    x, y = draw(axis(hi=nx)), draw(axis(hi=ny))
    return {"x": x, "y": y, "seed": draw(st.integers(0, 2**31 - 1)), "density": draw(st.sampled_from([0.0, 0.02, 0.5, None])),
            "scale": draw(st.sampled_from([1e-3, 1.0, 1.0, 1e4, 1e8])),
            "no_data": draw(st.sampled_from([-999.0, -9999.0, 1e30, 12345.678])),
            "form": draw(st.sampled_from(["float", "list", "column", "fortran", "int", "float32"]))}


def expand(c):
    rng = np.random.RandomState(c["seed"])
    n = c["x"][2] * c["y"][2]
    z = c["scale"] * rng.standard_normal(n) * 10.0 ** rng.randint(-2, 3, n)
    m = None if c["density"] is None else (rng.uniform(size=n) < c["density"]).tolist()
    return dict(c, z=z.tolist(), mask=m, nan=rng.randint(0, n, 2).tolist() if c["density"] == 0.02 and c["form"] != "int" else [])
