"""Independent reference model of kriging (no pykrige import).

Everything is written from the documentation: variogram formulas, distances
after rotation and stretching, the (universal) kriging system

    [ Gamma  F ] [ w  ]   [ g0 ]      estimate  w . z
    [ F^T    0 ] [ mu ] = [ f0 ]      variance  w . g0 + mu . f0

which is solved with equilibration and one step of iterative refinement in
extended precision.  Every result comes with tolerances derived from the
condition number of the equilibrated system.
"""
import math

import numpy as np
import scipy.linalg

EPS = np.finfo(float).eps
LD = np.longdouble


# ----------------------------------------------------------------- variograms
def gamma(name, p, d):
    """Variogram with internal parameters (partial sill) at distances d."""
    d = np.asarray(d, dtype=float)
    if name == "linear":
        return p[0] * d + p[1]
    if name == "power":
        return p[0] * np.power(d, p[1]) + p[2]
    c0, r, nug = float(p[0]), float(p[1]), float(p[2])
    if name == "gaussian":
        a = 4.0 * r / 7.0
        return nug + c0 * -np.expm1(-((d / a) ** 2))
    if name == "exponential":
        return nug + c0 * -np.expm1(-3.0 * d / r)
    if name == "spherical":
        h = np.minimum(d / r, 1.0)
        return nug + c0 * (1.5 * h - 0.5 * h * h * h)
    if name == "hole-effect":
        h = 3.0 * d / r
        return nug + c0 * (1.0 - (1.0 - h) * np.exp(-h))
    raise KeyError(name)


# user-defined models: (params, distances) -> variogram; also used as the
# functions handed to pykrige
def _cust_stable(m, d):
    return m[0] * (1.0 - np.exp(-((np.asarray(d) / m[1]) ** 1.2))) + m[2]


def _cust_cauchy(m, d):
    return m[1] + m[0] * (1.0 - 1.0 / (1.0 + (np.asarray(d) / m[2]) ** 2) ** 0.75)


def _cust_log(m, d):
    return m[0] * np.log1p(np.asarray(d) / m[1])


def linear_variogram_model(m, d):
    # deliberately carries the name of a built-in model
    return m[2] + m[0] * (1.0 - np.exp(-np.asarray(d) / m[1]))


CUSTOM = {
    "stable": _cust_stable,
    "cauchy": _cust_cauchy,
    "log": _cust_log,
    "sneaky": linear_variogram_model,
}


def gs_model(spec):
    """GSTools covariance model from a JSON-able description."""
    import gstools as gs

    kw = {k: v for k, v in spec.items() if k not in ("cls", "opt")}
    kw.update(spec.get("opt") or {})
    return getattr(gs, spec["cls"])(**kw)


def gs_fn(spec):
    """Isotropic variogram described by a GSTools model."""
    m = gs_model(spec)
    if spec.get("latlon"):
        # the models are evaluated at the chord length belonging to the angle
        s = spec.get("geo_scale", 1.0)
        return lambda d: np.asarray(m.variogram(2.0 * s * np.sin(np.radians(d) / 2.0)), float)
    return lambda d: np.asarray(m.variogram(d), float)


def model_fn(model):
    if model["name"] == "gstools":
        return gs_fn(model["gs"])
    if model["name"] == "custom":
        f = CUSTOM[model["fn"]]
        return lambda d: np.asarray(f(list(model["params"]), d), dtype=float)
    return lambda d: gamma(model["name"], model["params"], d)


# ---------------------------------------------------------------- coordinates
def adjust(xyz, center, scale, angle):
    """Rotate by -angle (2D) / about x, then y, then z (3D), then stretch."""
    xyz = np.asarray(xyz, dtype=float)
    c = np.asarray(center, dtype=float)
    u = xyz - c
    if u.shape[1] == 2:
        t = math.radians(angle[0])
        x = math.cos(t) * u[:, 0] + math.sin(t) * u[:, 1]
        y = -math.sin(t) * u[:, 0] + math.cos(t) * u[:, 1]
        return np.stack([x, y * scale[0]], axis=1) + c
    ax, ay, az = (math.radians(a) for a in angle)
    x, y, z = u.T
    # about x by -ax
    y, z = math.cos(ax) * y + math.sin(ax) * z, -math.sin(ax) * y + math.cos(ax) * z
    # about y by -ay
    x, z = math.cos(ay) * x - math.sin(ay) * z, math.sin(ay) * x + math.cos(ay) * z
    # about z by -az
    x, y = math.cos(az) * x + math.sin(az) * y, -math.sin(az) * x + math.cos(az) * y
    return np.stack([x, y * scale[0], z * scale[1]], axis=1) + c


def unit(lon, lat):
    lon = np.radians(np.asarray(lon, dtype=float))
    lat = np.radians(np.asarray(lat, dtype=float))
    return np.stack(
        [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], axis=-1
    )


def gc_dist(lon1, lat1, lon2, lat2):
    """Great-circle distance in degrees (elementwise), vector formula."""
    a, b = unit(lon1, lat1), unit(lon2, lat2)
    cr = np.cross(a, b)
    return np.degrees(
        np.arctan2(np.sqrt(np.sum(cr * cr, axis=-1)), np.sum(a * b, axis=-1))
    )


def dist(a, b, coord="euclidean"):
    """Distance matrix between the rows of a and of b."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if coord == "geographic":
        return gc_dist(a[:, None, 0], a[:, None, 1], b[None, :, 0], b[None, :, 1])
    diff = a[:, None, :] - b[None, :, :]
    return np.sqrt(np.sum(diff * diff, axis=-1))


# -------------------------------------------------------------------- solving
class IllConditioned(Exception):
    """The case is too badly conditioned to be compared numerically."""


CEPS = 200.0 * EPS  # rounding constant of the error bound
FLOOR = 1e-10
LIMIT = 1e-4  # largest accepted relative tolerance


def _equilibrate(a):
    n = a.shape[0]
    s = np.ones(n)
    for _ in range(4):
        m = np.max(np.abs(a * s[:, None] * s[None, :]), axis=1)
        m[m == 0] = 1.0
        s = s / np.sqrt(m)
    return s


class System:
    """A kriging system for fixed data; solves for any right-hand sides.

    g: variogram, D: distances between the data, F: drift columns, dd:
    absolute uncertainty of the distances."""

    def __init__(self, g, D, F, dd=0.0):
        self.g, self.dd = g, dd
        G, dG = self.gam(D)
        np.fill_diagonal(G, 0.0)
        np.fill_diagonal(dG, 0.0)
        F = np.asarray(F, dtype=float)
        n, p = F.shape
        a = np.zeros((n + p, n + p))
        a[:n, :n] = G
        a[:n, n:] = F
        a[n:, :n] = F.T
        self.n, self.a = n, a
        self.dG = dG
        s = self.s = _equilibrate(a)
        self.ae = a * s[:, None] * s[None, :]
        if not np.all(np.isfinite(self.ae)):
            raise IllConditioned("not finite")
        self.cond = np.linalg.cond(self.ae)
        if not self.cond < 1e11:
            raise IllConditioned("cond %.2g" % self.cond)
        inv = np.linalg.inv(self.ae)
        self.ainv = np.abs(inv) * s[:, None] * s[None, :]
        # backward error of any plain solver (no equilibration): normwise, and
        # that of LU and LDL^T factorisations
        p, lo, up = scipy.linalg.lu(a)
        back = np.maximum(np.abs(a), p @ (np.abs(lo) @ np.abs(up)))
        lo, di, _ = scipy.linalg.ldl(a)
        back = np.maximum(back, np.abs(lo) @ np.abs(di) @ np.abs(lo.T))
        back = back + np.max(np.abs(a))
        self.amp = self.ainv @ back @ self.ainv
        self.gscale = float(np.max(np.abs(G))) if G.size else 0.0

    def gam(self, d):
        d = np.asarray(d, dtype=float)
        g0 = np.array(self.g(d), dtype=float)
        d1 = d * (1.0 + 1e-13) + self.dd
        return g0, np.abs(np.asarray(self.g(d1), dtype=float) - g0)

    def solve(self, rhs):
        """rhs: (m, n+p) -> solution rows (m, n+p)."""
        b = np.asarray(rhs, dtype=float).T * self.s[:, None]
        y = np.linalg.solve(self.ae, b)
        r = np.asarray(b.astype(LD) - self.ae.astype(LD) @ y.astype(LD), dtype=float)
        y = y + np.linalg.solve(self.ae, r)
        return (y * self.s[:, None]).T

    def krige(self, d0, zero, f0, z):
        """estimates, variances and their tolerances for m targets.

        d0: distances (m, n); zero: entries whose variogram value is taken as
        zero (exact data points); f0: drift values (m, p)."""
        f0 = np.asarray(f0, dtype=float)
        z = np.asarray(z, dtype=float)
        n = self.n
        g0, dg0 = self.gam(d0)
        g0 = np.where(zero, 0.0, g0)
        dg0 = np.where(zero, 0.0, dg0)
        rhs = np.concatenate([g0, f0], axis=1)
        sol = self.solve(rhs)
        w = self.w = sol[:, :n]
        est = w @ z
        var = np.sum(sol * rhs, axis=1)
        ab = np.abs(rhs)
        dx = CEPS * (ab @ self.amp.T)
        dn = np.zeros_like(rhs)
        dn[:, :n] = np.abs(w) @ self.dG + dg0
        dx += dn @ self.ainv.T
        te = dx[:, :n] @ np.abs(z) + FLOOR * (np.abs(w) @ np.abs(z))
        tv = np.sum(dx * ab, axis=1) + FLOOR * np.sum(np.abs(sol) * ab, axis=1)
        tv += np.sum(dg0 * np.abs(w), axis=1)
        w1 = 1.0 + np.sum(np.abs(w), axis=1)
        zs = float(np.max(np.abs(z))) if z.size else 0.0
        gs = np.maximum(self.gscale, np.max(np.abs(g0), axis=1))
        te = te + FLOOR * zs * w1
        tv = tv + FLOOR * gs * w1 * w1
        if np.any(te > LIMIT * zs * w1) or np.any(tv > LIMIT * gs * w1 * w1):
            raise IllConditioned("tolerance too large")
        return est, var, te + 1e-300, tv + 1e-300
